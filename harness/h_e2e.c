/* C16 end to end: keypair/enc through the project's randombytes.c on a system that delivers piecemeal */
#include "h.h"
#include <sys/syscall.h>
static rng er, dr; static uint8_t log_[4096]; static size_t nlog;
static ssize_t give(uint8_t *b, size_t n)
{
  if (rndn(&dr, 3) == 0) { errno = EINTR; return -1; }
  size_t k = rndn(&dr, 2) ? n : 1 + rnd(&dr) % n;
  rbytes(&er, b, k);
  if (nlog + k > sizeof log_) { viol("e2e:draws", "more than %zu bytes drawn in one call", sizeof log_); exit(0); }
  memcpy(log_ + nlog, b, k); nlog += k;
  errno = rndn(&dr, 2) ? EINTR : EIO;
  return (ssize_t)k;
}
long fake_syscall(long num, void *b, size_t n, unsigned f) { (void)f; if (num != SYS_getrandom) { errno = ENOSYS; return -1; } return give(b, n); }
ssize_t fake_getrandom(void *b, size_t n, unsigned f) { (void)f; return give(b, n); }
int fake_getentropy(void *b, size_t n) { while (n) { ssize_t k = give(b, n); if (k > 0) { b = (uint8_t *)b + k; n -= (size_t)k; } } return 0; }
int fake_open(const char *p, int f, ...) { (void)p; (void)f; return 7; }
int fake_openat(int d, const char *p, int f, ...) { (void)d; (void)p; (void)f; return 7; }
ssize_t fake_read(int fd, void *b, size_t n) { (void)fd; return give(b, n); }
int fake_close(int fd) { (void)fd; return 0; }
#define AL __attribute__((alias("fake_open")))
int fake_open64(const char *, int, ...) AL; int fake___open_2(const char *, int, ...) AL; int fake___open64_2(const char *, int, ...) AL;
int fake_openat64(int, const char *, int, ...) __attribute__((alias("fake_openat")));
ssize_t fake___read_chk(int, void *, size_t) __attribute__((alias("fake_read")));
static uint8_t pk[OMAX_PK], sk[OMAX_SK], ct[OMAX_CT], ss[32], wp[OMAX_PK], ws[OMAX_SK], wc[OMAX_CT], wss[32], in[64];
int main(int c, char **v)
{
  h_args(c, v); h_monitors();
  for (long j = a_start + a_worker; j < a_start + a_n; j += a_workers) {
    char fc[100]; snprintf(fc, sizeof fc, "e2e case %ld", j);
    rng_init(&er, a_seed * 1000 + 62, (uint64_t)j); rng_init(&dr, a_seed * 1000 + 63, (uint64_t)j);
    const impl *I = &IMPLS[j % NIMPL]; const oparams *p = o_params(I->k);
    KEY("%s:e2e", I->name); CTX("%s %s", I->name, fc);
    nlog = 0; I->keypair(pk, sk); stat_add("e2e_calls", 1);
    if (nlog != 64) { viol("e2e:keypair:draws", "%s keypair: system delivered %zu bytes, must be 64; %s", I->name, nlog, fc); continue; }
    memcpy(in, log_, 64); I->keypair_derand(wp, ws, in); distinct(hash64(log_, 64, 3));
    same(I->name, "e2e:pk", pk, wp, p->pkb, fc); same(I->name, "e2e:sk", sk, ws, p->skb, fc);
    nlog = 0; I->enc(ct, ss, pk); stat_add("e2e_calls", 1);
    if (nlog != 32) { viol("e2e:enc:draws", "%s enc: system delivered %zu bytes, must be 32; %s", I->name, nlog, fc); continue; }
    memcpy(in, log_, 32); I->enc_derand(wc, wss, pk, in);
    same(I->name, "e2e:ct", ct, wc, p->ctb, fc); same(I->name, "e2e:ss", ss, wss, 32, fc);
  }
  sample("end to end: %ld cases", a_n);
  h_finish(1);
  return 0;
}
