/* the unmodified randombytes.c on the running kernel while signals interrupt it */
#include "h.h"
void uut(uint8_t *out, size_t outlen);
static volatile uint64_t sigs;
static void tick(int s) { (void)s; sigs++; }
int main(int c, char **v)
{
  h_args(c, v);
  static uint8_t b[(1 << 22) + 128];
  struct sigaction sa = { .sa_handler = tick };
  sigaction(SIGALRM, &sa, 0);
  for (long i = 0; i < a_n; i++) {
    rng r; rng_init(&r, a_seed * 1000 + 72, (uint64_t)i);
    size_t n = i % 4 == 0 ? (1 << 20) + rndn(&r, 3 << 20) : rndn(&r, 70000);
    uint8_t f = (uint8_t)rnd(&r);
    memset(b, f, sizeof b);
    struct itimerval it = { { 0, 60 }, { 0, 60 } }, off = { { 0, 0 }, { 0, 0 } };
    setitimer(ITIMER_REAL, &it, 0);
    uut(b + 64, n);
    setitimer(ITIMER_REAL, &off, 0);
    size_t run = 0, eq = 0;
    for (size_t j = 0; j < n; j++) { run = b[64 + j] == f ? run + 1 : 0; if (run >= 16) { viol("real:unfilled", "16 bytes at %zu of %zu were left as they were", j, n); break; } }
    for (size_t j = 0; j < 64; j++) eq += b[j] != f || b[64 + n + j] != f;
    if (eq) viol("real:outside", "wrote outside the request of %zu bytes", n);
    distinct(hash64(b + 64, n < 64 ? n : 64, n));
    stat_add("real_requests", 1); stat_add("real_bytes", n);
  }
  stat_add("real_signals", sigs);
  sample("real getrandom: %ld requests, %llu signals", a_n, (unsigned long long)sigs);
  h_finish(1);
  return 0;
}
