/* A job is one operation of the public interface with concrete inputs and the outputs the model
 * prescribes.  Every call into the code under test goes through `invoke`, so that a monitor can wrap it. */
#ifndef JOBS_H
#define JOBS_H
#include "gen.h"
#include "hashapi.h"
typedef uint64_t (*invoke_t)(void *fn, const uint64_t a[10]);
static uint64_t plain_invoke(void *fn, const uint64_t a[10])
{
  return ((uint64_t (*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t))fn)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
}
#define JMAXB 8
#define JMAXN 3300
typedef struct {
  int op; const impl *I; int v;            /* operation, implementation or hash variant */
  int nb; size_t n[JMAXB]; int in[JMAXB];  /* buffers */
  uint8_t d[JMAXB][JMAXN];                 /* input contents / prescribed outputs */
  size_t inlen, outlen; int nch; uint16_t ch[16];   /* hash calls: lengths and chunk sizes */
  char name[64]; int rv;
} job;   /* rv: prescribed return value */
enum { J_KG, J_ENC, J_DEC, J_PKG, J_PENC, J_PDEC, J_NKEM, J_SHA256 = J_NKEM, J_SHA512, J_SHAKE, J_INC, J_ONCE, J_X4, J_X4ONCE, J_NOPS };
static const char *JN[] __attribute__((unused)) = { "keypair_derand", "enc_derand", "dec", "pke_keypair", "pke_enc", "pke_dec", "sha3_256", "sha3_512", "shake", "incremental", "absorb_once", "shake_x4", "absorb_once_x4" };
static void job_want(job *j)
{
  int k = j->I ? j->I->k : 0;
  switch (j->op) {
    case J_KG: o_keygen(k, j->d[0], j->d[1], j->d[2]); break;
    case J_ENC: o_enc(k, j->d[0], j->d[1], j->d[2], j->d[3]); break;
    case J_DEC: o_dec(k, j->d[0], j->d[1], j->d[2]); break;
    case J_PKG: o_pke_keygen(k, j->d[0], j->d[1], j->d[2]); break;
    case J_PENC: o_pke_enc(k, j->d[0], j->d[1], j->d[2], j->d[3]); break;
    case J_PDEC: o_pke_dec(k, j->d[0], j->d[1], j->d[2]); break;
    case J_SHA256: o_sha3_256(j->d[0], j->d[1], j->inlen); break;
    case J_SHA512: o_sha3_512(j->d[0], j->d[1], j->inlen); break;
    case J_SHAKE: case J_INC: case J_ONCE: (j->v & 1 ? o_shake256 : o_shake128)(j->d[0], j->outlen, j->d[1], j->inlen); break;
    default: for (int l = 0; l < 4; l++) (j->v & 1 ? o_shake256 : o_shake128)(j->d[l], j->outlen, j->d[4 + l], j->inlen);
  }
}
static const impl *job_impl;   /* when set: the implementation to use */
__attribute__((unused)) static void job_make(job *j, rng *r, int op)
{
  j->op = op; j->rv = 0; j->I = 0; j->v = 0; j->inlen = j->outlen = 0; j->nch = 0;
  if (op < J_NKEM) {
    j->I = job_impl ? job_impl : &IMPLS[rndn(r, (uint32_t)NIMPL)];
    int k = j->I->k; const oparams *p = o_params(k);
    static uint8_t cx[OMAX_CT], sx[OMAX_SK];
#define S(i, N, IN) (j->n[i] = (N), j->in[i] = (IN))
    switch (op) {
      case J_KG: j->nb = 3; S(0, p->pkb, 0); S(1, p->skb, 0); S(2, 64, 1); rndn(r, 3) ? rbytes(r, j->d[2], 64) : (void)hostile_bytes(r, j->d[2], 64); break;
      case J_ENC: j->nb = 4; S(0, p->ctb, 0); S(1, 32, 0); S(2, p->pkb, 1); S(3, 32, 1); make_pk(r, k, j->d[2], (int)rndn(r, 6)); rndn(r, 3) ? rbytes(r, j->d[3], 32) : (void)hostile_bytes(r, j->d[3], 32); break;
      case J_DEC: j->nb = 3; S(0, 32, 0); S(1, p->ctb, 1); S(2, p->skb, 1); make_sk_ct(r, k, j->d[2], j->d[1], (int)rndn(r, 3) ? (int)rndn(r, 11) : 0); break;
      case J_PKG: j->nb = 3; S(0, p->pkb, 0); S(1, 384 * (size_t)k, 0); S(2, 32, 1); rbytes(r, j->d[2], 32); break;
      case J_PENC: j->nb = 4; S(0, p->ctb, 0); S(1, 32, 1); S(2, p->pkb, 1); S(3, 32, 1); hostile_bytes(r, j->d[1], 32); make_pk(r, k, j->d[2], (int)rndn(r, 6)); rbytes(r, j->d[3], 32); break;
      default: j->nb = 3; S(0, 32, 0); S(1, p->ctb, 1); S(2, 384 * (size_t)k, 1); make_sk_ct(r, k, sx, cx, (int)rndn(r, 11)); memcpy(j->d[1], cx, p->ctb); memcpy(j->d[2], sx, 384 * (size_t)k); break;
    }
    snprintf(j->name, sizeof j->name, "%s:%s", j->I->name, JN[op]);
  } else {
#ifdef ONLY_REF
    j->v = (int)rndn(r, 2);
#else
    j->v = (int)rndn(r, 4);   /* bit 0: function, bit 1: variant */
#endif
    static const uint16_t L[] = { 0, 1, 7, 8, 71, 72, 73, 135, 136, 137, 167, 168, 169, 272, 336, 32, 33, 64, 800, 1184, 1568, 1600 };
    j->inlen = rndn(r, 3) ? L[rndn(r, sizeof L / sizeof *L)] : rndn(r, 1700);
    j->outlen = rndn(r, 3) ? L[rndn(r, sizeof L / sizeof *L)] : rndn(r, 1500);
    if (op == J_SHA256) j->outlen = 32;
    if (op == J_SHA512) j->outlen = 64;
    int x4 = op == J_X4 || op == J_X4ONCE, no = x4 ? 4 : 1, rate = j->v & 1 ? 136 : 168;
    if (op == J_X4ONCE || op == J_ONCE) j->outlen = (size_t)rate * (1 + rndn(r, 8));
    if (x4) j->v |= 2;
    j->nb = 2 * no;
    for (int i = 0; i < no; i++) { S(i, j->outlen, 0); S(no + i, j->inlen, 1); if (j->inlen) { if (rndn(r, 2)) rbytes(r, j->d[no + i], j->inlen); else hostile_bytes(r, j->d[no + i], j->inlen); } }
    size_t left = j->inlen;
    for (; j->nch < 8; j->nch++) { size_t c = rndn(r, 4) ? rndn(r, 200) : (size_t)rate; if (c > left) c = left; j->ch[j->nch] = (uint16_t)c; left -= c; }
    j->ch[j->nch++] = (uint16_t)left;
    snprintf(j->name, sizeof j->name, "%s:%s%s", j->v & 2 ? "avx2" : "ref", JN[op], op >= J_SHAKE ? (j->v & 1 ? "256" : "128") : "");
  }
  job_want(j);
}
/* the same call with part of one input changed: what a cache keyed by the rest of the input gets wrong */
__attribute__((unused)) static int job_mutate(job *j, rng *r)
{
  int ins[JMAXB], n = 0;
  for (int i = 0; i < j->nb; i++) if (j->in[i] && j->n[i]) ins[n++] = i;
  if (!n) return 0;
  int b = ins[rndn(r, (uint32_t)n)];
  uint8_t *d = j->d[b]; size_t len = j->n[b], at, w;
  static const size_t W[] = { 8, 16, 32, 64, 128 };
  switch (rndn(r, 6)) {
    case 0: case 1: case 2: d[rnd(r) % len] ^= (uint8_t)(1 << rndn(r, 8)); break;
    case 3:   /* a window */
      w = W[rndn(r, 5)]; if (w > len) w = len;
      at = rndn(r, 2) ? rnd(r) % (len - w + 1) : rndn(r, 2) ? 0 : len - w;
      rbytes(r, d + at, w); break;
    case 4: { /* everything but a window */
      uint8_t t[128]; w = W[rndn(r, 5)]; if (w > len) w = len;
      at = rndn(r, 2) ? rnd(r) % (len - w + 1) : rndn(r, 2) ? 0 : len - w;
      memcpy(t, d + at, w); rbytes(r, d, len); memcpy(d + at, t, w); break; }
    default:  /* two bytes exchanged, or two blocks of 32 */
      if (len >= 64 && rndn(r, 2)) { uint8_t t[32]; size_t x = 32 * (size_t)rndn(r, (uint32_t)(len / 32)), y = 32 * (size_t)rndn(r, (uint32_t)(len / 32)); memcpy(t, d + x, 32); memcpy(d + x, d + y, 32); memcpy(d + y, t, 32); }
      else { size_t x = rnd(r) % len, y = rnd(r) % len; uint8_t t = d[x]; d[x] = d[y]; d[y] = t; }
      break;
  }
  job_want(j);
  return 1;
}
/* the public key an operation reads or makes */
static uint8_t *job_pk(job *j)
{
  switch (j->op) { case J_KG: case J_PKG: return j->d[0]; case J_ENC: case J_PENC: return j->d[2]; case J_DEC: return j->d[2] + 384 * j->I->k; default: return 0; }
}
/* make j work on (part of) the key that s worked on: what a cache shared between operations gets wrong */
__attribute__((unused)) static int job_link(job *j, job *s, rng *r)
{
  if (j->op >= J_NKEM || s->op >= J_NKEM || j->I != s->I) return 0;
  const oparams *p = o_params(j->I->k);
  uint8_t *a = job_pk(j), *b = job_pk(s); size_t t = 384 * (size_t)j->I->k;
  if ((j->op == J_KG || j->op == J_PKG)) {
    if (s->op != J_KG && s->op != J_PKG) return 0;
    size_t half = rndn(r, 3); memcpy(j->d[2], s->d[2], half == 0 ? 16 : 32);
  } else if (j->op == J_PDEC || s->op == J_PDEC) {
    uint8_t *sv = s->op == J_DEC || s->op == J_PDEC ? s->d[2] : s->op == J_KG || s->op == J_PKG ? s->d[1] : 0, *jv = j->op == J_DEC || j->op == J_PDEC ? j->d[2] : 0;
    if (!sv || !jv) return 0;
    memcpy(jv, sv, t);
    if (j->op != J_DEC && s->op != J_DEC) {} else if ((s->op == J_DEC || s->op == J_PDEC) && rndn(r, 2)) memcpy(j->d[1], s->d[1], p->ctb);
  } else {
    switch (rndn(r, 4)) {
      case 0: memcpy(a, b, t); break;
      case 1: case 2: memcpy(a + t, b + t, 32); break;
      default: memcpy(a, b, p->pkb); break;
    }
    if (j->op == J_DEC && (s->op == J_DEC || s->op == J_KG) && rndn(r, 2)) { const uint8_t *sk = s->op == J_DEC ? s->d[2] : s->d[1]; if (rndn(r, 2)) memcpy(j->d[2], sk, t); if (rndn(r, 2)) memcpy(j->d[2] + p->skb - 64, sk + p->skb - 64, 32); if (rndn(r, 2)) memcpy(j->d[2] + p->skb - 32, sk + p->skb - 32, 32); }
    if (j->op == J_DEC && (s->op == J_ENC || s->op == J_PENC) && rndn(r, 2)) memcpy(j->d[1], s->d[0], p->ctb);
    if (j->op == J_DEC && s->op == J_DEC && rndn(r, 2)) memcpy(j->d[1], s->d[1], p->ctb);
  }
  job_want(j);
  return 1;
}
/* run the job on buffers b; returns the return value of KEM operations */
static int job_run(const job *j, uint8_t *const b[JMAXB], invoke_t inv, kst *st, kst4 *st4)
{
  uint64_t a[10] = {0};
#define P(x) ((uint64_t)(uintptr_t)(x))
  for (int i = 0; i < j->nb; i++) a[i] = P(b[i]);
  const xof *X = &XOF[((j->v >> 1) & 1) * 2 + (j->v & 1)];
  (void)st4;
  switch (j->op) {
    case J_KG: return (int)inv((void *)j->I->keypair_derand, a);
    case J_ENC: return (int)inv((void *)j->I->enc_derand, a);
    case J_DEC: return (int)inv((void *)j->I->dec, a);
    case J_PKG: inv((void *)j->I->pke_kp, a); break;
    case J_PENC: inv((void *)j->I->pke_enc, a); break;
    case J_PDEC: inv((void *)j->I->pke_dec, a); break;
    case J_SHA256: a[2] = j->inlen; inv((void *)SHA[(j->v >> 1) * 2].f, a); break;
    case J_SHA512: a[2] = j->inlen; inv((void *)SHA[(j->v >> 1) * 2 + 1].f, a); break;
    case J_SHAKE: a[1] = j->outlen; a[2] = P(b[1]); a[3] = j->inlen; inv((void *)X->all, a); break;
    case J_INC: {
      uint64_t c[10] = { P(st) };
      inv((void *)X->init, c);
      size_t o = 0;
      for (int i = 0; i < j->nch; i++) { c[1] = P(b[1] + o); c[2] = j->ch[i]; inv((void *)X->absorb, c); o += j->ch[i]; }
      inv((void *)X->fin, c);
      o = 0;
      for (int i = 0; o < j->outlen; i = (i + 1) % j->nch) { size_t n = j->ch[i] + 1u; if (n > j->outlen - o) n = j->outlen - o; uint64_t q[10] = { P(b[0] + o), n, P(st) }; inv((void *)X->sq, q); o += n; }
      break; }
    case J_ONCE: {
      uint64_t c[10] = { P(st), P(b[1]), j->inlen }, q[10] = { P(b[0]), j->outlen / (size_t)X->rate, P(st) };
      inv((void *)X->once, c); inv((void *)X->blk, q); break; }
#ifndef NO_X4
    case J_X4: { uint64_t c[10] = { a[0], a[1], a[2], a[3], j->outlen, a[4], a[5], a[6], a[7], j->inlen }; inv((void *)XOF4[j->v & 1].all, c); break; }
    default: {
      uint64_t c[10] = { P(st4), a[4], a[5], a[6], a[7], j->inlen }, q[10] = { a[0], a[1], a[2], a[3], j->outlen / (size_t)XOF4[j->v & 1].rate, P(st4) };
      inv((void *)XOF4[j->v & 1].once, c); inv((void *)XOF4[j->v & 1].blk, q); break; }
#endif
  }
  return 0;
}
/* ---- what the code itself computes, sequentially, in a process it has never run in -------------
 * A helper process is forked before the first call; on request it forks a child that runs jobs
 * [0,n) of the shared array and replaces the prescribed results by its own where they differ, so that a
 * monitor of context dependence does not report what is wrong in every context. */
#ifndef NO_ZYGOTE
#include <sys/wait.h>
static job *zy_jobs; static int zy_to = -1, zy_from = -1; static volatile int *zy_changed;
static void zy_child(int n)
{
  static uint8_t mem[JMAXB][4096] __attribute__((aligned(4096))); static kst st; static kst4 st4;
  signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGILL, SIG_DFL);
  for (int q = 0; q < n; q++) {
    job *j = &zy_jobs[q]; uint8_t *b[JMAXB];
    for (int x = 0; x < j->nb; x++) { b[x] = mem[x]; if (j->in[x]) memcpy(b[x], j->d[x], j->n[x]); else memset(b[x], 0, j->n[x]); }
    int rv = job_run(j, b, plain_invoke, &st, &st4);
    if (rv != j->rv) { j->rv = rv; ++*zy_changed; }
    for (int x = 0; x < j->nb; x++) if (!j->in[x] && memcmp(b[x], j->d[x], j->n[x])) { memcpy(j->d[x], b[x], j->n[x]); ++*zy_changed; }
  }
  _exit(0);
}
__attribute__((unused)) static job *zygote(int max)
{
  int a[2], b[2];
  zy_jobs = mmap(0, (size_t)max * sizeof(job) + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (zy_jobs == MAP_FAILED || pipe(a) || pipe(b)) { perror("zygote"); exit(3); }
  zy_changed = (int *)(zy_jobs + max);
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (!p) {
    struct itimerval it = { { 0, 0 }, { 0, 0 } }; setitimer(ITIMER_VIRTUAL, &it, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_DFL; sigaction(SIGVTALRM, &sa, 0);
    close(a[1]); close(b[0]);
    int n;
    while (read(a[0], &n, sizeof n) == (ssize_t)sizeof n) {
      pid_t c = fork(); int s;
      if (!c) { it.it_value.tv_sec = 60; setitimer(ITIMER_VIRTUAL, &it, 0); zy_child(n); }
      while (c > 0 && waitpid(c, &s, 0) < 0 && errno == EINTR);
      if (write(b[1], &n, sizeof n) < 0) break;
    }
    _exit(0);
  }
  close(a[0]); close(b[1]); zy_to = a[1]; zy_from = b[0];
  return zy_jobs;
}
__attribute__((unused)) static int settle(int n)   /* number of results that differed from the model's */
{
  ssize_t k; int x;
  *zy_changed = 0;
  if (write(zy_to, &n, sizeof n) != (ssize_t)sizeof n) { perror("zygote"); exit(3); }
  while ((k = read(zy_from, &x, sizeof x)) < 0 && errno == EINTR);
  if (k != (ssize_t)sizeof x) { fprintf(stderr, "helper process lost\n"); exit(3); }
  return *zy_changed;
}
#endif
static uint64_t job_hash(const job *j) __attribute__((unused));
static uint64_t job_hash(const job *j)
{
  uint64_t h = hash64(j->name, strlen(j->name), j->inlen * 65537 + j->outlen);
  for (int i = 0; i < j->nb; i++) if (j->in[i]) h = hash64(j->d[i], j->n[i], h);
  return h;
}
#endif
