/* Shared harness runtime: implementation table, deterministic PRNG, reporting, crash/hang
 * monitors, guard-page arenas.  Output protocol (read by vlib):
 *   VIOL\t<key>\t<detail>      a property violation, <key> identifies the failing site
 *   STAT\t<name>\t<count>      measured counters
 *   SAMPLE\t<text>             an actual case of this run
 *   DONE                       the run finished all its cases
 */
#ifndef H_H
#define H_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include "oracle.h"

/* ---- implementation table -------------------------------------------------- */
#define DECL(K, V) \
  int pqcrystals_kyber##K##_##V##_keypair_derand(uint8_t *, uint8_t *, const uint8_t *); \
  int pqcrystals_kyber##K##_##V##_keypair(uint8_t *, uint8_t *); \
  int pqcrystals_kyber##K##_##V##_enc_derand(uint8_t *, uint8_t *, const uint8_t *, const uint8_t *); \
  int pqcrystals_kyber##K##_##V##_enc(uint8_t *, uint8_t *, const uint8_t *); \
  int pqcrystals_kyber##K##_##V##_dec(uint8_t *, const uint8_t *, const uint8_t *); \
  void pqcrystals_kyber##K##_##V##_indcpa_keypair_derand(uint8_t *, uint8_t *, const uint8_t *); \
  void pqcrystals_kyber##K##_##V##_indcpa_enc(uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *); \
  void pqcrystals_kyber##K##_##V##_indcpa_dec(uint8_t *, const uint8_t *, const uint8_t *);
#ifndef NO_REF
DECL(512, ref) DECL(768, ref) DECL(1024, ref)
#endif
#ifndef NO_AVX2
DECL(512, avx2) DECL(768, avx2) DECL(1024, avx2)
#endif
typedef struct {
  const char *name; int k; int avx2;
  int (*keypair_derand)(uint8_t *, uint8_t *, const uint8_t *);
  int (*keypair)(uint8_t *, uint8_t *);
  int (*enc_derand)(uint8_t *, uint8_t *, const uint8_t *, const uint8_t *);
  int (*enc)(uint8_t *, uint8_t *, const uint8_t *);
  int (*dec)(uint8_t *, const uint8_t *, const uint8_t *);
  void (*pke_kp)(uint8_t *, uint8_t *, const uint8_t *);
  void (*pke_enc)(uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *);
  void (*pke_dec)(uint8_t *, const uint8_t *, const uint8_t *);
} impl;
#define ENT(K, k, V, a) { "kyber" #K "_" #V, k, a, \
  pqcrystals_kyber##K##_##V##_keypair_derand, pqcrystals_kyber##K##_##V##_keypair, \
  pqcrystals_kyber##K##_##V##_enc_derand, pqcrystals_kyber##K##_##V##_enc, \
  pqcrystals_kyber##K##_##V##_dec, pqcrystals_kyber##K##_##V##_indcpa_keypair_derand, \
  pqcrystals_kyber##K##_##V##_indcpa_enc, pqcrystals_kyber##K##_##V##_indcpa_dec }
static const impl IMPLS[] __attribute__((unused)) = {
#ifndef NO_REF
  ENT(512, 2, ref, 0), ENT(768, 3, ref, 0), ENT(1024, 4, ref, 0),
#endif
#ifndef NO_AVX2
  ENT(512, 2, avx2, 1), ENT(768, 3, avx2, 1), ENT(1024, 4, avx2, 1),
#endif
};
#define NIMPL ((int)(sizeof IMPLS / sizeof IMPLS[0]))

/* ---- PRNG ------------------------------------------------------------------ */
typedef struct { uint64_t s[4]; } rng;
static inline uint64_t splitmix(uint64_t *x)
{
  uint64_t z = (*x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static inline void rng_init(rng *r, uint64_t a, uint64_t b)
{
  uint64_t x = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x632be59bd9b4e019ULL) * 0xd6e8feb86659fd93ULL;
  for (int i = 0; i < 4; i++) r->s[i] = splitmix(&x);
}
static inline uint64_t rotl64(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static inline uint64_t rnd(rng *r)
{
  uint64_t *s = r->s, res = rotl64(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl64(s[3], 45);
  return res;
}
static inline uint32_t rndn(rng *r, uint32_t n) { return (uint32_t)(rnd(r) % n); }
static inline void rbytes(rng *r, uint8_t *p, size_t n)
{
  while (n >= 8) { uint64_t v = rnd(r); memcpy(p, &v, 8); p += 8; n -= 8; }
  if (n) { uint64_t v = rnd(r); memcpy(p, &v, n); }
}
static inline uint64_t hash64(const void *p, size_t n, uint64_t h)
{
  const uint8_t *b = p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; h ^= h >> 29; }
  return h;
}

/* ---- reporting ------------------------------------------------------------- */
static char h_ctx[512] __attribute__((unused)) = "startup";  /* what is running, for crashes */
static char h_key[160] __attribute__((unused)) = "startup";
static volatile uint64_t h_tick;                              /* progress of the hang monitor */
static int h_nviol;
#define MAXSTAT 64
static struct { const char *n; uint64_t v; } h_stats[MAXSTAT];
__attribute__((unused)) static void stat_add(const char *n, uint64_t v)
{
  for (int i = 0; i < MAXSTAT; i++) {
    if (!h_stats[i].n) h_stats[i].n = n;
    if (h_stats[i].n == n || !strcmp(h_stats[i].n, n)) { h_stats[i].v += v; return; }
  }
}
__attribute__((unused)) static void stat_max(const char *n, uint64_t v)
{
  for (int i = 0; i < MAXSTAT; i++) {
    if (!h_stats[i].n) h_stats[i].n = n;
    if (!strcmp(h_stats[i].n, n)) { if (v > h_stats[i].v) h_stats[i].v = v; return; }
  }
}
/* distinct cases */
static uint64_t *h_set; static size_t h_cap, h_cnt;
__attribute__((unused)) static int distinct(uint64_t h)
{
  if (!h) h = 1;
  if (h_cnt * 2 >= h_cap) {
    size_t oc = h_cap; uint64_t *o = h_set;
    h_cap = oc ? oc * 2 : 4096;
    h_set = calloc(h_cap, 8);
    h_cnt = 0;
    for (size_t i = 0; i < oc; i++) if (o[i]) {
      size_t j = o[i] & (h_cap - 1);
      while (h_set[j]) j = (j + 1) & (h_cap - 1);
      h_set[j] = o[i]; h_cnt++;
    }
    free(o);
  }
  size_t j = h & (h_cap - 1);
  while (h_set[j] && h_set[j] != h) j = (j + 1) & (h_cap - 1);
  if (h_set[j]) return 0;
  h_set[j] = h; h_cnt++;
  return 1;
}
static int h_nsample;
__attribute__((unused, format(printf, 1, 2))) static void sample(const char *f, ...)
{
  va_list a;
  if (h_nsample++ >= 3) return;
  va_start(a, f); printf("SAMPLE\t"); vprintf(f, a); printf("\n"); va_end(a);
}
static void h_finish(int complete)
{
  for (int i = 0; i < MAXSTAT && h_stats[i].n; i++) printf("STAT\t%s\t%llu\n", h_stats[i].n, (unsigned long long)h_stats[i].v);
  printf("STAT\tdistinct_per_worker\t%llu\n", (unsigned long long)h_cnt);
  const char *hf = getenv("VERIF_HASHES");   /* the driver forms the union over the workers */
  if (hf && h_cnt) {
    FILE *f = fopen(hf, "ab");
    if (f) { for (size_t i = 0; i < h_cap; i++) if (h_set[i]) fwrite(&h_set[i], 8, 1, f); fclose(f); }
  }
  if (complete) printf("DONE\n");
  fflush(stdout);
}
/* Checks whose property is not about results run workloads written for other properties:
 * VERIF_IGNORE_DIFF=1 leaves result mismatches to those, =2 leaves everything but crashes, hangs and
 * sanitizer reports to them. */
static int h_ignore(void)
{
  static int v = -1;
  if (v < 0) { const char *e = getenv("VERIF_IGNORE_DIFF"); v = e ? atoi(e) : 0; }
  return v;
}
__attribute__((unused)) static int judged(void) { if (!h_ignore()) return 1; stat_add("mismatches_not_judged_here", 1); return 0; }
__attribute__((unused, format(printf, 2, 3))) static void viol(const char *key, const char *f, ...)
{
  va_list a;
  if (h_ignore() >= 2) { stat_add("mismatches_not_judged_here", 1); return; }
  va_start(a, f); printf("VIOL\t%s\t", key); vprintf(f, a); printf("\n"); va_end(a);
  fflush(stdout);
  if (++h_nviol >= 40) { h_finish(1); _exit(0); }
}
__attribute__((unused)) static char *hexs(const uint8_t *b, size_t n)
{
  static char o[8][16384]; static int w; static const char *h = "0123456789abcdef";
  char *r = o[w = (w + 1) % 8];
  size_t m = n > 8000 ? 8000 : n;
  for (size_t i = 0; i < m; i++) { r[2*i] = h[b[i] >> 4]; r[2*i+1] = h[b[i] & 15]; }
  r[2*m] = 0;
  return r;
}
/* compare an output with the model; reports offset and inputs */
__attribute__((unused)) static int same(const char *impl, const char *what, const uint8_t *got, const uint8_t *want, size_t n, const char *fcase)
{
  if (memcmp(got, want, n) == 0) return 1;
  if (!judged()) return 0;
  size_t i = 0; while (got[i] == want[i]) i++;
  char key[200];
  snprintf(key, sizeof key, "%s:%s", impl, what);
  viol(key, "%s: byte %zu of %zu is %02x, must be %02x; case %s", what, i, n, got[i], want[i], fcase);
  return 0;
}
/* ---- crash and hang monitors ------------------------------------------------ */
static void h_wr(const char *s) { if (write(1, s, strlen(s)) < 0) _exit(9); }
static int h_hang = 3;   /* x 10 s of CPU time in one call */
static void *h_fault_addr;
static void h_onsig(int s, siginfo_t *si, void *u)
{
  (void)u;
  h_fault_addr = si ? si->si_addr : 0;
  const char *n = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGABRT ? "SIGABRT" : s == SIGSYS ? "SIGSYS" : "SIGNAL";
  fflush(stdout);
  h_wr("VIOL\tcrash:"); h_wr(n); h_wr(":"); h_wr(h_key); h_wr("\t"); h_wr(n); h_wr(" in "); h_wr(h_ctx); h_wr("\n");
  h_finish(1);
  _exit(0);
}
static void h_ontimer(int s)
{
  static uint64_t last; static int n;
  (void)s;
  if (h_tick != last) { last = h_tick; n = 0; return; }
  if (++n < h_hang) return;
  h_wr("VIOL\thang:"); h_wr(h_key); h_wr("\tone call does not end (CPU time): "); h_wr(h_ctx); h_wr("\n");
  h_finish(1);
  _exit(0);
}
__attribute__((unused)) static void h_monitors(void)
{
  static uint8_t alt[65536];
  stack_t st = { .ss_sp = alt, .ss_size = sizeof alt };
  struct sigaction sa;
  struct itimerval it = { { 10, 0 }, { 10, 0 } };
  setvbuf(stdout, 0, _IOLBF, 1 << 16);
  sigaltstack(&st, 0);
  memset(&sa, 0, sizeof sa);
#ifndef SANITIZED
  sa.sa_sigaction = h_onsig;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0);
  sigaction(SIGILL, &sa, 0); sigaction(SIGABRT, &sa, 0);
#else
  (void)h_onsig;
#endif
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = h_ontimer;
  sa.sa_flags = SA_RESTART | SA_ONSTACK;
  sigaction(SIGVTALRM, &sa, 0);
  setitimer(ITIMER_VIRTUAL, &it, 0);
}
#define CTX(...) (h_tick++, snprintf(h_ctx, sizeof h_ctx, __VA_ARGS__))
#define KEY(...) snprintf(h_key, sizeof h_key, __VA_ARGS__)

/* ---- arguments -------------------------------------------------------------- */
static uint64_t a_seed = 1; static int a_worker = 0, a_workers = 1; static long a_n = 100, a_start = 0; static const char *a_mode = "all";
static int a_k, a_v = -1;   /* restrict to one parameter set / one implementation */
__attribute__((unused)) static void h_args(int c, char **v)
{
  for (int i = 1; i + 1 < c; i += 2) {
    if (!strcmp(v[i], "--seed")) a_seed = strtoull(v[i + 1], 0, 0);
    else if (!strcmp(v[i], "--mode") && !strcmp(v[i + 1], "huge")) { a_mode = "huge"; h_hang = 12; }
    else if (!strcmp(v[i], "--worker")) a_worker = atoi(v[i + 1]);
    else if (!strcmp(v[i], "--workers")) a_workers = atoi(v[i + 1]);
    else if (!strcmp(v[i], "--n")) a_n = atol(v[i + 1]);
    else if (!strcmp(v[i], "--start")) a_start = atol(v[i + 1]);
    else if (!strcmp(v[i], "--mode")) a_mode = v[i + 1];
    else if (!strcmp(v[i], "--k")) a_k = atoi(v[i + 1]);
    else if (!strcmp(v[i], "--v")) a_v = atoi(v[i + 1]);
    else { fprintf(stderr, "bad argument %s\n", v[i]); exit(3); }
  }
  if (o_selftest()) { fprintf(stderr, "oracle self-test failed\n"); exit(3); }
}
__attribute__((unused)) static int use_impl(const impl *I) { return (!a_k || a_k == I->k) && (a_v < 0 || a_v == I->avx2); }

/* ---- guard-page arena -------------------------------------------------------- */
typedef struct { uint8_t *base; size_t map; uint8_t *lo; size_t room; } arena;
__attribute__((unused)) static void arena_init(arena *a, size_t room)
{
  size_t pg = 4096;
  a->room = (room + pg - 1) / pg * pg;
  a->map = a->room + 2 * pg;
  a->base = mmap(0, a->map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (a->base == MAP_FAILED) { perror("mmap"); exit(3); }
  a->lo = a->base + pg;
  mprotect(a->base, pg, PROT_NONE);
  mprotect(a->lo + a->room, pg, PROT_NONE);
}
/* n bytes ending exactly at the upper guard page */
__attribute__((unused)) static uint8_t *at_end(arena *a, size_t n) { return a->lo + a->room - n; }

/* ---- structured inputs ------------------------------------------------------- */
/* 12-bit coefficient in a key */
static inline void set12(uint8_t *p, int i, unsigned v)
{
  uint8_t *q = p + 3 * (i / 2);
  if (i & 1) { q[1] = (uint8_t)((q[1] & 0x0f) | (v << 4)); q[2] = (uint8_t)(v >> 4); }
  else { q[0] = (uint8_t)v; q[1] = (uint8_t)((q[1] & 0xf0) | (v >> 8)); }
}
static inline unsigned get12(const uint8_t *p, int i)
{
  const uint8_t *q = p + 3 * (i / 2);
  return i & 1 ? (unsigned)(q[1] >> 4 | q[2] << 4) : (unsigned)(q[0] | (q[1] & 15) << 8);
}
static const unsigned EDGE12[] __attribute__((unused)) = {0, 1, 2, 3, 831, 832, 833, 1663, 1664, 1665, 1666, 2496, 2497, 3326, 3327, 3328, 3329, 3330, 3331, 4000, 4093, 4094, 4095, 2047, 2048, 1023, 1024, 255, 256};
#define NEDGE12 ((int)(sizeof EDGE12 / sizeof EDGE12[0]))
/* fill ncoef 12-bit coefficients by a hostile pattern; returns the pattern number */
__attribute__((unused)) static int hostile12(rng *r, uint8_t *p, int ncoef)
{
  int pat = (int)rndn(r, 12);
  unsigned c0 = EDGE12[rndn(r, NEDGE12)], c1 = EDGE12[rndn(r, NEDGE12)];
  int per = 1 << rndn(r, 9);
  for (int i = 0; i < ncoef; i++) {
    unsigned v;
    switch (pat) {
      case 0: v = 4095; break;
      case 1: v = c0; break;
      case 2: v = (i / per) & 1 ? c0 : c1; break;
      case 3: v = EDGE12[rndn(r, NEDGE12)]; break;
      case 4: v = rndn(r, 4096); break;
      case 5: v = 3329 + rndn(r, 767); break;
      case 6: v = rndn(r, 3329); break;
      case 7: v = (i % 256) == (int)(per % 256) ? c0 : 0; break;
      case 8: v = rndn(r, 2) ? 3328 : 0; break;
      case 9: v = rndn(r, 2) ? 1664 : 1665; break;
      case 10: v = rndn(r, 16) ? rndn(r, 3329) : 3329 + rndn(r, 767); break;
      default: v = (i / 256) & 1 ? c0 : rndn(r, 4096); break;
    }
    set12(p, i, v);
  }
  return pat;
}
/* hostile byte string */
__attribute__((unused)) static int hostile_bytes(rng *r, uint8_t *p, size_t n)
{
  int pat = (int)rndn(r, 20);
  uint8_t a = (uint8_t)rnd(r), b = (uint8_t)rnd(r);
  size_t per = (size_t)1 << (1 + a % 6);   /* 2..64 */
  switch (pat) {
    case 12: rbytes(r, p, n < per ? n : per); for (size_t i = per; i < n; i++) p[i] = p[i - per]; break;          /* periodic */
    case 13: memset(p, b & 1 ? 0xff : 0, n); for (size_t i = a % per; i < n; i += per) p[i] = (uint8_t)rnd(r); break;   /* only every per-th byte */
    case 14: memset(p, 0, n); p[0] = a; if (n > 1 && b & 1) p[1] = b; break;                                      /* small integer */
    case 15: memset(p, 0, n); p[n - 1] = a; break;
    case 16: for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(32 + rndn(r, 95)); break;                             /* text */
    case 17: for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(rnd(r) | 0x80); break;
    case 18: for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(rnd(r) & 0x7f); break;
    case 19: for (size_t i = 0; i < n; i++) { p[i] = (uint8_t)rnd(r); if (n - 1 - i < i) p[i] = b & 1 ? p[n - 1 - i] : (uint8_t)~p[n - 1 - i]; } break;   /* palindrome */
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: memset(p, a, n); break;
    case 3: for (size_t i = 0; i < n; i++) p[i] = i & 1 ? a : b; break;
    case 4: memset(p, 0, n); p[rnd(r) % n] = (uint8_t)(1 << (a % 8)); break;
    case 5: memset(p, 0xff, n); p[rnd(r) % n] ^= (uint8_t)(1 << (a % 8)); break;
    case 6: for (size_t i = 0; i < n; i++) p[i] = (uint8_t)i; break;
    case 7: for (size_t i = 0; i < n; i++) p[i] = rndn(r, 8) ? 0 : (uint8_t)rnd(r); break;
    case 8: for (size_t i = 0; i < n; i++) p[i] = rndn(r, 8) ? 0xff : (uint8_t)rnd(r); break;
    case 9: { size_t c = rnd(r) % n; rbytes(r, p, n); memset(p, a & 1 ? 0xff : 0, c); break; }
    case 10: { size_t c = rnd(r) % n; rbytes(r, p, n); memset(p + c, a & 1 ? 0xff : 0, n - c); break; }
    default: rbytes(r, p, n); break;
  }
  return pat;
}
/* 32 bytes in some simple relation to other data of the case */
__attribute__((unused)) static void related(rng *r, uint8_t out[32], const uint8_t *src, size_t n)
{
  uint8_t t[32]; size_t at = n - 32;
  switch (rndn(r, 4)) { case 0: at = 0; break; case 1: at = n - 32; break; case 2: at = (n - 32) / 32 * 32; break; default: at = rnd(r) % (n - 31); }
  switch (rndn(r, 7)) {
    case 0: case 1: o_sha3_256(t, src, n); break;
    case 2: o_shake256(t, 32, src, n); break;
    case 3: o_sha3_256(t, src + at, 32); break;
    default: memcpy(t, src + at, 32); break;
  }
  switch (rndn(r, 8)) { case 0: for (int i = 0; i < 32; i++) t[i] = (uint8_t)~t[i]; break; case 1: t[rndn(r, 32)] ^= (uint8_t)(1 << rndn(r, 8)); break; default: break; }
  memcpy(out, t, 32);
}
#endif
