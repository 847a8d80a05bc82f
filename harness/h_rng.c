/* C22/C23: NIST KAT DRBG and seed expander against an AES-256 model. Compiled with the repository's
 * rng.h for the public state structures. */
#define NO_REF
#define NO_AVX2
#include "h.h"
#include "rng.h"
extern AES256_CTR_DRBG_struct DRBG_ctx;

/* ---- model ---- */
typedef struct { uint8_t K[32], V[16]; int rc; } md_t;
static void inc(uint8_t *v, int lo) { for (int j = 15; j >= lo; j--) if (++v[j]) break; }
#ifdef __AES__
#include <immintrin.h>
/* the model's AES on AES-NI for long streams; cross-checked against o_aes256 in main() */
static __m128i rk[15]; static uint8_t rkey[32]; static int rkset;
static void m_key(const uint8_t *k)
{
  uint8_t w[240], rc = 1; memcpy(w, k, 32);
  if (rkset && !memcmp(rkey, k, 32)) return;
  for (int i = 32; i < 240; i += 4) {
    uint32_t x; memcpy(&x, w + i - 4, 4);
    if (i % 32 == 0 || i % 32 == 16) {
      __m128i s = _mm_aesenclast_si128(_mm_set1_epi32((int)x), _mm_setzero_si128());
      x = (uint32_t)_mm_cvtsi128_si32(s);
      if (i % 32 == 0) { x = (x >> 8 | x << 24) ^ rc; rc = (uint8_t)(rc << 1); }
    }
    uint32_t y; memcpy(&y, w + i - 32, 4); x ^= y; memcpy(w + i, &x, 4);
  }
  for (int i = 0; i < 15; i++) rk[i] = _mm_loadu_si128((const __m128i *)(w + 16 * i));
  memcpy(rkey, k, 32); rkset = 1;
}
static void m_aes(const uint8_t *k, const uint8_t *in, uint8_t *out)
{
  m_key(k);
  __m128i s = _mm_xor_si128(_mm_loadu_si128((const __m128i *)in), rk[0]);
  for (int i = 1; i < 14; i++) s = _mm_aesenc_si128(s, rk[i]);
  _mm_storeu_si128((__m128i *)out, _mm_aesenclast_si128(s, rk[14]));
}
#else
static void m_aes(const uint8_t *k, const uint8_t *in, uint8_t *out) { o_aes256(k, in, out); }
#endif
static void m_update(md_t *m, const uint8_t *pd)
{
  uint8_t t[48];
  for (int i = 0; i < 3; i++) { inc(m->V, 0); m_aes(m->K, m->V, t + 16 * i); }
  if (pd) for (int i = 0; i < 48; i++) t[i] ^= pd[i];
  memcpy(m->K, t, 32); memcpy(m->V, t + 32, 16);
}
static void m_init(md_t *m, const uint8_t *e, const uint8_t *p)
{
  uint8_t s[48]; memcpy(s, e, 48);
  if (p) for (int i = 0; i < 48; i++) s[i] ^= p[i];
  memset(m, 0, sizeof *m); m_update(m, s); m->rc = 1;
}
static void m_gen(md_t *m, uint8_t *o, size_t n)
{
  uint8_t b[16];
  while (n) { inc(m->V, 0); m_aes(m->K, m->V, b); size_t c = n < 16 ? n : 16; memcpy(o, b, c); o += c; n -= c; }
  m_update(m, 0); m->rc++;
}
static int st_same(const md_t *m, const char *what, const char *fc)
{
  int a = same("drbg", "key", DRBG_ctx.Key, m->K, 32, fc) & same("drbg", "counter", DRBG_ctx.V, m->V, 16, fc);
  if (DRBG_ctx.reseed_counter != m->rc) { viol("drbg:reseed_counter", "%d must be %d after %s; %s", DRBG_ctx.reseed_counter, m->rc, what, fc); a = 0; }
  return a;
}
static arena A, B, C, D, E;
static uint8_t want[200000];
static size_t rl(rng *r)
{
  switch (rndn(r, 6)) { case 0: return rndn(r, 4); case 1: return 16 * (size_t)rndn(r, 20); case 2: return 16 * (size_t)rndn(r, 20) + rndn(r, 2); case 3: return 47 + rndn(r, 3); case 4: return rndn(r, 40) == 0 ? rndn(r, 70000) : rndn(r, 600); default: return rndn(r, 100); }
}
static void carry(rng *r, uint8_t *v, int lo)
{
  int p = lo + (int)rndn(r, (uint32_t)(16 - lo) + 1);
  for (int i = lo; i < 16; i++) v[i] = i >= p ? 0xff : (uint8_t)(rndn(r, 3) ? rnd(r) : 0xff);
  if (rndn(r, 2)) v[15] = (uint8_t)(0xff - rndn(r, 4));
}
static void c_drbg(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 50, (uint64_t)i);
  md_t m; char fc[300]; uint64_t h = (uint64_t)i;
  uint8_t *e = at_end(&A, 48), *p = at_end(&B, 48), ke[48], kp[48];
  hostile_bytes(&r, e, 48); hostile_bytes(&r, p, 48); memcpy(ke, e, 48); memcpy(kp, p, 48);
  int up = (int)rndn(&r, 3) == 0;
  if (rndn(&r, 20) == 0) { p = e; }
  memset(&DRBG_ctx, (int)rnd(&r), sizeof DRBG_ctx);
  KEY("drbg"); CTX("randombytes_init case %ld", i);
  randombytes_init(e, up ? p : 0, 256);
  m_init(&m, ke, up ? (p == e ? ke : kp) : 0);
  snprintf(fc, sizeof fc, "case %ld init entropy=%s pers=%s", i, hexs(e, 48), up ? hexs(p, 48) : "-");
  if (memcmp(e, ke, 48) || (up && p != e && memcmp(p, kp, 48))) viol("drbg:input-modified", "%s", fc);
  st_same(&m, "init", fc); h = hash64(ke, 48, h);
  stat_add("drbg_inits", 1);
  int q = 1 + (int)rndn(&r, 12);
  for (int t = 0; t < q; t++) {
    if (rndn(&r, 3) == 0) { carry(&r, DRBG_ctx.V, 0); memcpy(m.V, DRBG_ctx.V, 16); stat_add("counter_carry_cases", 1); }
    if (rndn(&r, 5) == 0) {
      uint8_t *d = 0; if (rndn(&r, 2)) { d = at_end(&A, 48); rbytes(&r, d, 48); memcpy(ke, d, 48); }
      CTX("AES256_CTR_DRBG_Update case %ld", i);
      if (rndn(&r, 2)) {   /* key and counter in buffers of their own */
        uint8_t *gk = at_end(&D, 32), *gv = at_end(&E, 16); memcpy(gk, DRBG_ctx.Key, 32); memcpy(gv, DRBG_ctx.V, 16);
        AES256_CTR_DRBG_Update(d, gk, gv);
        memcpy(DRBG_ctx.Key, gk, 32); memcpy(DRBG_ctx.V, gv, 16);
      } else AES256_CTR_DRBG_Update(d, DRBG_ctx.Key, DRBG_ctx.V); m_update(&m, d ? ke : 0);
      if (d && memcmp(d, ke, 48)) viol("drbg:input-modified", "%s", fc);
      snprintf(fc, sizeof fc, "case %ld step %d Update", i, t); st_same(&m, "update", fc); stat_add("drbg_updates", 1);
      continue;
    }
    size_t n = rl(&r); uint8_t v0[16]; memcpy(v0, m.V, 16);
    memset(C.lo, 0x3c, C.room); uint8_t *o = rndn(&r, 3) ? at_end(&C, n) : C.lo + rndn(&r, 32);
    snprintf(fc, sizeof fc, "case %ld step %d request %zu V=%s", i, t, n, hexs(v0, 16)); CTX("randombytes %s", fc);
    int rv = randombytes(o, n);
    m_gen(&m, want, n);
    if (rv != 0) viol("drbg:return", "%d; %s", rv, fc);
    same("drbg", "output", o, want, n, fc);
    for (uint8_t *x = C.lo; x < C.lo + C.room; x++) if ((x < o || x >= o + n) && *x != 0x3c) { viol("drbg:output-bounds", "%s", fc); break; }
    st_same(&m, "generate", fc);
    stat_add("drbg_requests", 1); h = hash64(&n, 8, h);
  }
  distinct(h);
  if (i % 200 == 5) sample("%s", fc);
}
static uint8_t xblk(const uint8_t *seed, const uint8_t *ctr0, uint64_t pos)
{
  static uint8_t cs[32], cc[16], b[16]; static uint64_t cb = ~0ull;
  uint64_t blk = pos / 16;
  if (cb != blk || memcmp(cs, seed, 32) || memcmp(cc, ctr0, 16)) {
    uint8_t c[16]; memcpy(c, ctr0, 16); memcpy(cs, seed, 32); memcpy(cc, ctr0, 16); cb = blk;
    uint32_t x = (uint32_t)c[12] << 24 | (uint32_t)c[13] << 16 | (uint32_t)c[14] << 8 | c[15]; x += (uint32_t)blk;
    c[12] = (uint8_t)(x >> 24); c[13] = (uint8_t)(x >> 16); c[14] = (uint8_t)(x >> 8); c[15] = (uint8_t)x;
    m_aes(seed, c, b);
  }
  return b[pos % 16];
}
static void c_exp(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 51, (uint64_t)i);
  AES_XOF_struct *x = (AES_XOF_struct *)((uintptr_t)(at_end(&A, sizeof(AES_XOF_struct))) & ~(uintptr_t)15), bak;
  uint8_t *seed, *div, ctr0[16]; char fc[300];
  uint64_t h = 0;
  uint8_t ks[40];
  rbytes(&r, ks, 40); if (rndn(&r, 4) == 0) hostile_bytes(&r, ks, 40);
  seed = rndn(&r, 3) ? at_end(&B, 32) : B.lo; div = rndn(&r, 3) ? at_end(&D, 8) : D.lo; memcpy(seed, ks, 32); memcpy(div, ks + 32, 8);
  unsigned long ml;
  switch (rndn(&r, 6)) { case 0: ml = rndn(&r, 70); break; case 1: { static const unsigned long E[] = {0xffffffffUL, 0xfffffffeUL, 0x100000000UL, 0x100000001UL, ~0UL, 0x8000000000000000UL, 0x80000000UL, 0x7fffffffUL, 0, 1, 0x1ffffffffUL, 0xff00ff00UL}; ml = E[rndn(&r, 12)]; break; }
    case 2: ml = rnd(&r) & 0xffffffff; break; case 3: ml = 1ul << rndn(&r, 64); break; default: ml = 100 + rndn(&r, 3000); }
  memset(x, (int)rnd(&r), sizeof *x); bak = *x;
  KEY("expander"); CTX("seedexpander_init case %ld maxlen %lu", i, ml);
  int rv = seedexpander_init(x, seed, div, ml);
  snprintf(fc, sizeof fc, "case %ld init maxlen=%lu seed/div=%s", i, ml, hexs(ks, 40));
  if (memcmp(ks, seed, 32) || memcmp(ks + 32, div, 8)) viol("expander:input-modified", "%s", fc);
  stat_add("expander_inits", 1); h = hash64(ks, 40, ml);
  if (ml >= 0x100000000ul) {
    if (rv != RNG_BAD_MAXLEN) viol("expander:maxlen", "returned %d; %s", rv, fc);
    if (memcmp(&bak, x, sizeof bak)) viol("expander:rejected-init-changed-state", "%s", fc);
    stat_add("expander_rejections", 1); distinct(h); return;
  }
  if (rv) { viol("expander:init-return", "returned %d; %s", rv, fc); return; }
  memcpy(ctr0, div, 8); ctr0[8] = (uint8_t)(ml >> 24); ctr0[9] = (uint8_t)(ml >> 16); ctr0[10] = (uint8_t)(ml >> 8); ctr0[11] = (uint8_t)ml; memset(ctr0 + 12, 0, 4);
  int poke = ml > 200 && rndn(&r, 3) == 0;
  if (poke) { carry(&r, x->ctr, 12); memcpy(ctr0 + 12, x->ctr + 12, 4); stat_add("expander_counter_carry_cases", 1); }
  uint64_t pos = 0, rem = ml;
  if (rndn(&r, 6) == 0 && ml > 100000) { /* far along: everything but a few bytes is spent */ x->length_remaining = rem = 50 + rndn(&r, 200); }
  for (int t = 0, q = 2 + (int)rndn(&r, 20); t < q; t++) {
    unsigned long n; int nul = 0;
    switch (rndn(&r, 9)) { case 0: n = 0; break; case 1: n = 16 - pos % 16; break; case 2: n = 15 + rndn(&r, 3); break; case 3: n = rem; break; case 4: n = rem ? rem - 1 : 0; break; case 5: n = rem + 1 + (rndn(&r, 2) ? 0 : rnd(&r) >> 1); break; case 6: nul = 1; n = rndn(&r, 40); break; default: n = rndn(&r, 90); }
    if (n < rem && n > 60000) n = rndn(&r, 60000);
    bak = *x; memset(C.lo, 0x3c, C.room);
    int ok = !nul && n < rem;
    uint8_t *o = nul ? 0 : ok && rndn(&r, 3) ? at_end(&C, n) : C.lo + rndn(&r, 32);
    snprintf(fc, sizeof fc, "case %ld step %d maxlen=%lu pos=%lu remaining=%lu request=%lu null=%d ctr0=%s", i, t, ml, (unsigned long)pos, (unsigned long)rem, n, nul, hexs(ctr0, 16));
    CTX("seedexpander %s", fc);
    rv = seedexpander(x, o, n);
    size_t w = ok ? n : 0;
    for (uint8_t *y = C.lo; y < C.lo + C.room; y++) if ((!o || y < o || y >= o + w) && *y != 0x3c) { viol("expander:output-bounds", "%s", fc); break; }
    h = hash64(&n, 8, h);
    if (ok) {
      if (rv) { viol("expander:return", "returned %d; %s", rv, fc); break; }
      for (unsigned long z = 0; z < n; z++) want[z] = xblk(ks, ctr0, pos + z);
      if (!same("expander", "output", o, want, n, fc)) break;
      pos += n; rem -= n; stat_add("expander_requests", 1); stat_add("expander_bytes", n);
      if (x->length_remaining != rem) { viol("expander:remaining", "%lu; %s", x->length_remaining, fc); break; }
    } else {
      if (nul && n < rem ? rv != RNG_BAD_OUTBUF : nul ? rv == 0 : rv != RNG_BAD_REQ_LEN) viol(nul ? "expander:null" : "expander:limit", "returned %d; %s", rv, fc);
      if (memcmp(&bak, x, sizeof bak)) viol("expander:rejected-request-changed-state", "%s", fc);
      stat_add("expander_rejections", 1);
    }
  }
  distinct(h);
  if (i % 200 == 5) sample("%s", fc);
}
#define MB (1u << 20)
static void c_huge(long i)
{
  (void)i;
  size_t big = (1ull << 31) + 77;
  int fd = memfd_create("ring", 0); if (fd < 0 || ftruncate(fd, MB)) exit(3);
  size_t mm = (big + MB - 1) / MB; md_t m; uint8_t e[48] = {1, 2, 3}, *page = malloc(MB);
  uint8_t *b = mmap(0, (mm + 2) * MB, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) ; b += MB;
  for (size_t q = 0; q < mm; q++) if (mmap(b + q * MB, MB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(3);
  struct itimerval off = {{0, 0}, {0, 0}}; setitimer(ITIMER_VIRTUAL, &off, 0);
  KEY("drbg:huge-request"); CTX("randombytes of %zu bytes", big);
  randombytes_init(e, 0, 256); m_init(&m, e, 0);
  randombytes(b, big);
  size_t n = big; uint8_t *o = page; size_t at = 0;
  while (n) { uint8_t t[16]; inc(m.V, 0); m_aes(m.K, m.V, t); size_t c = n < 16 ? n : 16; if (n < 2 * MB) for (size_t z = 0; z < c; z++) o[(at + z) % MB] = t[z]; at += c; n -= c; }
  m_update(&m, 0); m.rc++;
  same("drbg", "huge-request", b, page, MB, "request of 2^31+77 bytes"); st_same(&m, "huge", "huge");
  stat_add("drbg_huge_requests", 1); distinct(7); sample("request of %zu bytes matches", big);
}
int main(int c, char **v)
{
  h_args(c, v); h_monitors();
  arena_init(&A, 4096); arena_init(&B, 4096); arena_init(&D, 4096); arena_init(&E, 4096); arena_init(&C, 131072);
#ifdef __AES__
  { rng r; rng_init(&r, 5, 5); for (int i = 0; i < 20; i++) { uint8_t k[32], p[16], x[16], y[16]; rbytes(&r, k, 32); rbytes(&r, p, 16); m_aes(k, p, x); o_aes256(k, p, y); if (memcmp(x, y, 16)) { fprintf(stderr, "model AES mismatch\n"); return 3; } } }
#endif
  void (*f)(long) = !strcmp(a_mode, "drbg") ? c_drbg : !strcmp(a_mode, "exp") ? c_exp : !strcmp(a_mode, "huge") ? c_huge : 0;
  if (!f) return 3;
  for (long j = a_start + a_worker; j < a_start + a_n; j += a_workers) f(j);
  h_finish(1);
  return 0;
}
