/* Scripted-hash monitors (C07, C08): the code under test runs on a hash layer whose SHAKE128 and
 * SHAKE256 streams are chosen by an adversary; the model consumes the same streams. */
#include "h.h"

uint64_t mock_calls;
int (*mock_scripted)(int, const uint8_t *, size_t);

/* ---- the adversary --------------------------------------------------------- */
static uint64_t adv;             /* per-case adversary seed */
static int g_k, g_enc;           /* parameter set and operation, to know eta per nonce */
static int xof_mode, prf_mode;   /* -1: identity */
static int xof_maxrej;
/* target for matched matrices: NTT of the noise vector the matrix will be multiplied with */
static int32_t tgt[4][256]; static int tgt_by_x, matched_sign;

#define NXOF 14
typedef struct {
  uint8_t in[34]; uint64_t adv; int mode; int used; rng r;
  uint8_t *buf; size_t gen, cap; uint64_t t;      /* generated bytes, candidate index */
  uint32_t p1, p2, p3, p4; uint32_t acc;
} xent;
static xent X[64]; static unsigned xw;
static uint64_t st_ctr[257], st_mask8[256], st_cand, st_rej; static uint64_t st_maxoff;
static uint64_t st_blocks[8];

static unsigned accv(rng *r, uint32_t style)
{
  switch (style & 3) { case 0: return rndn(r, OQ); case 1: return OQ - 1; case 2: return rndn(r, 2) ? OQ - 1 - rndn(r, 3) : rndn(r, 3); default: return rndn(r, 4) ? rndn(r, OQ) : (rndn(r, 2) ? 3328 : 0); }
}
static unsigned rejv(rng *r, uint32_t style)
{
  switch (style & 3) { case 0: return OQ + rndn(r, 4096 - OQ); case 1: return OQ; case 2: return 4095; default: return rndn(r, 2) ? OQ + rndn(r, 3) : 4095 - rndn(r, 3); }
}
static int16_t mred(int32_t a) { int16_t t = (int16_t)((uint32_t)a * (uint32_t)-3327); return (int16_t)((a - (int32_t)t * 3329) >> 16); }
static int16_t cen(int32_t x) { x %= OQ; if (x > 1664) x -= OQ; return (int16_t)x; }
static int16_t fqm(int32_t a, int32_t b) { return mred((int16_t)a * (int32_t)(int16_t)b); }
/* a pair (a0,a1) whose product with (b0,b1) has extreme Montgomery representatives */
static void match_pair(rng *r, int i, const int32_t *b, int sgn, unsigned *a0, unsigned *a1)
{
  int best = -(1 << 30);
  int16_t b0 = cen(b[2 * i]), b1 = cen(b[2 * i + 1]), z = fqm(o_gamma(i) , 1353); /* gamma*R centred */
  for (int t = 0; t < 96; t++) {
    unsigned c0 = rndn(r, OQ), c1 = rndn(r, OQ);
    int v0 = fqm(fqm((int)c1, b1), z) + fqm((int)c0, b0), v1 = fqm((int)c0, b1) + fqm((int)c1, b0);
    int v = sgn & 1 ? -v0 - v1 : v0 + v1;
    if (sgn & 2) v = sgn & 1 ? v0 - v1 : v1 - v0;
    if (v > best) { best = v; *a0 = c0; *a1 = c1; }
  }
}
static int sgn_for(int pat, int i)
{
  switch (pat & 7) { case 0: return 0; case 1: return 1; case 2: return i >> 6 & 1; case 3: return i >> 3 & 1; case 4: return i & 1; case 5: return 2; case 6: return 3; default: return (int)((uint32_t)(i * 2654435761u) >> 30); }
}
static void xcand(xent *e, unsigned *c)      /* the next candidate */
{
  rng *r = &e->r; uint64_t t = e->t++; unsigned v = 0; int a = 1;
  switch (e->mode) {
    case 0: a = rndn(r, 64) >= e->p1 % 63 + 1; break;                       /* Bernoulli */
    case 1: { static const unsigned E[] = {0, 1, 3327, 3328, 3329, 3330, 3331, 4094, 4095, 2047, 2048, 2049, 255, 256, 257, 3072, 3583, 3584, 832, 1664, 1665};
      v = E[rndn(r, 21)]; *c = v; return; }
    case 2: a = t >= e->p1 % (112u * (unsigned)(xof_maxrej ? xof_maxrej : 6)); break;  /* long rejecting prefix */
    case 3: {                                                               /* exact number accepted in the first three blocks */
      unsigned tot = 246 + e->p1 % 12, front = e->p2 % (tot + 1), back = tot - front;
      if (t < 336) a = t < front || t >= 336 - back; else a = rndn(r, 8) < 1 + e->p3 % 8;
      break; }
    case 4: a = !(e->acc == 255 && t < 400 + e->p1 % 1500); break;          /* stuck before the last coefficient */
    case 5: a = (t / (1 + e->p1 % 40)) % (2 + e->p2 % 3) == 0; break;       /* periodic */
    case 6: {                                                               /* every mask of eight candidates */
      unsigned m = (unsigned)(t / 8 + e->p1) * (e->p2 | 1) & 255; a = m >> (t % 8) & 1; v = (unsigned)(t * 13 + e->p3) % OQ; *c = a ? v : rejv(r, e->p4); return; }
    case 7: *c = rndn(r, 4096); return;
    case 8: *c = (unsigned)((t * (1 + e->p2 % 5) + e->p1) % 4096); return;   /* counting through all values */
    case 9: a = !(t % 336 >= e->p1 % 336 && t % 336 < e->p1 % 336 + e->p2 % 80); break; /* hole */
    case 10: *c = EDGE12[e->p1 % 15]; if (*c >= OQ) *c = 3328; return;       /* constant */
    case 11: *c = (t >> (e->p1 % 8)) & 1 ? 3328 : (e->p2 & 1 ? 1664 : 0); return;
    case 12: a = t < 256 ? rndn(r, 40) != 0 : rndn(r, 2); break;
    default: a = rndn(r, 2) || (e->acc >= 250 && rndn(r, 4)); break;
  }
  *c = a ? accv(r, e->p4) : rejv(r, e->p4 >> 2);
  if (!a && e->mode == 0 && e->p3 % 8 == 0) *c = OQ;
}
static int hook_scripted(int kind, const uint8_t *in, size_t n) { (void)in; (void)n; return kind == 0 ? xof_mode >= 0 : prf_mode >= 0; }
static xent *xfind(const uint8_t *in)
{
  for (int i = 0; i < 64; i++) if (X[i].used && X[i].adv == adv && !memcmp(X[i].in, in, 34)) return &X[i];
  xent *e = &X[xw++ % 64];
  uint8_t *b = e->buf; size_t c = e->cap;
  memset(e, 0, sizeof *e);
  e->buf = b; e->cap = c; e->used = 1; e->adv = adv; memcpy(e->in, in, 34);
  rng_init(&e->r, adv, hash64(in + 32, 2, 77));
  uint64_t q = rnd(&e->r); e->p1 = (uint32_t)q; e->p2 = (uint32_t)(q >> 32); q = rnd(&e->r); e->p3 = (uint32_t)q; e->p4 = (uint32_t)(q >> 32);
  e->mode = xof_mode;
  if (xof_mode == 100) e->mode = (int)rndn(&e->r, NXOF);         /* lanes differ */
  if (xof_mode == 101) e->mode = rndn(&e->r, 4) ? 7 : 2;         /* one slow lane */
  return e;
}
static void xgen(xent *e, size_t need)
{
  if (need > e->cap) { e->cap = 2 * need + 8192; e->buf = realloc(e->buf, e->cap); }
  while (e->gen + 3 <= e->cap && e->gen < need) {
    unsigned c[2];
    if (e->mode == 200) {
      if (e->acc >= 256) { c[0] = c[1] = 5; }
      else match_pair(&e->r, (int)e->acc / 2, tgt[tgt_by_x ? e->in[32] : e->in[33]], sgn_for(matched_sign, (int)e->acc / 2), &c[0], &c[1]);
      e->acc += 2;
    } else for (int h = 0; h < 2; h++) {
      xcand(e, &c[h]);
      unsigned bit = c[h] < OQ; st_cand++; st_rej += !bit; e->acc += bit;
      if (e->t == 336) st_ctr[e->acc > 256 ? 256 : e->acc]++;
      e->p3 += 0;
    }
    e->buf[e->gen] = (uint8_t)c[0]; e->buf[e->gen + 1] = (uint8_t)(c[0] >> 8 | c[1] << 4); e->buf[e->gen + 2] = (uint8_t)(c[1] >> 4);
    e->gen += 3;
  }
}
static const int *sgnrow(int row)   /* signs of the row of the NTT that output pair `row` reads */
{
  static int s[256]; int64_t z = 1, g = o_gamma(row & 127);
  for (int i = 0; i < 128; i++) { s[2 * i] = s[2 * i + 1] = z <= 1664 ? 1 : -1; z = z * g % OQ; }
  if (row & 128) for (int i = 0; i < 256; i += 2) s[i] = 0;
  return s;
}
static int eta_of(int nonce) { return (g_k == 2 && (!g_enc || nonce < 2)) ? 3 : 2; }
#define NPRF 13
static void prf_fill(const uint8_t *in, uint8_t *b, size_t off, size_t len)
{
  uint8_t full[192];
  int nonce = in[32], eta = eta_of(nonce), mode = prf_mode;
  rng r; rng_init(&r, adv ^ 0x9999, (uint64_t)nonce + (g_enc ? 1000 : 0));
  if (mode == 100) mode = (int)rndn(&r, NPRF);
  const int *row = sgnrow((int)rndn(&r, 256));
  int flip = rndn(&r, 2) ? 1 : -1, per = 1 << rndn(&r, 8), at = (int)rndn(&r, 256);
  memset(full, 0, sizeof full);
  for (int i = 0; i < 256; i++) {
    int v;
    switch (mode) {
      case 0: v = eta; break;
      case 1: v = -eta; break;
      case 2: v = rndn(&r, 2) ? eta : -eta; break;
      case 3: v = i == at ? flip * eta : 0; break;
      case 4: v = (i / per) & 1 ? eta : -eta; break;
      case 5: v = flip * row[i] * eta; break;
      case 6: v = (int)rndn(&r, 2 * (uint32_t)eta + 1) - eta; break;
      case 7: v = (i & 1 ? 1 : -1) * flip * eta; break;
      case 8: v = 0; break;
      case 9: v = i < at ? eta : -eta; break;
      case 10: v = (i / per) & 1 ? flip * eta : 0; break;
      case 11: v = flip * ((i % 3) - 1) * eta; break;
      default: v = (i / per) & 1 ? row[i] * eta : -row[i] * eta; break;
    }
    /* bits with popcount(x) - popcount(y) = v, otherwise random */
    unsigned x, y; int pad = (int)rndn(&r, 3);
    do { x = (unsigned)rnd(&r) & ((1u << eta) - 1); y = (unsigned)rnd(&r) & ((1u << eta) - 1);
      if (pad == 0 && (v > 0 ? y : v < 0 ? x : (x | y))) continue; } while (__builtin_popcount(x) - __builtin_popcount(y) != v);
    for (int j = 0; j < eta; j++) { int u = 2 * i * eta + j; if (x >> j & 1) full[u / 8] |= (uint8_t)(1 << (u % 8)); u += eta; if (y >> j & 1) full[u / 8] |= (uint8_t)(1 << (u % 8)); }
  }
  for (size_t i = 0; i < len; i++) b[i] = off + i < (size_t)(64 * eta) ? full[off + i] : (uint8_t)(0xA5 + i);
}
static void hook(int kind, const uint8_t *in, size_t n, uint8_t *b, size_t off, size_t len)
{
  (void)n;
  if (kind == 1) { if (prf_mode >= 0) prf_fill(in, b, off, len); return; }
  if (xof_mode < 0) return;
  xent *e = xfind(in);
  xgen(e, off + len);
  if (off + len > st_maxoff) st_maxoff = off + len;
  memcpy(b, e->buf + off, len);
}

/* ---- cases ----------------------------------------------------------------- */
static uint8_t pk[OMAX_PK + 64], sk[OMAX_SK + 64], ct[OMAX_CT + 64], ss[64], wpk[OMAX_PK], wsk[OMAX_SK], wct[OMAX_CT], wss[32], coins[64], hpk[OMAX_PK], hsk[OMAX_SK], hct[OMAX_CT];
static char fc[60000];
static const char *desc(long i) { static char b[200]; snprintf(b, sizeof b, "%ld xof=%d prf=%d maxrej=%d", i, xof_mode, prf_mode, xof_maxrej); return b; }

/* A mismatch of a KEM operation is this property's if the PKE operations inside it, which hold all sampling and
 * arithmetic, mismatch on the same scripts; otherwise it lies in the KEM layer. */
static int pke_kp_bad(const impl *I)
{
  static uint8_t a[OMAX_PK + 64], b[OMAX_SK + 64], c[OMAX_PK], d[OMAX_SK]; const oparams *p = o_params(I->k);
  o_pke_keygen(I->k, c, d, coins); I->pke_kp(a, b, coins);
  return memcmp(a, c, p->pkb) || memcmp(b, d, 384 * (size_t)I->k);
}
static int pke_enc_bad(const impl *I, const uint8_t *key, const uint8_t *m, const uint8_t *h)
{
  static uint8_t a[OMAX_CT + 64], b[OMAX_CT], t[64], kr[64]; const oparams *p = o_params(I->k);
  memcpy(t, m, 32); if (h) memcpy(t + 32, h, 32); else o_sha3_256(t + 32, key, p->pkb);
  o_sha3_512(kr, t, 64);
  o_pke_enc(I->k, b, m, key, kr + 32); I->pke_enc(a, m, key, kr + 32);
  return memcmp(a, b, p->ctb) != 0;
}
static int pke_dec_bad(const impl *I, const uint8_t *c, const uint8_t *key)
{
  uint8_t a[32], b[32], m[32]; const oparams *p = o_params(I->k);
  o_pke_dec(I->k, b, c, key); I->pke_dec(a, c, key); memcpy(m, b, 32);
  return memcmp(a, b, 32) || pke_enc_bad(I, key + 384 * I->k, m, key + p->skb - 64);
}
static int mine(int bad) { if (!bad) stat_add("mismatches_outside_sampling_and_arithmetic", 1); return bad; }
static void do_keygen(int k, long i, const char *tag)
{
  const oparams *p = o_params(k); char t[64];
  g_k = k; g_enc = 0;
  o_keygen(k, wpk, wsk, coins);
  for (int n = 0; n < NIMPL; n++) {
    const impl *I = &IMPLS[n]; if (I->k != k || !use_impl(I)) continue;
    KEY("%s:%s:keygen", I->name, tag); CTX("%s keygen case %s", I->name, desc(i)); snprintf(fc, sizeof fc, "%s coins=%s", desc(i), hexs(coins, 64));
    memset(pk, 0xAA, sizeof pk); memset(sk, 0xAA, sizeof sk);
    I->keypair_derand(pk, sk, coins);
    if ((memcmp(pk, wpk, p->pkb) || memcmp(sk, wsk, p->skb)) && !mine(pke_kp_bad(I))) continue;
    snprintf(t, sizeof t, "%s:keygen:pk", tag); same(I->name, t, pk, wpk, p->pkb, fc);
    snprintf(t, sizeof t, "%s:keygen:sk", tag); same(I->name, t, sk, wsk, p->skb, fc);
    stat_add("keygen", 1);
  }
}
static void do_enc(int k, long i, const char *tag, const uint8_t *key)
{
  const oparams *p = o_params(k); char t[64];
  g_k = k; g_enc = 1;
  o_enc(k, wct, wss, key, coins);
  for (int n = 0; n < NIMPL; n++) {
    const impl *I = &IMPLS[n]; if (I->k != k || !use_impl(I)) continue;
    KEY("%s:%s:enc", I->name, tag); CTX("%s enc case %s", I->name, desc(i)); snprintf(fc, sizeof fc, "%s coins=%s pk=%s", desc(i), hexs(coins, 32), hexs(key, p->pkb));
    memset(ct, 0xAA, sizeof ct);
    I->enc_derand(ct, ss, key, coins);
    if ((memcmp(ct, wct, p->ctb) || memcmp(ss, wss, 32)) && !mine(pke_enc_bad(I, key, coins, 0))) continue;
    snprintf(t, sizeof t, "%s:enc:ct", tag); same(I->name, t, ct, wct, p->ctb, fc);
    snprintf(t, sizeof t, "%s:enc:ss", tag); same(I->name, t, ss, wss, 32, fc);
    stat_add("enc", 1);
  }
}
static void do_dec(int k, long i, const char *tag, const uint8_t *c, const uint8_t *key)
{
  char t[64]; const oparams *p = o_params(k);
  g_k = k; g_enc = 1;
  int acc = o_dec(k, wss, c, key);
  for (int n = 0; n < NIMPL; n++) {
    const impl *I = &IMPLS[n]; if (I->k != k || !use_impl(I)) continue;
    KEY("%s:%s:dec", I->name, tag); CTX("%s dec case %s", I->name, desc(i)); snprintf(fc, sizeof fc, "%s accept=%d ct=%s sk=%s", desc(i), acc, hexs(c, p->ctb), hexs(key, p->skb));
    memset(ss, 0xAA, 32);
    I->dec(ss, c, key);
    if (memcmp(ss, wss, 32) && !mine(pke_dec_bad(I, c, key))) continue;
    snprintf(t, sizeof t, "%s:dec", tag); same(I->name, t, ss, wss, 32, fc);
    stat_add(acc ? "dec_accepting" : "dec_rejecting", 1);
  }
}
static void do_pkedec(int k, long i, const uint8_t *c, const uint8_t *key)
{
  const oparams *p = o_params(k);
  o_pke_dec(k, wss, c, key);
  for (int n = 0; n < NIMPL; n++) {
    const impl *I = &IMPLS[n]; if (I->k != k || !use_impl(I)) continue;
    KEY("%s:arith:pkedec", I->name); CTX("%s indcpa_dec case %s", I->name, desc(i)); snprintf(fc, sizeof fc, "%s ct=%s sk=%s", desc(i), hexs(c, p->ctb), hexs(key, 384 * (size_t)k));
    memset(ss, 0xAA, 32);
    I->pke_dec(ss, c, key);
    same(I->name, "arith:pkedec", ss, wss, 32, fc);
    stat_add("pke_dec", 1);
  }
}
static void c_xof(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 20, (uint64_t)i);
  int k = 2 + (int)(i % 3); if (a_k && a_k != k) return;
  adv = rnd(&r); prf_mode = -1;
  long j = i / 3;
  xof_maxrej = 0;
  switch (j % 8) {
    case 0: case 1: case 2: xof_mode = (int)((j / 8) % NXOF); break;
    case 3: case 4: xof_mode = 100; break;
    case 5: xof_mode = 101; break;
    case 6: xof_mode = -1; break;
    default: xof_mode = 3; break;
  }
  if (j % 16 == 5) xof_maxrej = 60;
  if (j % 128 == 13) xof_maxrej = 1200;
  if (j % 2048 == 1037) xof_maxrej = 90000;   /* more blocks than 16 bits can count */
  if (xof_mode == 2 && j % 8 == 0) xof_maxrej = 40;
  rbytes(&r, coins, 64);
  if (i % 2) {
    do_keygen(k, i, "xof");
  } else {
    const oparams *p = o_params(k);
    if (j % 4 == 0) { for (int q = 0; q < 256 * k; q++) set12(hpk, q, rndn(&r, OQ)); rbytes(&r, hpk + p->pkb - 32, 32); }
    else { g_k = k; g_enc = 0; o_keygen(k, hpk, hsk, coins); }
    do_enc(k, i, "xof", hpk);
    if (j % 8 < 3) { memcpy(hct, wct, p->ctb); do_keygen(k, i, "xof"); memcpy(hsk, wsk, p->skb); do_dec(k, i, "xof", hct, hsk); }
  }
  distinct(hash64(&adv, 8, (uint64_t)xof_mode + 1));
  sample("case %s k=%d: %llu candidates so far, %llu rejected, longest stream %llu bytes", desc(i), k, (unsigned long long)st_cand, (unsigned long long)st_rej, (unsigned long long)st_maxoff);
}
/* C08 */
static void c_arith(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 21, (uint64_t)i);
  int k = 2 + (int)(i % 3); if (a_k && a_k != k) return;
  const oparams *p = o_params(k);
  adv = rnd(&r); xof_maxrej = 0;
  long j = i / 3;
  prf_mode = j % 3 == 0 ? 100 : (int)((j / 3) % NPRF);
  static const int XM[] = {10, 11, 200, 200, 200, 7, 1, -1};
  xof_mode = XM[rndn(&r, 8)];
  matched_sign = (int)rndn(&r, 8);
  rbytes(&r, coins, 64);
  uint8_t d[32]; memset(d, 0, 32);
  /* keygen: A[i][j] (in = rho, j, i) meets s[j] */
  g_k = k; g_enc = 0;
  for (int q = 0; q < k; q++) { o_noise(d, q, eta_of(q), tgt[q]); o_ntt(tgt[q]); }
  tgt_by_x = 1;
  if (prf_mode >= 0) do_keygen(k, i, "arith");
  memcpy(hpk, wpk, p->pkb); memcpy(hsk, wsk, p->skb);
  /* encapsulation: u = A^T y: model asks (rho, i, j) for y[j]; t chosen against y, too */
  g_enc = 1;
  for (int q = 0; q < k; q++) { o_noise(d, q, eta_of(q), tgt[q]); o_ntt(tgt[q]); }
  tgt_by_x = 0; adv = rnd(&r) | 1;
  /* same noise for the new adversary value */
  for (int q = 0; q < k; q++) { o_noise(d, q, eta_of(q), tgt[q]); o_ntt(tgt[q]); }
  int tk = (int)rndn(&r, 4);
  if (tk == 0) hostile12(&r, hpk, 256 * k);
  else if (tk == 1) for (int q = 0; q < k; q++) for (int h = 0; h < 128; h++) {
    unsigned a0, a1; match_pair(&r, h, tgt[q], sgn_for(matched_sign, h), &a0, &a1);
    if (a0 + OQ < 4096 && rndn(&r, 2)) a0 += OQ;
    if (a1 + OQ < 4096 && rndn(&r, 2)) a1 += OQ;
    set12(hpk + 384 * q, 2 * h, a0); set12(hpk + 384 * q, 2 * h + 1, a1);
  }
  if (rndn(&r, 2)) hostile_bytes(&r, coins, 32);
  do_enc(k, i, "arith", hpk);
  memcpy(hct, wct, p->ctb);
  /* decapsulation with extreme re-encryption noise; secret vector honest, hostile or matched to u */
  memcpy(hsk + 384 * k, hpk, p->pkb);
  o_sha3_256(hsk + p->skb - 64, hpk, p->pkb);
  int sm = (int)rndn(&r, 4);
  if (sm == 1) hostile12(&r, hsk, 256 * k);
  if (rndn(&r, 3) == 0) hostile_bytes(&r, hct, p->ctb);
  if (sm == 2) {
    if (rndn(&r, 2)) { uint8_t pat = rndn(&r, 2) ? 0xff : (uint8_t)rnd(&r); memset(hct, pat, 32 * (size_t)p->du * (size_t)k); }
    for (int q = 0; q < k; q++) {
      int32_t u[256];
      for (int n = 0; n < 256; n++) {
        unsigned v = 0; for (int t = 0; t < p->du; t++) { size_t x = (size_t)(256 * q + n) * (size_t)p->du + (size_t)t; v |= (unsigned)(hct[x / 8] >> (x % 8) & 1) << t; }
        u[n] = (int32_t)((2 * (int64_t)OQ * v + (1 << p->du)) >> (p->du + 1)) % OQ;
      }
      o_ntt(u);
      for (int h = 0; h < 128; h++) { unsigned a0, a1; match_pair(&r, h, u, sgn_for(matched_sign, h), &a0, &a1);
        if (a0 + OQ < 4096 && rndn(&r, 2)) a0 += OQ;
        set12(hsk + 384 * q, 2 * h, a0); set12(hsk + 384 * q, 2 * h + 1, a1); }
    }
  }
  do_pkedec(k, i, hct, hsk);
  do_dec(k, i, "arith", hct, hsk);
  distinct(hash64(&adv, 8, (uint64_t)(prf_mode * 1000 + xof_mode)));
  sample("case %s k=%d matched_sign=%d", desc(i), k, matched_sign);
}

int main(int c, char **v)
{
  h_args(c, v); h_monitors();
  o_hook = hook; mock_scripted = hook_scripted;
  void (*f)(long) = !strcmp(a_mode, "xof") ? c_xof : !strcmp(a_mode, "arith") ? c_arith : 0;
  if (!f) return 3;
  for (long j = a_start + a_worker; j < a_start + a_n; j += a_workers) f(j);
  int dc = 0; for (int i = 0; i <= 256; i++) dc += st_ctr[i] != 0;
  stat_max("max_first_batch_accept_counts_seen", (uint64_t)dc);
  stat_max("max_stream_bytes", st_maxoff);
  stat_add("candidates", st_cand); stat_add("rejected_candidates", st_rej);
  stat_add("hash_calls_scripted", mock_calls);
  h_finish(1);
  return 0;
}
