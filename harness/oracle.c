#include "oracle.h"
#include <stdlib.h>
#include <string.h>

o_transform o_hook;
uint64_t o_xof_bytes_max, o_rejected, o_accepted;

static const oparams P[3] = {
  {2, 3, 2, 10, 4,  800, 1632,  768},
  {3, 2, 2, 10, 4, 1184, 2400, 1088},
  {4, 2, 2, 11, 5, 1568, 3168, 1568},
};
const oparams *o_params(int k) { return &P[k - 2]; }

/* ------------------------------------------------------------------ Keccak */
static uint64_t RC[24];
static const unsigned char ROT[25] = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};
static int kinit;
static void keccak_init(void)
{
  /* round constants from their definition; the rotation table is checked against the rotation walk */
  unsigned lfsr = 1;
  for (int r = 0; r < 24; r++) {
    uint64_t c = 0;
    for (int j = 0; j < 7; j++) {
      if (lfsr & 1) c |= 1ULL << ((1 << j) - 1);
      lfsr <<= 1;
      if (lfsr & 0x100) lfsr ^= 0x171;
    }
    RC[r] = c;
  }
  int x = 1, y = 0;
  for (int t = 0; t < 24; t++) {
    if (ROT[x + 5 * y] != ((t + 1) * (t + 2) / 2) % 64) abort();
    int ny = (2 * x + 3 * y) % 5;
    x = y; y = ny;
  }
  __atomic_store_n(&kinit, 1, __ATOMIC_RELEASE);
}
__attribute__((constructor)) static void kctor(void) { keccak_init(); }
#define ROL(v, n) ((n) ? ((v) << (n)) | ((v) >> ((64 - (n)) & 63)) : (v))
#define TH(x) d = c[(x + 4) % 5] ^ ROL(c[(x + 1) % 5], 1); RP(x, 0) RP(x, 1) RP(x, 2) RP(x, 3) RP(x, 4)
#define RP(x, y) { uint64_t v = s[x + 5 * y] ^ d; b[y + 5 * ((2 * x + 3 * y) % 5)] = ROL(v, ROT[x + 5 * y]); }
#define CH(x, y) s[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
#define CHR(y) CH(0, y) CH(1, y) CH(2, y) CH(3, y) CH(4, y)
void o_keccakf(uint64_t st[25])
{
  uint64_t s[25], b[25], c[5], d;
  if (!__atomic_load_n(&kinit, __ATOMIC_ACQUIRE)) keccak_init();
  memcpy(s, st, 200);
  for (int r = 0; r < 24; r++) {
    for (int x = 0; x < 5; x++) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
    TH(0) TH(1) TH(2) TH(3) TH(4)
    CHR(0) CHR(1) CHR(2) CHR(3) CHR(4)
    s[0] ^= RC[r];
  }
  memcpy(st, s, 200);
}
typedef struct { uint64_t s[25]; size_t rate, pos; } osp;
static void sp_absorb(osp *p, size_t rate, uint8_t suffix, const uint8_t *in, size_t inlen)
{
  memset(p, 0, sizeof *p);
  p->rate = rate;
  size_t i = 0;
  for (size_t n = 0; n < inlen; n++) {
    p->s[i / 8] ^= (uint64_t)in[n] << (8 * (i % 8));
    if (++i == rate) { o_keccakf(p->s); i = 0; }
  }
  p->s[i / 8] ^= (uint64_t)suffix << (8 * (i % 8));
  p->s[(rate - 1) / 8] ^= 0x80ULL << (8 * ((rate - 1) % 8));
  p->pos = rate;
}
static void sp_squeeze(osp *p, uint8_t *out, size_t n)
{
  while (n--) {
    if (p->pos == p->rate) { o_keccakf(p->s); p->pos = 0; }
    *out++ = (uint8_t)(p->s[p->pos / 8] >> (8 * (p->pos % 8)));
    p->pos++;
  }
}
void o_sponge(size_t rate, uint8_t suffix, const uint8_t *in, size_t inlen, uint8_t *out, size_t outlen)
{
  osp p;
  sp_absorb(&p, rate, suffix, in, inlen);
  sp_squeeze(&p, out, outlen);
}
void o_sha3_256(uint8_t *h, const uint8_t *in, size_t n) { o_sponge(136, 6, in, n, h, 32); }
void o_sha3_512(uint8_t *h, const uint8_t *in, size_t n) { o_sponge(72, 6, in, n, h, 64); }
void o_shake128(uint8_t *o, size_t on, const uint8_t *in, size_t n) { o_sponge(168, 0x1f, in, n, o, on); }
void o_shake256(uint8_t *o, size_t on, const uint8_t *in, size_t n) { o_sponge(136, 0x1f, in, n, o, on); }

/* ------------------------------------------------------------------ ring */
typedef struct { int32_t c[256]; } opoly;
static int32_t ZETA[128], GAMMA[128];
static int bitrev7(int i) { int r = 0; for (int b = 0; b < 7; b++) if (i >> b & 1) r |= 64 >> b; return r; }
static int32_t powmod(int32_t b, int e) { int64_t r = 1; for (int i = 0; i < e; i++) r = r * b % OQ; return (int32_t)r; }
__attribute__((constructor)) static void zctor(void)
{
  for (int i = 0; i < 128; i++) { ZETA[i] = powmod(17, bitrev7(i)); GAMMA[i] = powmod(17, 2 * bitrev7(i) + 1); }
}
static inline int32_t md(int64_t a) { int32_t r = (int32_t)(a % OQ); return r < 0 ? r + OQ : r; }
static void ntt(opoly *f)
{
  int i = 1;
  for (int len = 128; len >= 2; len /= 2)
    for (int st = 0; st < 256; st += 2 * len) {
      int32_t z = ZETA[i++];
      for (int j = st; j < st + len; j++) {
        int32_t t = (z * f->c[j + len]) % OQ;
        int32_t a = f->c[j];
        f->c[j + len] = (a - t + OQ) % OQ;
        f->c[j] = (a + t) % OQ;
      }
    }
}
static void intt(opoly *f)
{
  int i = 127;
  for (int len = 2; len <= 128; len *= 2)
    for (int st = 0; st < 256; st += 2 * len) {
      int32_t z = ZETA[i--];
      for (int j = st; j < st + len; j++) {
        int32_t t = f->c[j];
        f->c[j] = (t + f->c[j + len]) % OQ;
        f->c[j + len] = (z * ((f->c[j + len] - t + OQ) % OQ)) % OQ;
      }
    }
  for (int j = 0; j < 256; j++) f->c[j] = (f->c[j] * 3303) % OQ;
}
static void mulacc(opoly *r, const opoly *a, const opoly *b)
{
  for (int i = 0; i < 128; i++) {
    int64_t a0 = a->c[2 * i], a1 = a->c[2 * i + 1], b0 = b->c[2 * i], b1 = b->c[2 * i + 1];
    r->c[2 * i] = md(r->c[2 * i] + a0 * b0 + (a1 * b1 % OQ) * GAMMA[i]);
    r->c[2 * i + 1] = md(r->c[2 * i + 1] + a0 * b1 + a1 * b0);
  }
}
/* ByteEncode_d / ByteDecode_d, bit by bit */
static void enc_bits(uint8_t *o, const int32_t *v, int d)
{
  memset(o, 0, (size_t)(32 * d));
  for (int i = 0; i < 256; i++)
    for (int b = 0; b < d; b++)
      if (v[i] >> b & 1) o[(i * d + b) / 8] |= (uint8_t)(1 << ((i * d + b) % 8));
}
static void dec_bits(int32_t *v, const uint8_t *in, int d)
{
  for (int i = 0; i < 256; i++) {
    int32_t x = 0;
    for (int b = 0; b < d; b++) x |= (in[(i * d + b) / 8] >> ((i * d + b) % 8) & 1) << b;
    v[i] = x;
  }
}
static void dec12(opoly *p, const uint8_t *in) { dec_bits(p->c, in, 12); for (int i = 0; i < 256; i++) p->c[i] %= OQ; }
/* Compress_d(x) = round(2^d x / q) mod 2^d, ties up; Decompress_d(y) = round(q y / 2^d) */
static int32_t cmp_d(int32_t x, int d) { return (int32_t)((((int64_t)x << (d + 1)) + OQ) / (2 * OQ)) & ((1 << d) - 1); }
static int32_t dcm_d(int32_t y, int d) { return (int32_t)((2 * (int64_t)OQ * y + (1 << d)) >> (d + 1)); }

static void sample_ntt(opoly *p, const uint8_t rho[32], int x, int y)
{
  uint8_t in[34], blk[168];
  size_t off = 0;
  int n = 0;
  osp sp;
  memcpy(in, rho, 32);
  in[32] = (uint8_t)x; in[33] = (uint8_t)y;
  sp_absorb(&sp, 168, 0x1f, in, 34);
  while (n < 256) {
    sp_squeeze(&sp, blk, 168);
    if (o_hook) o_hook(0, in, 34, blk, off, 168);
    off += 168;
    for (int i = 0; i < 168 && n < 256; i += 3) {
      int d1 = blk[i] + 256 * (blk[i + 1] % 16), d2 = blk[i + 1] / 16 + 16 * blk[i + 2];
      if (d1 < OQ) { p->c[n++] = d1; o_accepted++; } else o_rejected++;
      if (n < 256) { if (d2 < OQ) { p->c[n++] = d2; o_accepted++; } else o_rejected++; }
    }
  }
  if (off > o_xof_bytes_max) o_xof_bytes_max = off;
}
static void sample_cbd(opoly *p, const uint8_t key[32], int nonce, int eta)
{
  uint8_t in[33], b[192];
  memcpy(in, key, 32);
  in[32] = (uint8_t)nonce;
  o_shake256(b, (size_t)(64 * eta), in, 33);
  if (o_hook) o_hook(1, in, 33, b, 0, (size_t)(64 * eta));
  for (int i = 0; i < 256; i++) {
    int v = 0;
    for (int j = 0; j < eta; j++) {
      int u = 2 * i * eta + j, w = u + eta;
      v += (b[u / 8] >> (u % 8) & 1) - (b[w / 8] >> (w % 8) & 1);
    }
    p->c[i] = v < 0 ? v + OQ : v;
  }
}
void o_pke_keygen(int k, uint8_t *pk, uint8_t *sk, const uint8_t d[32])
{
  const oparams *p = o_params(k);
  uint8_t g[64], in[33];
  opoly s[4], e[4], a;
  memcpy(in, d, 32);
  in[32] = (uint8_t)k;
  o_sha3_512(g, in, 33);
  for (int i = 0; i < k; i++) { sample_cbd(&s[i], g + 32, i, p->eta1); ntt(&s[i]); }
  for (int i = 0; i < k; i++) { sample_cbd(&e[i], g + 32, k + i, p->eta1); ntt(&e[i]); }
  for (int i = 0; i < k; i++) {
    for (int j = 0; j < k; j++) { sample_ntt(&a, g, j, i); mulacc(&e[i], &a, &s[j]); }
    enc_bits(pk + 384 * i, e[i].c, 12);
    enc_bits(sk + 384 * i, s[i].c, 12);
  }
  memcpy(pk + 384 * k, g, 32);
}
void o_pke_enc(int k, uint8_t *ct, const uint8_t m[32], const uint8_t *pk, const uint8_t coins[32])
{
  const oparams *p = o_params(k);
  const uint8_t *rho = pk + 384 * k;
  opoly y[4], t, u, e, a, v;
  for (int i = 0; i < k; i++) { sample_cbd(&y[i], coins, i, p->eta1); ntt(&y[i]); }
  for (int i = 0; i < k; i++) {
    memset(&u, 0, sizeof u);
    for (int j = 0; j < k; j++) { sample_ntt(&a, rho, i, j); mulacc(&u, &a, &y[j]); }
    intt(&u);
    sample_cbd(&e, coins, k + i, p->eta2);
    for (int n = 0; n < 256; n++) u.c[n] = cmp_d((u.c[n] + e.c[n]) % OQ, p->du);
    enc_bits(ct + 32 * p->du * i, u.c, p->du);
  }
  memset(&v, 0, sizeof v);
  for (int i = 0; i < k; i++) { dec12(&t, pk + 384 * i); mulacc(&v, &t, &y[i]); }
  intt(&v);
  sample_cbd(&e, coins, 2 * k, p->eta2);
  for (int n = 0; n < 256; n++) {
    int32_t mu = (m[n / 8] >> (n % 8) & 1) ? 1665 : 0;
    v.c[n] = cmp_d((v.c[n] + e.c[n] + mu) % OQ, p->dv);
  }
  enc_bits(ct + 32 * p->du * k, v.c, p->dv);
}
void o_pke_dec(int k, uint8_t m[32], const uint8_t *ct, const uint8_t *sk)
{
  const oparams *p = o_params(k);
  opoly u, s, w, v;
  memset(&w, 0, sizeof w);
  for (int i = 0; i < k; i++) {
    dec_bits(u.c, ct + 32 * p->du * i, p->du);
    for (int n = 0; n < 256; n++) u.c[n] = dcm_d(u.c[n], p->du) % OQ;
    ntt(&u);
    dec12(&s, sk + 384 * i);
    mulacc(&w, &s, &u);
  }
  intt(&w);
  dec_bits(v.c, ct + 32 * p->du * k, p->dv);
  memset(m, 0, 32);
  for (int n = 0; n < 256; n++) {
    int32_t x = md(dcm_d(v.c[n], p->dv) - w.c[n]);
    if (cmp_d(x, 1)) m[n / 8] |= (uint8_t)(1 << (n % 8));
  }
}
void o_keygen(int k, uint8_t *pk, uint8_t *sk, const uint8_t coins[64])
{
  const oparams *p = o_params(k);
  o_pke_keygen(k, pk, sk, coins);
  memcpy(sk + 384 * k, pk, p->pkb);
  o_sha3_256(sk + p->skb - 64, pk, p->pkb);
  memcpy(sk + p->skb - 32, coins + 32, 32);
}
void o_enc(int k, uint8_t *ct, uint8_t *ss, const uint8_t *pk, const uint8_t coins[32])
{
  uint8_t b[64], g[64];
  memcpy(b, coins, 32);
  o_sha3_256(b + 32, pk, o_params(k)->pkb);
  o_sha3_512(g, b, 64);
  o_pke_enc(k, ct, b, pk, g + 32);
  memcpy(ss, g, 32);
}
void o_reject_key(int k, uint8_t ss[32], const uint8_t *ct, const uint8_t *sk)
{
  const oparams *p = o_params(k);
  uint8_t b[32 + OMAX_CT];
  memcpy(b, sk + p->skb - 32, 32);
  memcpy(b + 32, ct, p->ctb);
  o_shake256(ss, 32, b, 32 + p->ctb);
}
int o_dec(int k, uint8_t *ss, const uint8_t *ct, const uint8_t *sk)
{
  const oparams *p = o_params(k);
  uint8_t b[64], g[64], c2[OMAX_CT];
  o_pke_dec(k, b, ct, sk);
  memcpy(b + 32, sk + p->skb - 64, 32);
  o_sha3_512(g, b, 64);
  o_pke_enc(k, c2, b, sk + 384 * k, g + 32);
  if (memcmp(c2, ct, p->ctb) == 0) { memcpy(ss, g, 32); return 1; }
  o_reject_key(k, ss, ct, sk);
  return 0;
}

void o_noise(const uint8_t key[32], int nonce, int eta, int32_t c[256]) { opoly p; sample_cbd(&p, key, nonce, eta); memcpy(c, p.c, sizeof p.c); }
void o_ntt(int32_t c[256]) { opoly p; memcpy(p.c, c, sizeof p.c); ntt(&p); memcpy(c, p.c, sizeof p.c); }
int32_t o_gamma(int i) { return GAMMA[i]; }

/* ------------------------------------------------------------------ AES-256 */
static uint8_t SB[256];
static uint8_t gmul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (uint8_t)((a << 1) ^ ((a & 0x80) ? 0x1b : 0)); b >>= 1; } return r; }
__attribute__((constructor)) static void sctor(void)
{
  for (int i = 0; i < 256; i++) {
    uint8_t inv = 0;
    if (i) for (int j = 1; j < 256; j++) if (gmul((uint8_t)i, (uint8_t)j) == 1) { inv = (uint8_t)j; break; }
    uint8_t r = 0;
    for (int b = 0; b < 8; b++) {
      int v = (inv >> b) ^ (inv >> ((b + 4) % 8)) ^ (inv >> ((b + 5) % 8)) ^ (inv >> ((b + 6) % 8)) ^ (inv >> ((b + 7) % 8)) ^ (0x63 >> b);
      r |= (uint8_t)((v & 1) << b);
    }
    SB[i] = r;
  }
}
void o_aes256(const uint8_t key[32], const uint8_t in[16], uint8_t out[16])
{
  uint8_t w[240], s[16], t[16], rc = 1;
  memcpy(w, key, 32);
  for (int i = 32; i < 240; i += 4) {
    uint8_t x[4];
    memcpy(x, w + i - 4, 4);
    if (i % 32 == 0) {
      uint8_t y = x[0];
      x[0] = SB[x[1]] ^ rc; x[1] = SB[x[2]]; x[2] = SB[x[3]]; x[3] = SB[y];
      rc = gmul(rc, 2);
    } else if (i % 32 == 16) for (int j = 0; j < 4; j++) x[j] = SB[x[j]];
    for (int j = 0; j < 4; j++) w[i + j] = w[i + j - 32] ^ x[j];
  }
  for (int i = 0; i < 16; i++) s[i] = in[i] ^ w[i];
  for (int r = 1; r <= 14; r++) {
    for (int c = 0; c < 4; c++) for (int rr = 0; rr < 4; rr++) t[4 * c + rr] = SB[s[4 * ((c + rr) % 4) + rr]];
    for (int c = 0; c < 4; c++)
      for (int rr = 0; rr < 4; rr++) {
        uint8_t v = r == 14 ? t[4 * c + rr]
          : (uint8_t)(gmul(t[4 * c + rr], 2) ^ gmul(t[4 * c + (rr + 1) % 4], 3) ^ t[4 * c + (rr + 2) % 4] ^ t[4 * c + (rr + 3) % 4]);
        s[4 * c + rr] = v ^ w[16 * r + 4 * c + rr];
      }
  }
  memcpy(out, s, 16);
}

int o_selftest(void)
{
  /* NTT product == negacyclic schoolbook product */
  static opoly a, b, na, nb, r;
  static int64_t sb[512];
  uint32_t x = 12345;
  for (int it = 0; it < 4; it++) {
    for (int i = 0; i < 256; i++) {
      x = x * 1664525u + 1013904223u; a.c[i] = (int32_t)((x >> 8) % OQ);
      x = x * 1664525u + 1013904223u; b.c[i] = it == 3 ? OQ - 1 : (int32_t)((x >> 8) % OQ);
    }
    memset(sb, 0, sizeof sb);
    for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j++) sb[i + j] += (int64_t)a.c[i] * b.c[j];
    na = a; nb = b; ntt(&na); ntt(&nb);
    memset(&r, 0, sizeof r);
    mulacc(&r, &na, &nb);
    intt(&r);
    for (int i = 0; i < 256; i++) if (r.c[i] != md(sb[i] - sb[i + 256])) return 1;
  }
  /* SHA3-256("") and AES-256 FIPS 197 C.3 */
  static const uint8_t e3[4] = {0xa7, 0xff, 0xc6, 0xf8}, ea[4] = {0x8e, 0xa2, 0xb7, 0xca};
  uint8_t h[32], key[32], in[16], out[16];
  o_sha3_256(h, (const uint8_t *)"", 0);
  if (memcmp(h, e3, 4)) return 2;
  for (int i = 0; i < 32; i++) key[i] = (uint8_t)i;
  for (int i = 0; i < 16; i++) in[i] = (uint8_t)(i * 0x11);
  o_aes256(key, in, out);
  if (memcmp(out, ea, 4)) return 3;
  return 0;
}
