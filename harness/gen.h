/* generators of keys and ciphertexts, built with the model */
#ifndef GEN_H
#define GEN_H
#include "h.h"
/* a public key: honest, honest with non-canonical but equivalent coefficients, hostile */
static int noncanon(rng *r, uint8_t *p, int ncoef, unsigned prob)
{
  int c = 0;
  for (int i = 0; i < ncoef; i++) { unsigned v = get12(p, i); if (v + OQ < 4096 && rndn(r, prob) == 0) { set12(p, i, v + OQ); c++; } }
  return c;
}
__attribute__((unused)) static int make_pk(rng *r, int k, uint8_t *p, int kind)
{
  uint8_t c[64], s[OMAX_SK];
  switch (kind) {
    case 0: rbytes(r, c, 64); o_keygen(k, p, s, c); break;
    case 1: rbytes(r, c, 64); o_keygen(k, p, s, c); noncanon(r, p, 256 * k, 1 + rndn(r, 8)); break;
    case 2: hostile12(r, p, 256 * k); rbytes(r, p + 384 * k, 32); break;
    case 3: hostile12(r, p, 256 * k); hostile_bytes(r, p + 384 * k, 32); break;
    case 4: hostile_bytes(r, p, 384 * (size_t)k + 32); break;
    default: for (int j = 0; j < k; j++) hostile12(r, p + 384 * j, 256); rbytes(r, p + 384 * k, 32); break;
  }
  return kind;
}
__attribute__((unused)) static void hostile_ct(rng *r, int k, uint8_t *c)
{
  const oparams *p = o_params(k);
  switch (rndn(r, 4)) {
    case 0: rbytes(r, c, p->ctb); break;
    case 1: hostile_bytes(r, c, p->ctb); break;
    case 2: { size_t u = 32 * (size_t)p->du * (size_t)k; hostile_bytes(r, c, u); hostile_bytes(r, c + u, p->ctb - u); break; }
    default: {  /* constant d-bit fields */
      unsigned a = rndn(r, 1u << p->du), b = rndn(r, 1u << p->dv), e = rndn(r, 4);
      if (e == 0) a = (1u << p->du) - 1;
      if (e == 1) a = 1u << (p->du - 1);
      if (e == 2) b = (1u << p->dv) - 1;
      memset(c, 0, p->ctb);
      for (int i = 0; i < 256 * k; i++) for (int t = 0; t < p->du; t++) if (a >> t & 1) { size_t x = (size_t)i * (size_t)p->du + (size_t)t; c[x / 8] |= (uint8_t)(1 << (x % 8)); }
      uint8_t *v = c + 32 * p->du * k;
      for (int i = 0; i < 256; i++) for (int t = 0; t < p->dv; t++) if (b >> t & 1) { size_t x = (size_t)i * (size_t)p->dv + (size_t)t; v[x / 8] |= (uint8_t)(1 << (x % 8)); }
    }
  }
}
/* a secret key and a ciphertext for it; *acc set when built to be accepted */
__attribute__((unused)) static int make_sk_ct(rng *r, int k, uint8_t *s, uint8_t *c, int kind)
{
  const oparams *p = o_params(k);
  uint8_t d[64], tpk[OMAX_PK], b[64], g[64];
  uint8_t *spk = s + 384 * k, *h = s + p->skb - 64, *z = s + p->skb - 32;
  rbytes(r, d, 64);
  if (kind != 9) o_keygen(k, tpk, s, d);
  rbytes(r, b, 32);
  if (rndn(r, 4) == 0) hostile_bytes(r, b, 32);
  switch (kind) {
    case 0: break;                                                     /* honest */
    case 1: noncanon(r, s, 256 * k, 1 + rndn(r, 4)); break;            /* equivalent encodings of s */
    case 2: noncanon(r, spk, 256 * k, 1 + rndn(r, 4)); break;          /* equivalent stored pk */
    case 3: noncanon(r, s, 512 * k + 0, 1); rbytes(r, h, 32); hostile_bytes(r, z, 32); break;
    case 4: hostile_bytes(r, h, 32); break;                            /* stored hash wrong */
    case 5: hostile_bytes(r, z, 32); break;
    case 6: hostile12(r, s, 256 * k); break;                           /* hostile secret vector */
    case 7: hostile12(r, spk, 256 * k); hostile_bytes(r, spk + 384 * k, 32); break;
    case 8:                                                            /* s = 0, t = 0 in some encoding: accepted */
      for (int i = 0; i < 256 * k; i++) { set12(s, i, rndn(r, 2) ? 0 : OQ); set12(spk, i, rndn(r, 2) ? 0 : OQ); }
      hostile_bytes(r, spk + 384 * k, 32); hostile_bytes(r, h, 32); break;
    case 9: hostile_bytes(r, s, p->skb); break;
    default: hostile12(r, s, 256 * k); hostile12(r, spk, 256 * k); rbytes(r, spk + 384 * k, 96); break;
  }
  /* fields of the key equal to, or derived from, one another */
  if (rndn(r, 3) == 0) switch (rndn(r, 12)) {
    case 0: memcpy(h, spk + 384 * k, 32); break;          /* H(pk) := rho */
    case 1: memcpy(z, spk + 384 * k, 32); break;
    case 2: memcpy(z, h, 32); break;
    case 3: memcpy(h, z, 32); break;
    case 4: memcpy(spk + 384 * k, z, 32); break;
    case 5: memcpy(spk, s, 384 * (size_t)k); break;       /* t := s */
    case 6: related(r, z, spk, 384 * (size_t)k + 32); break;
    case 7: related(r, h, s, 384 * (size_t)k); break;
    case 8: related(r, b, spk, 384 * (size_t)k + 32); break;   /* message tied to the key */
    case 9: memcpy(b, rndn(r, 2) ? h : z, 32); break;
    case 10: memcpy(b, d + (rndn(r, 2) ? 32 : 0), 32); break;
    default: related(r, z, s, 384 * (size_t)k); break;
  }
  int ckind = (int)rndn(r, 4);
  if (ckind < 2) {   /* encryption consistent with what is stored */
    memcpy(b + 32, h, 32);
    o_sha3_512(g, b, 64);
    o_pke_enc(k, c, b, spk, g + 32);
  } else if (ckind == 2) {
    memcpy(b + 32, h, 32);
    o_sha3_512(g, b, 64);
    o_pke_enc(k, c, b, spk, g + 32);
    c[rnd(r) % p->ctb] ^= (uint8_t)(1 + rndn(r, 255));
  } else hostile_ct(r, k, c);
  return ckind;
}
#endif
