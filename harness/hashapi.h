/* the hash layer's public interface, both variants */
#ifndef HASHAPI_H
#define HASHAPI_H
#include <immintrin.h>
typedef struct { uint64_t s[25]; unsigned pos; uint64_t slack[8]; } kst;
typedef struct { __m256i s[25]; __m256i slack[2]; } kst4;
#define HD(V) \
 void pqcrystals_kyber_fips202_##V##_sha3_256(uint8_t *, const uint8_t *, size_t); \
 void pqcrystals_kyber_fips202_##V##_sha3_512(uint8_t *, const uint8_t *, size_t); \
 HS(V, shake128) HS(V, shake256)
#define HS(V, F) \
 void pqcrystals_kyber_fips202_##V##_##F(uint8_t *, size_t, const uint8_t *, size_t); \
 void pqcrystals_kyber_fips202_##V##_##F##_init(kst *); \
 void pqcrystals_kyber_fips202_##V##_##F##_absorb(kst *, const uint8_t *, size_t); \
 void pqcrystals_kyber_fips202_##V##_##F##_finalize(kst *); \
 void pqcrystals_kyber_fips202_##V##_##F##_squeeze(uint8_t *, size_t, kst *); \
 void pqcrystals_kyber_fips202_##V##_##F##_absorb_once(kst *, const uint8_t *, size_t); \
 void pqcrystals_kyber_fips202_##V##_##F##_squeezeblocks(uint8_t *, size_t, kst *);
HD(ref)
#ifdef ONLY_REF
#define NO_X4
#else
HD(avx2)
#endif
#define H4(F) \
 void pqcrystals_kyber_fips202x4_avx2_##F##x4(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t); \
 void pqcrystals_kyber_fips202x4_avx2_##F##x4_absorb_once(kst4 *, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t); \
 void pqcrystals_kyber_fips202x4_avx2_##F##x4_squeezeblocks(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, kst4 *);
#ifndef NO_X4
H4(shake128) H4(shake256)
#endif
typedef struct {
  const char *name; int rate;
  void (*all)(uint8_t *, size_t, const uint8_t *, size_t);
  void (*init)(kst *); void (*absorb)(kst *, const uint8_t *, size_t); void (*fin)(kst *);
  void (*sq)(uint8_t *, size_t, kst *); void (*once)(kst *, const uint8_t *, size_t); void (*blk)(uint8_t *, size_t, kst *);
} xof;
#define X(V, F, R) { #V ":" #F, R, pqcrystals_kyber_fips202_##V##_##F, pqcrystals_kyber_fips202_##V##_##F##_init, \
  pqcrystals_kyber_fips202_##V##_##F##_absorb, pqcrystals_kyber_fips202_##V##_##F##_finalize, pqcrystals_kyber_fips202_##V##_##F##_squeeze, \
  pqcrystals_kyber_fips202_##V##_##F##_absorb_once, pqcrystals_kyber_fips202_##V##_##F##_squeezeblocks }
static const xof XOF[] = { X(ref, shake128, 168), X(ref, shake256, 136),
#ifndef ONLY_REF
  X(avx2, shake128, 168), X(avx2, shake256, 136)
#endif
};
static const struct { const char *name; int rate, len; void (*f)(uint8_t *, const uint8_t *, size_t); } SHA[] = {
  { "ref:sha3_256", 136, 32, pqcrystals_kyber_fips202_ref_sha3_256 }, { "ref:sha3_512", 72, 64, pqcrystals_kyber_fips202_ref_sha3_512 },
#ifndef ONLY_REF
  { "avx2:sha3_256", 136, 32, pqcrystals_kyber_fips202_avx2_sha3_256 }, { "avx2:sha3_512", 72, 64, pqcrystals_kyber_fips202_avx2_sha3_512 },
#endif
};
#ifndef NO_X4
typedef struct { const char *name; int rate;
  void (*all)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t);
  void (*once)(kst4 *, const uint8_t *, const uint8_t *, const uint8_t *, const uint8_t *, size_t);
  void (*blk)(uint8_t *, uint8_t *, uint8_t *, uint8_t *, size_t, kst4 *); } xof4;
static const xof4 XOF4[2] = {
  { "shake128x4", 168, pqcrystals_kyber_fips202x4_avx2_shake128x4, pqcrystals_kyber_fips202x4_avx2_shake128x4_absorb_once, pqcrystals_kyber_fips202x4_avx2_shake128x4_squeezeblocks },
  { "shake256x4", 136, pqcrystals_kyber_fips202x4_avx2_shake256x4, pqcrystals_kyber_fips202x4_avx2_shake256x4_absorb_once, pqcrystals_kyber_fips202x4_avx2_shake256x4_squeezeblocks } };
#endif
#endif
