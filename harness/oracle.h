/* Independent model of FIPS 202 / FIPS 203 (ML-KEM, without input validation) used as the
 * oracle of the monitors.  It shares no code with /repo: plain integer arithmetic, bit-level
 * (de)serialisation, spec-ordered NTT.  The XOF/PRF byte streams can be transformed by a
 * callback, so that the same adversarial stream can be fed to the code under test (mock
 * fips202) and to the model. */
#ifndef ORACLE_H
#define ORACLE_H
#include <stddef.h>
#include <stdint.h>

#define OQ 3329
#define OMAX_PK 1568
#define OMAX_SK 3168
#define OMAX_CT 1568

typedef struct { int k, eta1, eta2, du, dv; size_t pkb, skb, ctb; } oparams;
const oparams *o_params(int k);

void o_keccakf(uint64_t s[25]);
void o_sponge(size_t rate, uint8_t suffix, const uint8_t *in, size_t inlen, uint8_t *out, size_t outlen);
void o_sha3_256(uint8_t *h, const uint8_t *in, size_t n);
void o_sha3_512(uint8_t *h, const uint8_t *in, size_t n);
void o_shake128(uint8_t *o, size_t on, const uint8_t *in, size_t n);
void o_shake256(uint8_t *o, size_t on, const uint8_t *in, size_t n);

/* transform of SHAKE output streams; kind 0: SHAKE128, 1: SHAKE256.  Must be a pure function
 * of (input, offset, byte).  NULL: identity. */
typedef void (*o_transform)(int kind, const uint8_t *in, size_t inlen, uint8_t *buf, size_t off, size_t len);
extern o_transform o_hook;

/* statistics of the last matrix expansion */
extern uint64_t o_xof_bytes_max, o_rejected, o_accepted;

void o_keygen(int k, uint8_t *pk, uint8_t *sk, const uint8_t coins[64]);
void o_enc(int k, uint8_t *ct, uint8_t *ss, const uint8_t *pk, const uint8_t coins[32]);
/* returns 1 when the ciphertext was accepted, 0 when it was implicitly rejected */
int o_dec(int k, uint8_t *ss, const uint8_t *ct, const uint8_t *sk);
/* the PKE layer */
void o_pke_keygen(int k, uint8_t *pk, uint8_t *sk, const uint8_t d[32]);
void o_pke_enc(int k, uint8_t *ct, const uint8_t m[32], const uint8_t *pk, const uint8_t coins[32]);
void o_pke_dec(int k, uint8_t m[32], const uint8_t *ct, const uint8_t *sk);
/* J(z || ct) */
void o_reject_key(int k, uint8_t ss[32], const uint8_t *ct, const uint8_t *sk);

/* noise polynomial (coefficients 0..q-1) as the model samples it, and its NTT, for adversaries
 * that choose the matrix or key after the noise */
void o_noise(const uint8_t key[32], int nonce, int eta, int32_t c[256]);
void o_ntt(int32_t c[256]);
int32_t o_gamma(int i); /* gamma_i = 17^(2 bitrev(i)+1), i < 128 */

/* AES-256 single block, for the NIST DRBG model */
void o_aes256(const uint8_t key[32], const uint8_t in[16], uint8_t out[16]);

/* model self-test: NTT against schoolbook; returns 0 when fine */
int o_selftest(void);
#endif
