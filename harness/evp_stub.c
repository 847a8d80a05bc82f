/* Stand-in for libcrypto's one-block AES-256-ECB calls, fast enough for 2^31-byte requests. */
#include <immintrin.h>
#include <stdint.h>
#include <string.h>
#include <stdio.h>
static __m128i rk[15]; static uint8_t rkey[32]; static int set; static int dummy;
void *EVP_CIPHER_CTX_new(void) { return &dummy; }
void EVP_CIPHER_CTX_free(void *c) { (void)c; }
const void *EVP_aes_256_ecb(void) { return &dummy; }
void ERR_print_errors_fp(FILE *f) { (void)f; }
int EVP_EncryptInit_ex(void *c, const void *t, void *e, const uint8_t *k, const uint8_t *iv)
{
  (void)c; (void)t; (void)e; (void)iv;
  if (set && !memcmp(rkey, k, 32)) return 1;
  uint8_t w[240], rc = 1; memcpy(w, k, 32);
  for (int i = 32; i < 240; i += 4) {
    uint32_t x, y; memcpy(&x, w + i - 4, 4);
    if (i % 16 == 0) { x = (uint32_t)_mm_cvtsi128_si32(_mm_aesenclast_si128(_mm_set1_epi32((int)x), _mm_setzero_si128()));
      if (i % 32 == 0) { x = (x >> 8 | x << 24) ^ rc; rc = (uint8_t)(rc << 1); } }
    memcpy(&y, w + i - 32, 4); x ^= y; memcpy(w + i, &x, 4);
  }
  for (int i = 0; i < 15; i++) rk[i] = _mm_loadu_si128((const __m128i *)(w + 16 * i));
  memcpy(rkey, k, 32); set = 1; return 1;
}
int EVP_EncryptUpdate(void *c, uint8_t *o, int *l, const uint8_t *in, int n)
{
  (void)c; *l = n;
  for (; n >= 16; n -= 16, o += 16, in += 16) {
    __m128i s = _mm_xor_si128(_mm_loadu_si128((const __m128i *)in), rk[0]);
    for (int i = 1; i < 14; i++) s = _mm_aesenc_si128(s, rk[i]);
    _mm_storeu_si128((__m128i *)o, _mm_aesenclast_si128(s, rk[14]));
  }
  return 1;
}
