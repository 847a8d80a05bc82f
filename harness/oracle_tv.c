/* Validation of the oracle itself: reproduces the project's published test-vector file
 * (SHA256SUMS) from the model alone; used by setup / the oracle self-check, no /repo code. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "oracle.h"
#define TOT ((size_t)10000 * (64 + 32 + 1568) + 1000)
static uint8_t *st; static size_t pos;
static const uint8_t *draw(size_t n) { const uint8_t *r = st + pos; pos += n; return r; }
static void hex(const char *l, const uint8_t *b, size_t n)
{
  static char o[8192]; static const char *h = "0123456789abcdef"; size_t i;
  for (i = 0; i < n; i++) { o[2*i] = h[b[i] >> 4]; o[2*i+1] = h[b[i] & 15]; }
  o[2*n] = 0; printf("%s: %s\n", l, o);
}
int main(int c, char **v)
{
  int k = c > 1 ? atoi(v[1]) : 3;
  if (o_selftest()) { fprintf(stderr, "oracle selftest failed\n"); return 1; }
  const oparams *p = o_params(k);
  uint8_t pk[OMAX_PK], sk[OMAX_SK], ct[OMAX_CT], a[32], b[32];
  st = malloc(TOT);
  o_shake128(st, TOT, (const uint8_t *)"", 0);
  for (int i = 0; i < 10000; i++) {
    o_keygen(k, pk, sk, draw(64));
    hex("Public Key", pk, p->pkb); hex("Secret Key", sk, p->skb);
    o_enc(k, ct, b, pk, draw(32));
    hex("Ciphertext", ct, p->ctb); hex("Shared Secret B", b, 32);
    o_dec(k, a, ct, sk);
    hex("Shared Secret A", a, 32);
    o_dec(k, a, draw(p->ctb), sk);
    hex("Pseudorandom shared Secret A", a, 32);
  }
  return 0;
}
