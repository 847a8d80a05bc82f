/* Writes the request and response files the KAT program must produce, from the models alone. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "oracle.h"
static uint8_t K[32], V[16];
static void inc(void) { for (int j = 15; j >= 0; j--) if (++V[j]) break; }
static void upd(const uint8_t *pd) { uint8_t t[48]; for (int i = 0; i < 3; i++) { inc(); o_aes256(K, V, t + 16 * i); } if (pd) for (int i = 0; i < 48; i++) t[i] ^= pd[i]; memcpy(K, t, 32); memcpy(V, t + 32, 16); }
static void init(const uint8_t *e) { memset(K, 0, 32); memset(V, 0, 16); upd(e); }
static void gen(uint8_t *o, size_t n) { while (n) { uint8_t b[16]; inc(); o_aes256(K, V, b); size_t c = n < 16 ? n : 16; memcpy(o, b, c); o += c; n -= c; } upd(0); }
static void hex(FILE *f, const char *s, const uint8_t *b, size_t n) { fprintf(f, "%s", s); for (size_t i = 0; i < n; i++) fprintf(f, "%02X", b[i]); fprintf(f, "\n"); }
int main(int c, char **v)
{
  int k = atoi(v[1]); const oparams *p = o_params(k); char fn[4096];
  if (c < 3 || o_selftest()) return 1;
  snprintf(fn, sizeof fn, "%s/PQCkemKAT_%zu.req", v[2], p->skb); FILE *rq = fopen(fn, "w");
  snprintf(fn, sizeof fn, "%s/PQCkemKAT_%zu.rsp", v[2], p->skb); FILE *rs = fopen(fn, "w");
  if (!rq || !rs) return 1;
  static uint8_t seeds[100][48]; uint8_t e[48], d[64], m[32], pk[OMAX_PK], sk[OMAX_SK], ct[OMAX_CT], ss[32];
  for (int i = 0; i < 48; i++) e[i] = (uint8_t)i;
  init(e);
  for (int i = 0; i < 100; i++) { gen(seeds[i], 48); fprintf(rq, "count = %d\n", i); hex(rq, "seed = ", seeds[i], 48); fprintf(rq, "pk =\nsk =\nct =\nss =\n\n"); }
  fprintf(rs, "# Kyber%d\n\n", 256 * k);
  for (int i = 0; i < 100; i++) {
    init(seeds[i]); gen(d, v[3] && v[3][0] == '1' ? 64 : 32);
    if (!(v[3] && v[3][0] == '1')) gen(d + 32, 32);
    gen(m, 32);
    o_keygen(k, pk, sk, d); o_enc(k, ct, ss, pk, m);
    fprintf(rs, "count = %d\n", i); hex(rs, "seed = ", seeds[i], 48); hex(rs, "pk = ", pk, p->pkb); hex(rs, "sk = ", sk, p->skb); hex(rs, "ct = ", ct, p->ctb); hex(rs, "ss = ", ss, 32); fprintf(rs, "\n");
  }
  fclose(rq); fclose(rs);
  return 0;
}
