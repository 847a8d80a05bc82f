/* Differential monitors for the KEM and PKE layers: every output of the code under test is
 * compared with the independent model (oracle.c) or, in mode cross, between implementations. */
#include "gen.h"
#include <time.h>

static uint8_t raw[16][8192] __attribute__((aligned(64)));
static uint8_t *pk, *sk, *ct, *ss, *pk2, *sk2, *ct2, *ss2, *coins, *m, *wpk, *wsk, *wct, *wss;
static char fc[64000];

static void place(rng *r)
{
  uint8_t **b[] = {&pk, &sk, &ct, &ss, &pk2, &sk2, &ct2, &ss2, &coins, &m, &wpk, &wsk, &wct, &wss};
  for (size_t i = 0; i < sizeof b / sizeof b[0]; i++) *b[i] = raw[i] + 64 + rndn(r, 64);
}
static void chk_ret(const impl *I, const char *op, int rv)
{
  if (rv != 0 && judged()) { char key[100]; snprintf(key, sizeof key, "%s:%s:return", I->name, op); viol(key, "returned %d; case %s", rv, fc); }
}

/* ---- C01 ------------------------------------------------------------------- */
static void seed_for(long i, rng *r, uint8_t *c, size_t n)
{
  long bits = (long)n * 8;
  if (i == 0) memset(c, 0, n);
  else if (i == 1) memset(c, 0xff, n);
  else if (i < 2 + bits) { memset(c, 0, n); c[(i - 2) / 8] = (uint8_t)(1 << ((i - 2) % 8)); }
  else if (i & 1) rbytes(r, c, n);
  else if (i & 2) hostile_bytes(r, c, n);
  else switch (rndn(r, 5)) {
    case 0: rbytes(r, c, n / 2); hostile_bytes(r, c + n / 2, n - n / 2); break;
    case 1: hostile_bytes(r, c, n / 2); rbytes(r, c + n / 2, n - n / 2); break;
    case 2: rbytes(r, c, n / 2); memcpy(c + n / 2, c, n / 2); break;
    case 3: rbytes(r, c, n / 2); if (n == 64) related(r, c + 32, c, 32); break;
    default: hostile_bytes(r, c, n / 2); hostile_bytes(r, c + n / 2, n - n / 2); break;
  }
}
static void c_keygen(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 1, (uint64_t)i); place(&r);
  seed_for(i, &r, coins, 64);
  distinct(hash64(coins, 64, 1));
  for (int k = 2; k <= 4; k++) {
    const oparams *p = o_params(k);
    int used = 0;
    for (int n = 0; n < NIMPL; n++) {
      const impl *I = &IMPLS[n];
      if (I->k != k || !use_impl(I)) continue;
      if (!used++) o_keygen(k, wpk, wsk, coins);
      KEY("%s:keygen", I->name); CTX("%s keypair_derand case %ld seed=%s", I->name, i, hexs(coins, 64));
      snprintf(fc, sizeof fc, "%ld coins=%s", i, hexs(coins, 64));
      memset(pk, (int)i, p->pkb); memset(sk, ~(int)i, p->skb);
      chk_ret(I, "keygen", I->keypair_derand(pk, sk, coins));
      same(I->name, "keygen:pk", pk, wpk, p->pkb, fc);
      same(I->name, "keygen:sk", sk, wsk, p->skb, fc);
      for (int j = 0; j < 256 * k; j++) if (get12(pk, j) >= OQ || get12(sk, j) >= OQ) {
        if (!judged()) break;
        char key[100]; snprintf(key, sizeof key, "%s:keygen:canonical", I->name);
        viol(key, "coefficient %d not below q; case %s", j, fc); break;
      }
      stat_add("keygen", 1);
    }
  }
  sample("keygen case %ld seed=%s pk768[0..7]=%s", i, hexs(coins, 64), hexs(wpk, 8));
}

/* ---- C02 ------------------------------------------------------------------- */
static void c_enc(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 2, (uint64_t)i); place(&r);
  int k = 2 + (int)(i % 3);
  const oparams *p = o_params(k);
  int kind = (int)((i / 3) % 6), used = 0;
  if (a_k && a_k != k) return;
  make_pk(&r, k, pk, kind);
  seed_for((i / 18) % 3 ? 1000003 + (i / 18) : i / 18 / 3, &r, coins, 32);
  if ((i / 18) % 3 == 1 && rndn(&r, 2)) related(&r, coins, pk, p->pkb);
  else if ((i / 18) % 8 == 2) related(&r, pk + p->pkb - 32, rndn(&r, 2) ? coins : pk, 32);
  distinct(hash64(coins, 32, hash64(pk, p->pkb, 2)));
  for (int n = 0; n < NIMPL; n++) {
    const impl *I = &IMPLS[n];
    if (I->k != k || !use_impl(I)) continue;
    if (!used++) o_enc(k, wct, wss, pk, coins);
    KEY("%s:enc", I->name); CTX("%s enc_derand case %ld coins=%s", I->name, i, hexs(coins, 32));
    snprintf(fc, sizeof fc, "%ld kind=%d coins=%s pk=%s", i, kind, hexs(coins, 32), hexs(pk, p->pkb));
    memset(ct, (int)i, p->ctb); memset(ss, ~(int)i, 32);
    chk_ret(I, "enc", I->enc_derand(ct, ss, pk, coins));
    same(I->name, "enc:ct", ct, wct, p->ctb, fc);
    same(I->name, "enc:ss", ss, wss, 32, fc);
    stat_add(kind == 0 ? "enc_honest_pk" : kind == 1 ? "enc_noncanonical_pk" : "enc_hostile_pk", 1);
  }
  sample("enc case %ld k=%d kind=%d coins=%s pk[0..15]=%s ss=%s", i, k, kind, hexs(coins, 32), hexs(pk, 16), hexs(wss, 32));
}
/* every byte (and one random bit of it) of the public key matters */
static void c_encflip(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 3, 0); place(&r);
  int k = 2 + (int)(i % 3);
  long pos = i / 3;
  const oparams *p = o_params(k);
  if (pos >= (long)p->pkb || (a_k && a_k != k)) return;
  make_pk(&r, k, pk, 0); rbytes(&r, coins, 32);
  rng_init(&r, a_seed * 1000 + 3, (uint64_t)i + 1);
  pk[pos] ^= (uint8_t)(rndn(&r, 3) ? 1 << rndn(&r, 8) : 1 + rndn(&r, 255));
  distinct(hash64(pk, p->pkb, 3));
  o_enc(k, wct, wss, pk, coins);
  for (int n = 0; n < NIMPL; n++) {
    const impl *I = &IMPLS[n];
    if (I->k != k || !use_impl(I)) continue;
    KEY("%s:enc", I->name); CTX("%s enc_derand pk byte %ld", I->name, pos);
    snprintf(fc, sizeof fc, "encflip %ld pos=%ld coins=%s pk=%s", i, pos, hexs(coins, 32), hexs(pk, p->pkb));
    chk_ret(I, "enc", I->enc_derand(ct, ss, pk, coins));
    same(I->name, "enc:ct", ct, wct, p->ctb, fc);
    same(I->name, "enc:ss", ss, wss, 32, fc);
    stat_add("enc_pk_byte_flips", 1);
  }
}

/* ---- C03 ------------------------------------------------------------------- */
static void c_dec(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 4, (uint64_t)i); place(&r);
  int k = 2 + (int)(i % 3), kind = (int)((i / 3) % 11);
  const oparams *p = o_params(k);
  if (a_k && a_k != k) return;
  make_sk_ct(&r, k, sk, ct, kind);
  distinct(hash64(ct, p->ctb, hash64(sk, p->skb, 4)));
  int used = 0, acc = 0;
  for (int n = 0; n < NIMPL; n++) {
    const impl *I = &IMPLS[n];
    if (I->k != k || !use_impl(I)) continue;
    if (!used++) acc = o_dec(k, wss, ct, sk);
    KEY("%s:dec", I->name); CTX("%s dec case %ld kind=%d", I->name, i, kind);
    snprintf(fc, sizeof fc, "%ld kind=%d accept=%d ct=%s sk=%s", i, kind, acc, hexs(ct, p->ctb), hexs(sk, p->skb));
    memset(ss, (int)i, 32);
    chk_ret(I, "dec", I->dec(ss, ct, sk));
    same(I->name, acc ? "dec:accept" : "dec:reject", ss, wss, 32, fc);
    stat_add(acc ? "dec_accepting" : "dec_rejecting", 1);
    if (kind) stat_add("dec_hostile_sk", 1);
  }
  sample("dec case %ld k=%d kind=%d accepted=%d ct[0..15]=%s ss=%s", i, k, kind, acc, hexs(ct, 16), hexs(wss, 32));
}

/* ---- C04 ------------------------------------------------------------------- */
static void c_agree(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 5, (uint64_t)i); place(&r);
  int k = 2 + (int)(i % 3);
  const oparams *p = o_params(k);
  if (a_k && a_k != k) return;
  const impl *L[4]; int nl = 0;
  for (int n = 0; n < NIMPL; n++) if (IMPLS[n].k == k && use_impl(&IMPLS[n])) L[nl++] = &IMPLS[n];
  /* two interleaved key pairs */
  uint8_t *P[2] = {pk, pk2}, *S[2] = {sk, sk2};
  const impl *G[2];
  for (int t = 0; t < 2; t++) {
    seed_for(i / 3 < 600 && t ? i / 3 : 1000001 + i, &r, coins, 64);
    G[t] = L[rndn(&r, (uint32_t)nl)];
    KEY("%s:agree", G[t]->name); CTX("%s keygen agree case %ld", G[t]->name, i);
    G[t]->keypair_derand(P[t], S[t], coins);
  }
  for (int e = 0; e < 6; e++) {
    int t = (int)rndn(&r, 2);
    const impl *E = L[rndn(&r, (uint32_t)nl)], *D = L[rndn(&r, (uint32_t)nl)];
    seed_for(e == 0 ? (i / 3) % 258 : 1000000 + (long)rndn(&r, 4), &r, coins, 32);
    /* messages that a real exchange could carry: parts of the peer's key, its hash, its seeds */
    if (e >= 4) switch (rndn(&r, 3)) {
      case 0: related(&r, coins, P[t], p->pkb); break;
      case 1: related(&r, coins, S[t], p->skb); break;
      default: if (e == 5) memcpy(coins, ss, 32); break;
    }
    KEY("%s:agree", E->name); CTX("%s enc agree case %ld/%d", E->name, i, e);
    E->enc_derand(ct, ss, P[t], coins);
    KEY("%s:agree", D->name); CTX("%s dec agree case %ld/%d", D->name, i, e);
    memset(ss2, e, 32);
    int rv = D->dec(ss2, ct, S[t]);
    distinct(hash64(ct, p->ctb, hash64(P[t], 32, 5)));
    char key[128];
    snprintf(fc, sizeof fc, "%ld/%d %s->%s->%s coins=%s pk=%s ct=%s sk=%s", i, e, G[t]->name, E->name, D->name, hexs(coins, 32), hexs(P[t], p->pkb), hexs(ct, p->ctb), hexs(S[t], p->skb));
    if (rv || memcmp(ss, ss2, 32)) {
      /* a genuine decryption failure (probability < 2^-138) would make the model reject, too */
      int acc = o_dec(k, wss, ct, S[t]);
      snprintf(key, sizeof key, "%s>%s>%s:agree", G[t]->name, E->name, D->name);
      viol(key, "shared secrets differ (model accepts: %d, rv %d); case %s", acc, rv, fc);
    }
    char cell[40]; (void)cell;
    stat_add("exchanges", 1);
    if (G[t] != E || E != D) stat_add("exchanges_mixed_impl", 1);
  }
  sample("agree case %ld k=%d last coins=%s ss=%s", i, k, hexs(coins, 32), hexs(ss, 32));
}

/* ---- C05 ------------------------------------------------------------------- */
static uint8_t honest[OMAX_CT];
static int rejk = -1; static const impl *rejI; static uint8_t true_ss[32];
static void try_reject(const impl *I, const uint8_t *c, const char *what, long a, long b)
{
  const oparams *p = o_params(I->k);
  if (memcmp(c, honest, p->ctb) == 0) return;
  distinct(hash64(c, p->ctb, 6));
  o_reject_key(I->k, wss, c, sk);
  h_tick++;
  snprintf(h_ctx, sizeof h_ctx, "%s dec of altered ciphertext (%s %ld %ld)", I->name, what, a, b);
  memset(ss, 0x5a, 32);
  int rv = I->dec(ss, c, sk);
  stat_add("altered_ciphertexts", 1);
  if (rv == 0 && memcmp(ss, wss, 32) == 0) return;
  char key[128];
  snprintf(key, sizeof key, "%s:reject:%s", I->name, what);
  viol(key, "%s pos %ld/%ld rv=%d: %s; ct=%s honest=%s sk=%s", what, a, b, rv,
       memcmp(ss, true_ss, 32) ? "wrong rejection key" : "ALTERED CIPHERTEXT ACCEPTED", hexs(c, p->ctb), hexs(honest, p->ctb), hexs(sk, p->skb));
}
/* the bit of byte x of a ciphertext that changes its coefficient least: many can be flipped at once without
 * changing the message, so that nothing but the comparison itself can notice */
static uint8_t lowbit(const oparams *p, long x)
{
  long u = 32L * p->du * p->k, d = x < u ? p->du : p->dv, t = 8 * (x < u ? x : x - u), best = 0;
  for (int b = 1; b < 8; b++) if ((t + b) % d < (t + best) % d) best = b;
  return (uint8_t)(1 << best);
}
static void low_impact(rng *r, const impl *I, uint8_t *c, long n, int t)
{
  static const int C[] = {2, 3, 4, 8, 16, 32, 64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 768, 1024, 1568};
  const oparams *p = o_params(I->k); uint8_t m0[32], m1[32];
  long u = 32L * p->du * p->k, lo = 0, hi = n, cnt = C[t % 19], st = 1;
  int f = (int)rndn(r, 8);   /* the quantity brought to zero modulo M */
  uint32_t M = rndn(r, 2) ? 256 : 65536, F = 0;
  if (t % 5 == 1) hi = u; else if (t % 5 == 2) lo = u;
  if (t % 7 == 3) st = 2; else if (t % 7 == 5) st = 4;
  if (cnt > (hi - lo) / st) cnt = (hi - lo) / st;
  memcpy(c, honest, (size_t)n);
  if (t % 3 == 0) { long at = lo + (long)rndn(r, (uint32_t)(hi - lo - cnt * st + 1)); for (long q = 0; q < cnt; q++) c[at + q * st] ^= lowbit(p, at + q * st); }
  else for (long q = 0; q < cnt; ) { long x = lo + st * (long)rndn(r, (uint32_t)((hi - lo) / st)); if (c[x] == honest[x]) { c[x] ^= lowbit(p, x); q++; } }
  #define TERM(x) ((uint32_t)(f == 0 ? (c[x] ^ honest[x]) : f == 1 ? c[x] - honest[x] : f == 2 ? (c[x] != honest[x]) : f == 3 ? (x + 1) * (c[x] ^ honest[x]) : \
                   f == 4 ? (c[x] ^ honest[x]) << 8 * (x & 1) : f == 5 ? (c[x] - honest[x]) * (1 - 2 * (int)(x & 1)) : f == 6 ? (c[x] ^ honest[x]) * (n - x) : (c[x] ^ honest[x]) << (x & 7)))
  if (f < 8 && t % 3) {
    for (long x = 0; x < n; x++) F += TERM(x);
    for (long s = 0; s < 150000 && F % M; s++) { long x = lo + (long)rndn(r, (uint32_t)(hi - lo)); F -= TERM(x); c[x] ^= lowbit(p, x); F += TERM(x); }
    stat_add(F % M ? "cancelling_differences_not_found" : "cancelling_differences", 1);
  }
  #undef TERM
  o_pke_dec(I->k, m0, honest, sk); o_pke_dec(I->k, m1, c, sk);
  if (memcmp(c, honest, (size_t)n)) stat_add(memcmp(m0, m1, 32) ? "altered_message_changed" : "altered_message_kept", 1);
  try_reject(I, c, "low-impact", t, f);
}
/* the work item i: (impl, base key, class, slice) */
static void c_reject(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 6, (uint64_t)i);
  const impl *I = &IMPLS[i % NIMPL];
  long item = i / NIMPL;
  if (!use_impl(I)) return;
  const oparams *p = o_params(I->k);
  long n = (long)p->ctb;
  rejk = I->k; rejI = I;
  place(&r);
  if (rndn(&r, 2)) rbytes(&r, coins, 64); else { rbytes(&r, coins, 32); hostile_bytes(&r, coins + 32, 32); }
  o_keygen(I->k, pk, sk, coins);
  if (rndn(&r, 3)) rbytes(&r, coins, 32); else hostile_bytes(&r, coins, 32);
  o_enc(I->k, honest, true_ss, pk, coins);
  KEY("%s:reject", I->name);
  uint8_t *c = ct;
  switch (item % 13) {
    case 0: case 1: case 2: case 3: /* single-bit flips: all of them over four items */
      for (long x = item % 4; x < 8 * n; x += 4) { memcpy(c, honest, p->ctb); c[x / 8] ^= (uint8_t)(1 << (x % 8)); try_reject(I, c, "bitflip", x / 8, x % 8); }
      stat_add("exhaustive_bitflip_quarters", 1);
      break;
    case 4: /* single byte, other differences */
      for (long x = 0; x < n; x++) { memcpy(c, honest, p->ctb); c[x] ^= x & 1 ? 0xff : (uint8_t)(1 + rndn(&r, 255)); try_reject(I, c, "byte", x, c[x] ^ honest[x]); }
      break;
    case 5: case 6: { /* pairs of equal xor differences */
      static const long dist[] = {1, 2, 4, 8, 16, 32, 64, 128, 256, 320, 352, 384, 512};
      for (long x = 0; x < n; x++) {
        long y = rndn(&r, 3) ? x + dist[rndn(&r, 13)] * (1 + rndn(&r, 2)) : (long)rndn(&r, (uint32_t)n);
        if (rndn(&r, 8) == 0) y = n - 1 - x;
        if (y >= n || y == x) continue;
        uint8_t d = rndn(&r, 2) ? 0x80 : rndn(&r, 2) ? 0xff : (uint8_t)(1 + rndn(&r, 255));
        memcpy(c, honest, p->ctb); c[x] ^= d; c[y] ^= d; try_reject(I, c, "xorpair", x, y);
      }
      break; }
    case 7: { /* pairs whose sum cancels; sums that wrap to 0 mod 256 or 65536 */
      for (long x = 0; x < n; x++) {
        long y = rndn(&r, 2) ? x + 1 + rndn(&r, 64) : (long)rndn(&r, (uint32_t)n);
        if (y >= n || y == x) continue;
        uint8_t d = (uint8_t)(1 + rndn(&r, 255));
        memcpy(c, honest, p->ctb); c[x] = (uint8_t)(c[x] + d); c[y] = (uint8_t)(c[y] - d); try_reject(I, c, "sumpair", x, y);
      }
      for (int t = 0; t < 24; t++) {
        static const struct { int cnt; uint8_t d; } W[] = {{2, 0x80}, {4, 0x40}, {8, 0x20}, {16, 0x10}, {32, 8}, {64, 4}, {128, 2}, {256, 1}, {512, 0x80}, {257, 0xff}, {512, 1}, {256, 0xff}};
        int w = t % 12; long at = (long)rndn(&r, (uint32_t)(n - W[w].cnt + 1)), st = 1;
        if (t >= 12 && W[w].cnt <= 64) { st = 2 + rndn(&r, 7); at = 0; }
        memcpy(c, honest, p->ctb);
        for (int q = 0; q < W[w].cnt; q++) c[at + q * st] ^= W[w].d;
        if (W[w].cnt == 257 && at > 0) c[at - 1] ^= 1;
        try_reject(I, c, "wrap", W[w].cnt, W[w].d);
      }
      break; }
    case 8: /* runs, word-wise and suffix/prefix differences */
      for (int t = 0; t < 600; t++) {
        long at = (long)rndn(&r, (uint32_t)n), len = 1 + (long)rndn(&r, t & 1 ? 64 : (uint32_t)n);
        if (t % 5 == 0) at = 0;
        if (t % 5 == 1) at = n - len > 0 ? n - len : 0;
        uint8_t d = (uint8_t)(1 + rndn(&r, 255));
        memcpy(c, honest, p->ctb);
        for (long q = at; q < at + len && q < n; q++) c[q] ^= t % 3 ? d : (uint8_t)rnd(&r);
        try_reject(I, c, "run", at, len);
      }
      break;
    case 9: { /* whole-ciphertext replacements */
      uint8_t c2[OMAX_CT], k2[32], d2[64], op[OMAX_PK], os[OMAX_SK];
      size_t u = 32 * (size_t)p->du * (size_t)p->k;
      for (int t = 0; t < 40; t++) {
        rbytes(&r, d2, 32); o_enc(I->k, c2, k2, pk, d2);
        memcpy(c, honest, u); memcpy(c + u, c2 + u, p->ctb - u); try_reject(I, c, "mixed-v", t, 0);
        memcpy(c, c2, u); memcpy(c + u, honest + u, p->ctb - u); try_reject(I, c, "mixed-u", t, 0);
        rbytes(&r, d2, 64); o_keygen(I->k, op, os, d2); o_enc(I->k, c2, k2, op, coins);
        try_reject(I, c2, "other-key", t, 0);
        for (size_t q = 0; q < p->ctb; q++) c[q] = honest[(q + 1 + (size_t)t) % p->ctb];
        try_reject(I, c, "rotated", t + 1, 0);
      }
      for (long x = 0; x < n; x++) c[x] = honest[n - 1 - x];
      try_reject(I, c, "reversed", 0, 0);
      for (long x = 0; x < n; x++) c[x] = (uint8_t)~honest[x];
      try_reject(I, c, "complement", 0, 0);
      memset(c, 0, p->ctb); try_reject(I, c, "zero", 0, 0);
      memset(c, 255, p->ctb); try_reject(I, c, "ones", 0, 0);
      for (long x = 0; x + 1 < n; x += 1) { memcpy(c, honest, p->ctb); uint8_t t = c[x]; c[x] = c[x + 1]; c[x + 1] = t; try_reject(I, c, "swap", x, x + 1); }
      for (int w = 4; w <= 64; w *= 2) for (long x = 0; x + 2 * w <= n; x += w) { memcpy(c, honest, p->ctb); memcpy(c + x, honest + x + w, (size_t)w); memcpy(c + x + w, honest + x, (size_t)w); try_reject(I, c, "swapword", x, w); }
      break; }
    case 10: /* k random bytes changed, k = 2.. */
      for (int t = 0; t < 800; t++) {
        int q = 2 + (int)rndn(&r, 30);
        memcpy(c, honest, p->ctb);
        while (q--) c[rndn(&r, (uint32_t)n)] ^= (uint8_t)rnd(&r);
        try_reject(I, c, "multi", t, 0);
      }
      break;
    case 11: for (int t = 0; t < 150; t++) low_impact(&r, I, c, n, t + 7 * (int)(item / 13)); break;
    default: { /* every z bit matters, honest ciphertext still accepted */
      memcpy(c, honest, p->ctb);
      memset(ss, 0, 32);
      I->dec(ss, c, sk);
      if (memcmp(ss, true_ss, 32)) { char key[100]; snprintf(key, sizeof key, "%s:reject:honest", I->name); viol(key, "honest ciphertext not accepted; ct=%s sk=%s", hexs(c, p->ctb), hexs(sk, p->skb)); }
      stat_add("honest_accepted", 1);
      for (int b = 0; b < 256; b++) {
        sk[p->skb - 32 + (size_t)b / 8] ^= (uint8_t)(1 << (b % 8));
        memcpy(c, honest, p->ctb); c[rndn(&r, (uint32_t)n)] ^= (uint8_t)(1 << rndn(&r, 8));
        try_reject(I, c, "zbit", b, 0);
        /* and rejected for every message the ciphertext could decrypt to */
        sk[p->skb - 64 + (size_t)b / 8] ^= (uint8_t)(1 << (b % 8));
        memcpy(c, honest, p->ctb); c[n - 1 - b % 128] ^= 0x80; try_reject(I, c, "hbit", b, 0);
        sk[p->skb - 64 + (size_t)b / 8] ^= (uint8_t)(1 << (b % 8));
      }
      break; }
  }
  sample("reject item %ld %s class %ld honest ct[0..15]=%s", i, I->name, item % 13, hexs(honest, 16));
}

/* ---- C06 ------------------------------------------------------------------- */
static const impl *byk(int k, int avx2)
{
  for (int n = 0; n < NIMPL; n++) if (IMPLS[n].k == k && IMPLS[n].avx2 == avx2) return &IMPLS[n];
  return 0;
}
static void c_cross(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 7, (uint64_t)i); place(&r);
  int k = 2 + (int)(i % 3);
  const oparams *p = o_params(k);
  const impl *A = byk(k, 0), *B = byk(k, 1);
  char nm[32]; snprintf(nm, sizeof nm, "kyber%d ref/avx2", k == 2 ? 512 : k == 3 ? 768 : 1024);
  if (!A || !B) return;
  /* a chain: outputs of one implementation feed the next step of the other */
  seed_for(i % 4 ? i + 100000 : i / 4, &r, coins, 64);
  for (int step = 0; step < 8; step++) {
    int ra, rb, what = step == 0 ? 0 : (int)rndn(&r, 5);
    h_tick++; snprintf(h_ctx, sizeof h_ctx, "%s chain %ld step %d op %d", nm, i, step, what); KEY("%s", nm);
    memset(wpk, 1, p->pkb); memset(pk2, 2, p->pkb); memset(wct, 1, p->ctb); memset(ct2, 2, p->ctb); memset(wss, 1, 32); memset(ss2, 2, 32);
    snprintf(fc, sizeof fc, "%ld step %d op %d coins=%s", i, step, what, hexs(coins, 64));
    switch (what) {
      case 0:
        ra = A->keypair_derand(wpk, wsk, coins); rb = B->keypair_derand(pk2, sk2, coins);
        same(nm, "keygen:pk", pk2, wpk, p->pkb, fc); same(nm, "keygen:sk", sk2, wsk, p->skb, fc);
        memcpy(pk, step & 1 ? wpk : pk2, p->pkb); memcpy(sk, step & 1 ? pk2 == 0 ? wsk : wsk : sk2, p->skb);
        distinct(hash64(coins, 64, 7));
        break;
      case 1: case 2:
        if (what == 2) { int h = (int)rndn(&r, 6); make_pk(&r, k, pk, h); }
        if (rndn(&r, 2)) hostile_bytes(&r, coins, 32); else if (rndn(&r, 4) == 0) related(&r, coins, pk, p->pkb);
        snprintf(fc, sizeof fc, "%ld step %d op %d coins=%s pk=%s", i, step, what, hexs(coins, 32), hexs(pk, p->pkb));
        ra = A->enc_derand(wct, wss, pk, coins); rb = B->enc_derand(ct2, ss2, pk, coins);
        same(nm, "enc:ct", ct2, wct, p->ctb, fc); same(nm, "enc:ss", ss2, wss, 32, fc);
        memcpy(ct, ct2, p->ctb); memcpy(coins, ss2, 32);
        distinct(hash64(pk, p->pkb, hash64(coins, 32, 7)));
        break;
      default:
        if (what == 4) make_sk_ct(&r, k, sk, ct, (int)rndn(&r, 11));
        else if (step < 2 || rndn(&r, 3) == 0) hostile_ct(&r, k, ct);
        snprintf(fc, sizeof fc, "%ld step %d op %d ct=%s sk=%s", i, step, what, hexs(ct, p->ctb), hexs(sk, p->skb));
        ra = A->dec(wss, ct, sk); rb = B->dec(ss2, ct, sk);
        same(nm, "dec:ss", ss2, wss, 32, fc);
        memcpy(coins + 32, ss2, 32);
        distinct(hash64(ct, p->ctb, hash64(sk, p->skb, 7)));
        break;
    }
    if (ra != rb) viol(nm, "return values differ: %d %d; case %s", ra, rb, fc);
    stat_add("paired_calls", 1);
  }
  sample("cross chain %ld k=%d final coins=%s", i, k, hexs(coins, 64));
}

/* ---- C09 ------------------------------------------------------------------- */
static void setd(uint8_t *c, size_t i, int d, unsigned v)
{
  for (int t = 0; t < d; t++) { size_t x = i * (size_t)d + (size_t)t; c[x / 8] = (uint8_t)((c[x / 8] & ~(1 << (x % 8))) | ((v >> t & 1) << (x % 8))); }
}
static void pke_dec_all(int k, const char *what, long i)
{
  const oparams *p = o_params(k);
  int used = 0;
  distinct(hash64(ct, p->ctb, hash64(sk, (size_t)(384 * k), 9)));
  for (int n = 0; n < NIMPL; n++) {
    const impl *I = &IMPLS[n];
    if (I->k != k || !use_impl(I)) continue;
    if (!used++) o_pke_dec(k, wss, ct, sk);
    KEY("%s:pke_dec", I->name); CTX("%s indcpa_dec %s %ld", I->name, what, i);
    snprintf(fc, sizeof fc, "%s %ld ct=%s sk=%s", what, i, hexs(ct, p->ctb), hexs(sk, (size_t)(384 * k)));
    memset(ss, (int)i, 32);
    I->pke_dec(ss, ct, sk);
    same(I->name, "pke_dec:m", ss, wss, 32, fc);
    stat_add("pke_dec", 1);
  }
}
static void c_pke(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 8, (uint64_t)i); place(&r);
  int k = 2 + (int)(i % 3);
  const oparams *p = o_params(k);
  if (a_k && a_k != k) return;
  /* key generation */
  seed_for(i / 3, &r, coins, 32);
  int used = 0;
  for (int n = 0; n < NIMPL; n++) {
    const impl *I = &IMPLS[n];
    if (I->k != k || !use_impl(I)) continue;
    if (!used++) o_pke_keygen(k, wpk, wsk, coins);
    KEY("%s:pke_kp", I->name); CTX("%s indcpa_keypair case %ld", I->name, i);
    snprintf(fc, sizeof fc, "%ld d=%s", i, hexs(coins, 32));
    I->pke_kp(pk, sk, coins);
    same(I->name, "pke_keygen:pk", pk, wpk, p->pkb, fc);
    same(I->name, "pke_keygen:sk", sk, wsk, (size_t)(384 * k), fc);
    stat_add("pke_keygen", 1);
  }
  distinct(hash64(coins, 32, 9));
  /* encryption with independent arbitrary coins and message */
  if (i % 2) make_pk(&r, k, pk, (int)rndn(&r, 6)); else memcpy(pk, wpk, p->pkb);
  if (i % 4 == 0) { memset(m, i & 4 ? 0xff : 0, 32); m[(i / 8) % 32] ^= (uint8_t)(1 << (i / 256 % 8)); } else hostile_bytes(&r, m, 32);
  if (rndn(&r, 2)) rbytes(&r, coins, 32); else hostile_bytes(&r, coins, 32);
  switch (rndn(&r, 6)) { case 0: memcpy(coins, m, 32); break; case 1: related(&r, m, pk, p->pkb); break; case 2: related(&r, coins, pk, p->pkb); break; default: break; }
  used = 0;
  for (int n = 0; n < NIMPL; n++) {
    const impl *I = &IMPLS[n];
    if (I->k != k || !use_impl(I)) continue;
    if (!used++) o_pke_enc(k, wct, m, pk, coins);
    KEY("%s:pke_enc", I->name); CTX("%s indcpa_enc case %ld", I->name, i);
    snprintf(fc, sizeof fc, "%ld m=%s coins=%s pk=%s", i, hexs(m, 32), hexs(coins, 32), hexs(pk, p->pkb));
    I->pke_enc(ct, m, pk, coins);
    same(I->name, "pke_enc:ct", ct, wct, p->ctb, fc);
    stat_add("pke_enc", 1);
  }
  distinct(hash64(pk, p->pkb, hash64(coins, 32, hash64(m, 32, 9))));
  /* decryption: the ciphertext above, a hostile ciphertext, hostile keys */
  memcpy(ct, wct, p->ctb);
  memcpy(sk, wsk, (size_t)(384 * k));
  pke_dec_all(k, "honest", i);
  hostile_ct(&r, k, ct);
  pke_dec_all(k, "hostile-ct", i);
  hostile12(&r, sk, 256 * k);
  pke_dec_all(k, "hostile-sk", i);
  sample("pke case %ld k=%d m=%s", i, k, hexs(m, 32));
}
/* exhaustive rounding: secret polynomial = constant cst at coefficient 0 of component comp, all
 * pairs (u field, v field) */
static void c_pkeround(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 9, (uint64_t)i); place(&r);
  int k = 2 + (int)(i % 3);
  const oparams *p = o_params(k);
  if (a_k && a_k != k) return;
  long blk = i / 3, nblk = (1L << (p->du + p->dv)) / 256;
  int comp = (int)((blk / nblk) % k);
  unsigned mult = blk / nblk == 0 ? 1 : EDGE12[rndn(&r, NEDGE12)];
  blk %= nblk;
  memset(sk, 0, 384 * (size_t)k);
  for (int j = 0; j < 256; j += 2) set12(sk + 384 * comp, j, mult); /* NTT of the constant polynomial */
  memset(ct, 0, p->ctb);
  for (int j = 0; j < 256; j++) {
    unsigned x = (unsigned)(blk * 256 + j);
    setd(ct, (size_t)(256 * comp + j), p->du, x >> p->dv);
    setd(ct + 32 * p->du * k, (size_t)j, p->dv, x & ((1u << p->dv) - 1));
  }
  pke_dec_all(k, "rounding", i);
  stat_add("rounding_blocks", 1);
}

/* ---- volume: many cheap random cases of the same comparisons, for values that occur once in a
 * few hundred thousand uses ------------------------------------------------------------------ */
static int vol_k; static const oparams *vol_p; static const impl *vol_I[2]; static int vol_n;
static rng vol_r;
static int vol_begin(long i, int what)
{
  rng_init(&vol_r, a_seed * 1000 + 20 + (uint64_t)what, (uint64_t)i);
  vol_k = 2 + (int)(i % 3);
  if (a_k && a_k != vol_k) return 0;
  vol_p = o_params(vol_k); vol_n = 0;
  place(&vol_r);
  for (int n = 0; n < NIMPL; n++) if (IMPLS[n].k == vol_k && use_impl(&IMPLS[n])) vol_I[vol_n++] = &IMPLS[n];
  if (!vol_n) return 0;
  rbytes(&vol_r, coins, 64); rbytes(&vol_r, m, 32);
  distinct(hash64(coins, 64, hash64(m, 32, (uint64_t)vol_k)));
  stat_add("volume", 1);
  return 1;
}
static const char *vol_case(long i) { snprintf(fc, sizeof fc, "volume %ld coins=%s m=%s", i, hexs(coins, 64), hexs(m, 32)); return fc; }
#define VSAME(I, what, a, b, n) do { if (memcmp(a, b, n)) { KEY("%s:%s", (I)->name, what); same((I)->name, what, a, b, n, vol_case(i)); } } while (0)
#define VRET(I, op, call) do { KEY("%s:" op, (I)->name); CTX("%s " op " volume case %ld", (I)->name, i); int rv_ = (call); if (rv_) { vol_case(i); chk_ret(I, op, rv_); } } while (0)
static const impl *vol_pick(void) { return vol_I[rndn(&vol_r, (uint32_t)vol_n)]; }
static void vol_flip(uint8_t *c)
{
  uint32_t n = rndn(&vol_r, 4), len = (uint32_t)vol_p->ctb;
  uint32_t at = rndn(&vol_r, 3) ? rndn(&vol_r, len) : rndn(&vol_r, 2) ? len - 1 - rndn(&vol_r, 8) : rndn(&vol_r, 8);
  c[at] ^= (uint8_t)(n ? 1u << rndn(&vol_r, 8) : 1 + rndn(&vol_r, 255));
  if (n == 3) { uint32_t b = (at + 1 + rndn(&vol_r, len - 1)) % len; c[b] ^= (uint8_t)(1 + rndn(&vol_r, 255)); }
}
static void v_keygen(long i)
{
  if (!vol_begin(i, 0)) return;
  o_keygen(vol_k, wpk, wsk, coins);
  for (int n = 0; n < vol_n; n++) {
    const impl *I = vol_I[n];
    VRET(I, "keygen", I->keypair_derand(pk, sk, coins));
    VSAME(I, "keygen:pk", pk, wpk, vol_p->pkb);
    VSAME(I, "keygen:sk", sk, wsk, vol_p->skb);
  }
}
static void v_enc(long i)
{
  if (!vol_begin(i, 1)) return;
  vol_I[vol_n - 1]->keypair_derand(pk, sk, coins);
  o_enc(vol_k, wct, wss, pk, m);
  for (int n = 0; n < vol_n; n++) {
    const impl *I = vol_I[n];
    VRET(I, "enc", I->enc_derand(ct, ss, pk, m));
    VSAME(I, "enc:ct", ct, wct, vol_p->ctb);
    VSAME(I, "enc:ss", ss, wss, 32);
  }
}
static void v_dec(long i)
{
  if (!vol_begin(i, 2)) return;
  vol_I[vol_n - 1]->keypair_derand(pk, sk, coins);
  vol_I[vol_n - 1]->enc_derand(ct, ss, pk, m);
  if (rndn(&vol_r, 2)) vol_flip(ct);
  if (!rndn(&vol_r, 4)) rbytes(&vol_r, sk + vol_p->skb - 64, 64);
  stat_add(o_dec(vol_k, wss, ct, sk) ? "dec_accepting" : "dec_rejecting", 1);
  for (int n = 0; n < vol_n; n++) {
    const impl *I = vol_I[n];
    VRET(I, "dec", I->dec(ss2, ct, sk));
    VSAME(I, "dec:ss", ss2, wss, 32);
  }
}
static void v_agree(long i)
{
  if (!vol_begin(i, 3)) return;
  const impl *A = vol_pick(), *B = vol_pick(), *C = vol_pick();
  VRET(A, "keygen", A->keypair_derand(pk, sk, coins));
  for (int t = 0; t < 2; t++) {
    m[5] ^= (uint8_t)t;
    VRET(B, "enc", B->enc_derand(ct, ss, pk, m));
    VRET(C, "dec", C->dec(ss2, ct, sk));
    VSAME(C, "agree", ss2, ss, 32);
  }
}
static void v_reject(long i)
{
  if (!vol_begin(i, 4)) return;
  vol_I[vol_n - 1]->keypair_derand(pk, sk, coins);
  vol_I[vol_n - 1]->enc_derand(ct, ss, pk, m);
  vol_flip(ct);
  o_reject_key(vol_k, wss, ct, sk);
  for (int n = 0; n < vol_n; n++) {
    const impl *I = vol_I[n];
    VRET(I, "dec", I->dec(ss2, ct, sk));
    VSAME(I, "reject:ss", ss2, wss, 32);
  }
}
static void v_cross(long i)
{
  if (!vol_begin(i, 5) || vol_n < 2) return;
  const impl *A = vol_I[0], *B = vol_I[1];
  VRET(A, "keygen", A->keypair_derand(pk, sk, coins)); VRET(B, "keygen", B->keypair_derand(pk2, sk2, coins));
  VSAME(B, "cross:pk", pk2, pk, vol_p->pkb); VSAME(B, "cross:sk", sk2, sk, vol_p->skb);
  VRET(A, "enc", A->enc_derand(ct, ss, pk, m)); VRET(B, "enc", B->enc_derand(ct2, ss2, pk, m));
  VSAME(B, "cross:ct", ct2, ct, vol_p->ctb); VSAME(B, "cross:enc-ss", ss2, ss, 32);
  if (rndn(&vol_r, 2)) vol_flip(ct);
  VRET(A, "dec", A->dec(ss, ct, sk)); VRET(B, "dec", B->dec(ss2, ct, sk));
  VSAME(B, "cross:dec-ss", ss2, ss, 32);
}
static void v_pke(long i)
{
  if (!vol_begin(i, 6)) return;
  o_pke_keygen(vol_k, wpk, wsk, coins);
  o_pke_enc(vol_k, wct, m, wpk, coins + 32);
  for (int n = 0; n < vol_n; n++) {
    const impl *I = vol_I[n];
    KEY("%s:pke", I->name); CTX("%s pke volume case %ld", I->name, i);
    I->pke_kp(pk, sk, coins);
    VSAME(I, "pke_keygen:pk", pk, wpk, vol_p->pkb); VSAME(I, "pke_keygen:sk", sk, wsk, (size_t)(384 * vol_k));
    I->pke_enc(ct, m, wpk, coins + 32);
    VSAME(I, "pke_enc", ct, wct, vol_p->ctb);
    I->pke_dec(ss, wct, wsk);
    VSAME(I, "pke_dec", ss, m, 32);
  }
}

int main(int c, char **v)
{
  static const struct { const char *n; void (*f)(long); } M[] = {
    {"keygen", c_keygen}, {"enc", c_enc}, {"encflip", c_encflip}, {"dec", c_dec}, {"agree", c_agree},
    {"reject", c_reject}, {"cross", c_cross}, {"pke", c_pke}, {"pkeround", c_pkeround},
    {"volkeygen", v_keygen}, {"volenc", v_enc}, {"voldec", v_dec}, {"volagree", v_agree}, {"volreject", v_reject}, {"volcross", v_cross}, {"volpke", v_pke} };
  h_args(c, v);
  h_monitors();
  for (size_t i = 0; i < sizeof M / sizeof M[0]; i++)
    if (!strcmp(a_mode, M[i].n)) {
      /* the volume modes stop early on a slow machine */
      const char *tier = getenv("VERIF_TIER");
      double soft = strncmp(a_mode, "vol", 3) ? 1e9 : tier && !strcmp(tier, "thorough") ? 380 : 100;
      struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
      for (long j = a_start + a_worker; j < a_start + a_n; j += a_workers) {
        M[i].f(j);
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((double)(t1.tv_sec - t0.tv_sec) > soft) { stat_add("stopped_by_time", 1); break; }
      }
      stat_add("cases", 0);
      h_finish(1);
      return 0;
    }
  fprintf(stderr, "unknown mode\n");
  return 3;
}
