/* Coverage-guided differential monitor: libFuzzer drives the inputs (edge coverage, comparison operands and
 * value profile of the code under test), the model judges every output.  An input is a short recipe:
 *   op, k, base, 64 bytes used directly as seed / coins / message, then edits (target, offset, length, how, data)
 * applied to a key or ciphertext made by the model. */
#include "gen.h"
#include <unistd.h>
extern int LLVMFuzzerRunDriver(int *, char ***, int (*)(const uint8_t *, size_t));

static const uint8_t *D; static size_t N, P;
static uint8_t u8(void) { return P < N ? D[P++] : 0; }
static void take(uint8_t *o, size_t n) { for (size_t i = 0; i < n; i++) o[i] = u8(); }
static uint8_t pk[OMAX_PK], sk[OMAX_SK], ct[OMAX_CT], ss[32], wpk[OMAX_PK], wsk[OMAX_SK], wct[OMAX_CT], wss[32], x[64], seed[64];
static char fc[64000];
/* edit n bytes at p; the recipe may address them as bytes or as 12-bit coefficients */
static int edits(uint8_t *p, size_t n, int max)
{
  int c = 0;
  while (P < N && c < max) {
    uint8_t how = u8(); size_t off = (size_t)u8() | (size_t)u8() << 8, len = u8();
    if (how == 0xff) break;
    off %= n; if (how & 0x10) off = n - 1 - off;
    if (len > n - off) len = n - off;
    c++;
    switch (how & 7) {
      case 0: p[off] = u8(); break;
      case 1: p[off] ^= (uint8_t)(1 << (len & 7)); break;
      case 2: take(p + off, len); break;
      case 3: memset(p + off, u8(), len); break;
      case 4: { size_t i = off / 3 * 2; if (3 * (i / 2) + 3 <= n) set12(p, (int)i, (unsigned)u8() << 4 | (len & 15)); break; }
      case 5: { unsigned v = (unsigned)u8() << 4 | (len & 15); size_t st = 1u << (how >> 5); for (size_t i = 0; 3 * (i / 2) + 3 <= n; i += st) set12(p, (int)i, v); break; }
      case 6: { size_t from = ((size_t)u8() * 32) % n; if (len > n - from) len = n - from; memmove(p + off, p + from, len); break; }
      default: for (size_t i = 0; i < len; i++) p[off + i] = (uint8_t)(p[off + i] + u8()); break;
    }
  }
  return c;
}
/* keys made by the model, a few per parameter set */
static struct { int used; uint8_t pk[OMAX_PK], sk[OMAX_SK], seed[64]; } base[5][32];
static void honest(int k, int b)
{
  const oparams *p = o_params(k);
  b %= 32;
  if (!base[k][b].used) {
    rng r; rng_init(&r, a_seed, (uint64_t)(77 + b)); rbytes(&r, base[k][b].seed, 64);
    if (b == 1) memset(base[k][b].seed, 0, 64);
    if (b == 2) memset(base[k][b].seed, 0xff, 64);
    o_keygen(k, base[k][b].pk, base[k][b].sk, base[k][b].seed); base[k][b].used = 1;
  }
  memcpy(pk, base[k][b].pk, p->pkb); memcpy(sk, base[k][b].sk, p->skb); memcpy(seed, base[k][b].seed, 64);
}
enum { F_KG = 1, F_ENC = 2, F_DEC = 4, F_REJ = 8, F_PKE = 16, F_CROSS = 32 };
static int ops;
#define EACH(I) for (int n_ = 0; n_ < NIMPL; n_++) for (const impl *I = &IMPLS[n_]; I; I = 0) if (I->k == k && use_impl(I))
static void chk(const impl *I, const char *op, int rv) { if (rv && judged()) { char key[100]; snprintf(key, sizeof key, "%s:%s:return", I->name, op); viol(key, "returned %d; case %s", rv, fc); } }
static int one(const uint8_t *d, size_t n)
{
  D = d; N = n; P = 0;
  int k = 2 + u8() % 3, b = u8(), f = u8(); const oparams *p = o_params(k);
  take(x, 64);
  distinct(hash64(d, n, 11));
  stat_add("recipes", 1);
  if (ops & F_KG) {
    snprintf(fc, sizeof fc, "coins=%s", hexs(x, 64));
    o_keygen(k, wpk, wsk, x);
    EACH(I) {
      KEY("%s:keygen", I->name); CTX("%s keygen %s", I->name, fc);
      memset(pk, 0xee, p->pkb); memset(sk, 0xee, p->skb);
      chk(I, "keygen", I->keypair_derand(pk, sk, x));
      same(I->name, "keygen:pk", pk, wpk, p->pkb, fc); same(I->name, "keygen:sk", sk, wsk, p->skb, fc);
    }
  }
  if (ops & F_ENC) {
    honest(k, b);
    if (f & 1) memset(pk, b, p->pkb);
    if (f & 2) memcpy(x, pk + p->pkb - 32, 32);
    if (f & 4) o_sha3_256(x, pk, p->pkb);
    edits(pk, p->pkb, 40);
    snprintf(fc, sizeof fc, "coins=%s pk=%s", hexs(x, 32), hexs(pk, p->pkb));
    o_enc(k, wct, wss, pk, x);
    EACH(I) {
      KEY("%s:enc", I->name); CTX("%s enc", I->name); memset(ct, 0xee, p->ctb); memset(ss, 0xee, 32);
      chk(I, "enc", I->enc_derand(ct, ss, pk, x));
      same(I->name, "enc:ct", ct, wct, p->ctb, fc); same(I->name, "enc:ss", ss, wss, 32, fc);
    }
  }
  if (ops & (F_DEC | F_REJ)) {
    uint8_t t[64], g[64], hon[OMAX_CT];
    honest(k, b);
    int rej = !(ops & F_DEC), acc = 0;
    if (!rej) {
      if (f & 1) memset(sk, b, p->skb);
      if (f & 2) memcpy(sk + p->skb - 32, x + 32, 32);
      if (f & 4) memcpy(sk + p->skb - 64, x + 32, 32);
      if (f & 8) memcpy(sk + p->skb - 64, sk + p->skb - 96, 32);
      if (f & 16) memcpy(sk + p->skb - 32, sk + p->skb - 64, 32);
      edits(sk, p->skb, 1 + f % 8);
    } else if (f & 2) memcpy(sk + p->skb - 32, x + 32, 32);
    memcpy(t, x, 32); memcpy(t + 32, sk + p->skb - 64, 32);
    if (f & 32) memcpy(t, t + 32, 32);
    o_sha3_512(g, t, 64);
    o_pke_enc(k, ct, t, sk + 384 * k, g + 32);
    memcpy(hon, ct, p->ctb);
    edits(ct, p->ctb, 40);
    if (rej) { if (!memcmp(hon, ct, p->ctb)) return 0; o_reject_key(k, wss, ct, sk); } else acc = o_dec(k, wss, ct, sk);
    snprintf(fc, sizeof fc, "accept=%d ct=%s sk=%s", acc, hexs(ct, p->ctb), hexs(sk, p->skb));
    EACH(I) {
      KEY("%s:dec", I->name); CTX("%s dec", I->name); memset(ss, 0xee, 32);
      chk(I, "dec", I->dec(ss, ct, sk));
      same(I->name, acc ? "dec:accept" : "dec:reject", ss, wss, 32, fc);
    }
    stat_add(acc ? "accepting" : "rejecting", 1);
  }
  if (ops & F_PKE) {
    honest(k, b);
    snprintf(fc, sizeof fc, "d=%s", hexs(x, 32));
    if (f % 3 == 0) {
      o_pke_keygen(k, wpk, wsk, x);
      EACH(I) { KEY("%s:pke_kp", I->name); CTX("%s indcpa_keypair", I->name); I->pke_kp(pk, sk, x); same(I->name, "pke_keygen:pk", pk, wpk, p->pkb, fc); same(I->name, "pke_keygen:sk", sk, wsk, 384 * (size_t)k, fc); }
    } else if (f % 3 == 1) {
      edits(pk, p->pkb, 40);
      snprintf(fc, sizeof fc, "m=%s coins=%s pk=%s", hexs(x, 32), hexs(x + 32, 32), hexs(pk, p->pkb));
      o_pke_enc(k, wct, x, pk, x + 32);
      EACH(I) { KEY("%s:pke_enc", I->name); CTX("%s indcpa_enc", I->name); I->pke_enc(ct, x, pk, x + 32); same(I->name, "pke_enc:ct", ct, wct, p->ctb, fc); }
    } else {
      if (f & 4) { o_pke_enc(k, ct, x, pk, x + 32); } else memset(ct, x[0], p->ctb);
      if (f & 8) memset(sk, 0, 384 * (size_t)k);
      edits(sk, 384 * (size_t)k, 1 + (f >> 4) % 8);
      edits(ct, p->ctb, 40);
      snprintf(fc, sizeof fc, "ct=%s sk=%s", hexs(ct, p->ctb), hexs(sk, 384 * (size_t)k));
      o_pke_dec(k, wss, ct, sk);
      EACH(I) { KEY("%s:pke_dec", I->name); CTX("%s indcpa_dec", I->name); I->pke_dec(ss, ct, sk); same(I->name, "pke_dec:m", ss, wss, 32, fc); }
    }
  }
  return 0;
}
static void done(void) { h_finish(1); }
int main(int c, char **v)
{
  h_args(c, v); h_monitors();
  ops = !strcmp(a_mode, "keygen") ? F_KG : !strcmp(a_mode, "enc") ? F_ENC : !strcmp(a_mode, "dec") ? F_DEC : !strcmp(a_mode, "reject") ? F_REJ : !strcmp(a_mode, "pke") ? F_PKE : 0;
  if (!ops) return 3;
  /* a starting corpus */
  char dir[200], fn[300], runs[64], sd[64];
  snprintf(dir, sizeof dir, "%s/corpus.XXXXXX", getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp");
  if (!mkdtemp(dir)) { perror("mkdtemp"); return 3; }
  rng r; rng_init(&r, a_seed, 4000 + (uint64_t)a_worker);
  for (int i = 0; i < 24; i++) {
    uint8_t q[300]; size_t n = 67 + rndn(&r, 200);
    rbytes(&r, q, sizeof q); q[0] = (uint8_t)i; q[1] = (uint8_t)rndn(&r, 8); q[2] = i < 12 ? (uint8_t)(i / 3) : q[2];
    if (i % 4 == 0) memset(q + 3, 0, 64);
    if (i < 6) n = 67;
    snprintf(fn, sizeof fn, "%s/%d", dir, i); FILE *f = fopen(fn, "wb"); if (!f || fwrite(q, 1, n, f) != n) return 3; fclose(f);
  }
  snprintf(runs, sizeof runs, "-runs=%ld", a_n / a_workers); snprintf(sd, sizeof sd, "-seed=%llu", (unsigned long long)(a_seed * 100 + (uint64_t)a_worker + 1));
  char *args[] = { v[0], runs, sd, "-max_len=600", "-len_control=0", a_worker % 4 == 0 ? "-use_value_profile=1" : "-use_value_profile=0", "-timeout=100000", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-detect_leaks=0", "-reload=0",
    "-handle_segv=0", "-handle_bus=0", "-handle_abrt=0", "-handle_ill=0", "-handle_fpe=0", "-handle_int=0", "-handle_term=0", "-handle_xfsz=0", "-handle_usr1=0", "-handle_usr2=0", dir, 0 };
  int ac = (int)(sizeof args / sizeof *args) - 1; char **av = args;
  atexit(done);
  return LLVMFuzzerRunDriver(&ac, &av, one);
}
