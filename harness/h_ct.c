/* C14, C15: secrets are marked undefined and the compiled code runs under memcheck.
 * mode ct: every conditional jump, indirect jump or address that depends on a secret is an error.
 * mode div: every division instruction has been instrumented (vlib/divinst.py) to accumulate its
 *           operands' definedness in a per-site cell; a cell that becomes undefined saw a secret. */
#include "gen.h"
#include <valgrind/memcheck.h>
static int in_keygen; static unsigned g_calls;
#define WRAP(V) \
  void __real_pqcrystals_kyber_fips202_##V##_sha3_512(uint8_t *, const uint8_t *, size_t); \
  void __wrap_pqcrystals_kyber_fips202_##V##_sha3_512(uint8_t *o, const uint8_t *in, size_t n) { \
    __real_pqcrystals_kyber_fips202_##V##_sha3_512(o, in, n); \
    if (in_keygen) { g_calls++; VALGRIND_MAKE_MEM_DEFINED(o, 32); } } /* the seed of the matrix is public */
WRAP(ref) WRAP(avx2)
#ifdef DIVS
typedef struct { uint64_t taint, count; const char *name; } site;
extern site __start_vp_sites[] __attribute__((weak)), __stop_vp_sites[] __attribute__((weak));
uint64_t vp_r11;
uint32_t ctl_div(uint32_t a, uint32_t b); int32_t ctl_idiv(int32_t a, int32_t b); uint16_t ctl_div16(uint16_t a, uint16_t b); uint64_t ctl_rem64(const uint64_t *a, uint64_t b);
static uint64_t wide_taint;
typedef unsigned __int128 u128; typedef __int128 i128;
#define W128(F, TY) TY __real_##F(TY, TY); TY __wrap_##F(TY a, TY b) { uint64_t x = (uint64_t)a ^ (uint64_t)(a >> 64) ^ (uint64_t)b ^ (uint64_t)(b >> 64); wide_taint ^= x; TY r; \
  TY a2 = a, b2 = b; VALGRIND_MAKE_MEM_DEFINED(&a2, 16); VALGRIND_MAKE_MEM_DEFINED(&b2, 16); r = b2 ? __real_##F(a2, b2) : 0; return r; }
W128(__udivti3, u128) W128(__umodti3, u128) W128(__divti3, i128) W128(__modti3, i128)
static int undef64(const uint64_t *p) { uint64_t v = 0; int rc = (int)VALGRIND_GET_VBITS(p, &v, 8); if (rc != 1) { fprintf(stderr, "GET_VBITS: %d\n", rc); exit(3); } return v != 0; }
static uint64_t div_public;
static void reset_sites(void) { for (site *s = __start_vp_sites; s < __stop_vp_sites; s++) { s->taint = 0; s->count = 0; } wide_taint = 0; }
#endif
static uint8_t pk[OMAX_PK], sk[OMAX_SK], ct[OMAX_CT], ss[32], coins[64], wss[32];
static const char *a_var = "?";
static int tainted_since(unsigned e0) { return VALGRIND_COUNT_ERRORS != e0; }
static volatile uint8_t tab[256]; static volatile int sink;
__attribute__((noinline)) static void leak_branch(uint8_t s) { if (s & 4) sink++; }
__attribute__((noinline)) static void leak_index(uint8_t s) { sink += tab[s]; }
static void control(void)
{
  uint8_t s = 37; VALGRIND_MAKE_MEM_UNDEFINED(&s, 1);
#ifdef DIVS
  static uint64_t big[2] = { 7, 9 };
  struct { const char *n; int want; } t[8]; int k = 0;
  uint32_t x = 1000; int32_t y = -77; uint16_t z = 999; volatile uint32_t r = 0;
#define TRY(NAME, EXPR, WANT) do { reset_sites(); r += (uint32_t)(EXPR); int got = 0, ran = 0; \
    for (site *q = __start_vp_sites; q < __stop_vp_sites; q++) { ran += q->count != 0; got |= undef64(&q->taint); } \
    if (!ran || got != (WANT)) { fprintf(stderr, "division monitor control %s failed (sites hit %d, seen %d)\n", NAME, ran, got); exit(3); } } while (0)
  (void)t; (void)k;
  TRY("public", ctl_div(1000, 7), 0);
  VALGRIND_MAKE_MEM_UNDEFINED(&x, 1); TRY("secret numerator bit", ctl_div(x | 1, 7), 1); TRY("secret denominator", ctl_div(1000, x | 1), 1);
  VALGRIND_MAKE_MEM_UNDEFINED(&y, 4); TRY("signed", ctl_idiv(y, 77), 1);
  VALGRIND_MAKE_MEM_UNDEFINED(&z, 2); TRY("16 bit", ctl_div16(z, 9), 1);
  VALGRIND_MAKE_MEM_UNDEFINED(big, 16); TRY("memory operand", ctl_rem64(big, 12345), 1);
  VALGRIND_MAKE_MEM_DEFINED((void *)&r, 4); sink = 0; reset_sites();
#else
  unsigned e0 = VALGRIND_COUNT_ERRORS; leak_branch(s);
  unsigned e1 = VALGRIND_COUNT_ERRORS; leak_index(s);
  unsigned e2 = VALGRIND_COUNT_ERRORS;
  if (e1 == e0 || e2 == e1) { fprintf(stderr, "taint monitor control failed: branch %u index %u\n", e1 - e0, e2 - e1); exit(3); }
  sink = 0; VALGRIND_MAKE_MEM_DEFINED((void *)&sink, 4);
  fprintf(stderr, "VPCONTROLEND\n");
#endif
}
static void verdict(const impl *I, const char *op, unsigned e0, const char *fc)
{
  char key[200];
#ifdef DIVS
  (void)e0;
  for (site *q = __start_vp_sites; q < __stop_vp_sites; q++) {
    if (!q->count) continue;
    div_public += q->count; stat_add("divisions_executed", q->count);
    if (undef64(&q->taint)) { VALGRIND_MAKE_MEM_DEFINED(&q->taint, 8); snprintf(key, sizeof key, "%s:%s:division:%.80s", I->name, op, q->name); viol(key, "secret operand of a division in build %s at %s; case %s", a_var, q->name, fc); }
  }
  if (undef64(&wide_taint)) { VALGRIND_MAKE_MEM_DEFINED(&wide_taint, 8); snprintf(key, sizeof key, "%s:%s:division:128-bit", I->name, op); viol(key, "secret operand of a 128-bit division in build %s; case %s", a_var, fc); }
  reset_sites();
#else
  if (tainted_since(e0)) { snprintf(key, sizeof key, "%s:%s:secret-dependent", I->name, op); viol(key, "memcheck reports control flow or an address depending on a secret in build %s (report on stderr of the run); case %s", a_var, fc); fprintf(stderr, "VPERR %s\n", key); }
#endif
  stat_add(!strcmp(op, "dec") ? "dec" : op[0] == 'k' ? "keygen" : "enc", 1);
}
static void c_ct(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 111, (uint64_t)i);
  const impl *I = &IMPLS[i % NIMPL]; int k = I->k; const oparams *p = o_params(k);
  if (!use_impl(I)) return;
  long c = i / NIMPL; char fc[200]; unsigned e0;
  snprintf(fc, sizeof fc, "%ld %s build %s", i, I->name, a_var);
  KEY("%s:ct", I->name); CTX("%s", fc);
  /* key generation: all of d and z is secret */
  if (c % 2) hostile_bytes(&r, coins, 64); else rbytes(&r, coins, 64);
  distinct(hash64(coins, 64, hash64(a_var, strlen(a_var), (uint64_t)k)));
  VALGRIND_MAKE_MEM_UNDEFINED(coins, 64);
  e0 = VALGRIND_COUNT_ERRORS; in_keygen = 1; g_calls = 0;
  I->keypair_derand(pk, sk, coins);
  in_keygen = 0;
  if (g_calls) verdict(I, "keygen", e0, fc);
  else stat_add("keygen_without_a_declassification_point", 1);   /* seeds not derived through sha3_512: cannot be judged */
  VALGRIND_MAKE_MEM_DEFINED(coins, 64); VALGRIND_MAKE_MEM_DEFINED(pk, sizeof pk); VALGRIND_MAKE_MEM_DEFINED(sk, sizeof sk);
  /* encapsulation: the coins are secret, any public key */
  if (c % 6 == 5) make_pk(&r, k, pk, (int)rndn(&r, 6));
  rbytes(&r, coins, 32);
  VALGRIND_MAKE_MEM_UNDEFINED(coins, 32);
  e0 = VALGRIND_COUNT_ERRORS;
  I->enc_derand(ct, ss, pk, coins);
  verdict(I, "enc", e0, fc);
  VALGRIND_MAKE_MEM_DEFINED(coins, 64); VALGRIND_MAKE_MEM_DEFINED(ct, sizeof ct); VALGRIND_MAKE_MEM_DEFINED(ss, 32);
  memcpy(wss, ss, 32);
  /* decapsulation: secret vector and rejection secret are secret; accept and reject alternate */
  int acc = c % 6 != 5;
  if (c % 2) { ct[rnd(&r) % p->ctb] ^= (uint8_t)(1 << rndn(&r, 8)); acc = 0; }
  if (c % 6 == 4) { make_sk_ct(&r, k, sk, ct, (int)rndn(&r, 11)); acc = o_dec(k, wss, ct, sk); }
  VALGRIND_MAKE_MEM_UNDEFINED(sk, 384 * (size_t)k); VALGRIND_MAKE_MEM_UNDEFINED(sk + p->skb - 32, 32);
  e0 = VALGRIND_COUNT_ERRORS;
  int rv = I->dec(ss, ct, sk);
  verdict(I, "dec", e0, fc);
  VALGRIND_MAKE_MEM_DEFINED(&rv, sizeof rv); VALGRIND_MAKE_MEM_DEFINED(sk, sizeof sk); VALGRIND_MAKE_MEM_DEFINED(ss, 32);
  stat_add(acc ? "dec_accepting" : "dec_rejecting", 1);
  if (acc && memcmp(ss, wss, 32)) stat_add("dec_result_not_as_expected", 1);
  if (i % 6 == 0) sample("%s: keygen, enc, dec (%s) with secrets undefined", fc, acc ? "accepting" : "rejecting");
}
int main(int c, char **v)
{
  if (c > 2 && !strcmp(v[c - 2], "--var")) { a_var = v[c - 1]; c -= 2; }
  h_args(c, v); h_monitors();
  if (!RUNNING_ON_VALGRIND) { fprintf(stderr, "needs valgrind\n"); return 3; }
  control();
  for (long j = a_start + a_worker; j < a_start + a_n; j += a_workers) c_ct(j);
#ifdef DIVS
  stat_add("division_sites_in_program", (uint64_t)(__stop_vp_sites - __start_vp_sites) / (a_workers > 1 ? 1 : 1));
#endif
  h_finish(1);
  return 0;
}
