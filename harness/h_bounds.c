/* C10: every entry point with every buffer against unmapped memory, at every alignment; inputs in
 * read-only pages; canaries around outputs.  -DVG: exact NOACCESS fences under memcheck.
 * -DHEAP: exact heap blocks for AddressSanitizer. */
#include "h.h"
#ifdef VG
#include <valgrind/memcheck.h>
#endif
#define CAN 0x6B
#define NB 4
static arena A[NB];
static uint8_t rb_bytes[64]; static size_t rb_at;
void randombytes(uint8_t *out, size_t n) { for (size_t i = 0; i < n; i++) out[i] = rb_bytes[rb_at++ % 64]; }

typedef struct { size_t n; int input; const uint8_t *src; const uint8_t *want; uint8_t *p; const char *nm; } buf;
static uint8_t coins[64], m[32], pk[OMAX_PK], sk[OMAX_SK], ct[OMAX_CT], wpk[OMAX_PK], wsk[OMAX_SK], wct[OMAX_CT], wss[32];
static const char *OPS[] = {"keypair_derand", "keypair", "enc_derand", "enc", "dec", "pke_keypair", "pke_enc", "pke_dec"};
#define NOPS 8

static void noncanon_or_hostile(rng *r, int k)
{
  const oparams *p = o_params(k);
  rbytes(r, coins, 64); rbytes(r, m, 32);
  o_keygen(k, pk, sk, coins);
  rbytes(r, coins, 64);
  o_enc(k, ct, wss, pk, coins);
  switch (rndn(r, 4)) {
    case 0: break;
    case 1: ct[rnd(r) % p->ctb] ^= 1; break;
    case 2: hostile12(r, pk, 256 * k); hostile12(r, sk, 256 * k); hostile_bytes(r, ct, p->ctb); break;
    default: memset(ct, 0xff, p->ctb); memset(pk, 0xff, 384 * (size_t)k); memset(sk, 0xff, p->skb); break;
  }
}
static int prep(const impl *I, int op, buf *b)
{
  int k = I->k; const oparams *p = o_params(k); int n = 0;
#define OUT(N, W, S) b[n++] = (buf){N, 0, 0, W, 0, S}
#define IN(N, D, S) b[n++] = (buf){N, 1, D, 0, 0, S}
  switch (op) {
    case 0: case 1: o_keygen(k, wpk, wsk, coins); OUT(p->pkb, wpk, "pk"); OUT(p->skb, wsk, "sk"); if (op == 0) IN(64, coins, "coins"); break;
    case 2: case 3: o_enc(k, wct, wss, pk, coins); OUT(p->ctb, wct, "ct"); OUT(32, wss, "ss"); IN(p->pkb, pk, "pk"); if (op == 2) IN(32, coins, "coins"); break;
    case 4: o_dec(k, wss, ct, sk); OUT(32, wss, "ss"); IN(p->ctb, ct, "ct"); IN(p->skb, sk, "sk"); break;
    case 5: o_pke_keygen(k, wpk, wsk, coins); OUT(p->pkb, wpk, "pk"); OUT(384 * (size_t)k, wsk, "sk"); IN(32, coins, "coins"); break;
    case 6: o_pke_enc(k, wct, m, pk, coins); OUT(p->ctb, wct, "ct"); IN(32, m, "m"); IN(p->pkb, pk, "pk"); IN(32, coins, "coins"); break;
    default: o_pke_dec(k, wss, ct, sk); OUT(32, wss, "m"); IN(p->ctb, ct, "ct"); IN(384 * (size_t)k, sk, "sk"); break;
  }
  return n;
}
static void call(const impl *I, int op, buf *b)
{
  memcpy(rb_bytes, coins, 64); rb_at = 0;
  switch (op) {
    case 0: I->keypair_derand(b[0].p, b[1].p, b[2].p); break;
    case 1: I->keypair(b[0].p, b[1].p); break;
    case 2: I->enc_derand(b[0].p, b[1].p, b[2].p, b[3].p); break;
    case 3: I->enc(b[0].p, b[1].p, b[2].p); break;
    case 4: I->dec(b[0].p, b[1].p, b[2].p); break;
    case 5: I->pke_kp(b[0].p, b[1].p, b[2].p); break;
    case 6: I->pke_enc(b[0].p, b[1].p, b[2].p, b[3].p); break;
    default: I->pke_dec(b[0].p, b[1].p, b[2].p); break;
  }
}
/* focus buffer f at placement pl (0 end, 1 start, 2.. offset pl-2), others random */
static void c_bounds(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 40, (uint64_t)i);
  const impl *I = &IMPLS[i % NIMPL]; long j = i / NIMPL;
  int op = (int)(j % NOPS); j /= NOPS;
  int f = (int)(j % NB); j /= NB;
  int pl = (int)(j % 66);
  if (!use_impl(I)) return;
  buf b[NB]; char fc[400], key[120];
  noncanon_or_hostile(&r, I->k);
  int n = prep(I, op, b);
  if (f >= n) return;
  size_t o = 0; o += (size_t)snprintf(fc, sizeof fc, "case %ld %s %s:", i, I->name, OPS[op]);
#ifdef HEAP
  uint8_t *base[NB];
#endif
  for (int q = 0; q < n; q++) {
    int pp = q == f ? pl : (int)rndn(&r, 66);
#ifdef HEAP
    size_t al = pp < 2 ? (size_t)pp : (size_t)(pp - 2);
    base[q] = malloc(b[q].n + al); b[q].p = base[q] + al;
#else
    memset(A[q].lo, CAN, A[q].room);
    b[q].p = pp == 0 ? at_end(&A[q], b[q].n) : pp == 1 ? A[q].lo : A[q].lo + 1024 + (pp - 2);
#endif
    if (b[q].input) memcpy(b[q].p, b[q].src, b[q].n); else memset(b[q].p, (int)rnd(&r), b[q].n);
    o += (size_t)snprintf(fc + o, sizeof fc - o, " %s@%d", b[q].nm, pp);
#ifdef VG
    VALGRIND_MAKE_MEM_NOACCESS(A[q].lo, A[q].room);
    VALGRIND_MAKE_MEM_DEFINED(b[q].p, b[q].n);
    if (!b[q].input) VALGRIND_MAKE_MEM_UNDEFINED(b[q].p, b[q].n);
#elif !defined(HEAP)
    if (b[q].input) mprotect(A[q].lo, A[q].room, PROT_READ);
#endif
  }
  snprintf(key, sizeof key, "%s:%s", I->name, OPS[op]);
  KEY("%s", key); CTX("%s", fc);
#ifdef VG
  unsigned e0 = VALGRIND_COUNT_ERRORS;
#endif
  call(I, op, b);
#ifdef VG
  if (VALGRIND_COUNT_ERRORS != e0) { char k2[160]; snprintf(k2, sizeof k2, "%s:memcheck", key); viol(k2, "memcheck reports an access outside the buffers: %s", fc); }
#endif
#ifdef VG
  for (int q = 0; q < n; q++) VALGRIND_MAKE_MEM_DEFINED(A[q].lo, A[q].room);
#endif
  /* results: judged against the same call on aligned private buffers, so only placement can differ */
  int wrong = 0;
  for (int q = 0; q < n; q++) if (!b[q].input && memcmp(b[q].p, b[q].want, b[q].n)) wrong = 1;
  if (wrong) {
    static uint8_t al[NB][8192] __attribute__((aligned(4096)));
    buf c[NB];
    memcpy(c, b, sizeof c);
    for (int q = 0; q < n; q++) { c[q].p = al[q] + 2048; if (c[q].input) memcpy(c[q].p, c[q].src, c[q].n); else memset(c[q].p, 0, c[q].n); }
    call(I, op, c);
    for (int q = 0; q < n; q++) if (!b[q].input) {
#ifdef VG
      VALGRIND_MAKE_MEM_DEFINED(c[q].p, c[q].n);
#endif
      b[q].want = c[q].p;
    }
    stat_add("calls_differing_from_the_model", 1);
  }
  for (int q = 0; q < n; q++) {
#ifdef VG
#elif !defined(HEAP)
    if (b[q].input) mprotect(A[q].lo, A[q].room, PROT_READ | PROT_WRITE);
#endif
    char what[80]; snprintf(what, sizeof what, "%s:%s", OPS[op], b[q].nm);
    if (b[q].input) { if (memcmp(b[q].p, b[q].src, b[q].n)) { char k2[160]; snprintf(k2, sizeof k2, "%s:%s:input-modified", key, b[q].nm); viol(k2, "%s", fc); } }
    else same(I->name, what, b[q].p, b[q].want, b[q].n, fc);
#if !defined(HEAP)
    for (uint8_t *x = A[q].lo; x < A[q].lo + A[q].room; x++) if ((x < b[q].p || x >= b[q].p + b[q].n) && *x != CAN) {
      char k2[160]; snprintf(k2, sizeof k2, "%s:%s:out-of-bounds-write", key, b[q].nm); viol(k2, "byte at offset %ld of %zu written; %s", (long)(x - b[q].p), b[q].n, fc); break; }
#endif
  }
#ifdef HEAP
  for (int q = 0; q < n; q++) free(base[q]);
#endif
  stat_add(pl == 0 ? "calls_at_upper_guard" : pl == 1 ? "calls_at_lower_guard" : "calls_at_offsets", 1);
  distinct(hash64(fc, strlen(fc), 1));
  if (i % 997 == 0) sample("%s", fc);
}
int main(int c, char **v)
{
  h_args(c, v); h_monitors();
  for (int i = 0; i < NB; i++) arena_init(&A[i], 8192);
  for (long j = a_start + a_worker; j < a_start + a_n; j += a_workers) c_bounds(j);
  h_finish(1);
  return 0;
}
