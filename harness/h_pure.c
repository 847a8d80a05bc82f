/* C12: results depend on the arguments only.  Each job runs several times under different ambient
 * state - output buffers, stack, every caller-saved and vector register, stack depth, and the
 * operations that ran before - and must give the model's result each time.
 * -DVG: the same jobs under memcheck, outputs and registers undefined, every output byte must be defined.
 * -DMSAN: under MemorySanitizer. */
#include "jobs.h"
#include "tramp.h"
#include <alloca.h>
#if !defined(VG) && !defined(MSAN)
#include "ambient.h"
#endif
#ifdef VG
#include <valgrind/memcheck.h>
#endif
#ifdef MSAN
#include <sanitizer/msan_interface.h>
#endif
static uint8_t ym[512]; static rng *cur_r; static int pat;
static uint8_t pbyte(void) { switch (pat) { case 0: return 0; case 1: return 0xff; case 2: return 0xaa; case 3: return 0x0d; default: return (uint8_t)rnd(cur_r); } }
__attribute__((noinline)) static void poison_stack(void)
{
  volatile uint8_t b[98304];
  if (pat < 4) { uint8_t v = pbyte(); for (size_t i = 0; i < sizeof b; i += 8) *(volatile uint64_t *)(b + i) = 0x0101010101010101ull * v; }
  else for (size_t i = 0; i < sizeof b; i += 8) *(volatile uint64_t *)(b + i) = rnd(cur_r);
  __asm__ volatile("" : : "r"(b) : "memory");
}
static uint64_t poison_invoke(void *fn, const uint64_t a[10])
{
#if defined(VG) || defined(MSAN)
  return plain_invoke(fn, a);
#else
  tr t; memset(&t, 0, sizeof t);
  t.fn = fn; memcpy(t.args, a, sizeof t.args); t.ymm = ym;
  for (int i = 0; i < 512; i++) ym[i] = pbyte();
  uint8_t *q = (uint8_t *)t.saved_in; for (size_t i = 0; i < sizeof t.saved_in + 24; i++) q[i] = pbyte();
  t.mxcsr = 0x1f80; t.fcw = 0x37f;
  amb_env = AMB_ENV[rnd(cur_r) % 8]; amb_num = rnd(cur_r);
  poison_stack();
  amb_on = 1;
  uint64_t rv = tramp(&t);
  amb_on = 0;
  return rv;
#endif
}
static uint8_t mem[JMAXB][2 * 4096 + 128] __attribute__((aligned(64)));
static kst st __attribute__((aligned(64))); static kst4 st4;
static job *zj; static int eager;   /* eager: the code differs from the model, so prescribed results come from the helper process */
static void adopt(job *j) { if (eager) { *zj = *j; if (settle(1)) stat_add("jobs_judged_against_a_fresh_process", 1); *j = *zj; } }
static void run_checked(job *j, rng *r, long i, const char *how)
{
  uint8_t *b[JMAXB]; char key[160], fc[200]; static size_t off[JMAXB];
  int again = (int)rndn(r, 2);   /* the very addresses of the last call, or others */
  snprintf(fc, sizeof fc, "%ld %s (%s, ambient %d)", i, j->name, how, pat);
  KEY("%s", j->name); CTX("%s", fc);
  for (int q = 0; q < j->nb; q++) {
    if (!again) off[q] = rndn(r, 64);
    b[q] = mem[q] + off[q];
    if (j->in[q]) memcpy(b[q], j->d[q], j->n[q]);
    else for (size_t x = 0; x < j->n[q]; x++) b[q][x] = pbyte();
  }
  if (pat == 0) { memset(&st, 0, sizeof st); memset(&st4, 0, sizeof st4); }
  else { for (size_t x = 0; x < sizeof st; x++) ((uint8_t *)&st)[x] = pbyte(); for (size_t x = 0; x < sizeof st4; x++) ((uint8_t *)&st4)[x] = pbyte(); }
#ifdef VG
  for (int q = 0; q < j->nb; q++) if (!j->in[q]) VALGRIND_MAKE_MEM_UNDEFINED(b[q], j->n[q]);
  VALGRIND_MAKE_MEM_UNDEFINED(&st, sizeof st); VALGRIND_MAKE_MEM_UNDEFINED(&st4, sizeof st4);
  unsigned e0 = VALGRIND_COUNT_ERRORS;
#endif
#ifdef MSAN
  for (int q = 0; q < j->nb; q++) if (!j->in[q]) __msan_poison(b[q], j->n[q]);
  __msan_poison(&st, sizeof st); __msan_poison(&st4, sizeof st4);
#endif
  volatile char *gap = alloca(16 + 16 * rndn(r, 300)); gap[0] = 1;
  int rv = job_run(j, b, poison_invoke, &st, &st4);
  (void)gap;
#ifdef VG
  if (VALGRIND_COUNT_ERRORS != e0) { snprintf(key, sizeof key, "%s:memcheck", j->name); viol(key, "memcheck reports use of an uninitialised value: %s", fc); }
  for (int q = 0; q < j->nb; q++) if (!j->in[q] && j->n[q]) {
    uint64_t bad = VALGRIND_CHECK_MEM_IS_DEFINED(b[q], j->n[q]);
    if (bad) { snprintf(key, sizeof key, "%s:undefined-output", j->name); viol(key, "output %d byte %ld derives from uninitialised memory: %s", q, (long)((uint8_t *)bad - b[q]), fc); }
    VALGRIND_MAKE_MEM_DEFINED(b[q], j->n[q]);
  }
  VALGRIND_MAKE_MEM_DEFINED(&st, sizeof st); VALGRIND_MAKE_MEM_DEFINED(&st4, sizeof st4);
#endif
#ifdef MSAN
  for (int q = 0; q < j->nb; q++) if (!j->in[q] && j->n[q]) {
    intptr_t at = __msan_test_shadow(b[q], j->n[q]);
    if (at >= 0) { snprintf(key, sizeof key, "%s:undefined-output", j->name); viol(key, "output %d byte %ld derives from uninitialised memory: %s", q, (long)at, fc); }
    __msan_unpoison(b[q], j->n[q]);
  }
  __msan_unpoison(&st, sizeof st); __msan_unpoison(&st4, sizeof st4); __msan_unpoison(&rv, sizeof rv);
#endif
  int bad = rv != j->rv;
  for (int q = 0; q < j->nb; q++) if (!j->in[q] && memcmp(b[q], j->d[q], j->n[q])) bad = 1;
  if (bad) {   /* wrong in every context, or depending on the context? */
    *zj = *j; settle(1); *j = *zj; eager = 1;
  }
  if (rv != j->rv) { snprintf(key, sizeof key, "%s:return", j->name); viol(key, "returned %d: %s", rv, fc); }
  for (int q = 0; q < j->nb; q++) if (!j->in[q]) { char w[24]; snprintf(w, sizeof w, "output%d", q); same(j->name, w, b[q], j->d[q], j->n[q], fc); }
  stat_add(j->op < J_NKEM ? "kem_pke_runs" : "hash_runs", 1);
}
static job J[3];
static void c_pure(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 81, (uint64_t)i); cur_r = &r;
  int ops[J_NOPS], n = 0;
  for (int o = 0; o < J_NOPS; o++) {
#ifdef ONLY_REF
    if (o == J_X4 || o == J_X4ONCE) continue;
#endif
    ops[n++] = o;
  }
  pat = 4;
  for (int q = 0; q < 3; q++) {
    int link = q && J[q - 1].op < J_NKEM && rndn(&r, 2);
    job_impl = link ? J[q - 1].I : 0;
    job_make(&J[q], &r, link ? (int)rndn(&r, J_NKEM) : ops[(i + q * 5) % n]);
    job_impl = 0;
    if (link && job_link(&J[q], &J[q - 1], &r)) stat_add("operations_sharing_key_material", 1);
    distinct(job_hash(&J[q])); adopt(&J[q]);
  }
#if defined(VG) || defined(MSAN)
  for (int q = 0; q < 3; q++) { pat = (int)rndn(&r, 5); run_checked(&J[q], &r, i, "alone"); }
#else
  /* every ambient pattern on the first job, then random histories over all three and their mutants */
  for (pat = 0; pat < 5; pat++) run_checked(&J[0], &r, i, "poisoned");
  for (int s = 0; s < 8; s++) {
    int q = (int)rndn(&r, 3);
    pat = (int)rndn(&r, 5);
    if (rndn(&r, 2) && job_mutate(&J[q], &r)) { stat_add("input_partly_changed", 1); adopt(&J[q]); run_checked(&J[q], &r, i, "part of an input changed since the last call"); }
    else run_checked(&J[q], &r, i, "after other operations");
  }
#endif
  if (i % 501 == 0) sample("case %ld: %s, %s, %s", i, J[0].name, J[1].name, J[2].name);
}
#if !defined(VG) && !defined(MSAN)
/* long histories: the same few inputs again and again; whatever counts calls must not change a result */
static long long_calls;
static void c_long(long i)
{
  static job j[4]; static uint8_t first[4][JMAXB][JMAXN]; static int rv0[4];
  rng r; rng_init(&r, a_seed * 1000 + 83, (uint64_t)i);
  int nk = J_NKEM * NIMPL, op = i < nk ? (int)(i % J_NKEM) : J_NKEM + (int)((i - nk) % (J_NOPS - J_NKEM));
  uint8_t *b[JMAXB]; char key[160];
  job_impl = i < nk ? &IMPLS[i / J_NKEM] : 0;
  for (int q = 0; q < 4; q++) { job_make(&j[q], &r, op); if (op >= J_NKEM && j[q].inlen > 300) { q--; continue; } }
  job_impl = 0;
  for (int x = 0; x < JMAXB; x++) b[x] = mem[x];
  for (long n = 0; n < long_calls; n++) {
    int q = n < 4 ? (int)n : (int)rndn(&r, 4);
    CTX("%s: call %ld in one process", j[q].name, n); KEY("%s:long", j[q].name);
    for (int x = 0; x < j[q].nb; x++) if (j[q].in[x]) memcpy(b[x], j[q].d[x], j[q].n[x]); else memset(b[x], (int)n, j[q].n[x]);
    int rv = job_run(&j[q], b, plain_invoke, &st, &st4);
    for (int x = 0; x < j[q].nb; x++) if (!j[q].in[x]) {
      if (n < 4) memcpy(first[q][x], b[x], j[q].n[x]);
      else if (memcmp(first[q][x], b[x], j[q].n[x])) { snprintf(key, sizeof key, "%s:long-history", j[q].name); viol(key, "call %ld in one process gives another output %d than the first call with the same input", n, x); return; }
    }
    if (n < 4) rv0[q] = rv;
    else if (rv != rv0[q]) { snprintf(key, sizeof key, "%s:long-history", j[q].name); viol(key, "call %ld in one process returns %d, the first returned %d", n, rv, rv0[q]); return; }
  }
  stat_add("long_history_calls", (uint64_t)long_calls); stat_max("max_calls_in_one_process", (uint64_t)long_calls);
}
#endif
int main(int c, char **v)
{
  h_args(c, v);
#if !defined(VG) && !defined(MSAN)
  if (!strcmp(a_mode, "long")) {
    const char *e = getenv("VP_LONG"); long_calls = e ? atol(e) : 70000;
    h_monitors();
    for (long j = a_start + a_worker; j < a_start + a_n; j += a_workers) c_long(j);
    h_finish(1);
    return 0;
  }
#endif
  zj = zygote(1);
  h_monitors();
  for (long j = a_start + a_worker; j < a_start + a_n; j += a_workers) c_pure(j);
  h_finish(1);
  return 0;
}
