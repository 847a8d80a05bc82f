/* C13: concurrent and interrupting calls give the results of sequential execution.
 * mode threads: T threads, shared read-only inputs, own outputs; also built with ThreadSanitizer
 * mode signals: timer signals interrupt operations and run other operations, nested
 * mode random:  the randomised calls from many threads, with the project's own randombytes.c */
#include "jobs.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#define NJ 40
#define T 8
static job *J; static long cur;
typedef struct { pthread_t th; int id; rng r; uint64_t runs, hash; int bad; char msg[200]; uint8_t *mem; } thr;
static pthread_barrier_t bar;
static volatile int stop;
static int run_one(const job *j, uint8_t *mem, char *msg, rng *r)
{
  uint8_t *b[JMAXB];
  kst *st = (kst *)mem; kst4 *st4 = (kst4 *)(mem + 512); uint8_t *p = mem + 2048;
  for (int q = 0; q < j->nb; q++) {
    if (j->in[q]) b[q] = (uint8_t *)j->d[q];           /* shared between all threads */
    else { b[q] = p; p += 3328; memset(b[q], (int)rnd(r), j->n[q]); }
  }
  int rv = job_run(j, b, plain_invoke, st, st4);
  if (rv != j->rv) { snprintf(msg, 200, "%s returned %d", j->name, rv); return 1; }
  for (int q = 0; q < j->nb; q++) if (!j->in[q] && memcmp(b[q], j->d[q], j->n[q])) {
    size_t x = 0; while (b[q][x] == j->d[q][x]) x++;
    snprintf(msg, 200, "%s output %d byte %zu is %02x, must be %02x", j->name, q, x, b[q][x], j->d[q][x]); return 1; }
  return 0;
}
#define MEMSZ (2048 + 4 * 3328 + 64)
static int per = 60;
static void *worker(void *p)
{
  thr *t = p;
  pthread_barrier_wait(&bar);
  for (int i = 0; i < per && !t->bad; i++) {
    const job *j = &J[rndn(&t->r, 3) ? rndn(&t->r, NJ) : (uint32_t)(i % 4)];   /* often the same operation at once */
    t->bad = run_one(j, t->mem, t->msg, &t->r);
    t->runs++;
    t->hash = hash64(&j, sizeof j, t->hash);
    if (rndn(&t->r, 8) == 0) sched_yield();
  }
  return 0;
}
static void c_threads(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 101, (uint64_t)i); cur = i;
  int same_op = (int)(i % (J_NOPS + 3));
  for (int n = 0; n < NJ; n++) job_make(&J[n], &r, n < 4 && same_op < J_NOPS ? same_op : (int)rndn(&r, J_NOPS));
  if (settle(NJ)) stat_add("cases_judged_against_a_fresh_process", 1);
  static thr t[T];
  KEY("threads"); CTX("threads case %ld", i);
  pthread_barrier_init(&bar, 0, T);
  for (int n = 0; n < T; n++) {
    uint8_t *m = t[n].mem ? t[n].mem : malloc(MEMSZ + 64);
    memset(&t[n], 0, sizeof t[n]); t[n].mem = m; t[n].id = n; rng_init(&t[n].r, a_seed * 77 + (uint64_t)i, (uint64_t)n);
    t[n].mem = (uint8_t *)(((uintptr_t)m + 63) & ~(uintptr_t)63);
    if (pthread_create(&t[n].th, 0, worker, &t[n])) { perror("pthread_create"); exit(3); }
  }
  for (int n = 0; n < T; n++) pthread_join(t[n].th, 0);
  for (int n = 0; n < T; n++) {
    if (t[n].bad) { char k[80]; snprintf(k, sizeof k, "threads:%.60s", t[n].msg); char *e = strstr(k, " output"); if (e) *e = 0; viol(k, "thread %d: %s; case %ld", n, t[n].msg, i); }
    stat_add("thread_runs", t[n].runs); distinct(t[n].hash + (uint64_t)i * 31);
  }
  if (i % 50 == 0) sample("case %ld: %d threads x %d operations, common operation %s", i, T, per, same_op < J_NOPS ? JN[same_op] : "none");
}
/* ---- signals ---------------------------------------------------------------- */
#define DEPTH 3
static volatile int depth, in_op; static uint8_t *hm[DEPTH + 1]; static rng hr; static volatile uint64_t hits, idle, nested; static volatile int hbad; static char hmsg[200];
static void arm(rng *r) { struct itimerval it = { { 0, 0 }, { 0, 15 + (long)rndn(r, 120) } }; setitimer(ITIMER_REAL, &it, 0); }
static void onalrm(int s)
{
  (void)s;
  if (stop) return;
  int e = errno;
  if (in_op) hits++; else idle++;
  if (depth < DEPTH) {
    int d = ++depth;
    if (d > 1) nested++;
    rng r = hr; r.s[0] ^= hits * 0x9e3779b97f4a7c15ull + (uint64_t)d; rnd(&r);
    arm(&r);
    if (run_one(&J[rnd(&r) % NJ], hm[d], hmsg, &r)) hbad = 1;
    depth--;
  }
  rng r = hr; r.s[1] ^= hits; arm(&r);
  errno = e;
}
static void c_signals(long i)
{
  rng r; rng_init(&r, a_seed * 1000 + 102, (uint64_t)i); cur = i;
  static int init;
  if (!init++) {
    for (int d = 0; d <= DEPTH; d++) hm[d] = aligned_alloc(64, (MEMSZ + 63) / 64 * 64);
    for (int n = 0; n < NJ; n++) job_make(&J[n], &r, n % J_NOPS);
    if (settle(NJ)) stat_add("cases_judged_against_a_fresh_process", 1);
    struct sigaction sa = { .sa_handler = onalrm, .sa_flags = SA_NODEFER | SA_RESTART }; sigaction(SIGALRM, &sa, 0);
  }
  rng_init(&hr, a_seed * 99, (uint64_t)i);
  char msg[200]; int bad = 0;
  KEY("signals"); CTX("signals case %ld", i);
  uint64_t h0 = hits, n0 = nested;
  stop = 0; arm(&r);
  for (int s = 0; s < 400 && !bad && !hbad; s++) { in_op = 1; bad = run_one(&J[rndn(&r, NJ)], hm[0], msg, &r); in_op = 0; }
  stop = 1;
  struct itimerval off = { { 0, 0 }, { 0, 0 } }; setitimer(ITIMER_REAL, &off, 0);
  if (bad) viol("signals:interrupted", "interrupted call: %s; case %ld", msg, i);
  if (hbad) { viol("signals:interrupting", "interrupting call: %s; case %ld", hmsg, i); hbad = 0; }
  stat_add("signal_interruptions_inside_operations", hits - h0); stat_add("signal_nested", nested - n0); stat_add("interrupted_runs", 400);
  distinct(hash64(&hits, 8, (uint64_t)i));
  if (i % 50 == 0) sample("case %ld: 400 operations interrupted %llu times (%llu nested)", i, (unsigned long long)(hits - h0), (unsigned long long)(nested - n0));
}
/* ---- randomised calls --------------------------------------------------------- */
#ifdef RANDOM
static uint8_t tag[T][64][32]; static uint64_t rruns[T]; static char rmsg[T][200]; static int seq_disagree, seq_repeat;
static int cmp32(const void *, const void *);
static void *rworker(void *p)
{
  int id = (int)(intptr_t)p; rng r; rng_init(&r, a_seed + (uint64_t)cur, (uint64_t)id);
  uint8_t *pk = malloc(OMAX_PK), *sk = malloc(OMAX_SK), *ct = malloc(OMAX_CT), a[32], b[32];
  pthread_barrier_wait(&bar);
  for (int i = 0; i < 32; i++) {
    const impl *I = &IMPLS[rndn(&r, (uint32_t)NIMPL)]; const oparams *o = o_params(I->k);
    I->keypair(pk, sk); I->enc(ct, a, pk); I->dec(b, ct, sk);
    memcpy(tag[id][2 * i], sk + o->skb - 32, 32); memcpy(tag[id][2 * i + 1], a, 32);
    rruns[id] += 3;
    if (memcmp(a, b, 32) && !seq_disagree) { snprintf(rmsg[id], 200, "%s: secrets differ", I->name); break; }
  }
  free(pk); free(sk); free(ct);
  return 0;
}
static int cmp32(const void *a, const void *b) { return memcmp(a, b, 32); }
static void c_random(long i)
{
  static pthread_t th[T];
  cur = i; memset(rmsg, 0, sizeof rmsg); memset(rruns, 0, sizeof rruns);
  for (int n = 0; n < T; n++) for (int x = 0; x < 64; x++) { memset(tag[n][x], 0, 32); tag[n][x][0] = (uint8_t)n; tag[n][x][1] = (uint8_t)x; }
  KEY("random"); CTX("random case %ld", i);
  static int seq;
  if (!seq++) {   /* sequentially first: what goes wrong without threads is not judged here */
    static uint8_t pk[OMAX_PK], sk[OMAX_SK], ct[OMAX_CT], t[64][32], a[32], b[32]; memset(t, 0, sizeof t);
    for (int x = 0; x < 32; x++) {
      const impl *I = &IMPLS[x % NIMPL]; const oparams *o = o_params(I->k);
      I->keypair(pk, sk); I->enc(ct, a, pk); I->dec(b, ct, sk);
      memcpy(t[2 * x], sk + o->skb - 32, 32); memcpy(t[2 * x + 1], a, 32);
      if (memcmp(a, b, 32)) seq_disagree = 1;
    }
    qsort(t, 64, 32, cmp32);
    for (int x = 1; x < 64; x++) if (!memcmp(t[x - 1], t[x], 32)) seq_repeat = 1;
  }
  pthread_barrier_init(&bar, 0, T);
  for (int n = 0; n < T; n++) if (pthread_create(&th[n], 0, rworker, (void *)(intptr_t)n)) { perror("pthread_create"); exit(3); }
  for (int n = 0; n < T; n++) pthread_join(th[n], 0);
  for (int n = 0; n < T; n++) { if (rmsg[n][0]) viol("random:agreement", "thread %d: %s; case %ld", n, rmsg[n], i); stat_add("randomised_thread_calls", rruns[n]); }
  distinct(hash64(tag, sizeof tag, 1));
  qsort(tag, T * 64, 32, cmp32);
  uint8_t (*f)[32] = (void *)tag;
  for (int x = 1; x < T * 64 && !seq_repeat; x++) if (!memcmp(f[x - 1], f[x], 32)) { viol("random:repeat", "two randomised calls produced the same secret; case %ld", i); break; }
  sample("case %ld: %d threads x 96 randomised calls, %d secrets distinct", i, T, T * 64);
}
#endif
int main(int c, char **v)
{
  h_args(c, v);
  J = zygote(NJ);
#ifndef SANITIZED
  h_monitors();
#else
  setvbuf(stdout, 0, _IOLBF, 1 << 16); (void)h_ontimer; (void)h_onsig;
#endif
#ifdef SANITIZED
  per = 12;
#endif
  void (*f)(long) = !strcmp(a_mode, "signals") ? c_signals :
#ifdef RANDOM
    !strcmp(a_mode, "random") ? c_random :
#endif
    c_threads;
  for (long j = a_start + a_worker; j < a_start + a_n; j += a_workers) f(j);
  h_finish(1);
  return 0;
}
