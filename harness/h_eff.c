/* C25: a call changes nothing but its outputs.  Each case runs in a fresh child under a seccomp filter
 * that kills it on any system call, from a trampoline that fills every register, with snapshots of all
 * writable memory of the process (data, bss, heap, libc, TLS), counted heap functions, read-only inputs. */
#define NO_ZYGOTE
#include "jobs.h"
#include "tramp.h"
#include "ambient.h"
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/rseq.h>

/* heap calls by the code under test are counted */
static volatile int in_call; static volatile unsigned heap_calls;
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t); extern void __libc_free(void *);
void *malloc(size_t n) { if (in_call) heap_calls++; return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (in_call) heap_calls++; return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (in_call) heap_calls++; return __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { if (in_call) heap_calls++; return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { if (in_call) heap_calls++; return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (in_call) heap_calls++; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
void free(void *p) { if (in_call) heap_calls++; __libc_free(p); }

static struct shm { int stage; unsigned calls, regions; uint64_t snap_bytes; char what[400]; char key[120]; } *S;
static void complain(const char *key, const char *f, ...)
{
  va_list a;
  if (S->what[0]) return;
  snprintf(S->key, sizeof S->key, "%s", key);
  va_start(a, f); vsnprintf(S->what, sizeof S->what, f, a); va_end(a);
}
/* writable memory that a call must leave alone; copies are kept in a mapping made before the snapshot */
#define MAXR 64
typedef struct { uint8_t *lo, *hi, *copy; char nm[40]; } region;
extern uint8_t tramp_lo[], tramp_hi[];
static struct frame { region R[MAXR]; int nr; tr t; uint8_t ym[512]; rng r; uint8_t *b[JMAXB]; job j; uint8_t out1[4][JMAXN]; kst st; kst4 st4; unsigned calls; } *F;   /* harness state during calls: excluded mapping */
static arena A[JMAXB]; static uint8_t *stk_lo, *stk_hi;
static void regions(void)
{
  FILE *f = fopen("/proc/self/maps", "r"); char l[600];
  if (!f) { perror("maps"); exit(3); }
  static struct { uint8_t *lo, *hi; char nm[40]; } tmp[256]; int n = 0;
  while (fgets(l, sizeof l, f)) {
    unsigned long a, b; char pr[8], nm[400] = "";
    if (sscanf(l, "%lx-%lx %7s %*s %*s %*s %399[^\n]", &a, &b, pr, nm) < 3) continue;
    if (pr[1] != 'w' || strstr(nm, "[stack]") || pr[3] == 's') continue;
    if (n < 256) { tmp[n].lo = (uint8_t *)a; tmp[n].hi = (uint8_t *)b; const char *s = strrchr(nm, '/'); snprintf(tmp[n].nm, 40, "%s", s ? s + 1 : nm[0] ? nm : "anonymous"); n++; }
  }
  fclose(f);
  F->nr = 0;
  for (int i = 0; i < n; i++) {
    int skip = 0;
    for (int q = 0; q < JMAXB; q++) if (tmp[i].lo < A[q].base + A[q].map && tmp[i].hi > A[q].base) skip = 1;
    if ((uint8_t *)F >= tmp[i].lo && (uint8_t *)F < tmp[i].hi) skip = 1;
    if (stk_lo >= tmp[i].lo && stk_lo < tmp[i].hi) skip = 1;
    if (skip || F->nr >= MAXR || tmp[i].hi - tmp[i].lo > (64 << 20)) continue;
    region *g = &F->R[F->nr++];
    g->lo = tmp[i].lo; g->hi = tmp[i].hi; memcpy(g->nm, tmp[i].nm, 40); g->copy = 0;
  }
  for (int i = 0; i < F->nr; i++) {
    region *g = &F->R[i];
    g->copy = mmap(0, (size_t)(g->hi - g->lo), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g->copy == MAP_FAILED) { perror("mmap"); exit(3); }
  }
}
static void snap(void) { for (int i = 0; i < F->nr; i++) { region *g = &F->R[i]; memcpy(g->copy, g->lo, (size_t)(g->hi - g->lo)); S->snap_bytes += (uint64_t)(g->hi - g->lo); } S->regions = (unsigned)F->nr; }
static void check_snap(void)
{
  for (int i = 0; i < F->nr; i++) {
    region *g = &F->R[i]; size_t n = (size_t)(g->hi - g->lo);
    if (memcmp(g->copy, g->lo, n) == 0) continue;
    for (size_t x = 0; x < n; x++) if (g->copy[x] != g->lo[x]) {
      uint8_t *p = g->lo + x;
      uint8_t *rs = (uint8_t *)__builtin_thread_pointer() + __rseq_offset;   /* written by the kernel on migration */
      if (p >= rs && p < rs + 64) continue;
      if (p >= tramp_lo && p < tramp_hi) continue;
      if (p >= (uint8_t *)&in_call && p < (uint8_t *)&in_call + sizeof in_call) continue;
      if ((p >= (uint8_t *)&amb_on && p < (uint8_t *)&amb_on + sizeof amb_on) || (p >= (uint8_t *)&amb_asked && p < (uint8_t *)&amb_asked + sizeof amb_asked)) continue;
      if ((p >= (uint8_t *)&amb_env && p < (uint8_t *)&amb_env + sizeof amb_env) || (p >= (uint8_t *)&amb_num && p < (uint8_t *)&amb_num + sizeof amb_num)) continue;
      if (p >= (uint8_t *)&heap_calls && p < (uint8_t *)&heap_calls + sizeof heap_calls) continue;
      char k[120]; snprintf(k, sizeof k, "%s:global-state", F->j.name);
      complain(k, "%s changed writable memory of %s at offset %zu (%02x -> %02x)", F->j.name, g->nm, x, g->copy[x], g->lo[x]);
      return;
    }
  }
}
static uint64_t watched(void *fn, const uint64_t a[10])
{
  tr *t = &F->t; memset(t, 0, sizeof *t);
  t->fn = fn; memcpy(t->args, a, sizeof t->args); t->ymm = F->ym;
  rbytes(&F->r, F->ym, 512); rbytes(&F->r, (uint8_t *)t->saved_in, sizeof t->saved_in + 24);
  t->mxcsr = 0x1f80 | (rndn(&F->r, 4) << 13) | (rndn(&F->r, 2) << 15) | (rndn(&F->r, 2) << 6);
  t->fcw = (uint16_t)(0x7f | rndn(&F->r, 4) << 8 | rndn(&F->r, 4) << 10); if ((t->fcw & 0x300) == 0x100) t->fcw |= 0x200;
  int e0 = errno; unsigned h0 = heap_calls;
  amb_env = AMB_ENV[rndn(&F->r, 8)]; amb_num = rnd(&F->r);
  in_call = 1; amb_on = 1;
  uint64_t rv = tramp(t);
  amb_on = 0; in_call = 0;
  S->calls++; F->calls++;
  char k[120]; snprintf(k, sizeof k, "%s:", F->j.name); size_t kl = strlen(k);
#define BAD(what, ...) do { snprintf(k + kl, sizeof k - kl, what); complain(k, __VA_ARGS__); } while (0)
  static const char *const rn[] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
  for (int i = 0; i < 6; i++) if (t->saved_in[i] != t->saved_out[i]) BAD("register", "%s: callee-saved %s changed", F->j.name, rn[i]);
  if (t->rspdelta) BAD("stack-pointer", "%s: stack pointer off by %lld", F->j.name, (long long)t->rspdelta);
  if (t->rflags & 0x400) BAD("direction-flag", "%s: direction flag left set", F->j.name);
  if (t->rflags & 0x40100) BAD("flags", "%s: rflags control bits changed: %llx", F->j.name, (unsigned long long)t->rflags);
  if ((t->mxcsr ^ t->mxcsr_out) & 0xffc0) BAD("mxcsr", "%s: MXCSR control bits %04x -> %04x", F->j.name, t->mxcsr, t->mxcsr_out);
  if (t->fcw != t->fcw_out) BAD("x87-control", "%s: x87 control word %04x -> %04x", F->j.name, t->fcw, t->fcw_out);
  if (t->ftag != 0xffff) BAD("x87-state", "%s: x87/MMX state left in use (tag %04x)", F->j.name, t->ftag);
  if (errno != e0) BAD("errno", "%s: errno %d -> %d", F->j.name, e0, errno);
  if (heap_calls != h0) BAD("heap", "%s: %u heap calls", F->j.name, heap_calls - h0);
  return rv;
}
static void child(void)
{
  job *j = &F->j;
  struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
  signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGILL, SIG_DFL);
  struct itimerval it = { { 0, 0 }, { 30, 0 } }; signal(SIGVTALRM, SIG_DFL); setitimer(ITIMER_VIRTUAL, &it, 0);
  setvbuf(stdout, 0, _IONBF, 0); setvbuf(stderr, 0, _IONBF, 0);
  for (int q = 0; q < j->nb; q++) {
    F->b[q] = rndn(&F->r, 2) ? at_end(&A[q], j->n[q]) : A[q].lo + rndn(&F->r, 64);
    if (j->in[q]) { memcpy(F->b[q], j->d[q], j->n[q]); mprotect(A[q].lo, A[q].room, PROT_READ); }
  }
  regions();
  /* only exit_group is allowed from here on */
  struct sock_filter flt[] = {
    BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
    BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_exit_group, 0, 1),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
    BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_KILL_PROCESS),
  };
  struct sock_fprog pr = { 4, flt };
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) { S->stage = -1; _exit(3); }
  S->stage = 1;
  for (int pass = 0; pass < 2; pass++) {   /* first call ever, then again with other contents */
    uint8_t fill = pass ? 0x00 : 0xff;
    for (int q = 0; q < j->nb; q++) if (!j->in[q]) memset(A[q].lo, fill, A[q].room);
    errno = pass ? 0 : 4711;
    snap();
    int rv = job_run(j, F->b, watched, &F->st, &F->st4);
    check_snap();
    if (rv) { char k[100]; snprintf(k, sizeof k, "%s:return", j->name); complain(k, "%s returned %d", j->name, rv); }
    for (int q = 0; q < j->nb; q++) {
      if (j->in[q]) { if (memcmp(F->b[q], j->d[q], j->n[q])) { char k[100]; snprintf(k, sizeof k, "%s:input", j->name); complain(k, "%s modified input %d", j->name, q); } continue; }
      if (!pass) memcpy(F->out1[q], F->b[q], j->n[q]);
      else for (size_t x = 0; x < j->n[q]; x++) if (F->out1[q][x] == 0xff && F->b[q][x] == 0x00) {
        char k[100]; snprintf(k, sizeof k, "%s:output%d", j->name, q); complain(k, "%s: output %d byte %zu was not written", j->name, q, x); break;
      }
      for (uint8_t *x = A[q].lo; x < A[q].lo + A[q].room; x++) if ((x < F->b[q] || x >= F->b[q] + j->n[q]) && *x != fill) {
        char k[100]; snprintf(k, sizeof k, "%s:outside%d", j->name, q); complain(k, "%s wrote at offset %ld of output %d (%zu bytes)", j->name, (long)(x - F->b[q]), q, j->n[q]); break; }
    }
    S->stage = 2 + pass;
  }
  _exit(0);
}
/* C13: every writable byte of the process except stack, outputs and harness scratch is write-protected
 * while the operation runs, so even a transient write to static or thread-local state faults */
static void lock(int prot)
{
  for (int i = 0; i < F->nr; i++) {
    region *g = &F->R[i]; uint8_t *lo = g->lo, *hi = g->hi;
    if (tramp_lo >= lo && tramp_hi <= hi) { if (tramp_lo > lo) mprotect(lo, (size_t)(tramp_lo - lo), prot); lo = tramp_hi; }
    if (hi > lo && mprotect(lo, (size_t)(hi - lo), prot)) _exit(3);
  }
}
static uint64_t locked_invoke(void *fn, const uint64_t a[10])
{
  tr *t = &F->t; memset(t, 0, sizeof *t);
  t->fn = fn; memcpy(t->args, a, sizeof t->args); t->ymm = F->ym; t->mxcsr = 0x1f80; t->fcw = 0x37f;
  F->calls++;
  return tramp(t);
}
static void locked_child(void)
{
  job *j = &F->j;
  struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
  signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGILL, SIG_DFL);
  struct itimerval it = { { 0, 0 }, { 30, 0 } }; signal(SIGVTALRM, SIG_DFL); setitimer(ITIMER_VIRTUAL, &it, 0);
  for (int q = 0; q < j->nb; q++) { F->b[q] = A[q].lo + 64; if (j->in[q]) memcpy(F->b[q], j->d[q], j->n[q]); }
  regions();
  S->regions = (unsigned)F->nr; for (int i = 0; i < F->nr; i++) S->snap_bytes += (uint64_t)(F->R[i].hi - F->R[i].lo);
  lock(PROT_READ);
  S->stage = 1;
  int rv = job_run(j, F->b, locked_invoke, &F->st, &F->st4);
  S->stage = 2;
  rv |= job_run(j, F->b, locked_invoke, &F->st, &F->st4);
  (void)rv;
  lock(PROT_READ | PROT_WRITE);
  S->calls = F->calls;
  S->stage = 3;
  _exit(0);
}
static int locked;
static void c_eff(long i)
{
  memset(S, 0, sizeof *S);
  rng r; rng_init(&r, a_seed * 1000 + 91, (uint64_t)i);
  job_make(&F->j, &r, (int)(i % J_NOPS)); F->r = r; F->calls = 0;
  distinct(job_hash(&F->j));
  KEY("%s", F->j.name); CTX("case %ld %s", i, F->j.name);
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (!p) { if (locked) locked_child(); child(); }
  int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); exit(3); }
  char k[120];
  if (S->stage == -1) { fprintf(stderr, "seccomp is not available\n"); exit(3); }
  if (S->what[0]) viol(S->key, "%s; case %ld", S->what, i);
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (locked && sg == SIGSEGV && S->stage >= 1) { snprintf(k, sizeof k, "%s:static-write", F->j.name); viol(k, "%s wrote to static, thread-local or heap memory (call %u of the process); case %ld", F->j.name, F->calls, i); }
    else if (sg == SIGSYS) { snprintf(k, sizeof k, "%s:system-call", F->j.name); viol(k, "%s performed a system call; case %ld", F->j.name, i); }
    else { snprintf(k, sizeof k, "%s:signal%d", F->j.name, sg); viol(k, "%s died with signal %d%s; case %ld", F->j.name, sg, sg == SIGSEGV ? " (read-only input or guard page written?)" : "", i); }
  } else if (WEXITSTATUS(st) == 3) { fprintf(stderr, "child set-up failed\n"); exit(3); }
  else if (S->stage != 3) { snprintf(k, sizeof k, "%s:exit", F->j.name); viol(k, "%s ended the process; case %ld", F->j.name, i); }
  stat_add(locked ? "calls_with_memory_locked" : "calls_watched", S->calls); stat_add(locked ? "bytes_locked" : "snapshot_bytes_compared", S->snap_bytes); stat_max("max_writable_regions", S->regions);
  if (i % 303 == 0) sample("case %ld %s: %u calls, %u writable regions %s", i, F->j.name, S->calls, S->regions, locked ? "write-protected" : "snapshotted");
}
int main(int c, char **v)
{
  h_args(c, v); h_monitors();
  locked = !strcmp(a_mode, "locked");
  S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  F = mmap(0, sizeof *F, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED || F == MAP_FAILED) { perror("mmap"); return 3; }
  for (int i = 0; i < JMAXB; i++) arena_init(&A[i], 8192);
  for (long j = a_start + a_worker; j < a_start + a_n; j += a_workers) c_eff(j);
  h_finish(1);
  return 0;
}
