/* Scripted operating system under randombytes.c (C17).  randombytes.o is linked with its system calls
 * renamed to fake_*; the script decides what each call does and records every byte delivered. */
#include "h.h"
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include "win/wincrypt.h"
void uut(uint8_t *out, size_t outlen);

enum { FULL, SHORT, EIN, ZERO, FAIL };
#define MAXEV 4096
typedef struct { int kind; size_t arg; int err; uint32_t rep; } ev;   /* rep: how often it happens again */
static ev script[MAXEV]; static int nev, pos; static uint32_t reps;
static size_t cap;               /* largest delivery the system makes at once */
static uint64_t spos;            /* position in the stream of the system's random bytes */
static int hugerun; static uint8_t *huge_lo; static size_t huge_pg;
/* what the monitor saw; shared with the parent, survives the child's death */
static struct shm { uint64_t delivered, calls, eintr, shorts, fails, zeros, opens, badfd, lost; int returned, inreq; char note[256]; } *S;
static int openfd[16], nopen, lastfd;
static uint8_t sbyte(uint64_t p) { uint64_t x = (p >> 3) + 0x51; uint64_t z = splitmix(&x); return (uint8_t)(z >> (8 * (p & 7))); }
static void sfill(uint8_t *b, size_t n)
{
  if (hugerun) { memset(b, 0xA5, n); }   /* positions are not tracked for sizes above 2^32, only completeness */
  else for (size_t i = 0; i < n; i++) b[i] = sbyte(spos + i);
  spos += n; S->delivered += n;
}
static void note(const char *s) { if (!S->note[0]) snprintf(S->note, sizeof S->note, "%s", s); }
/* what the next call does; after the script ends every call succeeds fully */
static ev next(void)
{
  ev e = { FULL, 0, 0 };
  if (pos < nev) { e = script[pos]; if (reps++ >= e.rep) { pos++; reps = 0; } }
  S->calls++;
  return e;
}
static ssize_t deliver(uint8_t *b, size_t n)
{
  ev e = next();
  switch (e.kind) {
    case EIN: S->eintr++; errno = EINTR; return -1;
    case FAIL: S->fails++; errno = e.err; return -1;
    case ZERO: S->zeros++; errno = e.err; return 0;
    case SHORT: if (n > e.arg) { n = e.arg; S->shorts++; } break;
    default: break;
  }
  if (n > cap) { n = cap; S->shorts++; }
  sfill(b, n);
  errno = e.err;
  return (ssize_t)n;
}
long fake_syscall(long num, void *b, size_t n, unsigned flags)
{
  if (num != SYS_getrandom) { note("unexpected system call"); errno = ENOSYS; return -1; }
  if (flags & 4) note("insecure entropy requested (GRND_INSECURE)");
  return deliver(b, n);
}
ssize_t fake_getrandom(void *b, size_t n, unsigned flags)
{
  if (flags & 4) note("insecure entropy requested (GRND_INSECURE)");
  return deliver(b, n);
}
int fake_getentropy(void *b, size_t n)
{
  if (n > 256) { errno = EIO; return -1; }
  ev e = next();
  if (e.kind == FAIL || e.kind == EIN || e.kind == ZERO) { S->fails++; errno = ENOSYS; return -1; }
  sfill(b, n); return 0;
}
static int do_open(const char *p, int fl)
{
  if (strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random")) note("opened something else than the random device");
  if ((fl & O_ACCMODE) != O_RDONLY) note("random device not opened read-only");
  ev e = next();
  S->opens++;
  if (e.kind == EIN) { S->eintr++; errno = EINTR; return -1; }
  if (e.kind == FAIL) { S->fails++; errno = e.err; return -1; }
  if (nopen >= 16) { note("more than 16 descriptors open"); errno = EMFILE; return -1; }
  errno = e.err;
  lastfd = e.kind == ZERO ? 0 : lastfd + 1;   /* descriptor 0 is a valid descriptor */
  for (int i = 0; i < nopen; i++) if (openfd[i] == lastfd) lastfd = 900 + nopen;
  return openfd[nopen++] = lastfd;
}
int fake_open(const char *p, int fl, ...) { return do_open(p, fl); }
int fake_openat(int d, const char *p, int fl, ...) { (void)d; return do_open(p, fl); }
ssize_t fake_read(int fd, void *b, size_t n)
{
  int ok = 0;
  for (int i = 0; i < nopen; i++) ok |= openfd[i] == fd;
  if (!ok) { note("read from a descriptor that is not the random device"); S->badfd++; errno = EBADF; return -1; }
  if (n > 0x7ffff000) n = 0x7ffff000;
  return deliver(b, n);
}
int fake_close(int fd)
{
  for (int i = 0; i < nopen; i++) if (openfd[i] == fd) { openfd[i] = openfd[--nopen]; return 0; }
  note("closed a foreign descriptor"); errno = EBADF; return -1;
}
#define AL __attribute__((alias("fake_open")))
int fake_open64(const char *, int, ...) AL; int fake___open_2(const char *, int, ...) AL; int fake___open64_2(const char *, int, ...) AL;
int fake_openat64(int, const char *, int, ...) __attribute__((alias("fake_openat")));
ssize_t fake___read_chk(int, void *, size_t) __attribute__((alias("fake_read")));
/* Windows */
static uintptr_t wctx[16]; static int nctx;
DWORD GetLastError(void) { return 5; }
BOOL CryptAcquireContextA(HCRYPTPROV *c, const char *a, const char *b, DWORD t, DWORD fl)
{
  (void)a; (void)b; (void)t;
  ev e = next();
  if (e.kind == FAIL) { S->fails++; return 0; }
  if (!(fl & CRYPT_VERIFYCONTEXT)) { S->lost++; return 0; }   /* no key container exists */
  if (nctx >= 16) { note("more than 16 contexts open"); return 0; }
  wctx[nctx++] = *c = 0x1000 + (uintptr_t)S->calls;
  return e.kind == SHORT ? 2 : 1;   /* any nonzero value is success */
}
BOOL CryptGenRandom(HCRYPTPROV c, DWORD n, BYTE *b)
{
  int ok = 0;
  for (int i = 0; i < nctx; i++) ok |= wctx[i] == c;
  if (!ok) { note("CryptGenRandom on a context that is not open"); return 0; }
  ev e = next();
  if (e.kind == FAIL) { S->fails++; return 0; }
  if (n > 1) S->shorts++;
  sfill(b, n);
  return e.kind == SHORT ? 2 : 1;
}
BOOL CryptReleaseContext(HCRYPTPROV c, DWORD fl)
{
  (void)fl;
  for (int i = 0; i < nctx; i++) if (wctx[i] == c) {
    wctx[i] = wctx[--nctx];
    return 1;
  }
  note("released a context that is not open"); return 0;
}

static arena A;
static const int ERRS[] = { EIO, EAGAIN, ENOSYS, EFAULT, EPERM, EINVAL, ENOMEM, EBADF, EMFILE, ENFILE, EACCES, ENOENT, 0, ENXIO, ERANGE };
static char what[600];
#ifndef BACKEND
#define BACKEND "linux"
#endif
static const int is_win = BACKEND[0] == 'w', is_dev = BACKEND[0] == 'd' || BACKEND[0] == 'o';
static int plan(rng *r, size_t need)
{
  /* behaviour family; returns 1 when the script contains a failure */
  int fam = (int)rndn(r, 10), fails = 0;
  nev = pos = 0; reps = 0;
  cap = (size_t)-1;
  if (rndn(r, 3) == 0) cap = 1 + rndn(r, 300);
  if (is_dev || is_win) {   /* opening */
    int ne = rndn(r, 3) ? 0 : (int)rndn(r, is_win ? 1 : 40);
    for (int i = 0; i < ne; i++) script[nev++] = (ev){ EIN, 0, 0 };
    if (rndn(r, 12) == 0) { script[nev++] = (ev){ FAIL, 0, ERRS[rndn(r, 15)] }; fails = 1; }
    else script[nev++] = (ev){ rndn(r, 3) ? FULL : (is_win ? SHORT : ZERO), 0, (int)rndn(r, 2) ? EINTR : 0 };
  }
  int n = (int)rndn(r, 60);
  for (int i = 0; i < n && nev < MAXEV - 8; i++) {
    int kind; size_t a = 1 + rndn(r, need < 8 ? 8 : (uint32_t)(need > 4000 ? 4000 : need));
    switch (fam) {
      case 0: kind = FULL; break;
      case 1: kind = SHORT; a = 1; break;
      case 2: kind = SHORT; break;
      case 3: kind = EIN; break;
      case 4: kind = rndn(r, 2) ? EIN : SHORT; break;
      case 5: kind = i % 2 ? SHORT : EIN; a = 1 + rndn(r, 3); break;
      case 6: kind = rndn(r, 4) ? SHORT : ZERO; break;
      case 7: kind = SHORT; a = need > 1 ? need - 1 : 1; break;
      case 8: kind = SHORT; a = 255 + rndn(r, 3); break;
      default: kind = rndn(r, 3) == 0 ? EIN : SHORT; a = (size_t)1 << rndn(r, 10); break;
    }
    if (is_win && (kind == ZERO || kind == EIN)) kind = FULL;
    /* a stale errno after success must not matter */
    script[nev++] = (ev){ kind, a, rndn(r, 2) ? EINTR : ERRS[rndn(r, 15)] };
  }
  if (!is_win && nev && rndn(r, 16) == 0) {   /* the same thing hundreds or thousands of times in a row */
    static const uint32_t REP[] = { 100, 130, 260, 1000, 1030, 4100, 10000, 66000 };
    int at = (int)rndn(r, (uint32_t)nev);
    if (script[at].kind == FULL || script[at].kind == ZERO) script[at].kind = rndn(r, 3) ? EIN : SHORT;
    if (script[at].kind == SHORT) script[at].arg = 1;
    if (script[at].kind != FAIL) script[at].rep = REP[rndn(r, 8)];
  }
  if (rndn(r, 4) == 0) { int at = rndn(r, 2) ? nev : (int)rndn(r, (uint32_t)nev + 1);
    if ((is_dev || is_win) && at == 0) at = nev;
    memmove(script + at + 1, script + at, sizeof(ev) * (size_t)(nev - at)); nev++;
    script[at] = (ev){ FAIL, 0, ERRS[rndn(r, 15)] }; fails = 1;
    if (script[at].err == EAGAIN && rndn(r, 2)) script[at].err = EIO; }
  return fails;
}
static void bad(const char *k, const char *d) { char key[100]; snprintf(key, sizeof key, BACKEND ":%s", k); viol(key, "%s; case %s", d, what); }
static void c_os(long i)
{
  static const size_t LEN[] = { 0, 1, 2, 16, 31, 32, 33, 64, 255, 256, 257, 512, 4096, 65536, 1048575, 1048576, 1048577, 2097152, 3000000 };
  rng r; rng_init(&r, a_seed * 1000 + 71, (uint64_t)i);
  int calls = i % 997 == 500 ? 70000 : rndn(&r, 40) ? 1 + (int)rndn(&r, 4) : 5 + (int)rndn(&r, 1000);
  size_t len[4];
  memset(S, 0, sizeof *S);
  KEY(BACKEND ":os"); CTX(BACKEND " case %ld", i);
  for (int j = 0; j < 4; j++) {
    int c = (int)rndn(&r, 8);
    len[j] = c < 3 ? 1 + rndn(&r, 100) : c < 5 ? LEN[rndn(&r, 13)] : c == 5 ? rndn(&r, 5000) : c == 6 ? (rndn(&r, 6) ? 32 : LEN[13 + rndn(&r, 6)]) : 64;
    if (calls > 4 && len[j] > 300) len[j] = rndn(&r, 300);
  }
  int w = snprintf(what, sizeof what, "seed %llu case %ld lengths", (unsigned long long)a_seed, i);
  for (int j = 0; j < calls && j < 4; j++) w += snprintf(what + w, sizeof what - (size_t)w, " %zu", len[j]);
  if (calls > 4) w += snprintf(what + w, sizeof what - (size_t)w, " (%d calls)", calls);
  plan(&r, len[0]);
  w += snprintf(what + w, sizeof what - (size_t)w, " script");
  for (int j = 0; j < nev && j < 30; j++) w += snprintf(what + w, sizeof what - (size_t)w, script[j].rep ? " %c%zu*%u" : " %c%zu", "FSE0X"[script[j].kind], script[j].arg, script[j].rep + 1);
  uint64_t h = hash64(script, sizeof(ev) * (size_t)nev, hash64(len, sizeof len, cap + (size_t)calls));
  distinct(h);
  nopen = nctx = 0; lastfd = 2; spos = (uint64_t)i * 77; hugerun = 0;
  int place = (int)rndn(&r, 2);
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (!p) {
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL);
    struct itimerval it = { { 0, 0 }, { 20, 0 } }; signal(SIGVTALRM, SIG_DFL); setitimer(ITIMER_VIRTUAL, &it, 0);
    for (int j = 0; j < calls; j++) {
      size_t n = len[j & 3];
      uint8_t *o = place ? at_end(&A, n) : A.lo + 64;
      uint8_t *c0 = o - 64, *c1 = o + n;
      size_t tail = place ? 0 : 256;
      memset(c0, 0x5a, 64); memset(c1, 0x5a, tail); memset(o, (int)~sbyte(spos), n);
      uint64_t s0 = spos, f0 = S->fails + S->lost;
      errno = rndn(&r, 2) ? EINTR : 0;
      S->inreq = 1;
      uut(o, n);
      S->inreq = 0;
      S->returned++;
      if (S->fails + S->lost != f0) { note("returned although the source failed"); break; }
      if (spos - s0 != n) { snprintf(S->note, sizeof S->note, "call for %zu bytes returned after %llu were delivered", n, (unsigned long long)(spos - s0)); break; }
      for (size_t b = 0; b < n; b++) if (o[b] != sbyte(s0 + b)) { snprintf(S->note, sizeof S->note, "byte %zu of %zu is not the delivered one", b, n); goto out; }
      for (size_t b = 0; b < 64; b++) if (c0[b] != 0x5a) { note("wrote before the buffer"); goto out; }
      for (size_t b = 0; b < tail; b++) if (c1[b] != 0x5a) { note("wrote behind the buffer"); goto out; }
    }
out:
    _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); exit(3); }
  h_tick++;
  if (S->note[0]) bad("oracle", S->note);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) {
    if (!S->fails && !S->zeros) bad("abort", S->lost ? "aborted: context requested without CRYPT_VERIFYCONTEXT" : "aborted although the source never failed");
    stat_add("aborted_on_failure", 1);
  } else if (WIFSIGNALED(st)) { char d[80]; snprintf(d, sizeof d, WTERMSIG(st) == SIGVTALRM ? "no progress in 20 s of CPU time" : "killed by signal %d", WTERMSIG(st)); bad("died", d); }
  else if (WEXITSTATUS(st)) { bad("exit", "process exited without abort()"); }
  else if (S->inreq) bad("exit", "the process ended inside the call without abort()");
  else if (!S->note[0] && S->returned != calls) bad("lost", "harness lost a call");
  stat_max("max_calls_in_one_process", (uint64_t)S->returned); stat_max("max_interruptions_in_one_process", S->eintr);
  stat_add("requests_filled", (uint64_t)S->returned); stat_add("os_calls", S->calls); stat_add("interruptions", S->eintr);
  stat_add("short_deliveries", S->shorts); stat_add("failures_injected", S->fails); stat_add("zero_returns", S->zeros);
  stat_add("bytes_delivered_and_checked", S->delivered);
  sample(BACKEND " %s -> %s", what, WIFSIGNALED(st) ? "abort" : "filled");
}
/* a request above 2^32 bytes into a ring of pages; the last ring contents must all be delivered bytes */
static void c_hugeos(long i)
{
  size_t pg = 1 << 20, big = ((size_t)1 << 32) + 4097 + (size_t)i * 3;
  int fd = memfd_create("ring", 0);
  if (fd < 0 || ftruncate(fd, (off_t)pg)) { perror("memfd"); exit(3); }
  size_t tot = (big + pg - 1) / pg * pg;
  uint8_t *b = mmap(0, tot + pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == MAP_FAILED) { perror("mmap"); exit(3); }
  for (size_t o = 0; o < tot; o += pg) if (mmap(b + o, pg, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap ring"); exit(3); }
  struct itimerval off = { { 0, 0 }, { 0, 0 } }; setitimer(ITIMER_VIRTUAL, &off, 0);
  memset(S, 0, sizeof *S);
  snprintf(what, sizeof what, "one request of %zu bytes", big);
  KEY(BACKEND ":huge"); CTX("%s", what);
  memset(b, 0, pg);
  nev = pos = 0; reps = 0; cap = 33554431; spos = 0; hugerun = 1; nopen = nctx = 0; lastfd = 2;
  uut(b, big);
  if (S->note[0]) bad("oracle", S->note);
  if (S->delivered != big) { char d[120]; snprintf(d, sizeof d, "%llu bytes delivered for a request of %zu", (unsigned long long)S->delivered, big); bad("huge", d); }
  for (size_t j = 0; j < pg; j++) if (b[j] != 0xA5) { bad("huge", "ring byte never delivered"); break; }
  stat_add("huge_requests", 1);
  distinct((uint64_t)i + 99);
  munmap(b, tot + pg); close(fd); hugerun = 0;
}
int main(int c, char **v)
{
  h_args(c, v); h_monitors(); signal(SIGABRT, SIG_DFL);
  S = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  arena_init(&A, 4 << 20);
  void (*f)(long) = !strcmp(a_mode, "huge") ? c_hugeos : c_os;
  for (long j = a_start + a_worker; j < a_start + a_n; j += a_workers) f(j);
  h_finish(1);
  return 0;
}
