/* What a C program can ask about its surroundings.  While amb_on is set these answer whatever the monitor
 * chose, so that code which consults them is seen to depend on more than its arguments. */
#ifndef AMBIENT_H
#define AMBIENT_H
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
static volatile int amb_on; static volatile unsigned amb_asked; static char *volatile amb_env; static volatile uint64_t amb_num;
extern char **environ;
char *getenv(const char *n)
{
  if (amb_on) { amb_asked++; return amb_env; }
  size_t l = strlen(n);
  for (char **e = environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
  return 0;
}
char *secure_getenv(const char *n) { return getenv(n); }
int clock_gettime(clockid_t c, struct timespec *t) { if (amb_on) { amb_asked++; t->tv_sec = (time_t)(amb_num >> 1); t->tv_nsec = (long)(amb_num % 1000000000u); return 0; } return (int)syscall(SYS_clock_gettime, c, t); }
int gettimeofday(struct timeval *t, void *z) { struct timespec s; (void)z; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t *p) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
clock_t clock(void) { struct timespec s; if (amb_on) { amb_asked++; return (clock_t)amb_num; } clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s); return (clock_t)(s.tv_sec * 1000000 + s.tv_nsec / 1000); }
int rand(void) { amb_asked++; return (int)(amb_num & 0x7fffffff); }
long random(void) { amb_asked++; return (long)(amb_num & 0x7fffffff); }
pid_t getpid(void) { if (amb_on) { amb_asked++; return (pid_t)(amb_num & 0xffff); } return (pid_t)syscall(SYS_getpid); }
int sched_getcpu(void) { amb_asked++; return (int)(amb_num & 7); }
static char *const AMB_ENV[] = { 0, (char *)"", (char *)"0", (char *)"1", (char *)"yes", (char *)"all", (char *)"debug", (char *)"generic" };
#endif
