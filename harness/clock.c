/* Interposes the real-time clock so that the code under test, whatever
   function it uses, sees the time set by vp_set() (nanoseconds; <0: off). */
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
static volatile long long vp_off_on = 0, vp_ns = 0;
void vp_set(long long ns) { vp_ns = ns; vp_off_on = 1; }
void vp_clear(void) { vp_off_on = 0; }
static long long fl(long long a, long long b) { long long q = a / b; return (a % b < 0) ? q - 1 : q; }
int clock_gettime(clockid_t c, struct timespec *t) {
  if (vp_off_on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
    t->tv_sec = fl(vp_ns, 1000000000LL);
    t->tv_nsec = vp_ns - t->tv_sec * 1000000000LL;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, c, t);
}
time_t time(time_t *p) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (p) *p = t.tv_sec;
  return t.tv_sec;
}
int gettimeofday(struct timeval *v, void *z) {
  struct timespec t;
  (void)z;
  clock_gettime(CLOCK_REALTIME, &t);
  if (v) { v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; }
  return 0;
}
