#define _GNU_SOURCE
#include "vtime.h"
#include <sys/syscall.h>
#include <unistd.h>
#define BASE 1700000000LL
int vt_on, vt_auto = 1;
long long vt_units, vt_cap = 1000;
static long long step = 1; static int idle;
static __thread int mine;
void vt_start(void) { vt_on = 1; mine = 1; }
void vt_touch(void) { step = 1; idle = 0; }
long vt_now(void) { return (long)vt_units; }
static void tick(void) {
	if (!vt_auto || !mine) return;
	if (++idle > 12) { idle = 0; step *= 2; if (step > vt_cap) step = vt_cap; }
	vt_units += step;
}
int gettimeofday(struct timeval *tv, void *tz) {
	(void)tz;
	if (!vt_on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
	tick(); tv->tv_sec = BASE + vt_units / 10000; tv->tv_usec = (vt_units % 10000) * 100; return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
	if (!vt_on) return syscall(SYS_clock_gettime, c, ts);
	tick(); ts->tv_sec = BASE + vt_units / 10000; ts->tv_nsec = (vt_units % 10000) * 100000; return 0;
}
time_t time(time_t *t) {
	time_t r;
	if (!vt_on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
	else r = BASE + vt_units / 10000;
	if (t) *t = r;
	return r;
}
