#define _GNU_SOURCE
#include "rsched.h"
#include "vtime.h"
#include "hx.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <poll.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#define MAX 64
enum { RUN, DEAD, JOIN, SLEEP, EPOLL, PRED };
typedef struct { pthread_t th; volatile int go; int st, prio, other, fd; long long until; int (*pred)(void *); void *parg; void *(*fn)(void *); void *arg; } rt_t;
static rt_t T[MAX];
static volatile int cur = -1, on;
static int nt, policy, hot, lowprio, nch, spin;
static long steps, maxsteps, changes[16];
static void (*stuckf)(int);
static pthread_key_t endkey;
int rs_quiet;
static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_join)(pthread_t, void **);
static int (*r_epoll)(int, struct epoll_event *, int, int);
static int (*r_nanosleep)(const struct timespec *, struct timespec *);
static void futex(volatile int *a, int op, int v) { int e = errno; syscall(SYS_futex, a, op, v, NULL, NULL, 0); errno = e; }
static void pass(int k) { T[k].go = 1; __sync_synchronize(); futex(&T[k].go, FUTEX_WAKE_PRIVATE, 1); }
static void take(int k) { while (!T[k].go) futex(&T[k].go, FUTEX_WAIT_PRIVATE, 0); T[k].go = 0; __sync_synchronize(); }
int rs_self(void) { return on ? cur : -1; }
int rs_threads(void) { return nt; }
int rs_alive(void) { int k, n = 0; for (k = 0; k < nt; k++) n += T[k].st != DEAD; return n; }
long rs_steps(void) { return steps; }
static int fdready(int fd) { struct pollfd p = { fd, POLLIN, 0 }; return syscall(SYS_poll, &p, 1, 0) > 0; }
static int ready(int k, int full) {
	rt_t *t = &T[k];
	switch (t->st) {
		case RUN: return 1;
		case JOIN: return T[t->other].st == DEAD || (t->until >= 0 && vt_units >= t->until);
		case SLEEP: return vt_units >= t->until;
		case EPOLL: return (t->until >= 0 && vt_units >= t->until) || (full && fdready(t->fd));
		case PRED: return t->pred(t->parg);
	}
	return 0;
}
static void stuck(int why) { on = 0; if (stuckf) stuckf(why); _exit(9); }
static int pick(void) {
	int k, n, best, l[MAX]; static unsigned turn;
	for (;;) {
		int full = 1, i; (void)turn;
		for (n = 0, k = 0; k < nt; k++) if (T[k].st != DEAD && ready(k, full)) l[n++] = k;
		if (n) break;
		{ long long min = -1; for (i = 0; i < nt; i++) if (T[i].st != DEAD && T[i].st != RUN && T[i].st != PRED && T[i].until >= 0 && (min < 0 || T[i].until < min)) min = T[i].until;
		  if (min < 0) return -1;
		  if (min > vt_units) vt_units = min; }
	}
	if (policy == RS_PCT) { best = l[0]; for (k = 1; k < n; k++) if (T[l[k]].prio > T[best].prio) best = l[k]; return best; }
	if (policy == RS_BOUNDED) { for (k = 0; k < n; k++) if (l[k] == hot) return hot; return hot = l[hx_rnd(n)]; }
	return l[hx_rnd(n)];
}
static void resched(void) {
	int me = cur, k = pick();
	if (k < 0) stuck(2);
	T[k].st = RUN;
	if (k != me) { spin = 0; cur = k; pass(k); take(me); }
}
static void give_way(void) { if (policy == RS_PCT) T[cur].prio = --lowprio; else if (policy == RS_BOUNDED && hx_chance(60)) hot = -1; }
void rs_point(void) {
	int k, sw = 0;
	if (!on || cur < 0 || rs_quiet) return;
	steps++; spin++;
	if ((steps & 255) == 0) vt_units++;       /* waiting in a loop takes time, too */
	if (steps > maxsteps) stuck(1);
	for (k = 0; k < nch; k++) if (changes[k] == steps) { sw = 1; give_way(); hot = -1; }
	if (policy == RS_RANDOM && (hx_rand() & ((1 << nch) - 1)) == 0) sw = 1;
	if (spin > 4000) { sw = 1; spin = 0; give_way(); hot = -1; }
	if (sw) { int e = errno; resched(); errno = e; }
}
static void block(int st) { spin = 0; T[cur].st = st; resched(); }
void rs_wait(int (*pred)(void *), void *arg) { if (!on || cur < 0) return; if (pred(arg)) return; T[cur].pred = pred; T[cur].parg = arg; block(PRED); }

/* ---- threads ---- */
static void finish(int me) {
	int k;
	T[me].st = DEAD; if (!on) return;
	k = pick(); if (k < 0) stuck(2);
	T[k].st = RUN; cur = k; spin = 0; pass(k);
}
/* the baton is kept while the destructors of thread variables run: this one is put back till the last round */
static void ender(void *v) { long n = (long)v; int me = (int)(n >> 8); if ((n & 255) < 3) pthread_setspecific(endkey, (void *)(n + 1)); else finish(me); }
static void *start(void *a) {
	rt_t *t = a; void *r;
	take((int)(t - T));
	pthread_setspecific(endkey, (void *)(((long)(t - T) << 8) | 1));
	r = t->fn(t->arg);
	return r;
}
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
	int r, k;
	if (!r_create) r_create = dlsym(RTLD_NEXT, "pthread_create");
	if (!on || cur < 0) return r_create(th, at, fn, arg);
	if (nt == MAX) return EAGAIN;
	rs_point();
	k = nt;
	T[k].fn = fn; T[k].arg = arg; T[k].st = RUN; T[k].go = 0; T[k].prio = hx_rnd(1000);
	if ((r = r_create(&T[k].th, at, start, &T[k]))) return r;
	nt++;
	*th = T[k].th;
	give_way(); resched();
	return 0;
}
static int byid(pthread_t t) { int k; for (k = nt - 1; k >= 0; k--) if (T[k].th == t) return k; return -1; }
int pthread_join(pthread_t th, void **res) {
	int k;
	if (!r_join) r_join = dlsym(RTLD_NEXT, "pthread_join");
	if (on && cur >= 0 && (k = byid(th)) >= 0) { T[cur].other = k; T[cur].until = -1; block(JOIN); }
	return r_join(th, res);
}
int pthread_tryjoin_np(pthread_t th, void **res) {
	int k;
	if (on && cur >= 0 && (k = byid(th)) >= 0) { rs_point(); if (T[k].st != DEAD) { give_way(); resched(); return EBUSY; } }
	if (!r_join) r_join = dlsym(RTLD_NEXT, "pthread_join");
	return r_join(th, res);
}
int pthread_timedjoin_np(pthread_t th, void **res, const struct timespec *ts) {
	int k;
	if (!r_join) r_join = dlsym(RTLD_NEXT, "pthread_join");
	if (on && cur >= 0 && (k = byid(th)) >= 0) {
		T[cur].other = k; T[cur].until = (ts->tv_sec - 1700000000LL) * 10000 + ts->tv_nsec / 100000; block(JOIN);
		if (T[k].st != DEAD) return ETIMEDOUT;
	}
	return r_join(th, res);
}
/* ---- waiting ---- */
int nanosleep(const struct timespec *rq, struct timespec *rm) {
	if (!on || cur < 0) { if (!r_nanosleep) r_nanosleep = dlsym(RTLD_NEXT, "nanosleep"); return r_nanosleep(rq, rm); }
	T[cur].until = vt_units + rq->tv_sec * 10000LL + (rq->tv_nsec + 99999) / 100000; if (T[cur].until == vt_units) T[cur].until++; give_way(); block(SLEEP); return 0;
}
int usleep(useconds_t u) { struct timespec t = { u / 1000000, (u % 1000000) * 1000L }; return nanosleep(&t, NULL); }
int sched_yield(void) { if (!on || cur < 0) return syscall(SYS_sched_yield); give_way(); resched(); return 0; }
int epoll_wait(int ep, struct epoll_event *ev, int max, int tmo) {
	int n;
	if (!r_epoll) r_epoll = dlsym(RTLD_NEXT, "epoll_wait");
	if (!on || cur < 0) return r_epoll(ep, ev, max, tmo);
	n = r_epoll(ep, ev, max, 0);
	if (n) { rs_point(); return n; }
	give_way();
	if (tmo == 0) { resched(); return r_epoll(ep, ev, max, 0); }
	T[cur].fd = ep; T[cur].until = tmo < 0 ? -1 : vt_units + tmo * 10LL;
	block(EPOLL);
	return r_epoll(ep, ev, max, 0);
}
void rs_start(int pol, int arg, long max, void (*sf)(int)) {
	int k;
	vt_start(); vt_auto = 0;
	policy = pol; maxsteps = max; stuckf = sf; steps = 0; hot = -1; lowprio = 0; spin = 0;
	nch = arg > 16 ? 16 : arg;
	if (policy != RS_RANDOM) for (k = 0; k < nch; k++) changes[k] = 1 + hx_rnd(1 << (6 + hx_rnd(12)));
	pthread_key_create(&endkey, ender);
	T[0].th = pthread_self(); T[0].st = RUN; T[0].prio = hx_rnd(1000); nt = 1; cur = 0; on = 1;
}

/* ---- what the instrumented code calls ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { (void)p; rs_point(); } void __tsan_write##n(void *p) { (void)p; rs_point(); } \
	void __tsan_unaligned_read##n(void *p) { (void)p; rs_point(); } void __tsan_unaligned_write##n(void *p) { (void)p; rs_point(); } \
	void __tsan_volatile_read##n(void *p) { (void)p; rs_point(); } void __tsan_volatile_write##n(void *p) { (void)p; rs_point(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { (void)p; (void)n; rs_point(); }
void __tsan_write_range(void *p, size_t n) { (void)p; (void)n; rs_point(); }
void __tsan_vptr_update(void *p, void *v) { (void)p; (void)v; rs_point(); }
void __tsan_vptr_read(void *p) { (void)p; rs_point(); }
#define A(bits, T_) \
T_ __tsan_atomic##bits##_load(const volatile T_ *p, int mo) { (void)mo; rs_point(); return __atomic_load_n(p, 5); } \
void __tsan_atomic##bits##_store(volatile T_ *p, T_ v, int mo) { (void)mo; rs_point(); __atomic_store_n(p, v, 5); } \
T_ __tsan_atomic##bits##_exchange(volatile T_ *p, T_ v, int mo) { (void)mo; rs_point(); return __atomic_exchange_n(p, v, 5); } \
T_ __tsan_atomic##bits##_fetch_add(volatile T_ *p, T_ v, int mo) { (void)mo; rs_point(); return __atomic_fetch_add(p, v, 5); } \
T_ __tsan_atomic##bits##_fetch_sub(volatile T_ *p, T_ v, int mo) { (void)mo; rs_point(); return __atomic_fetch_sub(p, v, 5); } \
T_ __tsan_atomic##bits##_fetch_and(volatile T_ *p, T_ v, int mo) { (void)mo; rs_point(); return __atomic_fetch_and(p, v, 5); } \
T_ __tsan_atomic##bits##_fetch_or(volatile T_ *p, T_ v, int mo) { (void)mo; rs_point(); return __atomic_fetch_or(p, v, 5); } \
T_ __tsan_atomic##bits##_fetch_xor(volatile T_ *p, T_ v, int mo) { (void)mo; rs_point(); return __atomic_fetch_xor(p, v, 5); } \
T_ __tsan_atomic##bits##_fetch_nand(volatile T_ *p, T_ v, int mo) { (void)mo; rs_point(); return __atomic_fetch_nand(p, v, 5); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T_ *p, T_ *c, T_ v, int mo, int fmo) { (void)mo; (void)fmo; rs_point(); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T_ *p, T_ *c, T_ v, int mo, int fmo) { (void)mo; (void)fmo; rs_point(); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_ *p, T_ c, T_ v, int mo, int fmo) { (void)mo; (void)fmo; rs_point(); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; rs_point(); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
