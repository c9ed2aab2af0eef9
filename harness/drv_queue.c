/* Functions queued to the pool's worker threads (queue_work, promise_work) by tasks: their outcome, order, and who
 * obtains it.  The worker threads run under rsched; the library is compiled with its scheduling points.  Memory
 * given back is overwritten. */
#define _GNU_SOURCE
#include <events.h>
#include <except.h>
#include "rsched.h"
#include "vtime.h"
#include "hx.h"
#include <errno.h>
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>

C_API const char ex_err__panic[];
EX_EXCEPTION(alpha); EX_EXCEPTION(beta);
int system(const char *cmd) { return 0; }
static int cpus = 2;
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { int k; CPU_ZERO(s); for (k = 0; k < cpus; k++) CPU_SET(k, s); return 0; }

/* the allocator: blocks that are given back are overwritten, and reused some time later */
enum { QN = 24 };
static __thread void *held[QN]; static __thread int nheld; static int fill;
static void *m_alloc(size_t n) { void *p = rp_malloc(n); if (p && fill) memset(p, fill == 1 ? 0xa5 : 0x01, n); return p; }
static void *m_realloc(void *p, size_t n) { return rp_realloc(p, n); }
static void *m_calloc(size_t n, size_t m) { return rp_calloc(n, m); }
static void m_free(void *p) {
	int k;
	if (!p) return;
	memset(p, fill == 1 ? 0xdd : 0, rpmalloc_usable_size(p));
	if (!fill) { rpfree(p); return; }
	k = nheld++ % QN; if (held[k]) rpfree(held[k]); held[k] = p;
}

enum { JN = 200, TN = 6, PN = 3 };
enum { K_NUM, K_PTR, K_NULL, K_ARR, K_ERR, K_THROW, K_STR, NK };
static struct { promise *p; int kind, x, by, nargs, got; intptr_t a[4]; char r[16]; } J[JN];
static int nj, tasks, end_early, maxjobs;
static const char *names[] = { "alpha", "beta", "range_error", "oops", "division_by_zero" };
#define WHAT (!strcmp(err.name, "_panic") ? try_message() : err.name)
static void raise_it(int x) {
	switch (x) {
	case 0: throw(alpha);
	case 1: throw(beta);
	case 2: throw(range_error);
	case 3: panic("oops");
	case 4: throw(division_by_zero);
	}
}
static void busy(int j) {
	int i, n = hx_rnd(3);
	for (i = 0; i < n; i++) {
		int c = hx_rnd(5), x = hx_rnd(5), ok = 0;
		if (c == 0) os_sleep(hx_rnd(4));
		else if (c == 1) { try { rs_point(); raise_it(x); } catch_any { ok = !strcmp(names[x], WHAT); } hx_ev("\"e\":\"blk\",\"ok\":%d", ok); }
		else if (c == 2) { guard { rs_point(); ok = 1; } guarded; hx_ev("\"e\":\"blk\",\"ok\":%d", ok); }
		else rs_point();
	}
}
static void *job(param_t args) {
	int j = (int)args[0].integer, i, same = (int)$size(args) == J[j].nargs + 1;
	for (i = 0; same && i < J[j].nargs; i++) same = args[i + 1].object == (void *)J[j].a[i];
	hx_ev("\"e\":\"run\",\"j\":%d,\"args\":%d,\"th\":%d", j, same, rs_self());
	errno = 0;
	busy(j);
	switch (J[j].kind) {
	case K_NUM: hx_ev("\"e\":\"ret\",\"j\":%d,\"kind\":\"v\",\"v\":%d,\"x\":\"\"", j, J[j].x); return casting(J[j].x);
	case K_PTR: hx_ev("\"e\":\"ret\",\"j\":%d,\"kind\":\"v\",\"v\":%d,\"x\":\"\"", j, J[j].x); return &J[j];
	case K_STR: hx_ev("\"e\":\"ret\",\"j\":%d,\"kind\":\"v\",\"v\":%d,\"x\":\"\"", j, J[j].x); snprintf(J[j].r, sizeof J[j].r, "%d", J[j].x); return J[j].r;
	case K_NULL: hx_ev("\"e\":\"ret\",\"j\":%d,\"kind\":\"v\",\"v\":0,\"x\":\"\"", j); return NULL;
	case K_ARR: hx_ev("\"e\":\"ret\",\"j\":%d,\"kind\":\"v\",\"v\":%d,\"x\":\"\"", j, J[j].x); return thrd_data(3, (intptr_t)J[j].x, (intptr_t)(J[j].x + 1), (intptr_t)(J[j].x * 2));
	case K_ERR: hx_ev("\"e\":\"ret\",\"j\":%d,\"kind\":\"e\",\"v\":%d,\"x\":\"\"", j, J[j].x); errno = J[j].x; return casting(-1);
	case K_THROW:
		hx_ev("\"e\":\"ret\",\"j\":%d,\"kind\":\"x\",\"v\":0,\"x\":\"%s\"", j, names[J[j].x]);
		if (hx_chance(30)) { guard { raise_it(J[j].x); } guarded; } else raise_it(J[j].x);
	}
	return NULL;
}
static int newjob(int me) {
	int j = nj++, i;
	J[j].kind = hx_rnd(NK);
	J[j].x = J[j].kind == K_THROW ? hx_rnd(5) : J[j].kind == K_ERR ? 1 + hx_rnd(30) : 1 + hx_rnd(100000);
	J[j].nargs = hx_rnd(4); J[j].by = me;
	for (i = 0; i < J[j].nargs; i++) J[j].a[i] = hx_rnd(1000000);
	return j;
}
#define ARGS4(f) switch (J[j].nargs) { \
	case 0: f(job, 1, (intptr_t)j); break; case 1: f(job, 2, (intptr_t)j, J[j].a[0]); break; \
	case 2: f(job, 3, (intptr_t)j, J[j].a[0], J[j].a[1]); break; default: f(job, 4, (intptr_t)j, J[j].a[0], J[j].a[1], J[j].a[2]); }
static future *W[8]; static int nw;
static int worker(future *f) { int k; for (k = 0; k < nw; k++) if (W[k] == f) return k; W[nw] = f; return nw++; }
static int submit(int me) {
	int j = newjob(me); future *f = futures_pool();
	if (nw && hx_chance(40)) f = W[hx_rnd(nw)];
	hx_ev("\"e\":\"queue\",\"t\":%d,\"j\":%d,\"w\":%d", me, j, worker(f));
#define Q(...) J[j].p = queue_work(f, __VA_ARGS__)
	ARGS4(Q)
	if (!J[j].p || !is_promise(J[j].p)) hx_ev("\"e\":\"nopromise\",\"j\":%d", j);
	return j;
}
/* what job j gave, as seen in v */
static int seen(int j, values_t v) {
	switch (J[j].kind) {
	case K_PTR: return v.object == &J[j] ? J[j].x : -1;
	case K_STR: return v.object == J[j].r && atoi(v.char_ptr) == J[j].x ? J[j].x : -1;
	case K_NULL: return v.object == NULL ? 0 : -1;
	case K_ARR: return v.integer;
	default: return v.object == casting(v.integer) ? v.integer : -2;
	}
}
static void told(int t, int j, values_t v, int e) {
	if (J[j].kind == K_ERR) hx_ev("\"e\":\"got\",\"t\":%d,\"j\":%d,\"kind\":\"%s\",\"v\":%d,\"x\":\"\"", t, j, v.object == casting(-1) ? "e" : "v", e);
	else hx_ev("\"e\":\"got\",\"t\":%d,\"j\":%d,\"kind\":\"v\",\"v\":%d,\"x\":\"\"", t, j, seen(j, v));
}
static void get(int me, int j) {
	values_t v; int e;
	J[j].got = 1;
	try { errno = 0; v = queue_get(J[j].p); e = errno; told(me, j, v, e); }
	catch_any { hx_ev("\"e\":\"got\",\"t\":%d,\"j\":%d,\"kind\":\"x\",\"v\":0,\"x\":\"%s\"", me, j, WHAT); }
}
static int wt, wl[JN], wn;                   /* queue_wait in progress: by whom, which */
static void then(tuple_t r) {
	/* the promise is not named: the value says which */
	char *p = r[0].object; int v = r[0].integer;
	if (p >= (char *)J && p < (char *)(J + JN)) { int j = (int)((p - (char *)J) / sizeof J[0]); v = p == (char *)&J[j] || p == J[j].r ? J[j].x : -9; }
	hx_ev("\"e\":\"then\",\"t\":%d,\"v\":%d", wt, v);
}
static void nap(void) { if (hx_chance(70)) yield(); else delay(hx_rnd(4)); }
static void waitall(int me) {
	int i, n = 0, any = hx_chance(80), l[JN]; array_t a = array(); char b[900]; size_t o = 0;
	if (wn) { $delete(a); return; }
	for (i = 0; i < nj; i++) if (J[i].by == me && !J[i].got && J[i].p && hx_chance(80)) { $append(a, J[i].p); l[n++] = i; J[i].got = 1; }
	if (!n) { $delete(a); return; }
	wn = n; wt = me; memcpy(wl, l, sizeof l);
	b[0] = 0; for (i = 0; i < n; i++) o += snprintf(b + o, sizeof b - o, "%s%d", i ? "," : "", l[i]);
	hx_ev("\"e\":\"wait\",\"t\":%d,\"js\":[%s],\"then\":%d", me, b, any);
	queue_wait(a, any ? then : NULL);
	hx_ev("\"e\":\"waited\",\"t\":%d,\"js\":[%s],\"then\":%d", me, b, any);
	wn = 0;
	for (i = 0; i < n; i++) if (!any || J[l[i]].kind == K_THROW) get(me, l[i]);
}
static void burst(int me) {
	int n = 20 + hx_rnd(130), k = nj;
	while (n-- && nj < JN) { int j = submit(me); if (hx_chance(10)) get(me, j); }
	if (hx_chance(50)) for (k = nj - 1; k >= 0; k--) if (J[k].by == me && !J[k].got && J[k].p) get(me, k);
}
static void program(int me) {
	int i, n = 1 + hx_rnd(7); promise *own = NULL;
	if (me == 0 && maxjobs == JN) burst(me);
	for (i = 0; i < n; i++) {
		int c = hx_rnd(12);
		if (c < 5 && nj < maxjobs) { int j = submit(me); if (hx_chance(25)) get(me, j); }
		else if (c < 7 && nj) { int k = hx_rnd(nj); if (J[k].by == me && !J[k].got && J[k].p) get(me, k); }
		else if (c == 7 && nj) { int k = hx_rnd(nj); if (J[k].by == me && !J[k].got && J[k].p) { int b = queue_is_valid(J[k].p); hx_ev("\"e\":\"valid\",\"j\":%d,\"b\":%d", k, b); } }
		else if (c == 8) waitall(me);
		else if (c == 9 && nj < maxjobs) {        /* a promise used again and again */
			int j = newjob(me); values_t v; int e; future *f = futures_pool();
			if (!own) own = alloc_promise();
			hx_ev("\"e\":\"queue\",\"t\":%d,\"j\":%d,\"w\":%d", me, j, worker(f));
			J[j].got = 1;
#define P(...) promise_work(own, __VA_ARGS__)
			ARGS4(P)
			if (hx_chance(30)) nap();
			if (hx_chance(30)) { J[j].p = own; own = NULL; get(me, j); continue; }
			try { errno = 0; v = promise_wait(own); e = errno; if (J[j].kind == K_ARR) { v = *(tuple_t)v.object; } told(me, j, v, e); }
			catch_any { hx_ev("\"e\":\"got\",\"t\":%d,\"j\":%d,\"kind\":\"x\",\"v\":0,\"x\":\"%s\"", me, j, WHAT); }
			if (hx_chance(30)) { promise_clean(own); own = NULL; }
		}
		else nap();
	}
	if (own) promise_clean(own);
	for (i = 0; i < nj; i++) if (J[i].by == me && !J[i].got && J[i].p && (!end_early || hx_chance(60))) get(me, i);
}
static void *task(param_t a) { program(a[0].integer); return 0; }
static void *first(param_t a) {
	int i;
	for (i = 1; i < tasks; i++) { async_task(task, 1, (intptr_t)i); if (hx_chance(30)) nap(); }
	program(0);
	return 0;
}
static void stuck(int why) { hx_ev("\"e\":\"stuck\",\"why\":%d", why); hx_done(); }
void hx_scenario(int i) {
	events_t *loop;
	cpus = 2 + hx_rnd(3); tasks = 1 + hx_rnd(4); fill = hx_rnd(3); end_early = hx_chance(20); maxjobs = hx_chance(6) ? JN : 16;
	hx_cfg("\"cpus\":%d,\"tasks\":%d", cpus, tasks);
	if (events_init(256)) return;
	events_set_allocator(m_alloc, m_realloc, m_calloc, m_free);
	vt_auto = 0;
	rs_start(i % 3, (i % 3) == 0 ? hx_rnd(12) : 1 + hx_rnd(12), maxjobs == JN ? 60000000 : 6000000, stuck);
	loop = events_init_pool(1 + hx_rnd(cpus));
	async_task(first, 0);
	async_run(loop);
	hx_ev("\"e\":\"over\"");
}
