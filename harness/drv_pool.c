/* Tasks sent to the thread pool (go, go_guard, wait-groups) from the main thread and from the pool's own tasks: where
 * they run, how often, what they give.  The pool threads run under rsched; the library is compiled with its
 * scheduling points.  Memory given back is overwritten. */
#define _GNU_SOURCE
#include <events.h>
#include <except.h>
#include "rsched.h"
#include "vtime.h"
#include "hx.h"
#include <sched.h>
#include <stdlib.h>
#include <string.h>

int system(const char *cmd) { return 0; }
static int cpus = 2;
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { int k; CPU_ZERO(s); for (k = 0; k < cpus; k++) CPU_SET(k, s); return 0; }
enum { QN = 24 };
static __thread void *held[QN]; static __thread int nheld; static int fill;
static void *m_alloc(size_t n) { void *p = rp_malloc(n); if (p && fill) memset(p, fill == 1 ? 0xa5 : 0x01, n); return p; }
static void *m_realloc(void *p, size_t n) { return rp_realloc(p, n); }
static void *m_calloc(size_t n, size_t m) { return rp_calloc(n, m); }
static void m_free(void *p) {
	int k;
	if (!p) return;
	memset(p, fill == 1 ? 0xdd : 0, rpmalloc_usable_size(p));
	if (!fill) { rpfree(p); return; }
	k = nheld++ % QN; if (held[k]) rpfree(held[k]); held[k] = p;
}

enum { KN = 320, GN = 8 };
static struct { int rid, x, nargs, by, group, depth, isg, cleaned, ended, got; intptr_t a[3]; } K[KN];
static int nk, maxk, ngroup, prof, gmain;
static int newtask(int by, int depth, int group) {
	int k = nk++, i;
	K[k].x = hx_chance(25) ? 0 : 1 + hx_rnd(100000); K[k].by = by; K[k].depth = depth; K[k].group = group; K[k].rid = -1;
	K[k].nargs = hx_rnd(4);
	for (i = 0; i < 3; i++) K[k].a[i] = hx_rnd(1000000);
	return k;
}
static void program(int me, int depth, int n);
static void *body(param_t args) {
	int k = (int)args[0].integer, i, same = (int)$size(args) == K[k].nargs + 1;
	for (i = 0; same && i < K[k].nargs; i++) same = args[i + 1].object == (void *)K[k].a[i];
	hx_ev("\"e\":\"run\",\"k\":%d,\"args\":%d,\"th\":%d", k, same, rs_self());
	program(k, K[k].depth, hx_rnd(4));
	if (hx_chance(30)) { hx_ev("\"e\":\"peek\",\"k\":%d", k); i = task_is_canceled(); hx_ev("\"e\":\"look\",\"k\":%d,\"b\":%d", k, i); }
	hx_ev("\"e\":\"ret\",\"k\":%d,\"v\":%d,\"th\":%d", k, K[k].x, rs_self());
	K[k].ended = 1;
	return K[k].x ? casting(K[k].x) : NULL;
}
static void gbody(param_t args) {
	int k = (int)args[0].integer;
	hx_ev("\"e\":\"run\",\"k\":%d,\"args\":1,\"th\":%d", k, rs_self());
	program(k, K[k].depth, hx_rnd(3));
	hx_ev("\"e\":\"ret\",\"k\":%d,\"v\":%d,\"th\":%d", k, 0, rs_self());
}
static void *cleanup(void *v) { int k = (int)(intptr_t)v; hx_ev("\"e\":\"clean\",\"k\":%d,\"th\":%d", k, rs_self()); K[k].ended = 1; return 0; }
static void post(int me, int depth, int group) {
	int k; uint32_t r = 0;
	if (nk >= maxk) return;
	k = newtask(me, depth, group);
	if (group < 0 && hx_chance(12)) {
		K[k].isg = 1; K[k].x = 0;
		hx_ev("\"e\":\"send\",\"k\":%d,\"by\":%d,\"g\":-1,\"how\":\"guard\"", k, me);
		go_guard(Kb(32), gbody, (defer_cb)cleanup, (void *)(intptr_t)k);
		return;
	}
	hx_ev("\"e\":\"send\",\"k\":%d,\"by\":%d,\"g\":%d,\"how\":\"go\"", k, me, group);
	switch (K[k].nargs) {
	case 0: r = go(body, 1, (intptr_t)k); break;
	case 1: r = go(body, 2, (intptr_t)k, K[k].a[0]); break;
	case 2: r = go(body, 3, (intptr_t)k, K[k].a[0], K[k].a[1]); break;
	default: r = go(body, 4, (intptr_t)k, K[k].a[0], K[k].a[1], K[k].a[2]); break;
	}
	K[k].rid = (int)r;
	hx_ev("\"e\":\"id\",\"k\":%d,\"r\":%d", k, (int)r);
}
static void nap(void) { if (hx_chance(75)) yield(); else { int ms = hx_rnd(4); delay(ms); } }
static void await(int me, int k) {
	values_t v;
	K[k].got = 1;
	if (hx_chance(50)) v = await_for(K[k].rid);
	else { while (!task_is_ready(K[k].rid)) nap(); v = hx_chance(30) ? await_for(K[k].rid) : results_for(K[k].rid); }
	hx_ev("\"e\":\"got\",\"k\":%d,\"by\":%d,\"v\":%d", k, me, v.object == casting(v.integer) ? v.integer : -1);
}
static void group(int me, int depth) {
	int g = ngroup++, n = 1 + hx_rnd(7), i, first = nk, cap = hx_chance(50) ? 1 + hx_rnd(12) : n, none; waitgroup_t wg; array_t r; char b[300]; size_t o = 0;
	wg = waitgroup(cap);
	if (!is_waitgroup(wg)) { hx_ev("\"e\":\"nogroup\",\"g\":%d", g); return; }
	hx_ev("\"e\":\"group\",\"g\":%d,\"by\":%d", g, me);
	(void)first;
	for (i = 0; i < n; i++) post(me, depth + 1, g);
	hx_ev("\"e\":\"wait\",\"g\":%d,\"n\":%d", g, (int)tasks_count(wg));
	r = waitfor(wg);
	none = r == NULL; b[0] = 0;
	if (!none) for (i = 0; i < (int)$size(r) && o < 280; i++) o += snprintf(b + o, sizeof b - o, "%s%d", i ? "," : "", r[i].integer);
	hx_ev("\"e\":\"waited\",\"g\":%d,\"rs\":[%s]", g, b);
}
static void program(int me, int depth, int n) {
	int i, k;
	for (i = 0; i < n; i++) {
		int c = hx_rnd(10);
		if (c < 4 && depth < 3) { int m = prof == 2 && me == 0 && hx_chance(30) ? 20 + hx_rnd(60) : 1; while (m--) post(me, depth + 1, -1); }
		else if (c < 6 && nk) { k = hx_rnd(nk); if (K[k].by == me && !K[k].isg && K[k].rid >= 0 && !K[k].got) await(me, k); }
		else if (c == 6 && depth < 2 && ngroup < GN && (me == 0 || !gmain || prof)) group(me, depth);
		else if (c == 7 && nk > 1) {
			k = hx_rnd(nk);
			if (!K[k].isg && K[k].rid > 0) { hx_ev("\"e\":\"cancel\",\"k\":%d", k); task_set_canceled(K[k].rid); hx_ev("\"e\":\"cancelled\",\"k\":%d", k); }
		}
		else nap();
	}
	if (hx_chance(30)) for (k = 0; k < nk; k++) if (K[k].by == me && !K[k].isg && K[k].rid >= 0 && !K[k].got) await(me, k);
}
static int open_tasks(void) { int k; for (k = 0; k < nk; k++) if (!K[k].ended) return 1; return 0; }
static void *side(param_t a) { int k = (int)a[0].integer; program(k, 0, 2 + hx_rnd(4)); K[k].ended = 1; hx_ev("\"e\":\"sideend\",\"k\":%d", k); return 0; }
static void *first(param_t a) {
	int i, n = hx_rnd(3), k;
	K[0].ended = 1; nk = 1; K[0].isg = 1; K[0].by = -1;
	for (i = 0; i < n; i++) { k = newtask(-1, 0, -1); K[k].isg = 1; async_task(side, 1, (intptr_t)k); if (hx_chance(30)) nap(); }
	program(0, 0, 3 + hx_rnd(8));
	while (open_tasks()) nap();
	for (k = 1; k < nk; k++) if (!K[k].isg && K[k].rid >= 0 && (!K[k].got || hx_chance(20))) await(0, k);
	hx_ev("\"e\":\"over\"");
	return 0;
}
static void stuck(int why) { hx_ev("\"e\":\"stuck\",\"why\":%d", why); hx_done(); }
void hx_scenario(int i) {
	events_t *loop;
	prof = i % 3; cpus = 2 + hx_rnd(3); fill = hx_rnd(3); gmain = 1; maxk = prof == 2 ? KN : 40;
	hx_cfg("\"prof\":%d,\"cpus\":%d", prof, cpus);
	if (events_init(256)) return;
	events_set_allocator(m_alloc, m_realloc, m_calloc, m_free);
	vt_auto = 0;
	rs_start(hx_rnd(3), 1 + hx_rnd(12), 20000000, stuck);
	loop = events_init_pool(1);
	async_task(first, 0);
	async_run(loop);
	hx_done();
}
