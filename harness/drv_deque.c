/* Random small programs over one work queue: thread 0 pushes and takes, the others steal.  Every
 * program is run under many schedules of the memory accesses of src/deque.c (vsched.c); each
 * distinct history of calls and answers is one run of the trace. */
#include "events_internal.h"
#include "vsched.h"
#include "hx.h"
#include <stdlib.h>
#define events_calloc(n, s) vs_alloc((n) * (s))
#define events_malloc(s) vs_alloc(s)
#define events_free(p) vs_free(p)
#define events_realloc my_realloc
#define deque_init dq_init
#define deque_resize dq_resize
#define deque_take dq_take
#define deque_push dq_push
#define deque_steal dq_steal
#define deque_free dq_free
#define deque_destroy dq_destroy
#define deque_peek dq_peek
static void *my_realloc(void *p, size_t n) { void *q = vs_alloc(n); size_t o = p ? vs_size(p) : 0; memcpy(q, p, o < n ? o : n); vs_free(p); return q; }
#include "deque.c"

enum { PUSH = 1, TAKE, STEAL };
typedef struct { int op, arg; } op_t;
static op_t prog[VS_MAX][40]; static int nop[VS_MAX], nth;
static events_deque_t *Q;
#define __nosan __attribute__((no_sanitize("thread")))
typedef struct { unsigned char t, kind, op, val; } h_t;
static h_t H[400]; static int nh;
static __nosan void ev(int kind, int op, int val) { if (nh < 400) { H[nh].t = vs_self() < 0 ? 0 : vs_self(); H[nh].kind = kind; H[nh].op = op; H[nh].val = val; nh++; } }
static __nosan int num(tasks_t *x) { uintptr_t v = (uintptr_t)x; return x == TASK_EMPTY_T ? 0 : x == TASK_ABORT_T ? 255 : v >= 0x1000 && v < 0x1000 + 16 * 200 && v % 16 == 0 ? (int)((v - 0x1000) / 16) : 254; }
static __nosan tasks_t *item(int n) { return (tasks_t *)(uintptr_t)(0x1000 + 16 * n); }
static __nosan int doop(int op, int arg) {
	int r = 0;
	ev(0, op, arg);
	if (op == PUSH) dq_push(Q, item(arg));
	else if (op == TAKE) r = num(dq_take(Q));
	else r = num(dq_steal(Q));
	ev(1, op, r);
	return r;
}
static __nosan void body(void *a) { int i, t = (int)(intptr_t)a; for (i = 0; i < nop[t]; i++) doop(prog[t][i].op, prog[t][i].arg); }

static uint64_t seen[4096]; static int nseen;
static __nosan int fresh(void) {
	uint64_t h = 1469598103934665603ull; int i;
	for (i = 0; i < nh; i++) h = (h ^ (H[i].t * 1000003ull + H[i].kind * 10007ull + H[i].op * 101ull + H[i].val)) * 1099511628211ull;
	for (i = 0; i < nseen; i++) if (seen[i] == h) return 0;
	if (nseen < 4096) seen[nseen++] = h;
	return 1;
}
static __nosan void emit(int size, int bad, int stuck, const char *mode) {
	static const char *nm[] = { "", "push", "take", "steal" };
	int i;
	hx_ev("\"e\":\"run\",\"size\":%d,\"mode\":\"%s\"", size, mode);
	for (i = 0; i < nh; i++)
		if (H[i].kind == 2) hx_ev("\"e\":\"join\"");
		else if (!H[i].kind) hx_ev("\"e\":\"call\",\"t\":%d,\"op\":\"%s\",\"v\":%d", H[i].t, nm[H[i].op], H[i].val);
		else hx_ev("\"e\":\"ret\",\"t\":%d,\"op\":\"%s\",\"v\":%d", H[i].t, nm[H[i].op], H[i].val);
	hx_ev("\"e\":\"over\",\"bad\":%d,\"stuck\":%d", bad, stuck);
}

__nosan void hx_scenario(int i) {
	static const int sizes[] = { 1, 2, 2, 4, 8 };
	int size = sizes[hx_rnd(5)], t, k, v = 1, runs, r, pre = 0, emitted = 0, want = hx_thorough() ? 120 : 40, m = i % 8, base;
	(void)i;
	nth = 1 + (m == 7 ? 0 : 1 + hx_rnd(3));
	/* the owner's program leans to filling, mixing or emptying */
	base = hx_rnd(3);
	nop[0] = m == 7 ? 30 : 2 + hx_rnd(6);
	for (k = 0; k < nop[0]; k++) {
		int push = base == 0 ? hx_chance(75) : base == 1 ? hx_chance(50) : hx_chance(40);
		prog[0][k].op = push ? PUSH : TAKE; prog[0][k].arg = push ? v++ : 0;
	}
	for (t = 1; t < nth; t++) { nop[t] = 1 + hx_rnd(3); for (k = 0; k < nop[t]; k++) { prog[t][k].op = STEAL; prog[t][k].arg = 0; } }
	pre = hx_rnd(4);
	hx_cfg("\"threads\":%d,\"size\":%d,\"pre\":%d", nth, size, pre);
	runs = hx_thorough() ? 3000 : 500;
	for (r = 0; r < runs && emitted < want; r++) {
		int pol = r % 3, arg = pol == VS_PCT ? 1 + hx_rnd(4) : pol == VS_BOUNDED ? 1 + hx_rnd(4) : 0, stuck, x, n;
		const char *mode = hx_thorough() && r % 2 ? "pso" : "tso";
		vs_reset(); nh = 0; vs_pso = mode[0] == 'p';
		Q = vs_alloc(sizeof *Q);
		dq_init(Q, size);
		for (k = 0; k < pre; k++) doop(PUSH, 100 + k);
		for (t = 0; t < nth; t++) vs_spawn(body, (void *)(intptr_t)t);
		stuck = vs_run(pol, arg, 4000);
		if (!stuck) ev(2, 0, 0);
		/* what is left: alternately from either end */
		for (n = 0; !stuck && n < 60; n++) { x = doop(n % 2 && (r & 1) ? STEAL : TAKE, 0); if (x == 0) break; }
		x = vs_bad;
		if (fresh() || x || stuck) { emit(size, x, stuck, mode); emitted++; if (x || stuck) break; }
	}
}
