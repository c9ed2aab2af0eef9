/* Functions given to threads of their own (thrd_async): their values, their exceptions, whether they are done; and
 * per-thread variables.  The threads run under rsched; the library is compiled with its scheduling points. */
#define _GNU_SOURCE
#include <events.h>
#include <except.h>
#include "rsched.h"
#include "vtime.h"
#include "hx.h"
#include <stdlib.h>
#include <string.h>

C_API const char ex_err__panic[];
EX_EXCEPTION(alpha); EX_EXCEPTION(beta); EX_EXCEPTION(gamma_ray);
int system(const char *cmd) { return 0; }
typedef struct { int n; char tag[28]; } rec;
thrd_static(int, num, NULL)
thrd_static(rec, box, NULL)

enum { FN = 12 };
static struct { future_t f; int kind, x, got, nargs, by; intptr_t a[4]; rec r; } F[FN];
static int nf, nth, depth_ok, vid; static __thread int me; static int tids;
static const char *names[] = { "alpha", "beta", "gamma_ray", "range_error", "oops", "division_by_zero" };
enum { K_INT, K_PTR, K_NULL, K_ARR, K_THROW, NK };
#define WHAT (!strcmp(err.name, "_panic") ? try_message() : err.name)
static void raise_it(int x) {
	switch (x) {
	case 0: throw(alpha);
	case 1: throw(beta);
	case 2: throw(gamma_ray);
	case 3: throw(range_error);
	case 4: panic("oops");
	case 5: throw(division_by_zero);
	}
}
static void vars(void) {                    /* what this thread stored, and nothing else */
	int w = hx_rnd(6), v = ++vid;
	switch (w) {
	case 0: *num() = v; hx_ev("\"e\":\"tset\",\"t\":%d,\"var\":\"num\",\"v\":%d", me, v); break;
	case 1: hx_ev("\"e\":\"tget\",\"t\":%d,\"var\":\"num\",\"v\":%d", me, *num()); break;
	case 2: box()->n = v; snprintf(box()->tag, sizeof box()->tag, "t%d-%d", me, v); hx_ev("\"e\":\"tset\",\"t\":%d,\"var\":\"box\",\"v\":%d", me, v); break;
	case 3: { char want[28]; int z = box()->n; snprintf(want, sizeof want, "t%d-%d", me, z); if (z && strcmp(want, box()->tag)) z = -1; hx_ev("\"e\":\"tget\",\"t\":%d,\"var\":\"box\",\"v\":%d", me, z); break; }
	case 4: { rec r; memset(&r, 0, sizeof r); r.n = v; snprintf(r.tag, sizeof r.tag, "t%d-%d", me, v); box(); *box() = r; hx_ev("\"e\":\"tset\",\"t\":%d,\"var\":\"box\",\"v\":%d", me, v); break; }
	case 5: box(), num(); break;
	}
}
static void start(void); static void ask(int k);
static void inner(int d) {                   /* blocks of its own, that the outcome does not depend on */
	int x = hx_rnd(6), ok = 0, w = hx_rnd(3);
	if (d > 2) return;
	if (w == 0) {
		guard { if (hx_chance(50)) inner(d + 1); ok = 1; } guarded;
		hx_ev("\"e\":\"blk\",\"t\":%d,\"how\":\"guard\",\"x\":\"\",\"ok\":%d", me, ok);
	} else if (w == 1) {
		try { rs_point(); if (hx_chance(40)) inner(d + 1); raise_it(x); } catch_any { ok = !strcmp(names[x], WHAT); }
		hx_ev("\"e\":\"blk\",\"t\":%d,\"how\":\"try\",\"x\":\"%s\",\"ok\":%d", me, names[x], ok);
	} else {
		const char *was = NULL;
		try { guard { if (hx_chance(40)) inner(d + 1); rs_point(); raise_it(x); } guarded; } catch_any { was = WHAT; }
		hx_ev("\"e\":\"blk\",\"t\":%d,\"how\":\"guarded\",\"x\":\"%s\",\"ok\":%d", me, names[x], was && !strcmp(was, names[x]));
	}
}
static void some(void) {
	int i, n = hx_rnd(3);
	for (i = 0; i < n; i++) {
		int c = hx_rnd(5);
		if (c == 0) os_sleep(hx_rnd(3)); else if (c <= 2) vars(); else if (c == 3) inner(0); else if (depth_ok && nf < FN) { start(); }
	}
}
static void *job(param_t args) {
	int k = (int)args[0].integer, i, same = (int)$size(args) == F[k].nargs + 1;
	void *r = NULL; rec *rp; int mine[FN], nm = 0;
	if (me == 0) me = ++tids;
	for (i = 0; same && i < F[k].nargs; i++) same = args[i + 1].object == (void *)F[k].a[i];
	hx_ev("\"e\":\"run\",\"t\":%d,\"f\":%d,\"args\":%d", me, k, same);
	some();
	for (i = 0; i < nf; i++) if (F[i].by == me && !F[i].got) ask(i);
	switch (F[k].kind) {
	case K_INT: hx_ev("\"e\":\"ret\",\"f\":%d,\"kind\":\"v\",\"v\":%d,\"x\":\"\"", k, F[k].x); return $((intptr_t)F[k].x);
	case K_PTR: hx_ev("\"e\":\"ret\",\"f\":%d,\"kind\":\"v\",\"v\":%d,\"x\":\"\"", k, F[k].x); F[k].r.n = F[k].x; return &F[k].r;
	case K_NULL: hx_ev("\"e\":\"ret\",\"f\":%d,\"kind\":\"v\",\"v\":0,\"x\":\"\"", k); return NULL;
	case K_ARR: hx_ev("\"e\":\"ret\",\"f\":%d,\"kind\":\"v\",\"v\":%d,\"x\":\"\"", k, F[k].x); return thrd_data(3, (intptr_t)F[k].x, (intptr_t)(F[k].x + 1), (intptr_t)(F[k].x * 2));
	case K_THROW:
		hx_ev("\"e\":\"ret\",\"f\":%d,\"kind\":\"x\",\"v\":0,\"x\":\"%s\"", k, names[F[k].x]);
		if (hx_chance(30)) { guard { raise_it(F[k].x); } guarded; } else raise_it(F[k].x);
	}
	return r;
}
static void start(void) {
	int k = nf++, i; future_t f = NULL;
	F[k].kind = hx_rnd(NK); if (hx_chance(25)) F[k].kind = K_THROW;
	F[k].x = F[k].kind == K_THROW ? hx_rnd(6) : 1 + hx_rnd(100000); F[k].nargs = hx_rnd(4); F[k].by = me;
	for (i = 0; i < F[k].nargs; i++) F[k].a[i] = hx_rnd(1000000);
	hx_ev("\"e\":\"start\",\"t\":%d,\"f\":%d", me, k);
	switch (F[k].nargs) {
	case 0: f = thrd_async(job, 1, (intptr_t)k); break;
	case 1: f = thrd_async(job, 2, (intptr_t)k, F[k].a[0]); break;
	case 2: f = thrd_async(job, 3, (intptr_t)k, F[k].a[0], F[k].a[1]); break;
	default: f = thrd_async(job, 4, (intptr_t)k, F[k].a[0], F[k].a[1], F[k].a[2]); break;
	}
	F[k].f = f;
	if (!f) hx_ev("\"e\":\"nothread\",\"f\":%d", k);
}
static void nap(void) { rs_point(); if (hx_chance(30)) os_sleep(1); }
static void ask(int k) {
	values_t v; int isf;
	if (!F[k].f) return;
	if (F[k].got < 2) { isf = is_future(F[k].f); if (!F[k].got && !isf) hx_ev("\"e\":\"notfuture\",\"f\":%d", k); }
	if (hx_chance(30) && !F[k].got) { int d = thrd_is_done(F[k].f); hx_ev("\"e\":\"done\",\"f\":%d,\"b\":%d", k, d); }
	if (hx_chance(30) && !F[k].got) { thrd_wait(F[k].f, nap); hx_ev("\"e\":\"done\",\"f\":%d,\"b\":1", k); }
	F[k].got++;
	try {
		v = thrd_get(F[k].f);
		{
			int z = -1;
			switch (F[k].kind) {
			case K_PTR: z = v.object == &F[k].r ? F[k].r.n : -1; break;
			case K_ARR: if (F[k].got > 1 || F[k].kind != K_ARR) { z = v.integer; break; } z = v.integer; break;
			default: z = v.integer; break;
			}
			hx_ev("\"e\":\"got\",\"f\":%d,\"kind\":\"v\",\"v\":%d,\"x\":\"\"", k, z);
		}
	} catch_any {
		hx_ev("\"e\":\"got\",\"f\":%d,\"kind\":\"x\",\"v\":0,\"x\":\"%s\"", k, WHAT);
	}
}
static void program(void) {
	int i, n = 2 + hx_rnd(10);
	for (i = 0; i < n; i++) {
		int c = hx_rnd(10);
		if (c < 4 && nf < FN) start();
		else if (c < 6 && nf) { int k = hx_rnd(nf); if (F[k].by == me && F[k].f && (!F[k].got || F[k].kind != K_ARR)) ask(k); }
		else if (c == 6) inner(0);
		else if (c == 7) vars();
		else if (c == 8 && nf) { int k = hx_rnd(nf); if (F[k].by == me && F[k].f && !F[k].got) { int d = thrd_is_done(F[k].f); hx_ev("\"e\":\"done\",\"f\":%d,\"b\":%d", k, d); } }
		else some();
	}
	for (i = 0; i < nf; i++) if (F[i].by == me && !F[i].got) ask(i);
}
static void *task(param_t a) { program(); return 0; }
static void stuck(int why) { hx_ev("\"e\":\"stuck\",\"why\":%d", why); hx_done(); }
void hx_scenario(int i) {
	int prof = hx_rnd(3);
	depth_ok = hx_chance(30);
	hx_cfg("\"prof\":%d", prof);
	if (events_init(256)) return;
	vt_auto = 0;
	if (hx_chance(50)) { *num() = 7; hx_ev("\"e\":\"tset\",\"t\":0,\"var\":\"num\",\"v\":7"); }
	rs_start(i % 3, (i % 3) == 0 ? hx_rnd(12) : 1 + hx_rnd(12), 3000000, stuck);
	if (prof == 0) program();
	else {
		events_t *loop = events_create(8);
		async_task(task, 0);
		if (prof == 2) { depth_ok = 0; }
		async_run(loop);
	}
}
