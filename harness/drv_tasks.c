/* Random programs of cooperative tasks on one thread; every step of every task is logged. */
#include <events.h>
#include "hx.h"
#include "vtime.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>

#define MAXT 420
static struct { int rid, awaitable, creator, gen, left, fdr, fdw; generator_t g; int owner; } T[MAXT];
static int nt, cap_tasks, quota, nextval = 1000, budget, prof, roots;
static int w[16];
enum { YIELD, SLEEP, ASYNC, LAUNCH, AWAIT, PEEK, CANCEL, GROUP, GEN, NEXT, FD, SELF, YREG, NOPS };
static int maxms;

static void ev(const char *fmt, ...) {
	char b[512]; va_list ap;
	va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	hx_ev("%s,\"now\":%ld", b, vt_now());
	vt_touch();
}
static void *body(param_t args);
static void *genbody(param_t args);
static void *root(param_t args);
static void lbody(param_t args) { body(args); }

static int pattern(int c, int k) { return c * 131 + k * 7 + 3; }

static int create(int p, int kind) {      /* 0 async, 1 launch, 2 generator, 3 main */
	int c = ++nt, rid;
	T[c].rid = -1; T[c].creator = p; T[c].awaitable = kind == 0 || kind == 3;
	ev("\"e\":\"create\",\"t\":%d,\"c\":%d,\"kind\":%d,\"soft\":%d", p, c, kind, kind == 3);
	if (kind == 1) {
		ev("\"e\":\"yield\",\"t\":%d", p);
		launch((launch_func_t)lbody, 2, casting(c), casting(c * 7 + p));
		return c;
	}
	if (kind == 2) { T[c].gen = 1; T[c].g = generator(genbody, 2, casting(c), casting(c * 7 + p)); return c; }
	if (kind == 3) rid = (int)async_task((param_func_t)root, 2, casting(c), casting(c * 7 + p));
	else rid = (int)async_task((param_func_t)body, 2, casting(c), casting(c * 7 + p));
	T[c].rid = rid;
	ev("\"e\":\"made\",\"c\":%d,\"id\":%d", c, rid);
	return c;
}

/* yield with known values in the registers a call must preserve */
static __attribute__((noinline)) int yield_regs(long k) {
#if defined(__x86_64__)
	long bad = 0;
	asm volatile(
		"movq %[k], %%rbx\n\t movq %[k], %%r12\n\t addq $1, %%r12\n\t movq %[k], %%r13\n\t addq $2, %%r13\n\t movq %[k], %%r14\n\t addq $3, %%r14\n\t"
		"movq %%rsp, %%r15\n\t subq $512, %%rsp\n\t andq $-16, %%rsp\n\t call yield\n\t movq %%r15, %%rsp\n\t"
		"subq $1, %%r12\n\t subq $2, %%r13\n\t subq $3, %%r14\n\t"
		"xorq %%rax, %%rax\n\t xorq %%rbx, %%r12\n\t orq %%r12, %%rax\n\t xorq %%rbx, %%r13\n\t orq %%r13, %%rax\n\t xorq %%rbx, %%r14\n\t orq %%r14, %%rax\n\t"
		"xorq %[k2], %%rbx\n\t orq %%rbx, %%rax\n\t"
		: "=&a"(bad) : [k] "m"(k), [k2] "m"(k) : "rbx", "r12", "r13", "r14", "r15", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "memory", "cc");
	return bad == 0;
#else
	yield(); return 1;
#endif
}

typedef struct { int c; volatile int loc[8]; int group; task_group_t *g; int gens[4], ngens; } me_t;
#define CHECKLOC() ({ int _k, _ok = 1; for (_k = 0; _k < 8; _k++) if (m->loc[_k] != pattern(m->c, _k)) _ok = 0; _ok; })

static void next(me_t *m, int i) {
	int g = m->gens[i]; values_t v; int x;
	ev("\"e\":\"next\",\"t\":%d,\"g\":%d", m->c, g);
	v = yielded(T[g].g); x = (int)v.long_long;
	ev("\"e\":\"value\",\"t\":%d,\"v\":%d,\"ok\":%d,\"gid\":%d", m->c, x, CHECKLOC(), x ? (int)gen_id() : -1);
	if (!x) m->gens[i] = m->gens[--m->ngens];
}
static void drain(me_t *m) { while (m->ngens) next(m, m->ngens - 1); }

static void gwait(me_t *m) {
	char b[6000], *p = b, *q; char vals[3000]; array_t r; int i, n = 0, ended;
	drain(m);
	ev("\"e\":\"gwait\",\"t\":%d", m->c);
	r = tasks_wait(m->g);
	p += sprintf(p, "["); q = vals; q += sprintf(q, "[");
	if (r) { foreach(x in r) {
		p += sprintf(p, "%s%d", n ? "," : "", x.integer);
		q += sprintf(q, "%s%d", n ? "," : "", (int)results_for(x.integer).long_long); n++;
		if (n > 200) break;
	} }
	sprintf(p, "]"); sprintf(q, "]");
	hx_ev("\"e\":\"gdone\",\"t\":%d,\"ids\":%s,\"vals\":%s,\"ok\":%d,\"now\":%ld", m->c, b, vals, CHECKLOC(), vt_now());
	vt_touch();
	m->group = 0;
}

static int pick(void) {
	int i, s = 0, x;
	for (i = 0; i < NOPS; i++) s += w[i];
	x = hx_rnd(s);
	for (i = 0; i < NOPS; i++) { if (x < w[i]) return i; x -= w[i]; }
	return YIELD;
}

static void step(me_t *m) {
	int c = m->c, op = pick(), i, x, k;
	switch (op) {
	case YIELD:
		ev("\"e\":\"yield\",\"t\":%d", c); yield(); ev("\"e\":\"resume\",\"t\":%d,\"ok\":%d", c, CHECKLOC()); break;
	case YREG:
		ev("\"e\":\"yield\",\"t\":%d", c); k = yield_regs(c * 1000003L + hx_rnd(1000)); ev("\"e\":\"resume\",\"t\":%d,\"ok\":%d", c, k && CHECKLOC()); break;
	case SLEEP: {
		uint32_t ms = hx_chance(30) ? hx_rnd(4) : hx_rnd(maxms) + 1, r;
		if (prof == 2 && hx_chance(4)) ms = 4000 + hx_rnd(20000);
		ev("\"e\":\"sleep\",\"t\":%d,\"ms\":%d", c, (int)ms); r = delay(ms);
		ev("\"e\":\"wake\",\"t\":%d,\"ret\":%d,\"ok\":%d", c, (int)r, CHECKLOC()); break;
	}
	case ASYNC: case LAUNCH:
		if (nt + 1 >= cap_tasks) break;
		if (op == ASYNC) { k = hx_chance(15) ? hx_rnd(prof == 1 ? 80 : 10) + 1 : 1; for (i = 0; i < k && nt + 1 < cap_tasks; i++) create(c, 0); }
		else { create(c, 1); ev("\"e\":\"resume\",\"t\":%d,\"ok\":%d", c, CHECKLOC()); }
		break;
	case AWAIT:
		/* only later tasks: no waiting in circles */
		for (k = 0; k < 8; k++) {
			x = c + 1 + hx_rnd(nt - c);
			if (x > c && x <= nt && T[x].awaitable && T[x].rid >= 0) {
				ev("\"e\":\"await\",\"t\":%d,\"c\":%d", c, x);
				i = (int)await_for(T[x].rid).long_long;
				ev("\"e\":\"got\",\"t\":%d,\"c\":%d,\"v\":%d,\"ok\":%d", c, x, i, CHECKLOC());
				break;
			}
		}
		break;
	case PEEK:
		for (k = 0; k < 4; k++) {
			x = 1 + hx_rnd(nt);
			if (T[x].awaitable && T[x].rid >= 0) {
				int r = task_is_ready(T[x].rid); i = (int)results_for(T[x].rid).long_long;
				ev("\"e\":\"peek\",\"t\":%d,\"c\":%d,\"ready\":%d,\"v\":%d", c, x, r, i);
				break;
			}
		}
		break;
	case CANCEL:
		x = 1 + hx_rnd(nt);
		/* identifier 0 belongs to the library */
		if (T[x].awaitable && T[x].rid > 0) { ev("\"e\":\"cancel\",\"t\":%d,\"c\":%d", c, x); task_set_canceled(T[x].rid); }
		break;
	case SELF:
		if (T[c].awaitable) ev("\"e\":\"cancelled\",\"t\":%d,\"v\":%d,\"id\":%d", c, (int)task_is_canceled(), (int)task_id());
		break;
	case GROUP:
		if (m->group) { if (hx_chance(40)) gwait(m); }
		else if (nt + 4 < cap_tasks && m->ngens == 0) {
			ev("\"e\":\"group\",\"t\":%d", c); m->g = task_group(); m->group = 1;
			k = hx_rnd(hx_chance(10) ? 30 : 6);
			for (i = 0; i < k && nt + 1 < cap_tasks; i++) create(c, 0);
			if (hx_chance(50)) gwait(m);
		}
		break;
	case GEN:
		if (m->ngens < 3 && nt + 1 < cap_tasks) { x = create(c, 2); T[x].owner = c; m->gens[m->ngens++] = x; }
		break;
	case NEXT:
		if (m->ngens) next(m, hx_rnd(m->ngens));
		break;
	case FD:
		if (!T[c].fdr && nt + 1 < cap_tasks) {
			int p[2];
			if (pipe(p)) break;
			T[c].fdr = p[0]; T[c].fdw = p[1];
			if (hx_chance(30)) { ev("\"e\":\"feed\",\"t\":%d,\"c\":%d", c, c); (void)!write(p[1], "x", 1); }
			else create(c, 0);           /* children of a task with a pipe feed it when they end */
			ev("\"e\":\"fdwait\",\"t\":%d", c);
			async_wait(T[c].fdr, 'r');
			ev("\"e\":\"fdready\",\"t\":%d,\"ok\":%d", c, CHECKLOC());
			{ char z[64]; (void)!read(p[0], z, 64); }
			close(p[0]); close(p[1]); T[c].fdr = T[c].fdw = 0;
		}
		break;
	}
}

static void enter(me_t *m, param_t args) {
	int k;
	m->c = args[0].integer; m->group = 0; m->ngens = 0;
	for (k = 0; k < 8; k++) m->loc[k] = pattern(m->c, k);
	ev("\"e\":\"start\",\"t\":%d,\"a\":%d,\"b\":%d,\"rid\":%d", m->c, m->c, args[1].integer, T[m->c].awaitable || T[m->c].gen ? (int)task_id() : -1);
}
static int leave(me_t *m) {
	int v, p = T[m->c].creator;
	if (m->group) gwait(m);
	drain(m);
	v = hx_chance(25) || !(T[m->c].awaitable || T[m->c].gen) ? 0 : nextval++;
	if (p && T[p].fdw) { ev("\"e\":\"feed\",\"t\":%d,\"c\":%d", m->c, p); (void)!write(T[p].fdw, "x", 1); }
	ev("\"e\":\"finish\",\"t\":%d,\"v\":%d,\"ok\":%d", m->c, v, CHECKLOC());
	return v;
}
static void *body(param_t args) {
	me_t me, *m = &me; int k;
	enter(m, args);
	for (k = hx_rnd(budget); k > 0 && quota > 0; k--) { quota--; step(m); }
	k = leave(m);
	return casting((long)k);
}
static void *root(param_t args) {
	me_t me, *m = &me; int k;
	enter(m, args);
	for (k = budget * 4; k > 0 && quota > 0; k--) { quota--; step(m); }
	k = leave(m);
	return casting((long)k);
}
static void *genbody(param_t args) {
	me_t me, *m = &me; int k, v, n;
	enter(m, args);
	n = hx_rnd(7);
	for (k = 0; k < n; k++) {
		if (quota > 0 && hx_chance(25)) { quota--; step(m); }
		v = nextval++;
		ev("\"e\":\"give\",\"t\":%d,\"v\":%d", m->c, v);
		yielding(casting((long)v));
		ev("\"e\":\"gave\",\"t\":%d,\"ok\":%d", m->c, CHECKLOC());
	}
	k = leave(m);
	return casting((long)k);
}

void hx_scenario(int i) {
	static const int W[6][NOPS] = {
	/*  yield sleep async launch await peek cancel group gen next fd self yreg */
		{ 30,   8,   10,   6,    8,   4,    2,    5,   3,  8,  3,  3,  6 },
		{ 14,   4,   20,   3,   30,  12,    6,    3,   0,  0,  0,  8,  2 },
		{ 10,  40,   14,   4,    5,   2,    0,    3,   1,  2,  0,  0,  2 },
		{ 14,   8,    6,   3,    2,   0,    0,    1,  16, 40,  0,  0,  2 },
		{ 14,  10,    8,   4,    4,   2,    1,   22,   2,  4,  0,  0,  2 },
		{ 20,  10,   10,  16,    3,   1,    0,    3,   2,  4, 14,  0,  4 } };
	int p, k, withmain; events_t *loop; const char *e = getenv("PROFILE");
	prof = e ? atoi(e) : i % 6;
	if (e && hx_chance(25)) prof = 0;
	memcpy(w, W[prof], sizeof w);
	for (k = 0; k < NOPS; k++) if (hx_chance(15)) w[k] = 0;
	w[YIELD] += 1;
	cap_tasks = hx_chance(prof == 1 ? 50 : 10) ? 260 : hx_chance(50) ? 40 : 12;
	quota = hx_thorough() ? 60 + hx_rnd(700) : 40 + hx_rnd(300);
	budget = 2 + hx_rnd(20);
	maxms = hx_chance(50) ? 5 : hx_chance(50) ? 50 : 1000;
	vt_cap = 1 << hx_rnd(11);
	roots = 1 + hx_rnd(5);
	withmain = hx_chance(60);
	hx_cfg("\"prof\":%d,\"main\":%d,\"cap\":%d", prof, withmain, cap_tasks);
	events_init(1024);
	vt_start();
	loop = events_create(8);
	if (withmain) { events_set_main((main_cb)root); create(0, 3); }
	for (k = withmain; k < roots; k++) create(0, 0);
	if (!withmain && hx_chance(20)) for (k = 0; k < 80; k++) create(0, 0);
	async_run(loop);
	ev("\"e\":\"ran\"");
	if (hx_chance(20)) { events_destroy(loop); events_deinit(); }
}
