/* Random programs of protected blocks, guards, deferred cleanups and protected pointers; in the main thread or in tasks that yield. */
#define _GNU_SOURCE
#include <events.h>
#include <except.h>
#include "hx.h"
#include <stdlib.h>
#include <string.h>
#include <signal.h>

C_API const char ex_err__panic[];
EX_EXCEPTION(alpha); EX_EXCEPTION(beta); EX_EXCEPTION(gamma_ray);

static int nid, nops, maxops, prof, ntask, done, tasks;
static int cur;                        /* the task that runs, 0: main program */
static char objs[4096];                /* protected objects, by address */
static intptr_t heapobj[256]; static int nobj;

int system(const char *cmd) { return 0; }   /* the library resolves addresses for its back trace with a program */

enum { NT = 8 };
static const char *names[NT] = { "alpha", "beta", "gamma_ray", "range_error", "sig_fpe", "sig_ill", "oops", "invalid_type" };
static void raise_it(int x) {
	hx_ev("\"e\":\"throw\",\"t\":%d,\"x\":\"%s\"", cur, names[x]);
	switch (x) {
	case 0: throw(alpha);
	case 1: throw(beta);
	case 2: throw(gamma_ray);
	case 3: throw(range_error);
	case 4: raise(SIGFPE); break;
	case 5: raise(SIGILL); break;
	case 6: panic("oops");
	case 7: throw(invalid_type);
	}
}
static void block(int d);
static void hand(int d) { if (hx_chance(70)) block(d + 1); }
#define MSG hx_ev("\"e\":\"msg\",\"t\":%d,\"id\":%d,\"x\":\"%s\"", cur, id, try_message() ? try_message() : "")
#define NAME() (!strcmp(err.name, "_panic") ? "oops" : err.name)
#define IN(h, f) int id = ++nid; hx_ev("\"e\":\"try\",\"t\":%d,\"id\":%d,\"h\":[%s],\"fin\":%d", cur, id, h, f)
#define BODY { block(d + 1); hx_ev("\"e\":\"bodyend\",\"t\":%d,\"id\":%d", cur, id); }
#define HND(i) { hx_ev("\"e\":\"catch\",\"t\":%d,\"id\":%d,\"i\":%d,\"x\":\"%s\"", cur, id, i, NAME()); hand(d); MSG; \
	if (hx_chance(25)) { hx_ev("\"e\":\"rethrow\",\"t\":%d,\"id\":%d", cur, id); rethrow; } hx_ev("\"e\":\"catchend\",\"t\":%d,\"id\":%d", cur, id); }
#define IFH(i, E) { hx_ev("\"e\":\"catch\",\"t\":%d,\"id\":%d,\"i\":%d,\"x\":\"%s\"", cur, id, i, NAME()); \
	int r = caught(E); hx_ev("\"e\":\"if\",\"t\":%d,\"id\":%d,\"x\":\"%s\",\"r\":%d", cur, id, EX_STR(E), r); hand(d); MSG; \
	if (hx_chance(25)) { hx_ev("\"e\":\"rethrow\",\"t\":%d,\"id\":%d", cur, id); rethrow; } hx_ev("\"e\":\"catchend\",\"t\":%d,\"id\":%d", cur, id); }
#define FIN { hx_ev("\"e\":\"fin\",\"t\":%d,\"id\":%d", cur, id); hand(d); hx_ev("\"e\":\"finend\",\"t\":%d,\"id\":%d", cur, id); }
#define OUT hx_ev("\"e\":\"after\",\"t\":%d,\"id\":%d", cur, id)
#define TWO(name, h, catches) \
	static void name##0(int d) { IN(h, 0); try BODY catches OUT; } \
	static void name##1(int d) { IN(h, 1); try BODY catches finally FIN OUT; }
TWO(t_none, "", )
TWO(t_a, "\"alpha\"", catch (alpha) HND(1))
TWO(t_ab, "\"alpha\",\"beta\"", catch (alpha) HND(1) catch (beta) HND(2))
TWO(t_sig, "\"sig_fpe\",\"gamma_ray\",\"range_error\"", catch (sig_fpe) HND(1) catch (gamma_ray) HND(2) catch (range_error) HND(3))
TWO(t_any, "\"*\"", catch_any HND(1))
TWO(t_bany, "\"beta\",\"*\"", catch (beta) HND(1) catch_any HND(2))
TWO(t_if, "\"?\"", catch_if IFH(1, alpha))
TWO(t_ifp, "\"gamma_ray\",\"?\"", catch (gamma_ray) HND(1) catch_if IFH(2, oops))
struct tr { int d, id, me; };
static void *tr_try(void *w) { struct tr *r = w; int d = r->d, id = r->id; BODY return r; }
static void *tr_catch(void *w) {
	struct tr *r = w; int d = r->d, id = r->id;
	hx_ev("\"e\":\"catch\",\"t\":%d,\"id\":%d,\"i\":1,\"x\":\"%s\"", cur, id, try_message() ? try_message() : ""); hand(d); MSG;
	hx_ev("\"e\":\"catchend\",\"t\":%d,\"id\":%d", cur, id);
	return &r->me;
}
/* with a finally function only one at a time in a task: it gets no argument to tell which */
static struct tr tr_now[8]; static int tr_used[8];
static void tr_fin(param_t v) {
	int d = tr_now[cur].d, id = tr_now[cur].id;
	tr_used[cur] = 0;
	FIN
}
static void t_trying(int d) {
	struct tr r; int fin = !tr_used[cur];
	IN("\"*\"", fin);
	r.d = d; r.id = id; r.me = 0;
	if (fin) tr_used[cur] = 1, tr_now[cur] = r;
	trying(&r, (data_func_t)tr_try, (data_func_t)tr_catch, fin ? (launch_func_t)tr_fin : 0);
	OUT;
}
static void (*const tries[])(int) = { t_none0, t_none1, t_a0, t_a1, t_ab0, t_ab1, t_sig0, t_sig1, t_any0, t_any1, t_bany0, t_bany1, t_if0, t_if1, t_ifp0, t_ifp1, t_trying };

/* protected pointers */
static void rel(void *p) {
	int i;
	for (i = 0; i < nobj && heapobj[i] != (intptr_t)p; i++);
	hx_ev("\"e\":\"rel\",\"t\":%d,\"v\":%d", cur, i < nobj ? i + 1 : 0);
}
static void *object(void) {
	void *p;
	if (nobj >= 250) return 0;
	p = hx_chance(40) ? (void *)(objs + 16 * nobj) : hx_chance(50) ? malloc(16) : events_malloc(16);
	heapobj[nobj++] = (intptr_t)p;
	return p;
}
static void with_pointer(int d) {
	void *p = object(); int id = ++nid, v = nobj;
	if (!p) return;
	protected(p, rel);
	hx_ev("\"e\":\"prot\",\"t\":%d,\"id\":%d,\"v\":%d", cur, id, v);
	if (hx_chance(30)) {
		if (hx_chance(50)) { p = 0; v = 0; } else { void *q = object(); if (q) { p = q; v = nobj; } }
		hx_ev("\"e\":\"pset\",\"t\":%d,\"id\":%d,\"v\":%d", cur, id, v);
	}
	block(d + 1);
	unprotected(p);
	hx_ev("\"e\":\"unprot\",\"t\":%d,\"id\":%d", cur, id);
}

/* deferred cleanups */
static int clean(void *arg) {
	int id = (int)((intptr_t)arg - (intptr_t)objs);
	hx_ev("\"e\":\"clean\",\"t\":%d,\"id\":%d", cur, id);
	return 0;
}
static int clean_recover(void *arg) {
	int id = (int)((intptr_t)arg - (intptr_t)objs);
	const char *m = guard_message();
	hx_ev("\"e\":\"clean\",\"t\":%d,\"id\":%d", cur, id);
	if (m && *m) {
		int r = guard_caught(m);
		hx_ev("\"e\":\"recover\",\"t\":%d,\"x\":\"%s\",\"r\":%d", cur, m, r);
	}
	return 0;
}
static int clean_int(intptr_t v) { hx_ev("\"e\":\"clean\",\"t\":%d,\"id\":%d", cur, (int)v); return 0; }
static void fenced(void *p) { hx_ev("\"e\":\"clean\",\"t\":%d,\"id\":%d", cur, *(int *)p); }
static int fences[4096];
static int inguard[8];
/* memory of any content, to be freed: it must not be taken for something else */
static void *mem[4096];
static void m_free(void *p) {
	int i;
	for (i = p ? nid : 0; i > 0; i--)
		if (mem[i] == p) { hx_ev("\"e\":\"clean\",\"t\":%d,\"id\":%d", cur, i); return; }
	rpfree(p);
}
static void put_memory(int id) {
	int n = 1 + hx_rnd(100), k; unsigned char *b = rpmalloc(n < 4 ? 4 : n);
	for (k = 0; k < n; k++) b[k] = (unsigned char)(hx_chance(50) ? 0 : hx_chance(50) ? hx_rnd(256) : 1 + hx_rnd(50));
	if (hx_chance(70)) { b[0] = (unsigned char)(1 + hx_rnd(55)); b[1] = b[2] = b[3] = 0; }
	mem[id] = b;
	ex_signal_setup();           /* sets it too, with the first exception */
	events_set_allocator(rpmalloc, rprealloc, rpcalloc, m_free);
	defer_free(b);
}
static void put_defer(void) {
	int id = ++nid, k = hx_rnd(15);
	hx_ev("\"e\":\"defer\",\"t\":%d,\"id\":%d", cur, id);
	if (k > 11) put_memory(id);
	else if (k < 3) defer(clean_recover, objs + id);
	else if (k < 5) deferring(clean_int, id);
	else if (k < 7) { fences[id] = id; fence(fences + id, (func_t)fenced); }
	else defer(clean, objs + id);
}
static void g_plain(int d) {
	int id = ++nid;
	hx_ev("\"e\":\"guard\",\"t\":%d,\"id\":%d", cur, id);
	inguard[cur]++;
	guard {
		block(d + 1);
		hx_ev("\"e\":\"bodyend\",\"t\":%d,\"id\":%d", cur, id);
	} guarded;
	inguard[cur]--;
	hx_ev("\"e\":\"after\",\"t\":%d,\"id\":%d", cur, id);
}
static int small[8];                   /* a generator has a small stack */
static void fn(int d) { block(d + 1); }

static void block(int d) {
	int n = hx_rnd(4) + (d < 2), me = cur;
	while (n-- > 0 && nops < maxops) {
		int x = hx_rnd(100);
		nops++;
		if (d > (small[me] ? 3 : 7)) x = x < 50 ? 0 : 99;
		if (x < 14) { if (d > 0 && (tasks ? 1 : 1)) raise_it(hx_rnd(NT)); }
		else if (x < 45) tries[hx_rnd(17)](d);
		else if (x < 52) fn(d);
		else if (x < 75) {
			if (prof == 1) { if (hx_chance(60) && (tasks || inguard[cur])) put_defer(); else if (d < 5) g_plain(d); }
			else if (prof == 2) with_pointer(d);
		}
		else if (x < 90 && tasks) { hx_ev("\"e\":\"yield\",\"t\":%d", me); yield(); cur = me; hx_ev("\"e\":\"resume\",\"t\":%d", me); }
		else hx_ev("\"e\":\"step\",\"t\":%d", cur);
	}
}
static void task(param_t args) {
	int me = args[0].integer;
	cur = me;
	hx_ev("\"e\":\"start\",\"t\":%d", me);
	if (prof == 1 && hx_chance(50)) put_defer();
	tries[hx_rnd(100) < 80 ? 8 + hx_rnd(4) : hx_rnd(16)](0);
	cur = me;
	hx_ev("\"e\":\"finish\",\"t\":%d", me);
	done++;
}
static void *root(param_t args) {
	int i;
	for (i = 1; i <= ntask; i++)
		if (hx_chance(20)) { small[i] = 1; generator((param_func_t)task, 1, casting(i)); }
		else async_ex(Kb(256), (launch_func_t)task, 1, casting(i));
	while (done < ntask) yield();
	return 0;
}
void hx_scenario(int i) {
	char *s = getenv("PROFILE");
	prof = s ? atoi(s) : i % 3;
	tasks = hx_chance(60);
	ntask = hx_rnd(3) + 1;
	maxops = hx_thorough() ? 150 : 60;
	hx_cfg("\"nt\":%d,\"prof\":%d", 4, prof);
	events_init(256);
	if (tasks) {
		events_t *l = events_create(8);
		async_task((param_func_t)root, 0);
		async_run(l);
		hx_ev("\"e\":\"ran\"");
	} else {
		hx_ev("\"e\":\"start\",\"t\":0");
		if (prof == 1 && hx_chance(40)) scope_init();
		tries[hx_rnd(100) < 80 ? 8 + hx_rnd(4) : hx_rnd(16)](0);
		block(0);
		hx_ev("\"e\":\"finish\",\"t\":0");
		exit_scope();
	}
}
