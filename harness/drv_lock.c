/* Threads that take, try and release spin locks (include/catomics.h) around plain data, and share
 * counters through the atomic read-modify-write operations, under many schedules (vsched.c). */
#include "events_internal.h"
#include "vsched.h"
#include "hx.h"
#define __nosan __attribute__((no_sanitize("thread")))
#define NT 5
typedef struct { int op, k; } op_t;
static op_t prog[NT][8]; static int nop[NT], nth;
static void *L[3];                      /* locks: two bare ones, one of an array */
static volatile int data[3];
static atomic_llong ctr, cas, swp; static long long want_ctr, want_cas;
static atomic_spinlock bare[2];
static array_t arr;
typedef struct { signed char t, kind, k; int v; } h_t;
enum { ASK, GET, REF, RD, WR, DROP };
static const char *nm[] = { "ask", "get", "refused", "read", "write", "drop" };
static h_t H[600]; static int nh;
static __nosan void ev(int kind, int k, int v) { if (nh < 600) { H[nh].t = vs_self(); H[nh].kind = kind; H[nh].k = k; H[nh].v = v; nh++; } }
enum { LOCKED, TRY, ADD, CAS, SUB };
static void critical(int k, int n) {
	int i, v;
	for (i = 0; i < n; i++) {
		v = data[k]; ev(RD, k, v);
		ev(WR, k, v + 1); data[k] = v + 1;
	}
}
static void locked(int k, int n) { ev(ASK, k, 0); atomic_lock((atomic_spinlock *)L[k]); ev(GET, k, 0); critical(k, n); ev(DROP, k, 0); atomic_unlock((atomic_spinlock *)L[k]); }
static void tried(int k) {
	ev(ASK, k, 0);
	if (!atomic_flag_test_and_set((atomic_flag *)L[k])) { ev(GET, k, 0); critical(k, 1); ev(DROP, k, 0); atomic_flag_clear((atomic_flag *)L[k]); }
	else ev(REF, k, 0);
}
static void add(int n) { atomic_fetch_add(&ctr, n); }
static void sub(int n) { atomic_fetch_sub(&ctr, n); }
static void inc(void) { llong o = atomic_load(&cas); while (!atomic_cas(&cas, &o, o + 1)) ; }
static __nosan void body(void *a) {
	int i, t = (int)(intptr_t)a; 
	for (i = 0; i < nop[t]; i++) switch (prog[t][i].op) {
		case LOCKED: locked(prog[t][i].k, 1 + (i & 1)); break;
		case TRY: tried(prog[t][i].k); break;
		case ADD: want_ctr += prog[t][i].k; add(prog[t][i].k); break;
		case SUB: want_ctr -= prog[t][i].k; sub(prog[t][i].k); break;
		case CAS: inc(); want_cas++; break;
	}
}
static uint64_t seen[4096]; static int nseen;
static __nosan int fresh(void) {
	uint64_t h = 1469598103934665603ull; int i;
	for (i = 0; i < nh; i++) h = (h ^ (H[i].t * 1000003ull + H[i].kind * 10007ull + H[i].k * 101ull + H[i].v)) * 1099511628211ull;
	for (i = 0; i < nseen; i++) if (seen[i] == h) return 0;
	if (nseen < 4096) seen[nseen++] = h;
	return 1;
}
__nosan void hx_scenario(int i) {
	int t, k, r, emitted = 0, want = hx_thorough() ? 100 : 30, runs = hx_thorough() ? 2000 : 300;
	long max = i % 4 == 3 ? 60000 : 3000;       /* long stretches: a waiter that only waits so often gives up */
	arr = array();
	nth = 2 + hx_rnd(NT - 1);
	for (t = 0; t < nth; t++) { nop[t] = 1 + hx_rnd(nth > 3 ? 2 : 4); for (k = 0; k < nop[t]; k++) {
		int o = hx_rnd(10); prog[t][k].op = o < 6 ? LOCKED : o < 8 ? TRY : o == 8 ? (hx_chance(50) ? ADD : SUB) : CAS;
		prog[t][k].k = o < 8 ? (hx_chance(70) ? 0 : hx_rnd(3)) : 1 + hx_rnd(5); } }
	hx_cfg("\"threads\":%d", nth);
	if (i % 4 == 3) { want = 6; runs = 12; }
	for (r = 0; r < runs && emitted < want; r++) {
		int pol = r % 3, arg = pol == VS_RANDOM ? 0 : 1 + hx_rnd(5), stuck;
		vs_reset(); nh = 0; vs_pso = hx_thorough() && r % 2;
		memset((void *)data, 0, sizeof data); memset((void *)bare, 0, sizeof bare);
		L[0] = (void *)&bare[0]; L[1] = (void *)&bare[1]; L[2] = (void *)data_lock(arr);
		ctr = cas = 0; want_ctr = want_cas = 0;
		for (t = 0; t < nth; t++) vs_spawn(body, (void *)(intptr_t)t);
		stuck = vs_run(pol, arg, max);
		if (fresh() || stuck) {
			int j; emitted++;
			hx_ev("\"e\":\"run\"");
			for (j = 0; j < nh; j++) hx_ev("\"e\":\"%s\",\"t\":%d,\"k\":%d,\"v\":%d", nm[H[j].kind], H[j].t, H[j].k, H[j].v);
			if (!stuck) hx_ev("\"e\":\"sum\",\"got\":%d,\"want\":%d", (int)(ctr * 100 + cas), (int)(want_ctr * 100 + want_cas));
			hx_ev("\"e\":\"over\",\"stuck\":%d", stuck);
			if (stuck) break;
		}
	}
}
