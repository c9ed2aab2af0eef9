#define _GNU_SOURCE
#include "vsched.h"
#include "hx.h"
#include <ucontext.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/mman.h>
typedef struct { char *addr; int size; uint64_t val; int barrier; } sb_t;
#define SBN 64
#define STK (256 * 1024)
typedef struct { ucontext_t ctx; char *stack; vs_fn fn; void *arg; int live; int prio; sb_t sb[SBN]; int nsb; } vt_t;
static vt_t T[VS_MAX];
static int nt, cur = -1, policy, parg, hot, abandoned;
static long steps, maxsteps, changes[16]; static int nch, lowprio;
static ucontext_t mainctx;
int vs_pso, vs_bad;

/* ---- arena ---- */
#define ARENA (1u << 22)
typedef struct { char *p; size_t n; int live; } blk_t;
static char *arena; static size_t used; static blk_t B[4096]; static int nb;
void *vs_alloc(size_t n) {
	char *p; size_t a = (n + 15) & ~(size_t)15;
	if (!arena) arena = mmap((void *)0x40000000, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (used + a + 64 > ARENA || nb >= 4096) abort();
	p = arena + used + 32; used += a + 64;
	memset(p, 0, n);
	B[nb].p = p; B[nb].n = n; B[nb].live = 1; nb++;
	return p;
}
static blk_t *find(char *p) {
	int lo = 0, hi = nb - 1;
	while (lo <= hi) { int m = (lo + hi) / 2; if (B[m].p > p) hi = m - 1; else if (p < B[m].p + (B[m].n ? B[m].n : 1)) return &B[m]; else lo = m + 1; }
	return NULL;
}
void vs_free(void *p) { blk_t *b = p ? find(p) : NULL; if (!p) return; if (!b || b->p != (char *)p || !b->live) { vs_bad++; return; } b->live = 0; memset(p, 0x5a, b->n); }
size_t vs_size(void *p) { blk_t *b = find(p); return b ? b->n : 0; }
int vs_live(void) { int i, n = 0; for (i = 0; i < nb; i++) n += B[i].live; return n; }
static int legal(char *p, size_t n) {
	blk_t *b;
	if (!arena || p < arena || p >= arena + ARENA) return 1;
	b = find(p);
	if (!b || !b->live || p + n > b->p + b->n) { vs_bad++; return 0; }
	return 1;
}
void vs_reset(void) { int i; used = 0; nb = 0; nt = 0; vs_bad = 0; for (i = 0; i < VS_MAX; i++) T[i].nsb = 0; }

/* ---- store buffers ---- */
static void put(char *a, int n, uint64_t v) { if (legal(a, n)) memcpy(a, &v, n); }
static void drain1(vt_t *t, int i) { put(t->sb[i].addr, t->sb[i].size, t->sb[i].val); memmove(t->sb + i, t->sb + i + 1, (t->nsb - i - 1) * sizeof(sb_t)); t->nsb--; }
static void flush(vt_t *t) { while (t->nsb) drain1(t, 0); }
static int drainable(vt_t *t, int i) {
	int j;
	if (i == 0) return 1;
	if (!vs_pso) return 0;
	for (j = 0; j < i; j++) if (t->sb[j].addr == t->sb[i].addr) return 0;
	return !t->sb[i].barrier;
}
/* let some buffered stores reach memory */
static void drains(void) {
	int k, i;
	for (k = 0; k < nt; k++)
		while (T[k].nsb && hx_chance(25)) { i = vs_pso ? hx_rnd(T[k].nsb) : 0; if (!drainable(&T[k], i)) i = 0; drain1(&T[k], i); }
}

/* ---- scheduler ---- */
int vs_self(void) { return cur; }
long vs_steps(void) { return steps; }
static int pick(void) {
	int k, n = 0, best = -1, l[VS_MAX];
	for (k = 0; k < nt; k++) if (T[k].live) l[n++] = k;
	if (!n) return -1;
	if (policy == VS_PCT) { for (k = 0; k < n; k++) if (best < 0 || T[l[k]].prio > T[best].prio) best = l[k]; return best; }
	if (policy == VS_BOUNDED) return hot >= 0 && T[hot].live ? hot : (hot = l[hx_rnd(n)]);
	return l[hx_rnd(n)];
}
void vs_point(void) {
	int k, me = cur;
	if (me < 0) return;
	steps++;
	if (steps > maxsteps) { abandoned = 1; cur = -1; swapcontext(&T[me].ctx, &mainctx); }
	if (steps > maxsteps / 2) policy = VS_RANDOM;       /* spinning threads need a fair schedule */
	drains();
	if (policy == VS_PCT) for (k = 0; k < nch; k++) if (changes[k] == steps) T[me].prio = --lowprio;
	if (policy == VS_BOUNDED) for (k = 0; k < nch; k++) if (changes[k] == steps) { hot = -1; }
	k = pick();
	if (k != me && k >= 0) { cur = k; swapcontext(&T[me].ctx, &T[k].ctx); }
}
static void entry(void) {
	int k;
	T[cur].fn(T[cur].arg);
	flush(&T[cur]);
	T[cur].live = 0;
	k = pick(); 
	cur = k;
	if (k < 0) setcontext(&mainctx);
	setcontext(&T[k].ctx);
}
int vs_spawn(vs_fn fn, void *arg) {
	vt_t *t = &T[nt];
	if (!t->stack) t->stack = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	getcontext(&t->ctx); t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = STK; t->ctx.uc_link = NULL;
	makecontext(&t->ctx, entry, 0);
	t->fn = fn; t->arg = arg; t->live = 1; t->nsb = 0;
	return nt++;
}
int vs_run(int pol, int arg, long max) {
	int k, j;
	policy = pol; parg = arg; maxsteps = max; steps = 0; hot = -1; lowprio = 0; abandoned = 0;
	nch = arg > 16 ? 16 : arg;
	for (k = 0; k < nch; k++) changes[k] = 1 + hx_rnd(30 * nt);
	for (k = 0; k < nt; k++) T[k].prio = k + 1;
	for (k = nt - 1; k > 0; k--) { j = hx_rnd(k + 1); int p = T[k].prio; T[k].prio = T[j].prio; T[j].prio = p; }
	k = pick(); if (k < 0) return 0;
	cur = k;
	swapcontext(&mainctx, &T[k].ctx);
	cur = -1;
	return abandoned;
}

/* ---- what the instrumented code calls ---- */
static void acc(void *p, size_t n) { vs_point(); legal(p, n); }
/* plain accesses: the buffered atomic stores of the same location must not be lost or overtaken */
static void racc(void *p, size_t n) { vt_t *t; int i; acc(p, n); if (cur < 0) return; t = &T[cur]; for (i = 0; i < t->nsb; i++) if (t->sb[i].addr < (char *)p + n && (char *)p < t->sb[i].addr + t->sb[i].size) { flush(t); break; } }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { racc(p, n); } void __tsan_write##n(void *p) { racc(p, n); if (cur >= 0) flush(&T[cur]); } \
	void __tsan_unaligned_read##n(void *p) { racc(p, n); } void __tsan_unaligned_write##n(void *p) { racc(p, n); if (cur >= 0) flush(&T[cur]); } \
	void __tsan_volatile_read##n(void *p) { racc(p, n); } void __tsan_volatile_write##n(void *p) { racc(p, n); if (cur >= 0) flush(&T[cur]); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { racc(p, n); }
void __tsan_write_range(void *p, size_t n) { racc(p, n); if (cur >= 0) flush(&T[cur]); }
void __tsan_vptr_update(void *p, void *v) { (void)v; racc(p, 8); }
void __tsan_vptr_read(void *p) { racc(p, 8); }
static uint64_t ld(char *a, int n) {
	uint64_t v = 0; int i;
	if (cur >= 0) for (i = T[cur].nsb - 1; i >= 0; i--) if (T[cur].sb[i].addr == a && T[cur].sb[i].size == n) return T[cur].sb[i].val;
	if (legal(a, n)) memcpy(&v, a, n);
	return v;
}
static void st(char *a, int n, uint64_t v, int mo) {
	vt_t *t;
	if (cur < 0) { put(a, n, v); return; }
	t = &T[cur];
	if (mo == __ATOMIC_SEQ_CST) { flush(t); put(a, n, v); return; }
	if (t->nsb == SBN) drain1(t, 0);
	t->sb[t->nsb].addr = a; t->sb[t->nsb].size = n; t->sb[t->nsb].val = v; t->sb[t->nsb].barrier = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL;
	t->nsb++;
}
static void rmwbar(void) { if (cur >= 0) flush(&T[cur]); }   /* a locked instruction drains the buffer */
#define A(bits, T_) \
T_ __tsan_atomic##bits##_load(const volatile T_ *p, int mo) { vs_point(); (void)mo; return (T_)ld((char *)p, bits / 8); } \
void __tsan_atomic##bits##_store(volatile T_ *p, T_ v, int mo) { vs_point(); st((char *)p, bits / 8, (uint64_t)v, mo); } \
static T_ rmw##bits(volatile T_ *p, T_ v, int op) { T_ o, n; vs_point(); rmwbar(); o = (T_)ld((char *)p, bits / 8); \
	n = op == 0 ? v : op == 1 ? o + v : op == 2 ? o - v : op == 3 ? (o & v) : op == 4 ? (o | v) : op == 5 ? (o ^ v) : (T_)~(o & v); \
	put((char *)p, bits / 8, (uint64_t)n); return o; } \
T_ __tsan_atomic##bits##_exchange(volatile T_ *p, T_ v, int mo) { (void)mo; return rmw##bits(p, v, 0); } \
T_ __tsan_atomic##bits##_fetch_add(volatile T_ *p, T_ v, int mo) { (void)mo; return rmw##bits(p, v, 1); } \
T_ __tsan_atomic##bits##_fetch_sub(volatile T_ *p, T_ v, int mo) { (void)mo; return rmw##bits(p, v, 2); } \
T_ __tsan_atomic##bits##_fetch_and(volatile T_ *p, T_ v, int mo) { (void)mo; return rmw##bits(p, v, 3); } \
T_ __tsan_atomic##bits##_fetch_or(volatile T_ *p, T_ v, int mo) { (void)mo; return rmw##bits(p, v, 4); } \
T_ __tsan_atomic##bits##_fetch_xor(volatile T_ *p, T_ v, int mo) { (void)mo; return rmw##bits(p, v, 5); } \
T_ __tsan_atomic##bits##_fetch_nand(volatile T_ *p, T_ v, int mo) { (void)mo; return rmw##bits(p, v, 6); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T_ *p, T_ *c, T_ v, int mo, int fmo) { T_ o; (void)mo; (void)fmo; vs_point(); rmwbar(); o = (T_)ld((char *)p, bits / 8); \
	if (o == *c) { put((char *)p, bits / 8, (uint64_t)v); return 1; } *c = o; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T_ *p, T_ *c, T_ v, int mo, int fmo) { if (cur >= 0 && hx_chance(10)) { vs_point(); *c = (T_)ld((char *)p, bits / 8); return 0; } \
	return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo); } \
T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_ *p, T_ c, T_ v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(p, &c, v, mo, fmo); return c; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
	vs_point();
	if (cur < 0) return;
	if (mo == __ATOMIC_SEQ_CST) flush(&T[cur]);
	else if (vs_pso && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL)) flush(&T[cur]);
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
