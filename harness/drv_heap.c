/* Threads that allocate, resize and free blocks of the allocator (rpmalloc.c), their own and each other's, in an
 * address range of ours, so that addresses are small numbers and unmapped memory faults. */
#define _GNU_SOURCE
#include "events_internal.h"
#include "rsched.h"
#include "vtime.h"
#include "hx.h"
#include <pthread.h>
#include <sys/mman.h>
#define ARENA (1ul << 30)
#define UNIT 65536ul
#define NU (ARENA / UNIT)
static char *base; static unsigned char usedu[NU]; static int failmap, nfail, maps;
static void *map(size_t n, size_t *off) {
	size_t u = (n + UNIT - 1) / UNIT, i, k; static size_t next;
	rs_point(); maps++;
	if (n > ARENA) { nfail++; return NULL; }
	*off = 0;
	if (failmap && hx_chance(failmap)) { nfail++; return NULL; }
	if (hx_chance(30)) next = 0;
	for (i = next; i + u <= NU; i++) {
		for (k = 0; k < u && !usedu[i + k]; k++) ;
		if (k == u) { memset(usedu + i, 1, u); next = i + u; mprotect(base + i * UNIT, n, PROT_READ | PROT_WRITE); return base + i * UNIT; }
		i += k;
	}
	if (next) { next = 0; return map(n, off); }
	nfail++; return NULL;
}
static void unmap(void *p, size_t n, size_t off, size_t rel) {
	size_t u = (((char *)p - base)) / UNIT, len = rel ? rel : n;
	(void)off; rs_point();
	mprotect(p, len, PROT_NONE); madvise(p, len, MADV_DONTNEED);
	if (rel) memset(usedu + u, 0, (rel + UNIT - 1) / UNIT);
}
typedef struct { char *p; size_t n, us; int id, busy, al; } blk;
#define LIVE 72
static blk B[LIVE]; static int nb, ids, nth, nops, rounds, maxlive, profile;
static int i_oom; static size_t classes[3]; static int nclass;
static unsigned char pat(int id, size_t i) { return (unsigned char)(id * 37 + i * 11 + (i >> 8) * 5 + 1); }
static void walk(char *p, size_t n, int id, int w, size_t *good) {   /* write the pattern, or find how much of it is there */
	size_t i = 0;
	while (i < n) {
		if (w) p[i] = pat(id, i); else if ((unsigned char)p[i] != pat(id, i)) break;
		i = i < 4096 ? i + 1 : (i + 16) & ~(size_t)15;
	}
	if (good) *good = i < n ? i : n;
}
static size_t pick_size(void) {
	int c = hx_rnd(100);
	if (profile == 1) return classes[hx_rnd(nclass)] - hx_rnd(8);
	if (profile == 2) return c < 70 ? 32000 + hx_rnd(300000) : c < 90 ? 1 + hx_rnd(1100000) : 2000000 + hx_rnd(1500000);
	return c < 40 ? hx_rnd(1025) : c < 70 ? 1 + hx_rnd(33000) : c < 92 ? 1 + hx_rnd(300000) : c < 97 ? hx_rnd(40) : 1 + hx_rnd(3000000);
}
static int off(void *p) { return (char *)p >= base && (char *)p < base + ARENA ? (int)((char *)p - base) : -1; }
static void got(int t, const char *how, char *p, size_t n, int al, int zero, int id, size_t keep, size_t good, int nf) {
	size_t us = p ? rpmalloc_usable_size(p) : 0; int z = 1; size_t i;
	if (p && zero) for (i = 0; i < n; i++) if (p[i]) { z = 0; break; }
	hx_ev("\"e\":\"got\",\"t\":%d,\"how\":\"%s\",\"id\":%d,\"a\":%d,\"n\":%d,\"us\":%d,\"al\":%d,\"zero\":%d,\"keep\":%d,\"good\":%d,\"fail\":%d", t, how, id, p ? off(p) : -2, (int)n, (int)us, al, z, (int)keep, (int)good, nf);
}
static void add(char *p, size_t n, int id, int al) { int k; for (k = 0; k < LIVE && B[k].p; k++) ; B[k].p = p; B[k].n = n; B[k].id = id; B[k].al = al; B[k].busy = 0; walk(p, n, id, 1, NULL); nb++; }
/* requests that cannot be met: nothing is handed out and nothing changes */
static void absurd(int t, int k) {
	size_t n = (size_t)0 - 1 - hx_rnd(70000), good = 0; void *p = NULL; int id = -1;
	switch (hx_rnd(6)) {
		case 0: p = rpmalloc(n); break;
		case 1: p = rpcalloc(1ul << (20 + hx_rnd(40)), (1ul << 44) + hx_rnd(3)); break;
		case 2: p = rpcalloc(n / 16 + 2 + hx_rnd(5), 16); break;
		case 3: p = rpaligned_alloc(1 << (4 + hx_rnd(8)), n); break;
		case 4: p = rp_malloc(n); break;
		case 5: if (!B[k].p || B[k].busy) return; B[k].busy = 1; id = B[k].id; p = rprealloc(B[k].p, n); walk(B[k].p, B[k].n, id, 0, &good); B[k].busy = 0; break;
	}
	hx_ev("\"e\":\"absurd\",\"t\":%d,\"null\":%d,\"id\":%d,\"good\":%d", t, p == NULL, id, (int)good);
}
static void *body(void *arg) {
	int t = (int)(intptr_t)arg, i, k, n_;
	for (i = 0; i < nops; i++) {
		int c = hx_rnd(100);
		if (!rpmalloc_is_thread_initialized()) { if (hx_chance(70)) rpmalloc_thread_initialize(); else rpmalloc_init(); }
		for (k = hx_rnd(LIVE), n_ = 0; n_ < LIVE && !B[k].p; k = (k + 1) % LIVE, n_++) ;
		if (nb == 0 || (nb < maxlive && c < 48)) {
			int al = 16, zero = 0, id = ++ids, f0 = nfail; size_t n = pick_size(); char *p = NULL; const char *how = "malloc";
			nb++;                                       /* keep room */
			failmap = i_oom ? hx_rnd(60) : 0;
			switch (hx_rnd(9)) {
				case 0: case 1: case 2: p = rpmalloc(n); break;
				case 3: how = "calloc"; zero = 1; if (n > 4 && hx_chance(50)) { n &= ~(size_t)3; p = rpcalloc(n / 4, 4); } else p = rpcalloc(1, n); break;
				case 4: how = "rp_malloc"; p = rp_malloc(n); break;
				case 5: how = "rp_calloc"; zero = 1; p = rp_calloc(1, n); break;
				case 6: how = "aligned"; al = 1 << (3 + hx_rnd(8)); p = rpaligned_alloc(al, n); break;
				case 7: how = "aligned"; al = 1 << (3 + hx_rnd(13)); if (al == 65536) al = 32768; p = hx_chance(30) ? rp_memalign(al, n) : hx_chance(30) ? rpaligned_alloc(al, n) : hx_chance(50) ? rpmemalign(al, n) : (zero = 1, how = "acalloc", rpaligned_calloc(al, 1, n)); break;
				case 8: how = "realloc0"; p = rprealloc(NULL, n); break;
			}
			nb--; failmap = 0;
			got(t, how, p, n, al, zero, id, 0, 0, nfail - f0);
			if (p) add(p, n, id, al);
		} else if (B[k].p && !B[k].busy && c < 66) {
			blk *b = &B[k]; size_t n = pick_size(), good, keep; char *p; int f0 = nfail, al = 16, id = b->id, kind; const char *how = "realloc"; unsigned fl = 0;
			if (hx_chance(30)) n = b->n + hx_rnd(64); else if (hx_chance(20)) n = b->n / (1 + hx_rnd(4)) + 1;
			if (n == 0) n = 1;
			b->busy = 1;
			walk(b->p, b->n, id, 0, &good);
			hx_ev("\"e\":\"hold\",\"t\":%d,\"id\":%d,\"good\":%d", t, id, (int)good);
			keep = b->n < n ? b->n : n;
			hx_ev("\"e\":\"resize\",\"t\":%d,\"id\":%d", t, id);
			failmap = i_oom ? hx_rnd(60) : 0;
			kind = hx_rnd(6);
			if (kind == 0) { how = "arealloc"; al = 1 << (4 + hx_rnd(9)); if (hx_chance(20)) { fl = RPMALLOC_GROW_OR_FAIL; how = "grow"; } else if (hx_chance(20)) { fl = RPMALLOC_NO_PRESERVE; keep = 0; how = "nokeep"; }
				p = rpaligned_realloc(b->p, al, n, hx_chance(50) ? b->n : 0, fl); }
			else if (kind == 1) { how = "rp_realloc"; p = rp_realloc(b->p, n); }
			else p = rprealloc(b->p, n);
			failmap = 0;
			if (p) {
				walk(p, keep, id, 0, &good);
				got(t, how, p, n, al, 0, id, keep, good, nfail - f0);
				b->p = p; b->n = n; b->al = al; walk(p, n, id, 1, NULL);
			} else {    /* the block is still there */
				walk(b->p, b->n, id, 0, &good);
				hx_ev("\"e\":\"still\",\"t\":%d,\"how\":\"%s\",\"id\":%d,\"n\":%d,\"good\":%d,\"fail\":%d", t, how, id, (int)b->n, (int)good, nfail - f0);
			}
			b->busy = 0;
		} else if (B[k].p && !B[k].busy && c < 97) {
			blk b = B[k]; size_t good;
			B[k].busy = 1;
			walk(b.p, b.n, b.id, 0, &good);
			hx_ev("\"e\":\"hold\",\"t\":%d,\"id\":%d,\"good\":%d", t, b.id, (int)good);
			hx_ev("\"e\":\"free\",\"t\":%d,\"id\":%d", t, b.id);
			memset(b.p, 0xdb, b.n < 4096 ? b.n : 4096);
			B[k].p = NULL; B[k].busy = 0; nb--;
			if (hx_chance(10)) rp_free(b.p); else rpfree(b.p);
		} else if (hx_chance(40)) rpmalloc_thread_finalize(hx_rnd(2)), rpmalloc_thread_initialize();
		else if (hx_chance(50)) rpfree(NULL);
		else absurd(t, k);
	}
	if (hx_chance(30)) rpmalloc_thread_finalize(1);
	return 0;
}
static void stuck(int why) { hx_ev("\"e\":\"stuck\",\"why\":%d", why); hx_done(); }
void hx_scenario(int i) {
	rpmalloc_config_t cfg; int r, t, k; pthread_t th[5];
	char *m = mmap(NULL, 2 * ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	base = (char *)(((uintptr_t)m + ARENA - 1) & ~(ARENA - 1));
	memset(&cfg, 0, sizeof cfg); cfg.memory_map = map; cfg.memory_unmap = unmap;
	static const size_t cl[] = { 32704, 32000, 21000, 16000, 12000, 8000, 4096, 1024, 64, 16 };
	profile = i % 4; if (profile == 3) profile = 1;
	nclass = 1 + hx_rnd(2); for (k = 0; k < nclass; k++) classes[k] = cl[hx_rnd(10)];
	i_oom = i % 8 == 5;
	nth = i_oom ? 1 : 1 + hx_rnd(4); rounds = 1 + hx_rnd(3); nops = 10 + hx_rnd(hx_thorough() ? 120 : 60); maxlive = profile == 2 ? 10 + hx_rnd(20) : 4 + hx_rnd(60);
	hx_cfg("\"threads\":%d,\"profile\":%d", nth, profile);
	rpmalloc_initialize_config(&cfg);
	rpmalloc_thread_initialize();
	rs_start(i % 3, (i % 3) == 0 ? hx_rnd(12) : 1 + hx_rnd(12), 30000000, stuck);
	for (r = 0; r < rounds; r++) {
		for (t = 1; t < nth; t++) pthread_create(&th[t], 0, body, (void *)(intptr_t)(t + 10 * r));
		body(0);
		for (t = 1; t < nth; t++) pthread_join(th[t], 0);
	}
	for (k = 0; k < LIVE; k++) if (B[k].p) { size_t good; walk(B[k].p, B[k].n, B[k].id, 0, &good); hx_ev("\"e\":\"hold\",\"t\":0,\"id\":%d,\"good\":%d", B[k].id, (int)good); hx_ev("\"e\":\"free\",\"t\":0,\"id\":%d", B[k].id); rpfree(B[k].p); }
}
