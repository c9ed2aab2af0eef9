/* Directory watches: events_watch, events_remove, events_del_watch, events_watch_count, events_is_watching, fs_events, fs_events_cancel,
 * fs_events_path, and inotify_* read by oneself.  The kernel's part is real; changes are made by the main task, in directories with and
 * without watches.  Several descriptors (the loop's own, one for each fs_events), several handlers on one; handlers let others run. */
#define _GNU_SOURCE
#include <events.h>
#include <except.h>
#include "hx.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <sys/inotify.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#undef close
#undef write
#undef open
#undef stat
#undef in
#undef inotify_add_watch
#undef inotify_init1

int system(const char *cmd) { return 0; }
static int cpus = 2;
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { int k; CPU_ZERO(s); for (k = 0; k < cpus; k++) CPU_SET(k, s); return 0; }

enum { DN = 8, FN = 6, IN = 12, HN = 40 };
static struct { char path[80]; int par, ex; int file[FN]; } D[DN];
static struct { int open, fd, rid, real, serial; } I[IN];         /* the descriptors */
static struct { int i; } HD[HN];
static struct { int on, h, wd, seen; } W[IN][DN];
static volatile int lastwd, added, scanned, lastino = -1, serial; static volatile int isopen[1024]; /* by their serial numbers */
static int ni, nh, loopi = -1, lazy, remover, quit; static events_t *loop;
int inotify_add_watch(int fd, const char *name, uint32_t mask) { int r = (int)syscall(SYS_inotify_add_watch, fd, name, mask); if (r >= 0) lastwd = r, __sync_fetch_and_add(&added, 1); return r; }
int inotify_init1(int fl) { int r = (int)syscall(SYS_inotify_init1, fl); if (r >= 0 && r < 1024) { isopen[r] = ++serial; lastino = r; } return r; }
int close(int f) { if (f >= 0 && f < 1024) isopen[f] = 0; return (int)syscall(SYS_close, f); }
/* a directory has been looked through */
int closedir(DIR *d) { static int (*f)(DIR *); int r; if (!f) f = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir"); r = f(d); __sync_fetch_and_add(&scanned, 1); return r; }
static int opened(void) { int f, n = 0; for (f = 3; f < 300; f++) n += fcntl(f, F_GETFD) >= 0; return n; }
static long ms(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000 + t.tv_nsec / 1000000; }
static void nap(void) { if (hx_chance(90)) yield(); else delay(1); }
/* Wait for what must come.  The system may take seconds to close a descriptor of this kind; when it did not come too often, all wait less. */
static int *late;
__attribute__((constructor)) static void shared(void) { hx_timeout_ms = 90000; late = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static int patience(void) { return *late < 8 ? 20000 : 1000; }
#define AWAIT(c) do { long t0 = ms(); int p = patience(); while (!(c)) { nap(); if (ms() - t0 > p) { __sync_fetch_and_add(late, 1); break; } } } while (0)
static int under(int d, int top) { for (; d >= 0; d = D[d].par) if (d == top) return 1; return 0; }
static int dir_of(const char *p) { int d; for (d = 0; p && d < DN; d++) if (!strcmp(D[d].path, p)) return d; return -1; }
static int name_of(const char *s) {
	if (*s == 'f') return atoi(s + 1);
	if (*s == '.' || *s == 's' || *s == 'w' || *s == 'o') { int d; for (d = 0; d < DN; d++) { char *b = strrchr(D[d].path, '/'); if (!strcmp(b ? b + 1 : D[d].path, s)) return 50 + d; } }
	if (*s == 'z') return 100;
	return -1;
}
static void unwatch(int i) { memset(W[i], 0, sizeof W[i]); I[i].open = 0; }
static void got(int wd, events_monitors ev, const char *name, void *filter) {
	int h = (int)(intptr_t)filter, i = HD[h].i, d = dir_of(fs_events_path(wd)), root = 1, n, k = 0; size_t l = d >= 0 ? strlen(D[d].path) : 0; const char *kind = "?";
	if (d >= 0 && !strncmp(name, D[d].path, l) && name[l] == '/') root = 0, name += l + 1;
	n = name_of(name);
	if (ev & WATCH_ADDED) kind = "A", k++;
	if (ev & WATCH_REMOVED) kind = "R", k++;
	if (ev & WATCH_MODIFIED) kind = "M", k++;
	if (ev & WATCH_MOVED) kind = "V", k++;
	hx_ev("\"e\":\"report\",\"h\":%d,\"d\":%d,\"n\":%d,\"k\":\"%s\",\"root\":%d", h, d, n, k == 1 ? kind : "?", root);
	if (d < 0) return;
	W[i][d].wd = wd;
	if (n == 100 && *kind == 'M') W[i][d].seen = 1;
	if (remover && n < 100 && hx_chance(remover)) {
		int r = events_remove(wd);
		hx_ev("\"e\":\"remove\",\"i\":%d,\"d\":%d,\"r\":%d", i, d, r); W[i][d].on = 0;
	} else if (quit && i == loopi && n < 100 && hx_chance(3)) {
		events_del_watch(loop);
		hx_ev("\"e\":\"close\",\"i\":%d", i); unwatch(i); loopi = -1;
	} else if (lazy && hx_chance(lazy)) yield();
}
static void change(const char *op, int d, int n, int d2, int n2) { hx_ev("\"e\":\"change\",\"op\":\"%s\",\"d\":%d,\"n\":%d,\"d2\":%d,\"n2\":%d", op, d, n, d2, n2); }
static void file(char *b, int d, int n) { if (n >= 100) sprintf(b, "%s/z", D[d].path); else sprintf(b, "%s/f%d", D[d].path, n); }
static void make(int d, int n) { char b[200]; file(b, d, n); change("create", d, n, 0, 0); close(open(b, O_WRONLY | O_CREAT | O_EXCL, 0600)); }
static void put(int d, int n) { char b[200]; int f; file(b, d, n); f = open(b, O_WRONLY | O_APPEND); change("write", d, n, 0, 0); if (write(f, "x", 1) != 1) _exit(5); close(f); }
static void act(void) {
	int d = hx_rnd(DN), n = hx_rnd(FN), d2 = hx_rnd(DN), n2 = hx_rnd(FN), k; char b[200], c[200];
	if (!D[d].ex) {
		if (D[d].par < 0 || !D[D[d].par].ex || !hx_chance(30)) return;
		change("mkdir", D[d].par, 50 + d, d, 0); mkdir(D[d].path, 0700); D[d].ex = 1; make(d, 100); return;
	}
	if (D[d].par >= 0 && hx_chance(4)) {
		for (k = 0; k < FN; k++) if (D[d].file[k]) return;
		for (k = 0; k < DN; k++) if (D[k].ex && D[k].par == d) return;
		file(b, d, 100); change("unlink", d, 100, 0, 0); unlink(b);
		change("rmdir", D[d].par, 50 + d, d, 0); rmdir(D[d].path); D[d].ex = 0;
		for (k = 0; k < IN; k++) W[k][d].on = 0;
		return;
	}
	file(b, d, n);
	if (!D[d].file[n]) { make(d, n); D[d].file[n] = 1; return; }
	switch (hx_rnd(6)) {
	case 0: case 1: for (k = 1 + hx_rnd(3); k > 0; k--) put(d, n); break;
	case 2: change("chmod", d, n, 0, 0); chmod(b, hx_chance(50) ? 0600 : 0640); break;
	case 3: case 4: change("unlink", d, n, 0, 0); unlink(b); D[d].file[n] = 0; break;
	case 5:
		if (!D[d2].ex || (d == d2 && n == n2)) return;
		file(c, d2, n2); change("rename", d, n, d2, n2); rename(b, c); D[d].file[n] = 0; D[d2].file[n2] = 1;
	}
}
/* a change in each watched directory: what was changed before has been reported by the time that is */
static void settle(void) {
	int i, d, k; long t0 = ms(); int p = patience();
	for (d = 0; d < DN; d++) { for (i = k = 0; i < ni; i++) { k |= W[i][d].on; W[i][d].seen = 0; } if (k) put(d, 100); }
	for (;;) {
		for (i = k = 0; i < ni; i++) for (d = 0; d < DN; d++) k |= W[i][d].on && !W[i][d].seen;
		if (k && ms() - t0 > p) __sync_fetch_and_add(late, 1), k = 0;
		if (!k) break;
		nap();
	}
	hx_ev("\"e\":\"settled\"");
	if (loopi >= 0) hx_ev("\"e\":\"count\",\"i\":%d,\"c\":%d,\"y\":%d", loopi, events_watch_count(I[loopi].fd), events_is_watching(I[loopi].fd));
}
static void note(int i, int h, int top) { int d; for (d = 0; d < DN; d++) if (D[d].ex && under(d, top)) { if (!W[i][d].on) W[i][d].wd = 0; W[i][d].on = 1; W[i][d].h = h; W[i][d].seen = 0; } }
static int size(int top) { int d, n = 0; for (d = 0; d < DN; d++) n += D[d].ex && under(d, top); return n; }
static void watch(void) {
	int d = hx_rnd(DN - 1), h = nh, i = loopi, r;
	if (!D[d].ex || nh >= HN || (i < 0 && ni >= IN)) return;
	if (i < 0) i = loopi = ni++;
	else settle();
	if (loopi != i) return;
	nh++; HD[h].i = i; I[i].open = 1;
	hx_ev("\"e\":\"watch\",\"i\":%d,\"h\":%d,\"d\":%d", i, h, d);
	note(i, h, d);
	r = events_watch(loop, D[d].path, got, (void *)(intptr_t)h);
	hx_ev("\"e\":\"watched\",\"r\":%d", r >= 0);
	I[i].fd = r;
}
static void fsev(void) {
	int d = hx_rnd(DN - 1), h = nh, i = ni, a = added, b = scanned, rid;
	if (!D[d].ex || nh >= HN || ni >= IN) return;
	nh++; ni++; HD[h].i = i; I[i].open = 1;
	hx_ev("\"e\":\"watch\",\"i\":%d,\"h\":%d,\"d\":%d", i, h, d);
	note(i, h, d); lastino = -1;
	I[i].rid = rid = fs_events(D[d].path, got, (void *)(intptr_t)h);
	AWAIT(added >= a + size(d) && scanned >= b + size(d));
	hx_ev("\"e\":\"watched\",\"r\":%d", rid > 0 && added == a + size(d));
	I[i].real = lastino; I[i].serial = serial;
}
static int closed(int i) { return I[i].real >= 0 && isopen[I[i].real] != I[i].serial; }
static void end(int i) {
	int r;
	hx_ev("\"e\":\"cancel\",\"i\":%d", i);
	r = fs_events_cancel(I[i].rid);
	AWAIT(closed(i));
	hx_ev("\"e\":\"ended\",\"i\":%d,\"r\":%d,\"x\":%d", i, r, closed(i)); unwatch(i);
}
static void dirs(void) {
	static const char *paths[DN] = { "w0", "w1", "w0/s2", "w0/s2/s3", "w1/s4", "w1/.s5", "w0/s6", "o7" }; static const int pars[DN] = { -1, -1, 0, 2, 1, 1, 0, -1 };
	char ex[200]; int d, l = 0;
	for (d = 0; d < DN; d++) {
		strcpy(D[d].path, paths[d]); D[d].par = pars[d];
		D[d].ex = pars[d] < 0 || (D[pars[d]].ex && hx_chance(70));
		l += sprintf(ex + l, "%s{\"p\":%d,\"x\":%d}", d ? "," : "", D[d].par, D[d].ex);
		if (!D[d].ex) continue;
		mkdir(paths[d], 0700);
		{ char b[200]; file(b, d, 100); close(open(b, O_WRONLY | O_CREAT, 0600)); }
	}
	hx_ev("\"e\":\"dirs\",\"t\":[%s]", ex);
}
static void *first(param_t a) {
	int n, steps = 5 + hx_rnd(60), i, d, o;
	lazy = hx_chance(50) ? 30 : 0; remover = hx_chance(30) ? 4 : 0; quit = hx_chance(20);
	for (n = hx_rnd(5); n > 0; n--) nap();
	o = opened();
	while (steps-- > 0) {
		int c = hx_rnd(100);
		if (c < 60) for (n = hx_chance(5) ? 200 : 1 + hx_rnd(6); n > 0; n--) act();
		else if (c < 66) watch();
		else if (c < 71) fsev();
		else if (c < 73 && loopi >= 0 && I[loopi].fd >= 0) { i = loopi; loopi = -1; events_del_watch(loop); hx_ev("\"e\":\"close\",\"i\":%d", i); unwatch(i); }
		else if (c < 76) { i = hx_rnd(ni + 1); if (i < ni && I[i].open && I[i].rid) end(i); }
		else if (c < 79 && loopi >= 0) { d = hx_rnd(DN); if (W[loopi][d].on && W[loopi][d].wd) { int r; i = loopi; r = events_remove(W[i][d].wd); hx_ev("\"e\":\"remove\",\"i\":%d,\"d\":%d,\"r\":%d", i, d, r); W[i][d].on = 0; } }
		else if (c < 83) settle();
		else nap();
	}
	settle();
	if (loopi >= 0) { i = loopi; loopi = -1; events_del_watch(loop); hx_ev("\"e\":\"close\",\"i\":%d", i); unwatch(i); }
	for (i = 0; i < ni; i++) if (I[i].open) end(i);
	for (n = 0; n < 10; n++) act();
	for (n = 0; n < 10; n++) nap();
	hx_ev("\"e\":\"over\",\"open\":%d", opened() - o);
	hx_done();
	return 0;
}
/* inotify_* on one's own, without a loop; what is read is gone through with inotify_next() */
static int pw[IN][DN], rw[IN][DN];
static void look(int i, int size) {
	_Alignas(8) char buf[4096]; inotify_t *e = (inotify_t *)buf; int n = os_read(I[i].fd, buf, size), d, seen = 0;
	if (n <= 0) { hx_ev("\"e\":\"empty\",\"i\":%d,\"again\":%d", i, n < 0 && errno == EAGAIN); I[i].rid = 0; return; }
	do {
		seen += sizeof *e + e->len;
		for (d = 0; d < DN && !(rw[i][d] && rw[i][d] == e->wd); d++);
		if (inotify_mask(e) & IN_IGNORED) { if (d < DN && !W[i][d].on) rw[i][d] = 0; continue; }
		if (d == DN && !inotify_length(e)) continue;
		hx_ev("\"e\":\"report\",\"h\":%d,\"d\":%d,\"n\":%d,\"k\":\"%s\",\"root\":1", d < DN ? W[i][d].h : -1, d == DN ? -1 : d, inotify_length(e) ? name_of(inotify_name(e)) : -2,
			inotify_added(e) + inotify_removed(e) + inotify_modified(e) != 1 ? "?" : inotify_added(e) ? "A" : inotify_removed(e) ? "R" : "M");
	} while ((e = inotify_next(e)) != NULL);
	hx_ev("\"e\":\"whole\",\"x\":%d", seen == n);
}
static void direct(void) {
	int steps = 20 + hx_rnd(120), i, d, r, n;
	while (steps-- > 0) {
		int c = hx_rnd(100);
		i = hx_rnd(ni + 1); d = hx_rnd(DN);
		if (c < 50) for (n = 1 + hx_rnd(8); n > 0; n--) act();
		else if (c < 55 && ni < 4) { I[ni].fd = __inotify_init1(IN_NONBLOCK | IN_CLOEXEC); I[ni].open = I[ni].fd >= 0; ni++; }
		else if (i == ni || !I[i].open) continue;
		else if (c < 65 && D[d].ex && !W[i][d].on && !rw[i][d] && nh < HN) {
			pw[i][d] = __inotify_add_watch(I[i].fd, D[d].path, IN_MODIFY | IN_CREATE | IN_DELETE | IN_MOVE);
			hx_ev("\"e\":\"one\",\"i\":%d,\"h\":%d,\"d\":%d,\"r\":%d", i, nh, d, pw[i][d] >= 0);
			rw[i][d] = lastwd; W[i][d].on = 1; W[i][d].h = nh++;
		} else if (c < 69 && W[i][d].on) {
			while (I[i].rid = 1, look(i, 4096), I[i].rid);
			r = __inotify_rm_watch(I[i].fd, pw[i][d]);
			hx_ev("\"e\":\"remove\",\"i\":%d,\"d\":%d,\"r\":%d", i, d, r); W[i][d].on = 0;
		} else if (c < 71) { inotify_close(I[i].fd); hx_ev("\"e\":\"close\",\"i\":%d", i); unwatch(i); memset(rw[i], 0, sizeof rw[i]); }
		else look(i, hx_chance(30) ? 272 + hx_rnd(100) : 272 + hx_rnd(3800));
	}
	for (i = 0; i < ni; i++) if (I[i].open) {
		do I[i].rid = 1, look(i, 1000); while (I[i].rid);
		inotify_close(I[i].fd); hx_ev("\"e\":\"close\",\"i\":%d", i); unwatch(i);
	}
}
void hx_scenario(int i) {

	hx_cfg("\"cpus\":%d", cpus);
	if (chdir(hx_scratch())) return;
	if (events_init(256)) return;
	dirs();
	if (hx_chance(15)) { int o = opened(); direct(); hx_ev("\"e\":\"over\",\"open\":%d", opened() - o); return; }
	loop = events_init_pool(1);
	async_task(first, 0);
	async_run(loop);
	hx_ev("\"e\":\"done\"");
}
