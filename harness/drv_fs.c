/* File operations asked for by tasks (fs_*, async_f*, promise_f*) and carried out by the pool's worker threads:
 * their results, errors, data, and the directory that is left.  The worker threads run under rsched; the library is
 * compiled with its scheduling points.  Everything happens in the scenario's scratch directory. */
#define _GNU_SOURCE
#include <events.h>
#include <except.h>
#include "rsched.h"
#include "vtime.h"
#include "hx.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#undef in
#undef close
#undef read
#undef write
#undef open
#undef stat
#undef fstat

int system(const char *cmd) { return 0; }
static int cpus = 2;
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { int k; CPU_ZERO(s); for (k = 0; k < cpus; k++) CPU_SET(k, s); return 0; }

enum { QN = 24 };
static __thread void *held[QN]; static __thread int nheld; static int fill;
static void *m_alloc(size_t n) { void *p = rp_malloc(n); if (p && fill) memset(p, fill == 1 ? 0xa5 : 0x01, n); return p; }
static void *m_realloc(void *p, size_t n) { return rp_realloc(p, n); }
static void *m_calloc(size_t n, size_t m) { return rp_calloc(n, m); }
static void m_free(void *p) {
	int k;
	if (!p) return;
	memset(p, fill == 1 ? 0xdd : 0, rpmalloc_usable_size(p));
	if (!fill) { rpfree(p); return; }
	k = nheld++ % QN; if (held[k]) rpfree(held[k]); held[k] = p;
}

/* system calls: huge counts are answered without doing anything; sendfile may transfer less than asked for, and the
 * file copied may be cut meanwhile */
enum { HUGE_ = 1 << 28 };
static long huge_given; static int shorts; static const char *copying; static char copyname[64];
static int quit_copy;
ssize_t read(int f, void *b, size_t n) { if (n > HUGE_) return huge_given = (long)n - 1; return syscall(SYS_read, f, b, n); }
ssize_t write(int f, const void *b, size_t n) { if (n > HUGE_) return huge_given = (long)n - 1; return syscall(SYS_write, f, b, n); }
static void path_json(char *out, const char *p);
/* a file copied onto itself: what is read is what was there at the start */
static int self_copy(int o, int i) {
	struct stat a, b; int fo = fcntl(o, F_GETFL), fi = fcntl(i, F_GETFL);
	return !fstat(o, &a) && !fstat(i, &b) && a.st_ino == b.st_ino && a.st_dev == b.st_dev && S_ISREG(a.st_mode)
		&& (fo & O_ACCMODE) != O_RDONLY && !(fo & O_APPEND) && (fi & O_ACCMODE) != O_WRONLY;
}
static ssize_t by_hand(int o, int i, off_t *off, size_t n) {
	char b[4096]; ssize_t r = pread(i, b, n < sizeof b ? n : sizeof b, off ? *off : lseek(i, 0, SEEK_CUR));
	if (r > 0) { if (off) *off += r; else lseek(i, r, SEEK_CUR); r = syscall(SYS_write, o, b, r); }
	return r;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
	static int calls;
	if (copying && off && n > HUGE_) {
		if (++calls > 500) { hx_ev("\"e\":\"stuck\",\"why\":9"); hx_done(); }
		if (quit_copy && *off > 0) {
			char b[128]; path_json(b, copyname);
			if (truncate(copyname, *off) == 0) hx_ev("\"e\":\"cut\",\"p\":%s,\"n\":%d", b, (int)*off);
			quit_copy = 0;
		}
		if (shorts && n > 7) n = 1 + hx_rnd(7);
		return syscall(SYS_sendfile, o, i, off, n);
	}
	calls = 0;
	if (n > HUGE_) return huge_given = (long)n - 1;
	if (shorts && n > 1 && hx_chance(50)) n = 1 + hx_rnd((int)n);
	return self_copy(o, i) ? by_hand(o, i, off, n) : syscall(SYS_sendfile, o, i, off, n);
}

static const char *shared[] = { "a", "b", "d", "e", "d/a", "d/b", "e/a", "d/e" };
static const char *dirs[] = { "d", "e", "d/e", "a" };
enum { FN = 40 };
static struct { int f, by, users, closing, r, w, app, priv; } F[FN];
static int nf, tasks, nstreams, longfile;
static void path_json(char *out, const char *p) {
	char *o = out; const char *s = p, *e;
	*o++ = '[';
	while (*s) { e = strchr(s, '/'); if (!e) e = s + strlen(s); o += sprintf(o, "%s\"%.*s\"", o == out + 1 ? "" : ",", (int)(e - s), s); s = *e ? e + 1 : e; }
	*o++ = ']'; *o = 0;
}
static char *bytes_json(char *out, const void *d, int n) {
	char *o = out; int i;
	*o++ = '[';
	for (i = 0; i < n; i++) o += sprintf(o, "%s%d", i ? "," : "", ((const unsigned char *)d)[i]);
	*o++ = ']'; *o = 0;
	return out;
}
static void call(int t, const char *fmt, ...) {
	char b[1500]; va_list ap;
	va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	hx_ev("\"e\":\"call\",\"t\":%d,\"q\":{%s}", t, b);
	errno = 0;
}
static void ret(int t, int r, const void *d, int n) { int x = errno; char b[1200]; hx_ev("\"e\":\"ret\",\"t\":%d,\"r\":%d,\"x\":%d,\"d\":%s", t, r, r < 0 ? x : 0, bytes_json(b, d, n)); }
static void reti(int t, int r, const int *d, int n) {
	int x = errno, i; char b[200], *o = b;
	*o++ = '['; for (i = 0; i < n; i++) o += sprintf(o, "%s%d", i ? "," : "", d[i]); *o++ = ']'; *o = 0;
	hx_ev("\"e\":\"ret\",\"t\":%d,\"r\":%d,\"x\":%d,\"d\":%s", t, r, r < 0 ? x : 0, b);
}
static int addfd(int f, int by, int r, int w, int app, int priv) {
	int k;
	for (k = 0; k < nf; k++) if (F[k].f < 0) break;
	if (k == FN) return -1;
	if (k == nf) nf++;
	F[k].f = f; F[k].by = by; F[k].users = F[k].closing = 0; F[k].r = r; F[k].w = w; F[k].app = app; F[k].priv = priv;
	return k;
}
static int room(void) { int k, n = 0; for (k = 0; k < nf; k++) n += F[k].f >= 0; return n < FN - 8; }
static int pick(int me) {
	int k, i;
	if (!nf) return -1;
	for (i = 0; i < 6; i++) { k = hx_rnd(nf); if (F[k].f >= 0 && !F[k].closing && (!F[k].priv || F[k].by == me)) return k; }
	return -1;
}
static void letters(char *b, int n) { int i; for (i = 0; i < n; i++) b[i] = (char)(hx_chance(12) ? '\n' : 'a' + hx_rnd(26)); b[n] = 0; }
static int some(void) { return longfile && hx_chance(40) ? 20 + hx_rnd(150) : hx_rnd(9); }
static void pname(char *out, int me) { sprintf(out, "%s%c%d", hx_chance(15) ? (hx_chance(50) ? "d/" : "e/") : "", hx_chance(60) ? 'p' : 'q', me); }
static const int modes[] = { 0600, 0644, 0755, 0700, 0666 };
#define MODE modes[hx_rnd(5)]
static void nap(void) { if (hx_chance(75)) yield(); else { int ms = hx_rnd(4); delay(ms); } }
static void do_open(int me, const char *path, int priv) {
	static const char *names[] = { "r", "w", "rw" }; static const int bits[] = { O_RDONLY, O_WRONLY, O_RDWR };
	char p[100]; int a = hx_rnd(3), cr = hx_chance(60), ex = cr && hx_chance(25), tr = a != 0 && hx_chance(25), app = a != 0 && hx_chance(20), m = MODE, r, k;
	if (!room()) return;
	path_json(p, path);
	call(me, "\"op\":\"open\",\"p\":%s,\"rw\":\"%s\",\"cr\":%d,\"ex\":%d,\"tr\":%d,\"app\":%d,\"mode\":%d", p, names[a], cr, ex, tr, app, m);
	k = bits[a] | (cr ? O_CREAT : 0) | (ex ? O_EXCL : 0) | (tr ? O_TRUNC : 0) | (app ? O_APPEND : 0);
	r = hx_chance(80) ? fs_open(path, k, m) : open(path, k, m);
	ret(me, r, 0, 0);
	if (r >= 0) addfd(r, me, a != 1, a != 0, app, priv);
}
static void do_close(int me, int k) {
	int f = F[k].f, r;
	if (F[k].users || F[k].closing) return;
	F[k].closing = 1;
	call(me, "\"op\":\"close\",\"f\":%d", f);
	r = hx_chance(85) ? fs_close(f) : close(f);
	ret(me, r, 0, 0);
	if (r == 0 || tasks == 1) F[k].f = -1;
	if (tasks == 1 && hx_chance(30)) { call(me, "\"op\":\"close\",\"f\":%d", f); r = fs_close(f); ret(me, r, 0, 0); }
}
static promise *mine;
static void do_read(int me, int f, int n, int usep) {
	char b[256]; int r; promise *p;
	call(me, "\"op\":\"read\",\"f\":%d,\"n\":%d", f, n);
	if (!usep) { r = fs_read(f, b, n); ret(me, r, b, r > 0 ? r : 0); }
	else { p = promise_fopen("/nonexistent/x", "r"); promise_wait(p); errno = 0; r = promise_read(p, f, b, n); ret(me, r, b, r > 0 ? r : 0); promise_fclose(p, NULL); }
}
static void attrs(int *v, struct stat *s) { v[0] = S_ISDIR(s->st_mode); v[1] = v[0] ? 0 : (int)s->st_size; v[2] = s->st_mode & 07777; }
static void on_fd(int me) {
	int k = pick(me), c = hx_rnd(10), f, n, r, v[3]; char b[256], j[1300]; struct stat st;
	if (hx_chance(6)) k = -1;
	if (k < 0) { f = 900 + hx_rnd(50); if (hx_chance(70)) return; } else { f = F[k].f; F[k].users++; }
	if (c < 4) do_read(me, f, some(), hx_chance(20));
	else if (c < 8) {
		n = some(); letters(b, n);
		call(me, "\"op\":\"write\",\"f\":%d,\"b\":%s", f, bytes_json(j, b, n));
		r = fs_write(f, b, n); ret(me, r, 0, 0);
	} else if (c == 8) {
		call(me, "\"op\":\"fstat\",\"f\":%d", f);
		r = fs_fstat(f, &st);
		attrs(v, &st); reti(me, r, v, r ? 0 : 3);
	} else if (k < 0) { call(me, "\"op\":\"close\",\"f\":%d", f); r = fs_close(f); ret(me, r, 0, 0); }
	else { F[k].users--; do_close(me, k); return; }
	if (k >= 0) F[k].users--;
}
static void do_send(int me) {
	int a = pick(me), b = pick(me), o, n, r, d[1]; off_t off; struct stat st;
	if (a < 0 || b < 0 || a == b || F[a].app || fstat(F[b].f, &st) || !S_ISREG(st.st_mode) || fstat(F[a].f, &st) || !S_ISREG(st.st_mode)) return;
	F[a].users++; F[b].users++;
	o = hx_chance(50) ? -1 : hx_rnd(6); n = some(); off = o;
	call(me, "\"op\":\"send\",\"f\":%d,\"g\":%d,\"o\":%d,\"n\":%d", F[a].f, F[b].f, o, n);
	r = (int)fs_sendfile(F[a].f, F[b].f, o < 0 ? NULL : &off, n);
	d[0] = (int)off; reti(me, r, d, r >= 0 && o >= 0 ? 1 : 0);
	F[a].users--; F[b].users--;
}
static int opened_as(int me, const char *path, const char *rw, int flags, int cr, int tr) {
	char p[100]; int r; path_json(p, path);
	call(me, "\"op\":\"open\",\"p\":%s,\"rw\":\"%s\",\"cr\":%d,\"ex\":0,\"tr\":%d,\"app\":0,\"mode\":384", p, rw, cr, tr);
	r = fs_open(path, flags | (cr ? O_CREAT : 0) | (tr ? O_TRUNC : 0), 0600);
	ret(me, r, 0, 0);
	return r < 0 ? -1 : addfd(r, me, 1, flags != O_RDONLY, 0, 1);
}
/* pieces of one file of its own sent to another, with reads between */
static void transfer(int me) {
	char x[20], y[20], b[256], j[1300]; int s, d, n, o, k, r, v[3]; off_t off; struct stat st;
	if (!room()) return;
	sprintf(x, "x%d", me); sprintf(y, "y%d", me);
	if ((d = opened_as(me, x, "rw", O_RDWR, 1, hx_chance(50))) < 0) return;
	n = 4 + some(); letters(b, n);
	call(me, "\"op\":\"write\",\"f\":%d,\"b\":%s", F[d].f, bytes_json(j, b, n)); r = fs_write(F[d].f, b, n); ret(me, r, 0, 0);
	if ((s = opened_as(me, x, "r", O_RDONLY, 0, 0)) < 0) return;
	do_close(me, d);
	if ((d = opened_as(me, y, "rw", O_RDWR, 1, hx_chance(50))) < 0) return;
	for (k = 2 + hx_rnd(4); k > 0; k--) {
		if (hx_chance(25)) do_read(me, hx_chance(70) ? F[s].f : F[d].f, 1 + hx_rnd(4), 0);
		o = hx_chance(60) ? -1 : hx_rnd(n + 1); off = o; r = 1 + hx_rnd(hx_chance(50) ? 4 : n);
		call(me, "\"op\":\"send\",\"f\":%d,\"g\":%d,\"o\":%d,\"n\":%d", F[d].f, F[s].f, o, r);
		r = (int)fs_sendfile(F[d].f, F[s].f, o < 0 ? NULL : &off, r);
		v[0] = (int)off; reti(me, r, v, r >= 0 && o >= 0 ? 1 : 0);
	}
	call(me, "\"op\":\"fstat\",\"f\":%d", F[d].f); r = fs_fstat(F[d].f, &st); attrs(v, &st); reti(me, r, v, r ? 0 : 3);
	do_close(me, s); do_close(me, d);
}
static void on_path(int me) {
	const char *s = shared[hx_rnd(8)], *s2; char p[100], p2[100]; int c = hx_rnd(11), r, v[3], m = MODE; struct stat st;
	path_json(p, s);
	if (c < 2) { call(me, "\"op\":\"stat\",\"p\":%s", p); r = fs_stat(s, &st); attrs(v, &st); reti(me, r, v, r ? 0 : 3); }
	else if (c == 2) { call(me, "\"op\":\"access\",\"p\":%s", p); r = fs_access(s, F_OK); ret(me, r, 0, 0); }
	else if (c == 3) { call(me, "\"op\":\"exists\",\"p\":%s", p); r = fs_exists(s); ret(me, r, 0, 0); }
	else if (c == 4) { call(me, "\"op\":\"unlink\",\"p\":%s", p); r = fs_unlink(s); ret(me, r, 0, 0); }
	else if (c < 7) { s = dirs[hx_rnd(4)]; path_json(p, s); call(me, "\"op\":\"mkdir\",\"p\":%s,\"mode\":%d", p, m | 0700); r = fs_mkdir(s, m | 0700); ret(me, r, 0, 0); }
	else if (c == 7) { s = dirs[hx_rnd(4)]; path_json(p, s); call(me, "\"op\":\"rmdir\",\"p\":%s", p); r = fs_rmdir(s); ret(me, r, 0, 0); }
	else if (c < 10) {
		s2 = shared[hx_rnd(8)]; path_json(p2, s2);
		call(me, "\"op\":\"rename\",\"p\":%s,\"p2\":%s", p, p2);
		r = fs_rename(s, s2); ret(me, r, 0, 0);
	} else { call(me, "\"op\":\"chmod\",\"p\":%s,\"mode\":%d", p, m | 0700); r = fs_chmod(s, m | 0700); ret(me, r, 0, 0); }
}
static void private(int me) {
	char s[40], s2[40], p[100], p2[100], b[256], j[1300], *g; int c = hx_rnd(9), r, n;
	pname(s, me); pname(s2, me); path_json(p, s); path_json(p2, s2);
	if (c < 2) { n = some(); letters(b, n); call(me, "\"op\":\"writefile\",\"p\":%s,\"b\":%s", p, bytes_json(j, b, n)); r = fs_writefile(s, b); ret(me, r, 0, 0); }
	else if (c == 2) { call(me, "\"op\":\"touch\",\"p\":%s", p); r = fs_touch(s); ret(me, r, 0, 0); }
	else if (c < 5) { call(me, "\"op\":\"readfile\",\"p\":%s", p); g = fs_readfile(s); ret(me, g != NULL, g, g ? (int)strlen(g) : 0); }
	else if (c == 5) { call(me, "\"op\":\"size\",\"p\":%s", p); r = (int)fs_filesize(s); ret(me, r, 0, 0); }
	else if (c < 8) {
		if (copying) return;
		copying = s; strcpy(copyname, s); quit_copy = shorts && hx_chance(20);
		call(me, "\"op\":\"copy\",\"p\":%s,\"p2\":%s", p, p2);
		if (!strcmp(s, s2)) quit_copy = 0;
		r = fs_copyfile(s, s2); ret(me, r, 0, 0);
		copying = NULL;
	} else { call(me, "\"op\":\"unlink\",\"p\":%s", p); r = fs_unlink(s); ret(me, r, 0, 0); }
}
static void streams(int me) {
	static const char *M[] = { "r", "w", "a" };
	char s[20], p[60], b[256], j[1300]; struct { int pre[64]; char line[256]; } q; int m = hx_rnd(3), id, n, k, r, sz, usep = hx_chance(40); FILE *f; promise *pr = NULL; char *g;
	sprintf(s, "%ss%d", hx_chance(10) ? "d/" : "", me); path_json(p, s);
	if (hx_chance(40)) {
		int put = hx_chance(40);
		n = some(); sz = put ? 1 : 1 + hx_rnd(3); n = n / sz * sz; letters(b, n); m = 1 + hx_rnd(2);
		if (s[0] == 's' || n) {
			call(me, "\"op\":\"fput\",\"p\":%s,\"m\":\"%s\",\"b\":%s,\"sz\":%d", p, M[m], bytes_json(j, b, n), sz);
			r = put ? async_fprintf(s, M[m], b) : async_fwrite(s, M[m], b, sz, n / sz);
			ret(me, r, 0, 0);
		}
	}
	m = hx_rnd(3); id = -10 - nstreams++;
	call(me, "\"op\":\"fopen\",\"p\":%s,\"m\":\"%s\",\"f\":%d", p, M[m], id);
	if (usep) { pr = promise_fopen(s, M[m]); f = promise_wait(pr).object; } else f = fs_fopen(s, M[m]);
	ret(me, f ? 0 : -1, 0, 0);
	for (k = f ? hx_rnd(6) : 0; k > 0; k--) {
		if (hx_chance(25)) nap();
		n = some(); sz = 1 + hx_rnd(3);
		if (m) {
			int fp = usep && hx_chance(30);
			if (fp) sz = 1;
			n = n / sz * sz; letters(b, n);
			call(me, "\"op\":\"fwrite\",\"f\":%d,\"b\":%s,\"sz\":%d", id, bytes_json(j, b, n), sz);
			if (fp) r = promise_fprintf(pr, f, b); else r = usep ? (int)promise_fwrite(pr, b, sz, n / sz, f) : (int)fs_fwrite(b, sz, n / sz, f);
			ret(me, r, 0, 0);
		} else if (hx_chance(35)) {
			n = n / sz;
			call(me, "\"op\":\"fread\",\"f\":%d,\"n\":%d,\"sz\":%d", id, n, sz);
			r = (int)fs_fread(b, sz, n, f); ret(me, r, b, r * sz);
		} else if (hx_chance(40)) {
			call(me, "\"op\":\"fgetc\",\"f\":%d", id);
			r = usep ? promise_fgetc(pr, f) : fs_fgetc(f); ret(me, r, 0, 0);
		} else {
			int i, x = hx_chance(50) ? 30 + hx_rnd(8) : hx_rnd(50);
			for (i = 0; i < 64; i++) q.pre[i] = x;
			n = 2 + hx_rnd(30);
			call(me, "\"op\":\"fgets\",\"f\":%d,\"n\":%d", id, n);
			g = usep ? promise_fgets(pr, q.line, n, f) : fs_fgets(q.line, n, f);
			ret(me, g == q.line ? 0 : g ? -2 : -1, q.line, g == q.line ? (int)strlen(g) : 0);
		}
	}
	if (f) { call(me, "\"op\":\"fclose\",\"f\":%d", id); r = usep ? promise_fclose(pr, f) : fs_fclose(f); ret(me, r, 0, 0); }
	else if (pr) promise_fclose(pr, NULL);
}
static void huge(int me) {
	static char one[1]; unsigned n = 0x20000000u - 40 + (unsigned)hx_rnd(80) + (hx_chance(30) ? 0x40000000u : 0) + (hx_chance(15) ? 0x80000000u : 0); long r;
	if (copying) return;
	switch (hx_rnd(3)) {
	case 0: r = fs_read(1000, one, n); break;
	case 1: r = fs_write(1000, one, n); break;
	default: r = (long)fs_sendfile(1000, 1001, NULL, n); break;
	}
	hx_ev("\"e\":\"big\",\"r\":%ld,\"k\":%ld", r, huge_given);
}
static void program(int me) {
	int i, n = 3 + hx_rnd(14); char s[40];
	for (i = 0; i < n; i++) {
		int c = hx_rnd(20);
		if (c < 4) { if (hx_chance(70)) do_open(me, shared[hx_rnd(8)], 0); else { sprintf(s, "o%d", me); do_open(me, s, 1); } }
		else if (c < 9) on_fd(me);
		else if (c < 13) on_path(me);
		else if (c < 16) private(me);
		else if (c == 16) { if (hx_chance(50)) do_send(me); else transfer(me); }
		else if (c < 19) streams(me);
		else if (tasks == 1 && hx_chance(30)) huge(me);
		else nap();
	}
}
static int left, workers;
static void *task(param_t a) { program(a[0].integer); left--; return 0; }
static void list(const char *path, char *out, int *o) {
	struct dirent *e; DIR *d = opendir(path[0] ? path : "."); struct stat st; char p[600], pj[100], b[2000], j[8200]; int f, n;
	while ((e = readdir(d))) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		snprintf(p, sizeof p, "%s%s%s", path, path[0] ? "/" : "", e->d_name);
		stat(p, &st); path_json(pj, p); n = 0;
		if (!S_ISDIR(st.st_mode)) { f = open(p, O_RDONLY); n = (int)syscall(SYS_read, f, b, sizeof b); close(f); }
		*o += sprintf(out + *o, "%s{\"p\":%s,\"k\":\"%s\",\"m\":%d,\"b\":%s}", *o ? "," : "", pj, S_ISDIR(st.st_mode) ? "d" : "f", st.st_mode & 07777, bytes_json(j, b, n));
		if (S_ISDIR(st.st_mode)) list(p, out, o);
	}
	closedir(d);
}
static void *first(param_t a) {
	int i, o = 0; static char out[200000];
	left = tasks - 1;
	for (i = 1; i < tasks; i++) { if (workers > 1 || hx_chance(60)) async_task(task, 1, (intptr_t)i); else go(task, 1, (intptr_t)i); if (hx_chance(30)) nap(); }
	program(0);
	while (left) nap();
	out[0] = 0; list("", out, &o);
	hx_ev("\"e\":\"final\",\"t\":[%s]", out);
	hx_done();
}
static void stuck(int why) { hx_ev("\"e\":\"stuck\",\"why\":%d", why); hx_done(); }
void hx_scenario(int i) {
	events_t *loop;
	cpus = 2 + hx_rnd(3); tasks = hx_chance(25) ? 1 : 2 + hx_rnd(3); fill = hx_rnd(3); shorts = hx_chance(40); longfile = hx_chance(25);
	hx_cfg("\"cpus\":%d,\"tasks\":%d", cpus, tasks);
	if (chdir(hx_scratch())) return;
	umask(0);
	if (hx_chance(10)) close(0);
	if (events_init(256)) return;
	events_set_allocator(m_alloc, m_realloc, m_calloc, m_free);
	vt_auto = 0;
	rs_start(i % 3, (i % 3) == 0 ? hx_rnd(12) : 1 + hx_rnd(12), 6000000, stuck);
	loop = events_init_pool(workers = 1 + hx_rnd(cpus));
	async_task(first, 0);
	async_run(loop);
	hx_ev("\"e\":\"over\"");
}
