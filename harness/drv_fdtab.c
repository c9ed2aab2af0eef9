/* Threads that create, bind, look up and close pseudo descriptors; each touches only its own. */
#include "events_internal.h"
#include "vsched.h"
#include "hx.h"
#include <sys/eventfd.h>
#include <fcntl.h>
#undef close
#define NT 3
#define N 256
typedef struct { int p, type, h, assigned; } own_t;   /* h: descriptor of the object, or a plain number */
static own_t own[NT][N]; static int nown[NT], nops, nth, exhaust;
static int hx_big(int fd) { int n = fcntl(fd, F_DUPFD_CLOEXEC, hx_chance(70) ? 300 : 40); if (n >= 0) { close(fd); return n; } return fd; }
enum { FILE_, PIPE_, MON, WD, CHILD };
static const char *tn[] = { "file", "pipe", "mon", "wd", "child" };
static int isopen(int h) { return fcntl(h, F_GETFD) >= 0; }
static void look(int t, int p) { int v = events_valid_fd(p); int g = (int)events_get_fd(p); hx_ev("\"e\":\"look\",\"t\":%d,\"p\":%d,\"valid\":%d,\"get\":%d", t, p, v, g); }
static void doclose(int t, int i, int check) {
	own_t o = own[t][i]; int k;
	own[t][i] = own[t][--nown[t]];
	hx_ev("\"e\":\"close\",\"t\":%d,\"p\":%d", t, o.p);
	if (o.type == WD) inotify_rm_watch(-1, o.p); else os_close(o.p);
	hx_ev("\"e\":\"closed\",\"p\":%d", o.p);
	if (nth == 1 && (check || hx_chance(50))) {
		look(t, o.p);
		if ((o.type == FILE_ && o.assigned) || o.type == MON) hx_ev("\"e\":\"open\",\"h\":%d,\"is\":%d,\"want\":0", o.h, isopen(o.h));
		if (o.type == CHILD) hx_ev("\"e\":\"open\",\"h\":%d,\"is\":%d,\"want\":1", o.h, isopen(o.h));
		for (k = 0; k < nown[t]; k++) if (own[t][k].assigned && own[t][k].type != WD)
			hx_ev("\"e\":\"open\",\"h\":%d,\"is\":%d,\"want\":1", own[t][k].h, isopen(own[t][k].h));
	}
	if (o.type == CHILD) close(o.h);     /* stands for a descriptor that has the child's number */
}
static void body(void *a) {
	int t = (int)(intptr_t)a, i, k;
	for (i = 0; i < nops; i++) {
		int c = hx_rnd(100);
		if (nown[t] == 0 || c < (exhaust ? 92 : 45)) {
			int ty = hx_rnd(5), fd, want = -1, p, ft;
			if (exhaust && i % 3 == 0) ty = WD;
			own_t *o;
			errno = 0;
			if (ty == WD) { fd = want = 1 + hx_rnd(exhaust ? 255 : 6); ft = FD_MONITOR_SYNC; }
			else if (ty == MON) { fd = want = hx_big(eventfd(0, EFD_CLOEXEC)); ft = FD_MONITOR_ASYNC; }
			else { fd = eventfd(0, EFD_CLOEXEC); if (!exhaust && nth > 1) fd = hx_big(fd); ft = ty == FILE_ ? FD_FILE_ASYNC : ty == PIPE_ ? FD_PIPE_ASYNC : FD_CHILD; }
			if (fd < 0) { continue; }
			p = events_new_fd(ft, fd, want);
			hx_ev("\"e\":\"new\",\"t\":%d,\"type\":\"%s\",\"want\":%d,\"p\":%d,\"err\":%d,\"alone\":%d", t, tn[ty], want, p, errno != 0, nth == 1);
			if (p < 0) { if (ty != WD) close(fd); continue; }
			o = &own[t][nown[t]++];
			o->p = p; o->type = ty; o->assigned = ty == WD || ty == MON; o->h = want;
			if (!o->assigned) {
				if (hx_chance(30)) look(t, p);
				int h = hx_big(eventfd(0, EFD_CLOEXEC)), r;
				if (h >= 0) {
					r = events_assign_fd(h, p);
					hx_ev("\"e\":\"assign\",\"t\":%d,\"p\":%d,\"h\":%d,\"r\":%d", t, p, h, r);
					o->h = h; o->assigned = 1;
				}
			} 
		} else if (c < 70) look(t, own[t][hx_rnd(nown[t])].p);
		else { k = hx_rnd(nown[t]); doclose(t, k, 0); }
	}
	while (nown[t]) { look(t, own[t][nown[t] - 1].p); doclose(t, nown[t] - 1, 0); }
}
void hx_scenario(int i) {
	int r, t, runs, stuck;
	events_init(1024);
	exhaust = i % 16 == 15;
	nth = exhaust || i % 4 == 0 ? 1 : 2 + hx_rnd(2);
	nops = exhaust ? 330 : nth == 1 ? 40 : 3 + hx_rnd(5);
	runs = exhaust ? 1 : nth == 1 ? 8 : hx_thorough() ? 120 : 30;
	hx_cfg("\"threads\":%d,\"exhaust\":%d", nth, exhaust);
	for (r = 0; r < runs; r++) {
		vs_reset();
		hx_ev("\"e\":\"run\"");
		for (t = 0; t < nth; t++) { nown[t] = 0; vs_spawn(body, (void *)(intptr_t)t); }
		stuck = vs_run(r % 3, r % 3 ? 1 + hx_rnd(6) : 0, nth == 1 ? 2000000 : 60000);
		hx_ev("\"e\":\"over\",\"bad\":%d,\"stuck\":%d", vs_bad, stuck);
		if (stuck) break;
	}
}
