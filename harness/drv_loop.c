/* Random programs over event loops: descriptors, timeouts, timers, signals; operations at top level and inside callbacks. */
#define _GNU_SOURCE
#include <events.h>
#include "hx.h"
#include "vtime.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include "events_internal.h"
#undef read
#undef dup2
#undef signal
#undef write
#undef close
#undef open

enum { NF = 6, NTM = 14, NS = 4, NL = 3 };
static const int sigs[NS + 1] = { 0, SIGUSR1, SIGUSR2, SIGWINCH, SIGTERM };
static const int place[NF + 1] = { 0, 41, 47, 48, 63, 130, 200 };     /* same and different words of the timeout wheel */
static int fdno[NF + 1], peer[NF + 1], isopen[NF + 1], reg[NF + 1], maxto[NL + 1];
static struct { int used, loop; actor_t *a; } tm[NTM + 1];
static int sreg[NS + 1], spend[NS + 1], insig, curtm, nl, prof, turning, ntask, ops, maxops, depth, nullfd, started;
static events_t *L[NL + 1];

static void ev(const char *fmt, ...) {
	char b[600]; va_list ap;
	va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	hx_ev("%s,\"now\":%ld", b, vt_now());
}
static int rdy(int f) {
	struct pollfd p = { fdno[f], POLLIN | POLLOUT, 0 };
	if (!isopen[f]) return 0;
	poll(&p, 1, 0);
	return (p.revents & (POLLIN | POLLERR) ? 1 : 0) | (p.revents & (POLLOUT | POLLERR) ? 2 : 0) | (p.revents & POLLHUP ? 4 : 0);   /* an error is told to whoever waits */
}
static void act(void);
static void sync_sig(int s) {
	ev("\"e\":\"raise\",\"s\":%d", s);
	if (insig && sreg[s]) spend[s] = 1;
	raise(sigs[s]);
}

int epoll_wait(int ep, struct epoll_event *e, int max, int timeout) {
	char b[64], *p = b; int f, n, s;
	if (!started) return syscall(SYS_epoll_pwait, ep, e, max, timeout, NULL, 8);
	if (hx_chance(6)) {
		s = hx_rnd(NS) + 1;
		if (sreg[s]) { sync_sig(s); errno = EINTR; return -1; }
	}
	for (f = 1; f <= NF; f++) p += sprintf(p, "%s%d", f > 1 ? "," : "", rdy(f));
	ev("\"e\":\"poll\",\"rdy\":[%s]", b);
	n = syscall(SYS_epoll_pwait, ep, e, max, 0, NULL, 8);
	if (n == 0 && timeout > 0) vt_units += timeout * 10;
	return n;
}

static void fdcb(int which, int fd, int event, void *arg) {
	int f;
	for (f = 1; f <= NF && fdno[f] != fd; f++);
	if (event == EVENTS_TIMEOUT) ev("\"e\":\"tocb\",\"f\":%d,\"cb\":%d,\"arg\":%d", f, which, (int)(intptr_t)arg);
	else ev("\"e\":\"cb\",\"f\":%d,\"ev\":%d,\"cb\":%d,\"arg\":%d,\"rdy\":%d", f, event, which, (int)(intptr_t)arg, f <= NF ? rdy(f) : 0);
	act();
}
static void cb1(fds_t fd, int e, void *a) { fdcb(1, fd, e, a); }
static void cb2(fds_t fd, int e, void *a) { fdcb(2, fd, e, a); }
static void cb3(fds_t fd, int e, void *a) { fdcb(3, fd, e, a); }
static const events_cb cbs[4] = { 0, cb1, cb2, cb3 };
static void sigcb(int which, int sig, int event, void *arg) {
	int s;
	for (s = 1; s <= NS && sigs[s] != sig; s++);
	if (s <= NS) spend[s] = 0;
	ev("\"e\":\"sig\",\"s\":%d,\"ev\":%d,\"cb\":%d,\"arg\":%d", s, event, which, (int)(intptr_t)arg);
	insig = s;
	act();
	insig = 0;
	ev("\"e\":\"sigret\",\"s\":%d", s);
}
static void scb1(fds_t fd, int e, void *a) { sigcb(1, fd, e, a); }
static void scb2(fds_t fd, int e, void *a) { sigcb(2, fd, e, a); }
static const events_cb scbs[3] = { 0, scb1, scb2 };
static void tmcb(actor_t *a, void *arg) {
	int i = (int)(intptr_t)arg / 1000;
	ev("\"e\":\"tm\",\"i\":%d,\"arg\":%d", i, (int)(intptr_t)arg);
	tm[i].a = a; curtm = i; tm[i].used = 2;
	act();
	if (hx_chance(50) && ops < maxops * 2) {
		int ms = hx_rnd(hx_chance(10) ? 6000 : 60);
		ev("\"e\":\"rearm\",\"i\":%d,\"ms\":%d", i, ms); events_repeat_actor(a, ms); tm[i].used = 1;
		if (hx_chance(10)) { ev("\"e\":\"clear\",\"i\":%d", i); events_clear_actor(a); tm[i].used = 2; }
	} else if (hx_chance(50)) { ev("\"e\":\"clear\",\"i\":%d", i); events_clear_actor(a); tm[i].used = 2; }
	if (tm[i].used == 2) tm[i].used = 0;
	curtm = 0;
	ev("\"e\":\"tmret\",\"i\":%d", i);
}
static void *task(param_t args) {
	int i, n = args[0].integer;
	for (i = 0; i < n; i++) if (hx_chance(60)) yield(); else delay(hx_rnd(40));
	ntask--;
	ev("\"e\":\"tend\"");
	return 0;
}

static void addfd(void) {
	int f = hx_rnd(NF) + 1, l = hx_rnd(nl) + 1, d = hx_chance(6) ? 0 : hx_rnd(3) + 1, cb = hx_rnd(3) + 1, arg = hx_rnd(9000) + 1, to, r;
	if (!isopen[f] || (reg[f] && (reg[f] != l || !hx_chance(20)))) return;
	to = hx_chance(prof == 1 ? 80 : 30) ? hx_rnd(prof == 1 && hx_chance(20) ? maxto[l] : 4) + 1 : 0;
	r = events_add(L[l], fdno[f], d, to, cbs[cb], (void *)(intptr_t)arg);
	ev("\"e\":\"add\",\"f\":%d,\"l\":%d,\"d\":%d,\"cb\":%d,\"arg\":%d,\"to\":%d,\"r\":%d", f, l, d, cb, arg, to, r);
	reg[f] = l;
}
static void delfd(int f) {
	int s;
	/* a signal of the same number that is being handled would be meant instead */
	for (s = 1; s <= NS; s++) if (sigs[s] == fdno[f] && sreg[s] && (insig || !reg[f])) return;
	reg[f] = 0;
	ev("\"e\":\"del\",\"f\":%d,\"r\":%d", f, events_del(fdno[f]) == 0 ? 0 : -1);
}
static void openfd(int f) {
	int p[2], sz = 4096;
	if (reg[f]) return;
	if (isopen[f]) close(peer[f]);
	socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p);
	if (hx_chance(25)) { close(p[0]); close(p[1]); if (pipe2(p, O_NONBLOCK)) _exit(96); if (hx_chance(50)) { int x = p[0]; p[0] = p[1]; p[1] = x; } }
	else { setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); }
	dup2(p[0], fdno[f]); close(p[0]);
	peer[f] = fcntl(p[1], F_DUPFD, 210); close(p[1]);
	isopen[f] = 1;
}
static void closefd(int f) {
	if (reg[f] || !isopen[f]) return;
	if (peer[f] >= 0) close(peer[f]);
	peer[f] = -1; isopen[f] = 0; dup2(nullfd, fdno[f]);
}
static void data(void) {
	char b[8192]; int f = hx_rnd(NF) + 1, k;
	memset(b, 7, sizeof b);
	if (!isopen[f]) return;
	switch (hx_rnd(5)) {
	case 0: if (peer[f] >= 0) k = write(peer[f], b, 3); break;
	case 1: k = read(fdno[f], b, hx_chance(50) ? sizeof b : 2); break;
	case 2: for (k = 0; k < 64 && write(fdno[f], b, sizeof b) > 0; k++); break;
	case 3: if (peer[f] >= 0) while (read(peer[f], b, sizeof b) > 0); break;
	case 4: if (peer[f] >= 0 && hx_chance(30)) { close(peer[f]); peer[f] = -1; } break;
	}
}
static void one(void) {
	int f = hx_rnd(NF) + 1, l = hx_rnd(nl) + 1, i, s, r, x, d, ms; void *arg;
	static const int weights[5][11] = { /* add del set setcb setto ask open/close data timer signal task */
		{ 14, 10, 10, 6, 2, 8, 8, 22, 1, 1, 1 }, { 12, 8, 2, 2, 22, 2, 3, 4, 2, 0, 0 }, { 2, 1, 1, 1, 1, 1, 1, 2, 30, 0, 1 },
		{ 10, 10, 2, 1, 3, 2, 2, 3, 12, 8, 8 }, { 4, 4, 1, 1, 1, 1, 1, 2, 3, 30, 1 } };
	const int *w = weights[prof]; int tot = 0, k;
	for (k = 0; k < 11; k++) tot += w[k];
	x = hx_rnd(tot);
	for (k = 0; k < 11 && x >= w[k]; k++) x -= w[k];
	ops++;
	switch (k) {
	case 0: addfd(); break;
	case 1: if (reg[f] || hx_chance(15)) delfd(f); break;
	case 2: if (reg[f]) { d = hx_rnd(4); r = events_set_event(fdno[f], d); ev("\"e\":\"set\",\"f\":%d,\"d\":%d,\"r\":%d", f, d, r); } break;
	case 3: if (reg[f]) { d = hx_rnd(3) + 1; arg = (void *)(intptr_t)(hx_rnd(9000) + 1); events_set_callback(L[reg[f]], fdno[f], cbs[d], &arg);
			ev("\"e\":\"scb\",\"f\":%d,\"cb\":%d,\"arg\":%d", f, d, (int)(intptr_t)arg); } break;
	case 4: if (reg[f]) { d = hx_chance(25) ? 0 : hx_rnd(hx_chance(10) ? maxto[reg[f]] : 5) + 1; events_set_timeout(fdno[f], d); ev("\"e\":\"sto\",\"f\":%d,\"to\":%d", f, d); } break;
	case 5: l = hx_rnd(nl + 1);
		ev("\"e\":\"ask\",\"f\":%d,\"l\":%d,\"reg\":%d,\"dirs\":%d", f, l, events_is_registered(l ? L[l] : NULL, fdno[f]), events_get_event(L[1], fdno[f])); break;
	case 6: if (hx_chance(60)) openfd(f); else closefd(f); break;
	case 7: for (i = hx_rnd(3); i >= 0; i--) data(); break;
	case 8:
		i = hx_rnd(NTM) + 1;
		ms = hx_chance(10) ? hx_rnd(9000) : hx_rnd(60);
		if (!tm[i].used) {
			tm[i].used = 1; tm[i].loop = l; arg = (void *)(intptr_t)(i * 1000 + hx_rnd(1000));
			tm[i].a = events_actor(L[l], ms, tmcb, arg);
			ev("\"e\":\"arm\",\"i\":%d,\"l\":%d,\"ms\":%d,\"arg\":%d", i, l, ms, (int)(intptr_t)arg);
		} else if (tm[i].used == 1 && i != curtm && hx_chance(50)) {
			if (hx_chance(50)) { ev("\"e\":\"rearm\",\"i\":%d,\"ms\":%d", i, ms); events_repeat_actor(tm[i].a, ms); }
			else { ev("\"e\":\"clear\",\"i\":%d", i); events_clear_actor(tm[i].a); tm[i].used = 0; }
		}
		break;
	case 9:
		s = hx_rnd(NS) + 1;
		switch (hx_rnd(5)) {
		case 0: case 1:
			if (sreg[s] && (insig || hx_chance(60))) { if (!insig || !spend[s]) sync_sig(s); }
			else if (!spend[s] && (!sreg[s] || sreg[s] == l)) {
				d = hx_rnd(2) + 1; arg = (void *)(intptr_t)(hx_rnd(9000) + 1);
				r = events_add(L[l], sigs[s], EVENTS_SIGNAL, 0, scbs[d], arg);
				ev("\"e\":\"sadd\",\"s\":%d,\"l\":%d,\"cb\":%d,\"arg\":%d,\"r\":%d", s, l, d, (int)(intptr_t)arg, r == 0 ? 0 : -1);
				if (r == 0) sreg[s] = l;
			}
			break;
		case 2:
			for (i = 1; i <= NF; i++) if (fdno[i] == sigs[s] && reg[i]) return;
			if (sreg[s] && !spend[s]) { sreg[s] = 0; r = events_del(sigs[s]); ev("\"e\":\"sdel\",\"s\":%d,\"r\":%d", s, r == 0 ? 0 : -1); }
			break;
		case 3: if (sreg[s] && !(insig && spend[s])) sync_sig(s); break;
		case 4: { struct sigaction sa; sigaction(sigs[s], NULL, &sa); ev("\"e\":\"disp\",\"s\":%d,\"h\":%d", s, sa.sa_handler != SIG_DFL); break; }
		}
		break;
	case 10: if (ntask < 3 && !turning && !insig) { ev("\"e\":\"task\""); ntask++; async_task((param_func_t)task, 1, casting(hx_rnd(4))); } break;
	}
}
static void act(void) {
	int n = hx_chance(45) ? 0 : hx_rnd(3) + 1;
	if (depth > 3 || ops > maxops * 3) return;
	depth++;
	if (hx_chance(8)) vt_units += hx_rnd(hx_chance(20) ? 25000 : 200);
	while (n--) one();
	depth--;
}
static void turn(int l) {
	int w = hx_chance(60) ? 0 : hx_rnd(3), r;
	ev("\"e\":\"turn\",\"l\":%d,\"w\":%d", l, w);
	turning = l;
	r = events_once(L[l], w);
	turning = 0;
	ev("\"e\":\"turned\",\"r\":%d", r);
}
static void askrun(void) {
	int l = hx_rnd(nl) + 1;
	ev("\"e\":\"run\",\"l\":%d,\"v\":%d", l, events_is_running(L[l]));
}

void hx_scenario(int i) {
	int f, l, clash, k;
	char b[64], *p = b;
	prof = i % 5;
	nl = prof == 0 || prof == 3 ? hx_rnd(NL) + 1 : hx_chance(70) ? 1 : 2;
	clash = hx_chance(30);
	nullfd = open("/dev/null", O_RDWR);
	for (f = 1; f <= NF; f++) { fdno[f] = clash && f < 3 ? sigs[f] : place[f]; dup2(nullfd, fdno[f]); peer[f] = -1; }
	signal(SIGPIPE, SIG_IGN);
	events_init(256);
	vt_auto = 0; vt_start(); vt_units = 10000 + hx_rnd(30000);
	for (l = 1; l <= nl; l++) {
		maxto[l] = hx_chance(70) ? 60 : 200;
		L[l] = events_create(maxto[l]);
		p += sprintf(p, "%s%d", l > 1 ? "," : "", (maxto[l] + 127) / 128);
	}
	hx_cfg("\"nf\":%d,\"ntm\":%d,\"ns\":%d,\"nl\":%d,\"res\":[%s],\"clash\":%d,\"prof\":%d", NF, NTM, NS, nl, b, clash, prof);
	for (k = 0; k < 4; k++) for (l = 1; l <= nl; l++) events_once(L[l], 0);   /* the library's own start-up work */
	started = 1;
	for (f = 1; f <= NF; f++) if (hx_chance(80)) openfd(f);
	maxops = hx_thorough() ? 240 : 90;
	while (ops < maxops) {
		for (k = hx_rnd(6); k > 0; k--) one();
		if (hx_chance(40)) vt_units += hx_rnd(hx_chance(prof == 1 ? 40 : 8) ? 40000 : prof == 2 ? 300 : 60);
		for (k = hx_rnd(3); k > 0; k--) turn(hx_rnd(nl) + 1);
		if (hx_chance(30)) askrun();
		ops++;
	}
	/* wind down: everything is removed, fires or finishes; then nothing is left */
	for (f = 1; f <= NF; f++) if (reg[f]) delfd(f);
	for (k = 1; k <= NS; k++) if (sreg[k]) { int r; for (f = 1; f <= NF; f++) if (fdno[f] == sigs[k] && reg[f]) break;
		if (f > NF) { sreg[k] = 0; r = events_del(sigs[k]); ev("\"e\":\"sdel\",\"s\":%d,\"r\":%d", k, r == 0 ? 0 : -1); } }
	ops = maxops * 4;
	for (k = 0; k < 60; k++) {
		int left = ntask;
		for (f = 1; f <= NTM; f++) left += tm[f].used;
		vt_units += left ? 20000 : 100;
		for (l = 1; l <= nl; l++) turn(l);
		if (!left) break;
	}
	for (l = 1; l <= nl; l++) { ev("\"e\":\"run\",\"l\":%d,\"v\":%d", l, events_is_running(L[l])); }
}
