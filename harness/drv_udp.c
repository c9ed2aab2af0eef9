/* Datagrams between tasks: udp_bind, udp_connect, udp_to, async_sendto, async_recvfrom, udp_recv, udp_send, udp_handler, udp_message,
 * udp_length, udp_ip.  The kernel's part is real (loopback); send and receive may say "later".  What the system gave to the library is
 * noted, so that what the tasks get can be compared. */
#define _GNU_SOURCE
#include <events.h>
#include <except.h>
#include "rsched.h"
#include "vtime.h"
#include "hx.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#undef close
#undef read
#undef write
#undef open
#undef connect
#undef in

int system(const char *cmd) { return 0; }
static int cpus = 2;
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { int k; CPU_ZERO(s); for (k = 0; k < cpus; k++) CPU_SET(k, s); return 0; }
enum { QN = 24 };
static __thread void *held[QN]; static __thread int nheld; static int fill;
static void *m_alloc(size_t n) { void *p = rp_malloc(n); if (p && fill) memset(p, fill == 1 ? 0xa5 : 0x01, n); return p; }
static void *m_realloc(void *p, size_t n) { return rp_realloc(p, n); }
static void *m_calloc(size_t n, size_t m) { return rp_calloc(n, m); }
static void m_free(void *p) {
	int k;
	if (!p) return;
	memset(p, fill == 1 ? 0xdd : 0, rpmalloc_usable_size(p));
	if (!fill) { rpfree(p); return; }
	k = nheld++ % QN; if (held[k]) rpfree(held[k]); held[k] = p;
}


enum { SN = 16, MN = 700, BIG = 70000, NOONE = 90 };
static struct { int fd, con, known, rcv, up, here; char name[60]; struct sockaddr_in sa; } S[SN];
static struct { int n, to, stop, empty; } M[MN];
static unsigned char B[MN][BIG];
static int ns, nm, np, nbound, senders, left, handed, closing, slow, later, sOf[4096], emptied[128];
static char net[30]; static int sender_of[MN];
static __thread int last;                      /* the message the system gave last */
static int is(int m, const unsigned char *b, int n) { return m >= 0 && m < nm && n <= M[m].n && !memcmp(b, B[m], n); }
static int sock(int f) { return f > 2 && f < 4096 ? sOf[f] - 1 : -1; }
static void blocking(int f, int ev) {
	struct pollfd p = { f, ev, 0 };
	if ((fcntl(f, F_GETFL) & O_NONBLOCK) || poll(&p, 1, 0) != 0) return;
	hx_ev("\"e\":\"blocked\",\"ev\":%d", ev); hx_done();
}
ssize_t recvfrom(int f, void *restrict b, size_t n, int fl, __SOCKADDR_ARG a, socklen_t *restrict l) {
	static unsigned char all[BIG]; ssize_t r; int s = sock(f), m;
	if (s < 0) return syscall(SYS_recvfrom, f, b, n, fl, a.__sockaddr__, l);
	blocking(f, POLLIN);
	if (later && hx_chance(later)) { errno = EAGAIN; return -1; }
	r = syscall(SYS_recvfrom, f, all, sizeof all, fl & ~MSG_DONTWAIT, a.__sockaddr__, l);
	if (r < 0) return r;
	for (m = r < 2 ? 0 : all[0] | all[1] << 8; m < nm; m++) if (M[m].n == r && M[m].to == s + 1 && is(m, all, (int)r) && !(r == 0 && M[m].empty)) break;
	last = m < nm ? m : -2;
	if (!(fl & MSG_PEEK)) { handed++; if (last >= 0) M[last].empty = 1; }
	if ((size_t)r > n) r = n;
	memcpy(b, all, r);
	return r;
}
ssize_t sendto(int f, const void *b, size_t n, int fl, __CONST_SOCKADDR_ARG a, socklen_t l) {
	if (sock(f) >= 0) { blocking(f, POLLOUT); if (slow && hx_chance(slow)) { errno = EAGAIN; return -1; } }
	return syscall(SYS_sendto, f, b, n, fl, a.__sockaddr__, l);
}
static void nap(void) { if (hx_chance(80)) yield(); else { int ms = hx_rnd(4); delay(ms); } }
static void addr_of(int a, char *o) { sprintf(o, "%s%s.%d:%d", hx_chance(40) ? "udp://" : "", net, a, 7000 + a); }
/* the number of a host, as the library tells it */
static int host(const char *h) {
	char b[60]; int k;
	if (!h) return -1;
	if (!strcmp(h, "127.0.0.1")) return 99;
	for (k = 1; k < 120; k++) { sprintf(b, "%s.%d", net, k); if (!strcmp(b, h)) return k; }
	return -1;
}
static int newsock(int f, int con) {
	int s = ns++; socklen_t l = sizeof S[s].sa; struct sockaddr_in want;
	if (f < 0) { hx_ev("\"e\":\"nosocket\",\"x\":%d", errno); hx_done(); }
	getsockname(f, (struct sockaddr *)&S[s].sa, &l);
	S[s].fd = f; S[s].con = con; S[s].up = 1; S[s].known = 1; S[s].here = rs_self();
	sOf[f] = s + 1;
	memset(&want, 0, sizeof want); inet_aton(con ? "127.0.0.1" : "0", &want.sin_addr);
	if (!con) { char b[60]; sprintf(b, "%s.%d", net, s + 1); inet_aton(b, &want.sin_addr); }
	if (S[s].sa.sin_addr.s_addr != want.sin_addr.s_addr || (!con && ntohs(S[s].sa.sin_port) != 7000 + s + 1) || !socket_is_udp(f)) { hx_ev("\"e\":\"wrongsocket\",\"s\":%d", s); hx_done(); }
	hx_ev("\"e\":\"socket\",\"s\":%d,\"a\":%d,\"i\":%d,\"c\":%d", s, s + 1, con ? 99 : s + 1, con);
	return s;
}
static int message(int s, int to) {
	int m = nm++, n, k, r = hx_rnd(100);
	n = r < 8 ? 0 : r < 14 ? 1 : r < 50 ? 2 + hx_rnd(10) : r < 85 ? 2 + hx_rnd(2000) : r < 97 ? 40000 + hx_rnd(25508) : 65508 + hx_rnd(2000);
	if (n == 0) { if (emptied[to]) n = 3; else emptied[to] = 1; }
	if (n == 1 && m > 250) n = 3;
	M[m].n = n; M[m].to = to; sender_of[m] = s + 1;
	for (k = 2; k < n; k++) B[m][k] = (unsigned char)(k < 64 || hx_chance(5) ? hx_rnd(256) : B[m][k - 1] + 3);
	B[m][0] = (unsigned char)m; B[m][1] = (unsigned char)(m >> 8);
	return m;
}
static void sent(int m, int r) { hx_ev("\"e\":\"sent\",\"m\":%d,\"r\":%d", m, r); }
/* a message from s to address a (0: where it is aimed at) */
static void post(int s, int a, int stop) {
	char n[80]; int m;
	if (nm >= MN - 2) return;
	if (!a && !S[s].known) a = 1 + hx_rnd(ns);
	m = message(s, a ? a : S[s].con);
	M[m].stop = stop; if (stop && M[m].n > 60000) M[m].n = 5;
	if (a) {
		addr_of(a, n);
		if (a <= ns && S[a - 1].con) sprintf(n, "127.0.0.1:%d", ntohs(S[a - 1].sa.sin_port));
		udp_to(S[s].fd, n, 0); S[s].known = 0;
		hx_ev("\"e\":\"aim\",\"s\":%d,\"a\":%d", s, a);
	}
	hx_ev("\"e\":\"send\",\"m\":%d,\"s\":%d,\"n\":%d", m, s, M[m].n);
	sent(m, async_sendto(S[s].fd, B[m], M[m].n));
}
static int dest(int s) {
	int a = 1 + hx_rnd(ns);
	if (S[s].con && hx_chance(70)) return S[s].known ? 0 : S[s].con;
	return hx_chance(5) ? NOONE : a;
}
static void sends(int s, int n) { while (n-- > 0 && nm < MN / 2) { post(s, dest(s), 0); if (hx_chance(50)) nap(); } }
static void reply(int s, udp_t p, int id, int m, int from) {
	int k;
	if (M[m].stop || nm >= MN / 2) return;
	k = message(s, from);
	hx_ev("\"e\":\"reply\",\"m\":%d,\"s\":%d,\"p\":%d,\"n\":%d", k, s, id, M[k].n);
	sent(k, udp_send(p, B[k], M[k].n));
}
static void look(udp_t p, int id, int m) {
	int r = (int)udp_length(p), f = hx_chance(60) ? host(udp_ip(p)) : 0; char *b = udp_message(p);
	hx_ev("\"e\":\"look\",\"p\":%d,\"m\":%d,\"r\":%d,\"f\":%d", id, b && r >= 0 && is(m, (unsigned char *)b, r) && udp_flags(p) == 0 ? m : -1, r, f);
}
static struct { udp_t p; int s, m, from; } P[MN];
static void handler(udp_t p) {
	int id;
	for (id = np - 1; id >= 0 && P[id].p != p; id--);
	if (id < 0) { hx_ev("\"e\":\"wrongpacket\""); hx_done(); }
	if (hx_chance(50)) nap();
	look(p, id, P[id].m);
	if (hx_chance(30)) nap();
	if (hx_chance(60)) reply(P[id].s, p, id, P[id].m, P[id].from);
	if (hx_chance(20)) { nap(); look(p, id, P[id].m); }
	P[id].p = NULL;
	left--;
}
/* receives until told to stop */
static void receive(int s) {
	int hold[3] = { -1, -1, -1 }, k, m, r, n, pk, stop = 0; udp_t p; static unsigned char bufs[32][BIG]; static int nb;
	while (!stop) {
		if (hx_chance(55)) {
			hx_ev("\"e\":\"ask\",\"s\":%d", s);
			S[s].known = 0;
			p = udp_recv(S[s].fd);
			m = last;
			if (!p) { hx_ev("\"e\":\"nothing\",\"s\":%d,\"x\":%d", s, errno); hx_done(); }
			k = np++; P[k].p = p; P[k].s = s; P[k].m = m; P[k].from = m >= 0 ? sender_of[m] : 0;
			hx_ev("\"e\":\"got\",\"s\":%d,\"m\":%d,\"r\":%d,\"n\":%d,\"f\":0,\"p\":%d", s, m, (int)udp_length(p), BIG, k);
			if (m < 0) hx_done();
			stop = M[m].stop;
			if (hx_chance(40)) { left++; udp_handler(handler, p); }
			else { if (hx_chance(50)) look(p, k, m); if (hx_chance(30)) reply(s, p, k, m, P[k].from); hold[hx_rnd(3)] = k; }
		} else {
			unsigned char *b = bufs[nb++ % 32];
			n = hx_chance(60) ? BIG : 1 + hx_rnd(hx_chance(50) ? 5 : 3000); pk = hx_chance(15);
			hx_ev("\"e\":\"ask\",\"s\":%d", s);
			r = async_recvfrom(S[s].fd, b, n, pk ? MSG_PEEK : 0);
			m = last;
			if (r >= 0 && !is(m, b, r)) m = -1;
			if (pk) hx_ev("\"e\":\"peek\",\"s\":%d,\"m\":%d,\"r\":%d,\"n\":%d", s, m, r, n);
			else hx_ev("\"e\":\"got\",\"s\":%d,\"m\":%d,\"r\":%d,\"n\":%d,\"f\":0,\"p\":-1", s, m, r, n);
			if (m < 0 || r < 0) hx_done();
			if (!pk) stop = M[m].stop;
		}
		if (hx_chance(40)) nap();
		k = hold[hx_rnd(3)];
		if (k >= 0) { look(P[k].p, k, P[k].m); if (!stop && hx_chance(50)) reply(s, P[k].p, k, P[k].m, P[k].from); }
	}
	S[s].rcv--;
	left--;
}
static void *receiver(param_t a) { receive(a[0].integer); return 0; }
static void *sender(param_t a) { int s = a[0].integer; sends(s, 1 + hx_rnd(6)); senders--; left--; return 0; }
static void *solo(param_t a) {
	char n[80]; int con = a[0].integer, s;
	addr_of(con ? con : ns + 1, n);
	if (con) s = newsock(udp_connect(n), con);
	else s = newsock(udp_bind(n, 0), 0);
	S[s].rcv = 1;
	sends(s, 1 + hx_rnd(5));
	senders--;
	receive(s);
	return 0;
}
static void *first(param_t a) {
	int i, k, n;
	nbound = 1 + hx_rnd(3);
	for (i = 0; i < nbound; i++) {
		char nm_[80]; addr_of(i + 1, nm_); newsock(udp_bind(nm_, 0), 0);
	}
	for (i = 0; i < nbound; i++) {
		for (k = 1 + hx_chance(25); k > 0; k--) { S[i].rcv++; left++; async_task(receiver, 1, (intptr_t)i); }
		for (k = hx_rnd(3); k > 0; k--) { senders++; left++; async_task(sender, 1, (intptr_t)i); }
	}
	n = hx_rnd(4);
	for (i = 0; i < n; i++) {
		int con = hx_chance(60) ? 1 + hx_rnd(nbound) : 0, at = ns;
		senders++; left++;
		if (hx_chance(50)) async_task(solo, 1, (intptr_t)con); else go(solo, 1, (intptr_t)con);
		while (ns == at) nap();
	}
	while (senders) nap();
	while (left) {
		for (i = 0; i < ns; i++) if (S[i].rcv > 0) post(S[i].con ? S[i].con - 1 : hx_rnd(nbound), i + 1, 1);
		nap(); delay(3);
		if (nm >= MN - 20) break;
	}
	hx_ev("\"e\":\"over\",\"n\":%d", handed);
	hx_done();
	return 0;
}
static void stuck(int why) { hx_ev("\"e\":\"stuck\",\"why\":%d", why); hx_done(); }
void hx_scenario(int i) {
	events_t *loop;
	cpus = 2 + hx_rnd(3); fill = hx_rnd(3); slow = hx_chance(40) ? 10 + hx_rnd(60) : 0; later = hx_chance(30) ? 10 + hx_rnd(30) : 0;
	hx_cfg("\"cpus\":%d", cpus);
	if (chdir(hx_scratch())) return;
	snprintf(net, sizeof net, "127.%d.%d", 1 + (getpid() >> 8) % 250, getpid() & 255);
	if (events_init(1024)) return;
	events_set_allocator(m_alloc, m_realloc, m_calloc, m_free);
	vt_auto = 0;
	rs_start(i % 3, (i % 3) == 0 ? hx_rnd(12) : 1 + hx_rnd(12), 20000000, stuck);
	loop = events_init_pool(1);
	async_task(first, 0);
	async_run(loop);
	hx_done();
}
