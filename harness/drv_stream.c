/* Byte streams between tasks of one or several threads: pipes, socket pairs, local sockets, loopback connections;
 * async_read, async_read2, async_write, async_accept, async_connect, async_bind, uds_*.  The kernel's part is real,
 * with small buffers; its calls may transfer less than asked for, and write may say "later" at any time.  Threads run
 * under rsched; the library is compiled with its scheduling points. */
#define _GNU_SOURCE
#include <events.h>
#include <except.h>
#include "rsched.h"
#include "vtime.h"
#include "hx.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#undef close
#undef read
#undef write
#undef open
#undef connect
#undef in

int system(const char *cmd) { return 0; }
static int cpus = 2;
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { int k; CPU_ZERO(s); for (k = 0; k < cpus; k++) CPU_SET(k, s); return 0; }
enum { QN = 24 };
static __thread void *held[QN]; static __thread int nheld; static int fill;
static void *m_alloc(size_t n) { void *p = rp_malloc(n); if (p && fill) memset(p, fill == 1 ? 0xa5 : 0x01, n); return p; }
static void *m_realloc(void *p, size_t n) { return rp_realloc(p, n); }
static void *m_calloc(size_t n, size_t m) { return rp_calloc(n, m); }
static void m_free(void *p) {
	int k;
	if (!p) return;
	memset(p, fill == 1 ? 0xdd : 0, rpmalloc_usable_size(p));
	if (!fill) { rpfree(p); return; }
	k = nheld++ % QN; if (held[k]) rpfree(held[k]); held[k] = p;
}

enum { EN = 40, LEN = 24000, SN = 3 };
enum { SINK, SOURCE, REPLY, DUPLEX, EARLY, NMODE };
static struct { int fd, mode, side, srv, wpos, rpos, peer, total, parts, opened; unsigned char data[LEN]; } E[EN];
static struct { int fd, uds, mode, clients, todo, thread, live; char name[40]; } S[SN];
static int ne, ns, big, slow, left, fdE[4096], shorts;
static char host[40];
static int known(int f) { return f > 2 && f < 4096 && fdE[f]; }
/* the thread, all its tasks, would stand still */
static void blocking(int f, int ev) {
	struct pollfd p = { f, ev, 0 };
	if ((fcntl(f, F_GETFL) & O_NONBLOCK) || poll(&p, 1, 0) != 0) return;
	hx_ev("\"e\":\"blocked\",\"ev\":%d", ev); hx_done();
}
ssize_t read(int f, void *b, size_t n) {
	if (known(f)) blocking(f, POLLIN);
	if (known(f) && shorts && n > 1 && hx_chance(30)) n = 1 + hx_rnd((int)n);
	return syscall(SYS_read, f, b, n);
}
int accept(int f, struct sockaddr *a, socklen_t *l) { blocking(f, POLLIN); return (int)syscall(SYS_accept, f, a, l); }
ssize_t write(int f, const void *b, size_t n) {
	if (known(f)) blocking(f, POLLOUT);
	if (known(f) && slow && hx_chance(slow)) { errno = EAGAIN; return -1; }
	if (known(f) && shorts && n > 1 && hx_chance(60)) n = 1 + hx_rnd(n > 12 && !big ? 12 : (int)n);
	if (known(f)) {        /* the signal SIGPIPE is left out */
		struct pollfd p = { f, POLLOUT, 0 };
		ssize_t r = send(f, b, n, MSG_NOSIGNAL);
		if (r >= 0 || errno != ENOTSOCK) return r;
		poll(&p, 1, 0);
		if (p.revents & POLLERR) { errno = EPIPE; return -1; }
	}
	return syscall(SYS_write, f, b, n);
}
static void nap(void) { if (hx_chance(80)) yield(); else { int ms = hx_rnd(4); delay(ms); } }
static int newend(int mode, int side, int srv) {
	int e = ne++, i;
	E[e].fd = -1; E[e].mode = mode; E[e].side = side; E[e].srv = srv; E[e].peer = -1;
	for (i = 0; i < LEN; i++) E[e].data[i] = (unsigned char)hx_rnd(256);
	E[e].data[0] = (unsigned char)(e + 1);
	E[e].total = big ? hx_rnd(20000) : hx_rnd(60); if (hx_chance(10)) E[e].total = 0;
	return e;
}
static void opened(int e, int f) {
	int v = 2048;
	E[e].fd = f; E[e].opened = 1; E[e].parts = 1;
	fdE[f] = 1;
	setsockopt(f, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
}
static void nonblock(int f) { fcntl(f, F_SETFL, O_NONBLOCK | fcntl(f, F_GETFL)); }
/* which written bytes are these */
static void decode(int e, const unsigned char *b, int n, char *out) {
	int at = E[e].rpos, p = E[e].peer, i, k, run, best, bo, bs, segs = 0; char *o = out;
	*o++ = '[';
	if (p < 0 && at == 0) { k = b[0] - 1; if (k >= 0 && k < ne && k != e) E[e].peer = p = k; }
	for (i = 0; i < n && segs < 6; i += best, segs++) {
		best = 0; bs = -1; bo = b[i];
		if (p >= 0) { for (run = 0; i + run < n && at + run < LEN && E[p].data[at + run] == b[i + run]; run++); if (run) { best = run; bs = p; bo = at; } }
		if (!best) for (k = 0; k < ne; k++) { int f; for (f = 0; f < LEN; f++) { for (run = 0; i + run < n && f + run < LEN && E[k].data[f + run] == b[i + run]; run++); if (run > best && run > 3) { best = run; bs = k; bo = f; } } }
		if (!best) best = 1;
		at = bs == p ? bo + best : at;
		o += sprintf(o, "%s[%d,%d,%d]", segs ? "," : "", bs, bo, best);
	}
	*o++ = ']'; *o = 0;
}
static int rd(int e) {
	static unsigned char bufs[16][LEN]; static int nb; unsigned char *b = bufs[nb++ % 16]; int n = big ? 1 + hx_rnd(9000) : 1 + hx_rnd(hx_chance(50) ? 4 : 40), r; char d[400];
	if (hx_chance(3)) n = 0;
	hx_ev("\"e\":\"rcall\",\"a\":%d,\"n\":%d", e, n);
	r = hx_chance(50) || n == 0 ? async_read(E[e].fd, b, n) : async_read2(E[e].fd, b, n);
	if (r > 0) decode(e, b, r > n ? n : r, d); else strcpy(d, "[]");
	hx_ev("\"e\":\"rret\",\"a\":%d,\"r\":%d,\"d\":%s", e, r, d);
	if (r > 0) E[e].rpos += r;
	return n == 0 && r == 0 ? 1 : r;
}
static int wr(int e) {
	int n = big ? 1 + hx_rnd(9000) : 1 + hx_rnd(hx_chance(50) ? 4 : 30), r;
	if (n > E[e].total - E[e].wpos) n = E[e].total - E[e].wpos;
	hx_ev("\"e\":\"wcall\",\"a\":%d,\"n\":%d", e, n);
	r = async_write(E[e].fd, E[e].data + E[e].wpos, n);
	hx_ev("\"e\":\"wret\",\"a\":%d,\"r\":%d", e, r);
	if (r > 0) E[e].wpos += r;
	return r;
}
static void shut(int e) { hx_ev("\"e\":\"shut\",\"a\":%d", e); shutdown(E[e].fd, SHUT_WR); }
static void part_done(int e) {
	if (--E[e].parts) return;
	hx_ev("\"e\":\"close\",\"a\":%d", e);
	fdE[E[e].fd] = 0;
	close(E[e].fd);
}
static void send_all(int e) { while (E[e].wpos < E[e].total) { if (wr(e) < 0) return; if (hx_chance(30)) nap(); } }
static void read_all(int e) { int lim = E[e].mode == EARLY ? hx_rnd(10) : 100000; while (lim-- > 0) { if (rd(e) <= 0) return; if (hx_chance(30)) nap(); } }
static void *second(param_t a) { int e = a[0].integer; send_all(e); shut(e); part_done(e); left--; return 0; }
/* side 0: the one that asks, side 1: the one that serves */
static void talk(int e) {
	int m = E[e].mode, s = E[e].side;
	if (m == DUPLEX) {
		if (rs_self() == 0) { E[e].parts = 2; left++; async_task(second, 1, (intptr_t)e); read_all(e); }
		else { if (s) { read_all(e); send_all(e); } else { send_all(e); shut(e); read_all(e); } }
	} else if (m == SOURCE) { if (s) send_all(e); else read_all(e); }
	else if (m == REPLY) { if (s) { read_all(e); send_all(e); } else { send_all(e); shut(e); read_all(e); } }
	else { if (s) read_all(e); else send_all(e); }
	if (hx_chance(20)) nap();
	part_done(e);
}
static void *side(param_t a) { talk(a[0].integer); left--; return 0; }
static int uds_side(int client) {
	int e, k; for (e = 0; e < ne; e++) if (E[e].opened && E[e].fd == client && E[e].side == 1 && E[e].parts == 1) break;
	(void)k;
	/* closed by the library when this is over */
	{ int m = E[e].mode; if (m == SOURCE) send_all(e); else if (m == REPLY || m == DUPLEX) { read_all(e); send_all(e); } else read_all(e); }
	hx_ev("\"e\":\"close\",\"a\":%d", e); fdE[client] = 0; E[e].parts = 0;
	left--;
	return 0;
}
static void run(int e, int thread) {
	left++;
	if (thread && (E[e].mode != DUPLEX || E[e].side == 0)) { go(side, 1, (intptr_t)e); if (hx_chance(50)) yield(); } else async_task(side, 1, (intptr_t)e);
}
static void *server(param_t a) {
	int s = a[0].integer, f, e, port; char who[120];
	while (S[s].todo > 0) {
		S[s].todo--;
		port = 0;
		f = S[s].uds ? uds_accept(S[s].fd, hx_chance(20) ? who : NULL) : async_accept(S[s].fd, hx_chance(30) ? who : NULL, &port);
		if (f < 0) { hx_ev("\"e\":\"noaccept\",\"s\":%d,\"x\":%d", s, errno); continue; }
		e = newend(S[s].mode, 1, s);
		opened(e, f);
		hx_ev("\"e\":\"accepted\",\"a\":%d,\"s\":%d,\"p\":%d", e, s, port);
		if (S[s].uds && hx_chance(30) && E[e].mode != EARLY) { left++; uds_handler((uds_unix_cb)uds_side, f); }
		else run(e, hx_chance(40) && E[e].mode != DUPLEX);
		if (hx_chance(20)) nap();
	}
	left--;
	return 0;
}
static void *client(param_t a) {
	int s = a[0].integer, e, f, p = 0, up = S[s].live; char n[60]; struct sockaddr_in sa; socklen_t l = sizeof sa;
	if (hx_chance(50)) nap();
	e = newend(S[s].mode, 0, s);
	hx_ev("\"e\":\"connecting\",\"a\":%d,\"s\":%d", e, up ? s : -1 - s);
	if (S[s].uds) { snprintf(n, sizeof n, "unix://%s", S[s].name); f = uds_connect(n); }
	else f = async_connect(host, 7000 + s, 1);
	if (f < 0) { hx_ev("\"e\":\"refused\",\"a\":%d,\"x\":%d", e, errno); left--; return 0; }
	if (!S[s].uds && !getsockname(f, (struct sockaddr *)&sa, &l)) p = ntohs(sa.sin_port);
	opened(e, f);
	hx_ev("\"e\":\"connected\",\"a\":%d,\"p\":%d", e, p);
	talk(e);
	left--;
	return 0;
}
static void odd(void) {
	char b[8] = "12345"; int f = -1, r = -2, c = hx_rnd(9); const char *k = "bad";
	if (c < 3) { k = "file"; f = open("plain", O_RDWR | O_CREAT | O_TRUNC, 0600); if (c != 1) { r = (int)syscall(SYS_write, f, b, 5); lseek(f, 0, SEEK_SET); } }
	if (c == 3) f = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
	switch (c) {
	case 0: r = async_read2(f, b, 5); break;
	case 1: r = async_write(f, b, 5); break;
	case 2: r = async_read(f, b, 5); break;
	case 3: r = async_accept(f, NULL, NULL); break;
	case 4: r = async_read2(900, b, 5); break;
	case 5: r = async_read2(-1, b, 5); break;
	case 6: r = async_write(900, b, 5); break;
	case 7: r = async_read(-1, b, 5); break;
	case 8: r = async_accept(900, NULL, NULL); break;
	}
	hx_ev("\"e\":\"odd\",\"c\":%d,\"k\":\"%s\",\"r\":%d,\"n\":5", c, k, r);
	if (f >= 0) close(f);
}
static void *first(param_t a) {
	int i, k, nl = hx_rnd(4), f[2];
	ns = hx_rnd(3); if (!nl && !ns) ns = 1;
	for (i = 0; i < nl; i++) {
		int m = hx_rnd(NMODE), p = hx_chance(40), x, y;
		if (p) { if (m == REPLY || m == DUPLEX) m = SINK; if (pipe(f)) return 0; fcntl(f[1], F_SETPIPE_SZ, 4096); if (m != SOURCE) { k = f[0]; f[0] = f[1]; f[1] = k; } }
		else if (socketpair(AF_UNIX, SOCK_STREAM, 0, f)) return 0;
		nonblock(f[0]); nonblock(f[1]);
		x = newend(m, 0, 0); y = newend(m, 1, 0);
		opened(x, f[0]); opened(y, f[1]);
		E[x].peer = y; E[y].peer = x;
		hx_ev("\"e\":\"link\",\"a\":%d,\"b\":%d", x, y);
		run(x, m != DUPLEX && hx_chance(40)); run(y, m != DUPLEX && hx_chance(40));
		if (hx_chance(30)) nap();
	}
	for (i = 0; i < ns; i++) {
		S[i].uds = hx_chance(50); S[i].mode = hx_rnd(NMODE); S[i].live = hx_chance(92); S[i].clients = 1 + hx_rnd(4);
		snprintf(S[i].name, sizeof S[i].name, "s%d.sock", i);
		if (S[i].live) {
			S[i].fd = S[i].uds ? uds_bind(S[i].name, 16) : async_bind(host, 7000 + i, 16, 1);
			if (S[i].fd < 0) { hx_ev("\"e\":\"nobind\",\"x\":%d", errno); hx_done(); }
			S[i].todo = S[i].clients;
			for (k = hx_chance(30) ? 2 : 1; k > 0; k--) { left++; async_task(server, 1, (intptr_t)i); }
		}
		for (k = 0; k < S[i].clients; k++) { left++; if (hx_chance(65)) async_task(client, 1, (intptr_t)i); else { go(client, 1, (intptr_t)i); if (hx_chance(30)) yield(); } }
	}
	if (hx_chance(25)) odd();
	while (left) nap();
	hx_ev("\"e\":\"over\"");
	hx_done();
	return 0;
}
static void stuck(int why) { hx_ev("\"e\":\"stuck\",\"why\":%d", why); hx_done(); }
void hx_scenario(int i) {
	events_t *loop;
	cpus = 2 + hx_rnd(3); fill = hx_rnd(3); big = hx_chance(25); slow = hx_chance(40) ? 10 + hx_rnd(60) : 0; shorts = hx_chance(60);
	hx_cfg("\"cpus\":%d,\"big\":%d", cpus, big);
	if (chdir(hx_scratch())) return;

	snprintf(host, sizeof host, "127.%d.%d.%d", 1 + ((getpid() >> 16) & 127), (getpid() >> 8) & 255, 1 + (getpid() & 255) % 250);
	if (events_init(1024)) return;
	events_set_allocator(m_alloc, m_realloc, m_calloc, m_free);
	vt_auto = 0;
	rs_start(i % 3, (i % 3) == 0 ? hx_rnd(12) : 1 + hx_rnd(12), 20000000, stuck);
	loop = events_init_pool(1);
	async_task(first, 0);
	async_run(loop);
	hx_done();
}
