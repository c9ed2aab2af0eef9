/* Children: spawn, spawn_cgi, exec, exec_wait, spawn_is_finish, spawn_pid, exec_fdin, exec_addenv.  The children are this program itself,
 * with a script of what to write, read, and how to end; every byte they are to write is known beforehand.  Processes and time are real. */
#define _GNU_SOURCE
#include <events.h>
#include <except.h>
#include "hx.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#undef close
#undef read
#undef write
#undef open
#undef stat
#undef in

extern char **environ;
int system(const char *cmd) { return 0; }
static int cpus = 2;
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { int k; CPU_ZERO(s); for (k = 0; k < cpus; k++) CPU_SET(k, s); return 0; }

/* ---- what child k writes on its own, and what is written to it */
static unsigned char own(int k, int o) { return (unsigned char)(k * 31 + o * 7 + (o >> 8)); }
static unsigned char fed(int k, int o) { return (unsigned char)(k * 17 + o * 5 + (o >> 7) + 3); }
static void put(int f, const void *b, int n) { const char *p = b; while (n > 0) { ssize_t r = syscall(SYS_write, f, p, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) _exit(99); p += r; n -= (int)r; } }
static int cmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
__attribute__((constructor)) static void child(int argc, char **argv, char **envp) {
	int k, o = 0; char *s;
	if (argc > 0 && (s = strstr(argv[0], "/kid:"))) {        /* no arguments: the script is in the name */
		k = (int)strtol(s + 5, &s, 10); s++;
		if (argc > 1) _exit(96);
		argv[0] = s; argc = 3; goto run;
	}
	if (argc < 4 || strcmp(argv[1], "--child")) return;
	k = atoi(argv[2]); s = argv[3];
run:
	signal(SIGALRM, SIG_DFL); alarm(60);
	while (*s) {
		char c = *s++; int n = (int)strtol(s, &s, 10), i; static unsigned char b[1 << 20];
		if (*s == '.') s++;
		if (c == 'w') { for (i = 0; i < n; i++) b[i] = own(k, o + i); o += n; put(1, b, n); }
		else if (c == 'q') { for (i = 0; i < n; i++) b[i] = 'q'; put(2, b, n); }
		else if (c == 's') { struct timespec t = { 0, n * 1000000L }; nanosleep(&t, 0); }
		else if (c == 'r') { for (i = 0; i < n;) { ssize_t r = syscall(SYS_read, 0, b + i, n - i); if (r < 0 && errno == EINTR) continue; if (r <= 0) _exit(98); i += (int)r; } put(1, b, n); }
		else if (c == 'a') for (i = 4; i < argc; i++) { put(1, argv[i], (int)strlen(argv[i])); put(1, "\n", 1); }
		else if (c == 'v') {
			for (i = 0; envp[i]; i++); qsort(envp, i, sizeof *envp, cmp);
			for (i = 0; envp[i]; i++) if (*envp[i]) { put(1, envp[i], (int)strlen(envp[i])); put(1, "\n", 1); }
		}
		else if (c == 'e') _exit(n);
		else if (c == 'k') { signal(n, SIG_DFL); kill(getpid(), n); for (;;) pause(); }
	}
	_exit(97);
}

/* the system may be out of processes */
static int unlucky; static pid_t (*real_vfork)(void);
__attribute__((used)) static int no_fork(void) {
	if (!unlucky || !hx_chance(unlucky)) return 0;
	hx_ev("\"e\":\"nofork\""); errno = EAGAIN; return 1;
}
__attribute__((naked)) pid_t vfork(void) { asm("sub $8, %rsp\n call no_fork\n add $8, %rsp\n test %eax, %eax\n jnz 1f\n jmp *real_vfork(%rip)\n 1: mov $-1, %eax\n ret"); }
static int opened(void) { int f, n = 0; for (f = 3; f < 300; f++) n += fcntl(f, F_GETFD) >= 0; return n; }

enum { KN = 8, OUT = 400000 };
enum { SPAWN, QUIET, CGI, EXEC, GONE };
static struct { unsigned char out[OUT]; int total, got, kind, in, fedn, code, sig, over, file, started; execinfo_t *info; process_t ps; } K[KN];
static int nk, left, limit, chatty; static char self[300], ENV[600];
static int running(int k) { return K[k].started && !K[k].over; }
static void add(int k, const void *b, int n) { memcpy(K[k].out + K[k].total, b, n); K[k].total += n; }
static int script(int k, char *s) {
	int n = 1 + hx_rnd(7), o = 0, i, big = hx_chance(30), q = K[k].kind == QUIET || K[k].kind == GONE, max = K[k].kind == CGI ? 20000 : 1 << 30; char *p = s;
	while (n-- > 0) {
		int c = hx_rnd(10);
		if (c < 5 && !q) {
			int m = big && hx_chance(40) ? 30000 + hx_rnd(60000) : hx_chance(30) ? 1 + hx_rnd(6000) : 1 + hx_rnd(40);
			if (K[k].total + m > OUT - 40000) continue;
			for (i = 0; i < m; i++, o++) K[k].out[K[k].total++] = own(k, o);
			p += sprintf(p, "w%d.", m);
		} else if (c < 7) p += sprintf(p, "s%d.", hx_rnd(12));
		else if (c == 7 && (K[k].kind == SPAWN || K[k].kind == CGI)) {
			int m = hx_chance(20) ? 1 + hx_rnd(9000) : 1 + hx_rnd(60);
			for (i = 0; i < m; i++) K[k].out[K[k].total++] = fed(k, K[k].in++);
			p += sprintf(p, "r%d.", m);
		} else if (c == 8 && K[k].kind == CGI) p += sprintf(p, "q%d.", 1 + hx_rnd(max > 500 ? 500 : 1));
	}
	return (int)(p - s);
}
/* what a handler is given must be the next bytes of its child */
static void nap(void);
static void one(int k);
static void output(int k, fds_t to, size_t n, char *b) {
	int ok = K[k].got + (int)n <= K[k].total && !memcmp(K[k].out + K[k].got, b, n) ? 1 : 0;
	if (K[k].info && to != exec_fdin(K[k].info)) ok = 2;
	if (b[n]) ok = 3;                     /* it is a string */
	hx_ev("\"e\":\"out\",\"c\":%d,\"n\":%d,\"ok\":%d", k, (int)n, ok);
	K[k].got += (int)n;
	if (chatty && hx_chance(30)) nap();
}
static void ended(int k, int status, int sig) {
	int alive = K[k].ps > 0 && (waitid(P_PID, K[k].ps, &(siginfo_t){0}, WEXITED | WNOHANG | WNOWAIT) == 0 || kill(K[k].ps, 0) == 0);
	K[k].over = 1; left--;
	hx_ev("\"e\":\"exit\",\"c\":%d,\"r\":%d,\"g\":%d,\"alive\":%d", k, status, sig, alive);
	if (chatty && nk < limit && hx_chance(30)) one(nk);
}
#define H(k) static void out##k(fds_t f, size_t n, char *b) { output(k, f, n, b); } static void end##k(int s, int g) { ended(k, s, g); }
H(0) H(1) H(2) H(3) H(4) H(5) H(6) H(7)
static const spawn_cb outs[KN] = { out0, out1, out2, out3, out4, out5, out6, out7 };
static const exit_cb ends[KN] = { end0, end1, end2, end3, end4, end5, end6, end7 };
static void nap(void) { if (hx_chance(75)) yield(); else { int ms = hx_rnd(6); delay(ms); } }
/* write to a child what it waits for */
static void *feed(param_t a) {
	int k = a[0].integer; unsigned char b[4096];
	while (K[k].fedn < K[k].in && !K[k].over) {
		int n = K[k].in - K[k].fedn, i; ssize_t r;
		if (n > (int)sizeof b) n = sizeof b;
		if (n > 1 && hx_chance(50)) n = 1 + hx_rnd(n);
		for (i = 0; i < n; i++) b[i] = fed(k, K[k].fedn + i);
		r = syscall(SYS_write, exec_fdin(K[k].info), b, n);
		if (r > 0) K[k].fedn += (int)r;
		nap();
	}
	return 0;
}
static char *args_of(int k, char *cmd, char *script) {
	char *b = malloc(3000); int n = hx_rnd(4), i, o = sprintf(b, "--child,%d,%s", k, script), told = strchr(script, 'a') != 0, j;
	if (K[k].kind != GONE && !told && strlen(script) < 200 && hx_chance(15)) {
		sprintf(cmd, "./kid:%d:%s", k, script);
		if (symlink(self, cmd) == 0) return 0;
	}
	for (i = 0; i < n; i++) {
		char a[40]; int m = hx_rnd(20);
		for (j = 0; j < m; j++) { do a[j] = (char)(33 + hx_rnd(94)); while (a[j] == ','); if (hx_chance(10)) a[j] = ' '; }
		a[m] = 0;
		o += sprintf(b + o, ",%s", a);
		if (told) { add(k, a, m); add(k, "\n", 1); }
	}
	return b;
}
static void report(int k) { hx_ev("\"e\":\"spawn\",\"c\":%d,\"total\":%d,\"r\":%d,\"g\":%d,\"k\":\"%s\"", k, K[k].total, K[k].code, K[k].sig, (char *[]){ "io", "quiet", "io", "exec", "gone" }[K[k].kind]); }
static void one(int k) {
	char s[400], cmd[400]; int o, quiet, how; execinfo_t *info;
	K[k].kind = how = hx_chance(55) ? SPAWN : hx_chance(25) ? QUIET : hx_chance(40) ? CGI : hx_chance(80) ? EXEC : GONE;
	quiet = how == QUIET || how == GONE;
	strcpy(cmd, how == GONE ? "/proc/self/no-such-program" : self);
	o = script(k, s);
	if (!quiet && hx_chance(40)) {
		o += sprintf(s + o, "v");
		if (how != CGI) add(k, ENV, (int)strlen(ENV));
	}
	if (!quiet && hx_chance(40)) o += sprintf(s + o, "a");
	if (hx_chance(80)) o += sprintf(s + o, "e%d", K[k].code = hx_chance(40) ? 0 : hx_chance(60) ? 1 + hx_rnd(95) : 100 + hx_rnd(156));
	else { static const int sg[] = { SIGTERM, SIGKILL, SIGUSR1, SIGINT, SIGHUP, SIGALRM, SIGPIPE }; o += sprintf(s + o, "k%d", K[k].sig = sg[hx_rnd(7)]); }
	if (how == GONE) K[k].code = 255, K[k].sig = 0;
	nk++;
	if (how == EXEC) {
		char path[30];
		sprintf(path, "out%d", k);
		K[k].file = open(path, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
		info = exec_info(0, 0, inherit, K[k].file, inherit);
		char *a = args_of(k, cmd, s);
		report(k);
		K[k].ps = exec(cmd, a, info);
		left++;
		hx_ev("\"e\":\"spawned\",\"c\":%d,\"r\":%d", k, K[k].ps > 0);
		if (K[k].ps > 0) K[k].started = 1;
		else { close(K[k].file); K[k].over = 1; left--; }
		return;
	}
	if (how == CGI) {
		size_t size = 0; char *e = 0; int i, n = 1 + hx_rnd(3); static const char *names[] = { "ALPHA", "BETA", "GAMMA" };
		static char val[3][4000];
		for (i = 0; i < n; i++) { int m = hx_chance(15) ? 1900 + hx_rnd(2000) : hx_rnd(50), j; for (j = 0; j < m; j++) { do val[i][j] = (char)(33 + hx_rnd(94)); while (val[i][j] == ';'); } val[i][m] = 0; }
		for (i = 0; i < n; i++) e = exec_addenv(e, &size, 1, names[i], val[i]);
		if (strchr(s, 'v')) for (i = 0; i < n; i++) { static char l[4100]; add(k, l, sprintf(l, "%s=%s\n", names[i], val[i])); }
		char *a = args_of(k, cmd, s);
		report(k); K[k].started = 1; left++;
		info = K[k].info = spawn_cgi(cmd, a, e, outs[k], ends[k]);
	} else {
		char *a = args_of(k, cmd, s);
		report(k); K[k].started = 1; left++;
		info = K[k].info = spawn(cmd, a, quiet ? 0 : outs[k], ends[k]);
	}
	hx_ev("\"e\":\"spawned\",\"c\":%d,\"r\":%d", k, info != 0);
	if (!info) { K[k].over = 1; left--; return; }
	K[k].ps = (process_t)spawn_pid(info);
	if (K[k].in) async_task(feed, 1, (intptr_t)k);
}
static int later(int k) { int j; for (j = k + 1; j < nk; j++) if (K[j].info == K[k].info) return 1; return 0; }
static void look(void) {
	int k = hx_rnd(nk), code = -77, r;
	if (K[k].kind == EXEC) {
		if (!K[k].started || K[k].over) return;
		errno = 0;
		r = exec_wait(K[k].ps, hx_chance(10) ? INFINITE : 0, &code);
		if (r == 0) {
			static unsigned char b[OUT]; int n = (int)pread(K[k].file, b, OUT, 0);
			hx_ev("\"e\":\"out\",\"c\":%d,\"n\":%d,\"ok\":%d", k, n, n <= K[k].total && !memcmp(b, K[k].out, n));
			hx_ev("\"e\":\"exit\",\"c\":%d,\"r\":%d,\"g\":%d,\"alive\":0", k, code < 0 ? 0 : code, code < 0 ? -code : 0);
			K[k].over = 1; left--; close(K[k].file);
		} else hx_ev("\"e\":\"wait\",\"c\":%d,\"x\":%d", k, errno == ETIMEDOUT);
	} else if (K[k].info && !later(k)) {
		r = spawn_is_finish(K[k].info);
		hx_ev("\"e\":\"finish\",\"c\":%d,\"r\":%d", k, r);
	}
}
static void *first(param_t a) {
	int j, o = opened();
	limit = 1 + hx_rnd(KN - 1); chatty = hx_chance(40); if (hx_chance(30)) unlucky = 20;
	while (nk < limit) {
		one(nk);
		for (j = hx_rnd(6); j > 0; j--) { nap(); look(); }
		if (hx_chance(30)) while (left > 1) { nap(); look(); }
	}
	while (left) { nap(); look(); }
	delay(3);
	hx_ev("\"e\":\"over\",\"open\":%d", opened() - o);
	hx_done();
}
void hx_scenario(int i) {
	events_t *loop; int n; char *e[4];
	hx_cfg("\"cpus\":%d", cpus);
	real_vfork = (pid_t (*)(void))dlsym(RTLD_NEXT, "vfork");
	if (chdir(hx_scratch())) return;
	n = (int)readlink("/proc/self/exe", self, sizeof self - 1); self[n] = 0;
	/* the parent's environment: what a child without one of its own has */
	clearenv(); setenv("HERE", "it is", 1); setenv("VP_X", "y=z;w", 1);
	strcpy(ENV, "HERE=it is\nVP_X=y=z;w\n");
	if (events_init(256)) return;
	loop = events_init_pool(1);
	async_task(first, 0);
	async_run(loop);
	hx_ev("\"e\":\"done\"");
}
