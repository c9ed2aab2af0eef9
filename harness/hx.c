#define _GNU_SOURCE
#include "hx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <dirent.h>
#include <time.h>

#define BUFSZ (4u << 20)
typedef struct { volatile int lock; volatile int done; size_t len; int nev; size_t cfglen; char cfg[65536]; char fmt[65536]; char ev[BUFSZ]; } shm_t;
static shm_t *S;
static uint64_t rng;
static char scratch[256], scratch_root[200];
static int idx, thorough;
int hx_verbose = 0;
int hx_timeout_ms = 20000;

void hx_seed(uint64_t s) { rng = s * 0x9E3779B97F4A7C15ull + 0x1234567; hx_rand(); hx_rand(); }
uint32_t hx_rand(void) {
	uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return (uint32_t)((z ^ (z >> 31)) >> 16);
}
int hx_rnd(int n) { return n <= 0 ? 0 : (int)(hx_rand() % (uint32_t)n); }
int hx_chance(int pct) { return hx_rnd(100) < pct; }

static void lock(void) { while (__sync_lock_test_and_set(&S->lock, 1)) syscall(SYS_sched_yield); }
static void unlock(void) { __sync_lock_release(&S->lock); }

void hx_ev(const char *fmt, ...) {
	int n; va_list ap;
	lock();
	va_start(ap, fmt); n = vsnprintf(S->fmt, sizeof S->fmt, fmt, ap); va_end(ap);
	if (n >= (int)sizeof S->fmt) n = sizeof S->fmt - 1;
	if (S->len + n + 8 < BUFSZ) {
		if (S->nev++) S->ev[S->len++] = ',';
		S->ev[S->len++] = '{';
		memcpy(S->ev + S->len, S->fmt, n); S->len += n;
		S->ev[S->len++] = '}';
	}
	unlock();
}
void hx_cfg(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt); S->cfglen = vsnprintf(S->cfg, sizeof S->cfg, fmt, ap); va_end(ap);
}
void hx_done(void) { S->done = 1; _exit(0); }
const char *hx_scratch(void) { return scratch; }
int hx_index(void) { return idx; }
int hx_thorough(void) { return thorough; }

/* removes a scratch tree this program created (never follows links) */
static void rmtree(const char *p) {
	struct stat st; DIR *d; struct dirent *e; char q[512];
	if (strncmp(p, scratch_root, strlen(scratch_root)) != 0 || lstat(p, &st) != 0) return;
	if (S_ISDIR(st.st_mode)) {
		chmod(p, 0700);
		if ((d = opendir(p))) {
			while ((e = readdir(d)))
				if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
					snprintf(q, sizeof q, "%s/%s", p, e->d_name); rmtree(q);
				}
			closedir(d);
		}
		rmdir(p);
	} else unlink(p);
}

typedef struct { pid_t pid; int i; shm_t *s; struct timespec t0; int timed; char scratch[256]; } slot_t;
static double since(struct timespec *t) { struct timespec n; clock_gettime(CLOCK_MONOTONIC, &n); return (n.tv_sec - t->tv_sec) + (n.tv_nsec - t->tv_nsec) / 1e9; }

static void finish(slot_t *sl, int st, FILE *out, uint64_t seed) {
	shm_t *s = sl->s;
	const char *how; int code = 0;
	kill(-sl->pid, SIGKILL);                 /* leftovers of the scenario's own process group */
	if (sl->timed) how = "timeout";
	else if (WIFSIGNALED(st)) { how = "crash"; code = WTERMSIG(st); }
	else if (s->done && WEXITSTATUS(st) == 0) how = "ok";
	else { how = "exit"; code = WEXITSTATUS(st); }
	fprintf(out, "{\"id\":%d,\"seed\":\"%llu\",\"cfg\":{%.*s},\"ev\":[%.*s%s{\"e\":\"end\",\"how\":\"%s\",\"code\":%d}]}\n",
		sl->i, (unsigned long long)seed, (int)s->cfglen, s->cfg, (int)s->len, s->ev, s->nev ? "," : "", how, code);
	fflush(out);
	rmtree(sl->scratch);
	munmap(s, sizeof *s);
	sl->pid = 0;
}

int main(int argc, char **argv) {
	int n = 1, only = -1, par = 8, i, next = 0, live = 0, k, hung = 0;
	uint64_t seed = 1; const char *outp = NULL, *log = NULL;
	FILE *out;
	slot_t sl[64];
	memset(sl, 0, sizeof sl);
	for (i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 10);
		else if (!strcmp(argv[i], "--n")) n = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--only")) only = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--par")) par = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--out")) outp = argv[++i];
		else if (!strcmp(argv[i], "--log")) log = argv[++i];
		else if (!strcmp(argv[i], "--timeout")) hx_timeout_ms = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--thorough")) thorough = 1;
		else if (!strcmp(argv[i], "-v")) hx_verbose = 1;
	}
	if (par > 64) par = 64;
	if (only >= 0) { next = only; n = only + 1; }
	out = outp ? fopen(outp, "w") : stdout;
	if (!out) { perror(outp); return 2; }
	{ struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); }
	snprintf(scratch_root, sizeof scratch_root, "/tmp/hx.XXXXXX");
	if (!mkdtemp(scratch_root)) { perror("mkdtemp"); return 2; }
	while (next < n || live) {
		while (next < n && live < par) {
			for (k = 0; k < par && sl[k].pid; k++);
			sl[k].s = mmap(NULL, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (sl[k].s == MAP_FAILED) { perror("mmap"); return 2; }
			sl[k].i = next; sl[k].timed = 0;
			snprintf(sl[k].scratch, sizeof sl[k].scratch, "%s/%d", scratch_root, next);
			mkdir(sl[k].scratch, 0700);
			fflush(out);
			clock_gettime(CLOCK_MONOTONIC, &sl[k].t0);
			sl[k].pid = fork();
			if (sl[k].pid == 0) {
				int fd;
				setpgid(0, 0);
				S = sl[k].s; idx = next;
				strcpy(scratch, sl[k].scratch);
				fd = open("/dev/null", O_RDONLY); dup2(fd, 0); close(fd);
				if (!hx_verbose) {
					fd = open(log ? log : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0600);
					dup2(fd, 1); dup2(fd, 2); close(fd);
				}
				for (fd = 3; fd < 64; fd++) close(fd);
				if (chdir(scratch)) _exit(97);
				hx_seed(seed * 1000003ull + next);
				hx_scenario(next);
				hx_done();
			}
			if (sl[k].pid < 0) { perror("fork"); return 2; }
			setpgid(sl[k].pid, sl[k].pid);
			next++; live++;
		}
		for (;;) {
			int st; pid_t p = 0; int any = 0;
			for (k = 0; k < par; k++) if (sl[k].pid) {
				p = waitpid(sl[k].pid, &st, WNOHANG);
				if (p == sl[k].pid) { finish(&sl[k], st, out, seed); live--; any = 1; }
				else if (since(&sl[k].t0) * 1000 > hx_timeout_ms && !sl[k].timed) { sl[k].timed = 1; if (++hung == 12) n = next;   /* enough to see that it hangs */ kill(-sl[k].pid, SIGKILL); kill(sl[k].pid, SIGKILL); }
			}
			if (any) break;
			usleep(500);
		}
	}
	if (out != stdout) fclose(out);
	rmtree(scratch_root);
	return 0;
}
