/* Controlled concurrency.  Code under test is compiled with -fsanitize=thread but linked against
 * the runtime below instead of libtsan: every memory access it makes is a scheduling point.
 * Virtual threads are fibers of one OS thread, so a schedule is a function of the random seed.
 * Atomic stores go through a per-thread FIFO store buffer (x86-TSO), or one that keeps only the
 * order per location and of release operations (PSO). */
#ifndef VSCHED_H
#define VSCHED_H
#include <stddef.h>
#define VS_MAX 6
typedef void (*vs_fn)(void *);
enum { VS_RANDOM, VS_PCT, VS_BOUNDED };
extern int vs_pso;                              /* weaker store order */
int  vs_spawn(vs_fn fn, void *arg);             /* before vs_run; returns the thread number */
int  vs_run(int policy, int arg, long maxsteps);/* run all threads to their end; 0 ok, 1 step limit */
int  vs_self(void);                             /* -1 outside vs_run */
void vs_point(void);                            /* extra scheduling point */
long vs_steps(void);
void vs_reset(void);
/* arena in which accesses of the code under test are checked */
void *vs_alloc(size_t n);
void  vs_free(void *p);
size_t vs_size(void *p);
int   vs_live(void);                            /* live blocks */
extern int vs_bad;                                   /* accesses to freed or unallocated arena memory */
#endif
