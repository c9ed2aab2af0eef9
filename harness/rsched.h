/* Controlled concurrency with real threads.  The code under test is compiled with -fsanitize=thread and linked
 * against the runtime in rsched.c instead of libtsan: every memory access is a point at which the scheduler may
 * hand the single baton to another thread, so one thread runs at a time and a run is a function of the seed.
 * Thread creation, joining, sleeping and waiting for events are served by the scheduler; when every thread waits,
 * virtual time (vtime.c) jumps to the nearest deadline.  Sequentially consistent. */
#ifndef RSCHED_H
#define RSCHED_H
#include <stddef.h>
enum { RS_RANDOM, RS_PCT, RS_BOUNDED };
/* calling thread becomes thread 0; threads created from now on are controlled */
void rs_start(int policy, int arg, long maxsteps, void (*stuck)(int why));
int  rs_self(void);                 /* -1: not controlled */
void rs_point(void);
int  rs_threads(void);              /* created so far */
int  rs_alive(void);
long rs_steps(void);
void rs_wait(int (*pred)(void *), void *arg);   /* block the calling thread until pred holds */
extern int rs_quiet;                /* no switches while > 0 (driver's own critical parts) */
#endif
