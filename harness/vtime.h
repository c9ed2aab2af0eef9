/* Virtual clock for drivers: replaces gettimeofday / clock_gettime / time.  One unit = 100 us.
 * Reading the clock advances it; the step grows while nothing is logged, so waits pass quickly,
 * and goes back to one unit with every logged event (hx_ev through vt_ev). */
#ifndef VTIME_H
#define VTIME_H
#include <time.h>
#include <sys/time.h>
extern int vt_on;                  /* 0: real clock */
extern long long vt_units;         /* current time in units since the start */
extern long long vt_cap;           /* largest step */
extern int vt_auto;                /* reading advances the clock */
void vt_start(void);
void vt_touch(void);               /* something was logged: back to small steps */
long vt_now(void);                 /* current time in units, does not advance */
#endif
