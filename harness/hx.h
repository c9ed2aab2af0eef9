/* Scenario runner shared by every conformance driver.
 * One scenario = one child process.  Events are appended to a shared buffer, in the order in
 * which they really happened, so they survive a crash of the child; the parent adds the
 * closing event ("end": ok / crash / abort / timeout). */
#ifndef HX_H
#define HX_H
#include <stddef.h>
#include <stdint.h>

/* deterministic per-scenario PRNG */
void hx_seed(uint64_t s);
uint32_t hx_rand(void);
int hx_rnd(int n);          /* 0..n-1 */
int hx_chance(int pct);     /* true with pct% */

/* append one event: JSON object body, e.g. hx_ev("\"e\":\"add\",\"fd\":%d", fd) */
void hx_ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* set the scenario header (JSON object body), once, before any event */
void hx_cfg(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* child finished cleanly: flush and leave without running exit handlers */
void hx_done(void) __attribute__((noreturn));
/* path of a scratch directory private to the scenario (created; removed by the parent) */
const char *hx_scratch(void);
int hx_index(void);
int hx_thorough(void);
extern int hx_verbose;

/* implemented by the driver: runs scenario number i (in the child) */
void hx_scenario(int i);
extern int hx_timeout_ms;   /* per scenario wall clock limit */
#endif
