/* vsched: deterministic scheduler for real pthread code. See vsched.c. */
#ifndef VSCHED_H
#define VSCHED_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

/* --- to be provided by the harness program --- */
typedef struct vs_scenario_t { const char * name; void (*fn) (uint64_t seed); } vs_scenario_t;
extern const vs_scenario_t vs_scenarios[];   /* terminated by NULL name */

/* --- services for harness code --- */
void vs_ev (const char * fmt, ...) __attribute__ ((format (printf, 1, 2)));  /* append one event: JSON array contents without the brackets */
void vs_param (const char * fmt, ...) __attribute__ ((format (printf, 1, 2)));  /* append to the "p" record: "key":value */
uint32_t vs_rand (uint32_t n);               /* scenario randomness (not schedule randomness), uniform in 0..n-1 */
void vs_yield (void);                        /* scheduling point */
void vs_sleep (uint64_t ns);                 /* virtual sleep */
uint64_t vs_now (void);                      /* virtual clock in ns, without a tick */
void vs_set_clock_tick (uint64_t ns);        /* how far one clock reading moves the clock */
void vs_set_clock_fn (uint64_t (*fn) (uint64_t now)); /* overrides readings (adversarial clock) */
void vs_set_fail_create (int nth);           /* make the nth pthread_create from now fail (0: none) */
void vs_set_eintr (uint32_t percent);        /* how often a sleep is interrupted */
void vs_set_refuse (uint32_t percent);       /* how often a thread is refused a priority */
void vs_prio (char * out, size_t size);      /* the running thread's priority and [those it was refused since the last call] */
void vs_set_spurious (uint32_t percent);     /* how often a waiter is woken spuriously at a switch */
uint64_t vs_live (void);                     /* live heap blocks of the code under test */
uint64_t vs_live_bytes (void);
int vs_self (void);                          /* virtual thread number */
int vs_spawn (void (*fn) (void *), void * arg); /* start a client thread; returns its number */
void vs_join (int t);
bool vs_idle_wait (uint64_t ns);             /* sleep that long in virtual time (lets everything settle) */
void vs_settle (void);                       /* wait until every other thread is blocked (no time passes unless needed) */
int vs_blocked (int t);                      /* whether thread t is blocked for ever right now: 1 untimed wait, 0 not */
int vs_done (int t);
int vs_threads (void);                       /* live virtual threads */
extern uint64_t vs_base;                     /* initial virtual time */
void vs_finish (void) __attribute__ ((noreturn)); /* end of scenario */
#endif
