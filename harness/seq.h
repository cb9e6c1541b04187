/* Sequential harnesses: every trace is produced in a child process of its own; what it records lies in shared memory, so that a
   crash, an abort, a sanitizer report or a hang becomes the last event of the trace.
   usage: prog OUT SCENARIO SEED COUNT MAXSECS   */
#ifndef SEQ_H
#define SEQ_H
#include <stdbool.h>
#include <stdint.h>
#include <stddef.h>
void seq_init (size_t bytes);
void sq_begin (const char * op);          /* start of an event */
void sq_i (long long v);                  /* integer member */
void sq_s (const char * s);               /* string member (JSON escaped) */
void sq_raw (const char * fmt, ...);      /* anything, with its comma */
void sq_bytes (const void * p, size_t n); /* list of byte values */
void sq_open (void);                      /* nested list */
void sq_close (void);
void sq_end (void);                       /* end of the event */
size_t sq_pos (void);
void sq_param (const char * fmt, ...);    /* trace parameters (JSON members) */
void sq_take_param (const char * name, size_t from);   /* what was written since sq_pos() was `from` becomes a trace parameter */
uint64_t rnd64 (void);
uint32_t rnd (uint32_t n);                /* 0 .. n-1 */
bool chance (uint32_t percent);
void rnd_seed (uint64_t s);
typedef struct { const char * name; void (*fn) (uint32_t run); } seq_scenario_t;
extern const seq_scenario_t seq_scenarios[];
extern void seq_child_start (void);       /* called in the child before the scenario */
extern unsigned seq_timeout;              /* seconds per trace */
extern const char * seq_context;          /* what the harness was doing, reported with a crash */
#endif
