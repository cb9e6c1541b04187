/*
 * vsched - runs real pthread code one thread at a time under a chosen schedule.
 *
 * Linked with --wrap for the pthread/clock/sleep/heap calls listed in lib/build.py; the code under
 * test is compiled with -fsanitize=thread but linked against the __tsan_* functions below instead of
 * the tsan runtime, so that every shared memory access and atomic operation is a possible scheduling
 * point and is checked against a heap whose blocks are never reused.
 *
 * Each execution runs in a forked child.  The parent collects its events (one JSON array per event),
 * removes duplicate executions and writes one line per distinct execution.
 *
 * usage: prog OUT SCENARIO MODE SEED COUNT [BOUND]
 *   MODE random: COUNT runs with random/PCT schedules derived from SEED
 *   MODE dfs:    depth-first over schedules with at most BOUND preemptions at synchronisation points, at most COUNT runs
 */
#define _GNU_SOURCE
#include "vsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <linux/futex.h>

#define R(x) __real_##x
#define W(x) __wrap_##x

extern int R(pthread_create) (pthread_t *, const pthread_attr_t *, void * (*) (void *), void *);
extern int R(pthread_mutex_init) (pthread_mutex_t *, const pthread_mutexattr_t *);
extern int R(clock_gettime) (clockid_t, struct timespec *);
extern int R(nanosleep) (const struct timespec *, struct timespec *);
extern void * R(malloc) (size_t);
extern void R(free) (void *);
extern void * R(memcpy) (void *, const void *, size_t);
extern void * R(memmove) (void *, const void *, size_t);
extern void * R(memset) (void *, int, size_t);
extern size_t R(strlen) (const char *);
extern int R(strcmp) (const char *, const char *);

/* ------------------------------------------------------------------ shared with the parent */
#define EVBUF (1u << 20)
#define MAXCH 20000u
typedef struct shared_t
{
  uint32_t len, plen;
  uint32_t nch;              /* choices made */
  uint32_t steps, memsteps;
  uint32_t over;             /* trace overflow */
  char p[4096];
  uint8_t choice[MAXCH], nopt[MAXCH], cost[MAXCH];  /* cost: whether options>0 use up a preemption */
  char ev[EVBUF];
} shared_t;
static shared_t * sh;

/* ------------------------------------------------------------------ state of a child */
enum { ST_RUN, ST_MUTEX, ST_COND, ST_SLEEP, ST_JOIN, ST_RWR, ST_RWW, ST_DONE, ST_SETTLE, ST_SEM };
#define MAXT 64
typedef struct mtx_t { const void * addr; int owner; int type; int depth; } mtx_t;
typedef struct rw_t { const void * addr; int writer; int readers; } rw_t;
typedef struct vt_t
{
  int state;
  int futex;
  uint64_t deadline;           /* 0: none */
  bool timedout, woken, eintr;
  const void * cond;
  mtx_t * mtx;
  rw_t * rw;
  int joinee;
  bool detached, exited;
  pthread_t tid;
  void * (*fn) (void *);
  void * arg;
  void * ret;
  char * stk_lo, * stk_hi;
  int prio;                    /* PCT priority */
  int schedprio, nref, ref[8]; /* set by pthread_setschedparam or attributes; refused since vs_prio */
  int crefused;                /* explicit priority of a thread creation refused just before, 0 none */
} vt_t;
static vt_t T[MAXT];
static int nT, cur;
static bool active;            /* scheduling on */
static __thread int me = -1;
static uint64_t now;
uint64_t vs_base = 1700000000ull * 1000000000ull;
static uint64_t tick = 100;
static uint64_t (*clock_fn) (uint64_t);
static int fail_create;
static uint32_t eintr_pc, spurious_pc;
static uint32_t max_steps = 400000;

/* schedule strategy */
enum { M_RANDOM, M_PCT, M_DFS };
static int mode, dfs_bound, dfs_used, pct_low;
static bool dfs_mem, fine_mem;                 /* depth first over memory accesses too */
static uint32_t p_sync, p_mem;       /* per 1024 */
static uint32_t pct_at[8]; static int pct_n; static uint32_t pct_mem;
static uint32_t prefix_len; static const uint8_t * prefix;
static uint64_t rs_sched, rs_scen;

static uint64_t rnd64 (uint64_t * s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint32_t rnd (uint64_t * s, uint32_t n) { return n ? (uint32_t) ((rnd64 (s) >> 11) % n) : 0; }
uint32_t vs_rand (uint32_t n) { return rnd (&rs_scen, n); }

static void die (const char * kind) __attribute__ ((noreturn));
static void raw_ev (const char * s)
{
  size_t n = R(strlen) (s);
  if (sh->len + n + 4 >= EVBUF) { sh->over = 1; return; }
  if (sh->len) sh->ev[sh->len++] = ',';
  R(memcpy) (sh->ev + sh->len, s, n); sh->len += (uint32_t) n; sh->ev[sh->len] = 0;
}
void vs_ev (const char * fmt, ...)
{
  char b[4096]; va_list a; va_start (a, fmt);
  b[0] = '['; int n = vsnprintf (b + 1, sizeof (b) - 3, fmt, a); va_end (a);
  if (n > (int) sizeof (b) - 4) n = (int) sizeof (b) - 4;
  b[n + 1] = ']'; b[n + 2] = 0; raw_ev (b);
}
void vs_param (const char * fmt, ...)
{
  va_list a; va_start (a, fmt);
  if (sh->plen) sh->p[sh->plen++] = ',';
  sh->plen += (uint32_t) vsnprintf (sh->p + sh->plen, sizeof (sh->p) - sh->plen, fmt, a); va_end (a);
}
static void die (const char * kind) { char b[64]; snprintf (b, sizeof b, "[\"%s\",%d]", kind, me); raw_ev (b); _exit (0); }
void vs_finish (void) { _exit (0); }

static void fwait (int * f) { while (__atomic_load_n (f, __ATOMIC_ACQUIRE) == 0) syscall (SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); __atomic_store_n (f, 0, __ATOMIC_RELEASE); }
static void fwake (int * f) { __atomic_store_n (f, 1, __ATOMIC_RELEASE); syscall (SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }

/* a choice among n options; option 0 is the default. cost: taking another option is a preemption */
static int choose (int n, bool cost)
{
  int c = 0;
  if (n <= 1) return 0;
  if (mode == M_DFS)
  {
    uint32_t k = sh->nch;
    if (k < prefix_len) { c = prefix[k]; if (c >= n) c = 0; }
    if (k < MAXCH) { sh->choice[k] = (uint8_t) c; sh->nopt[k] = (uint8_t) ((cost && dfs_used >= dfs_bound) ? 1 : n); sh->cost[k] = cost; sh->nch++; }
    if (cost && c) dfs_used++;
  }
  else c = (int) rnd (&rs_sched, (uint32_t) n);
  return c;
}

static bool enabled (int i)
{
  vt_t * t = &T[i];
  switch (t->state)
  {
    case ST_RUN: return true;
    case ST_MUTEX: return t->mtx->owner < 0;
    case ST_COND: case ST_SLEEP: return t->deadline && t->deadline <= now;
    case ST_JOIN: return T[t->joinee].state == ST_DONE;
    case ST_RWR: return t->rw->writer < 0;
    case ST_RWW: return t->rw->writer < 0 && t->rw->readers == 0;
    default: return false;
  }
}

static int pick (bool self_ok, bool yielding)
{
  int e[MAXT], n = 0;
  while (true)
  {
    n = 0;
    if (self_ok && !yielding) e[n++] = cur;          /* option 0: continue */
    for (int k = 1; k <= nT; k++) { int i = (cur + k) % nT; if (i == cur && (self_ok && !yielding)) continue; if (enabled (i)) e[n++] = i; }
    if (n) break;
    /* settle threads become runnable once nothing else can run without time passing */
    bool found = false;
    for (int i = 0; i < nT; i++) if (T[i].state == ST_SETTLE) { T[i].state = ST_RUN; found = true; }
    if (found) continue;
    uint64_t d = 0;
    for (int i = 0; i < nT; i++) if ((T[i].state == ST_COND || T[i].state == ST_SLEEP) && T[i].deadline && (!d || T[i].deadline < d)) d = T[i].deadline;
    if (!d)
    {
      char b[1024]; int l = snprintf (b, sizeof b, "[\"stuck\",[");
      bool first = true;
      for (int i = 0; i < nT; i++) if (T[i].state != ST_DONE) { l += snprintf (b + l, sizeof b - (size_t) l, "%s%d", first ? "" : ",", i); first = false; }
      snprintf (b + l, sizeof b - (size_t) l, "]]"); raw_ev (b); _exit (0);
    }
    if (d > now) now = d;
  }
  if (n == 1) return e[0];
  if (mode == M_PCT)
  {
    if (yielding) T[cur].prio = pct_low--;
    int b = e[0]; for (int k = 1; k < n; k++) if (T[e[k]].prio > T[b].prio) b = e[k];
    return b;
  }
  return e[choose (n, self_ok && !yielding)];
}

static void switch_to (int nx)
{
  int self = me;
  if (nx == self) return;
  cur = nx;
  fwake (&T[nx].futex);
  fwait (&T[self].futex);
}
static void maybe_spurious (void)
{
  if (!spurious_pc || mode == M_DFS) return;
  if (rnd (&rs_sched, 100) >= spurious_pc) return;
  int e[MAXT], n = 0;
  for (int i = 0; i < nT; i++) if (T[i].state == ST_COND && T[i].cond) e[n++] = i;
  if (n) { vt_t * t = &T[e[rnd (&rs_sched, (uint32_t) n)]]; t->cond = NULL; t->state = ST_MUTEX; t->woken = true; }
}
/* the current thread cannot go on (state already set) */
static void block (void)
{
  if (++sh->steps > max_steps) die ("livelock");
  maybe_spurious ();
  switch_to (pick (enabled (me), false));
  T[me].state = ST_RUN;
}
/* the current thread could go on; kind: 0 sync, 1 memory */
static void point (int kind)
{
  if (!active || me < 0) return;
  if (kind) sh->memsteps++;
  else if (++sh->steps > max_steps) die ("livelock");
  if (sh->memsteps > 50u * max_steps) die ("livelock");
  if (mode == M_RANDOM)
  {
    uint32_t p = kind ? p_mem : p_sync;
    if (!p || (rnd64 (&rs_sched) >> 20 & 1023) >= p) return;
    maybe_spurious ();
  }
  else if (mode == M_PCT)
  {
    uint32_t c = pct_mem ? sh->memsteps + sh->steps : sh->steps;
    if (kind && !pct_mem) return;
    for (int i = 0; i < pct_n; i++) if (pct_at[i] == c) T[me].prio = pct_low--;
    if (kind == 0) maybe_spurious ();
  }
  else if (kind && !dfs_mem) return;
  switch_to (pick (true, false));
}
void vs_yield (void) { point (0); }
int vs_self (void) { return me; }
uint64_t vs_now (void) { return now; }
void vs_set_clock_tick (uint64_t ns) { tick = ns; }
void vs_set_clock_fn (uint64_t (*fn) (uint64_t)) { clock_fn = fn; }
void vs_set_fail_create (int n) { fail_create = n; }
void vs_set_eintr (uint32_t pc) { eintr_pc = pc; }
static uint32_t refuse_pc;
void vs_set_refuse (uint32_t pc) { refuse_pc = pc; }
void vs_prio (char * out, size_t n)
{
  int k = snprintf (out, n, "%d,[", T[me].schedprio);
  for (int i = 0; i < T[me].nref; i++) k += snprintf (out + k, n - (size_t) k, "%s%d", i ? "," : "", T[me].ref[i]);
  snprintf (out + k, n - (size_t) k, "]"); T[me].nref = 0;
}
static void refused (int id, int prio) { if (T[id].nref < 8) T[id].ref[T[id].nref++] = prio; }
void vs_set_spurious (uint32_t pc) { spurious_pc = pc; }
void vs_sleep (uint64_t ns) { T[me].deadline = now + ns; T[me].state = ST_SLEEP; block (); T[me].deadline = 0; }
bool vs_idle_wait (uint64_t ns) { vs_sleep (ns); return true; }
void vs_settle (void) { T[me].state = ST_SETTLE; block (); }
int vs_blocked (int t) { vt_t * v = &T[t]; return (v->state == ST_COND && !v->deadline) || v->state == ST_MUTEX || v->state == ST_JOIN || v->state == ST_RWR || v->state == ST_RWW; }
int vs_done (int t) { return T[t].state == ST_DONE; }
int vs_threads (void) { int n = 0; for (int i = 0; i < nT; i++) n += T[i].state != ST_DONE; return n; }

/* ------------------------------------------------------------------ objects */
#define NOBJ 4096
static mtx_t mtxs[NOBJ]; static int nmtx;
static rw_t rws[256]; static int nrw;
static mtx_t * mtx_of (const void * a)
{
  for (int i = nmtx - 1; i >= 0; i--) if (mtxs[i].addr == a) return &mtxs[i];
  if (nmtx >= NOBJ) die ("harness");
  mtx_t * m = &mtxs[nmtx++]; m->addr = a; m->owner = -1; m->type = PTHREAD_MUTEX_NORMAL; m->depth = 0; return m;
}
static rw_t * rw_of (const void * a)
{
  for (int i = nrw - 1; i >= 0; i--) if (rws[i].addr == a) return &rws[i];
  rw_t * m = &rws[nrw++]; m->addr = a; m->writer = -1; m->readers = 0; return m;
}
static void heap_check (const void * p, size_t n, bool wr);

int W(pthread_mutex_init) (pthread_mutex_t * m, const pthread_mutexattr_t * a)
{
  R(memset) (m, 0, sizeof (*m));
  mtx_t * v = mtx_of (m); v->owner = -1; v->depth = 0; v->type = PTHREAD_MUTEX_NORMAL;
  if (a) { int ty = 0; pthread_mutexattr_gettype (a, &ty); v->type = ty; }
  return 0;
}
int W(pthread_mutex_destroy) (pthread_mutex_t * m)
{
  if (me < 0) return 0;
  heap_check (m, 1, true);
  mtx_t * v = mtx_of (m);
  if (v->owner >= 0) die ("destroy_locked");
  for (int i = 0; i < nT; i++) if (T[i].state == ST_MUTEX && T[i].mtx == v) die ("destroy_locked");
  v->addr = NULL;
  return 0;
}
static void mtx_take (mtx_t * v)
{
  while (v->owner >= 0) { T[me].mtx = v; T[me].state = ST_MUTEX; block (); }
  v->owner = me; v->depth = 1;
}
int W(pthread_mutex_lock) (pthread_mutex_t * m)
{
  if (me < 0) return 0;
  heap_check (m, 1, true);
  point (0);
  heap_check (m, 1, true);
  mtx_t * v = mtx_of (m);
  if (v->owner == me)
  {
    if (v->type == PTHREAD_MUTEX_RECURSIVE) { v->depth++; return 0; }
    if (v->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  mtx_take (v);
  heap_check (m, 1, true);
  return 0;
}
int W(pthread_mutex_trylock) (pthread_mutex_t * m)
{
  if (me < 0) return 0;
  point (0);
  heap_check (m, 1, true);
  mtx_t * v = mtx_of (m);
  if (v->owner == me && v->type == PTHREAD_MUTEX_RECURSIVE) { v->depth++; return 0; }
  if (v->owner >= 0) return EBUSY;
  v->owner = me; v->depth = 1; return 0;
}
int W(pthread_mutex_timedlock) (pthread_mutex_t * m, const struct timespec * ts) { (void) ts; return W(pthread_mutex_lock) (m); }
int W(pthread_mutex_unlock) (pthread_mutex_t * m)
{
  if (me < 0) return 0;
  heap_check (m, 1, true);
  mtx_t * v = mtx_of (m);
  if (v->owner != me) { if (v->type == PTHREAD_MUTEX_NORMAL) { die ("bad_unlock"); } return EPERM; }
  if (--v->depth > 0) return 0;
  v->owner = -1;
  point (0);
  return 0;
}
int W(pthread_cond_init) (pthread_cond_t * c, const pthread_condattr_t * a) { (void) a; R(memset) (c, 0, sizeof (*c)); return 0; }
int W(pthread_cond_destroy) (pthread_cond_t * c)
{
  if (me < 0) return 0;
  heap_check (c, 1, true);
  for (int i = 0; i < nT; i++) if (T[i].state == ST_COND && T[i].cond == c) die ("destroy_waited");
  return 0;
}
static int cond_wait (pthread_cond_t * c, pthread_mutex_t * m, uint64_t deadline)
{
  if (me < 0) return 0;
  heap_check (c, 1, true);
  mtx_t * v = mtx_of (m);
  if (v->owner != me) return EPERM;
  point (0);
  v->owner = -1;
  vt_t * t = &T[me];
  t->cond = c; t->mtx = v; t->deadline = deadline; t->woken = false; t->state = ST_COND;
  block ();
  bool to = !t->woken;     /* resumed without being signalled: deadline reached */
  t->cond = NULL; t->deadline = 0;
  heap_check (c, 1, true);
  if (to) point (0);
  mtx_take (v);
  return to ? ETIMEDOUT : 0;
}
int W(pthread_cond_wait) (pthread_cond_t * c, pthread_mutex_t * m) { return cond_wait (c, m, 0); }
int W(pthread_cond_timedwait) (pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts)
{ uint64_t d = (uint64_t) ts->tv_sec * 1000000000ull + (uint64_t) ts->tv_nsec; return cond_wait (c, m, d ? d : 1); }
int W(pthread_cond_clockwait) (pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * ts) { (void) k; return W(pthread_cond_timedwait) (c, m, ts); }
static void cond_wake (vt_t * t) { t->woken = true; t->cond = NULL; t->deadline = 0; t->state = ST_MUTEX; }
int W(pthread_cond_signal) (pthread_cond_t * c)
{
  if (me < 0) return 0;
  heap_check (c, 1, true);
  point (0);
  heap_check (c, 1, true);
  int e[MAXT], n = 0;
  for (int i = 0; i < nT; i++) if (T[i].state == ST_COND && T[i].cond == c) e[n++] = i;
  if (n) cond_wake (&T[e[choose (n, false)]]);
  return 0;
}
int W(pthread_cond_broadcast) (pthread_cond_t * c)
{
  if (me < 0) return 0;
  heap_check (c, 1, true);
  point (0);
  heap_check (c, 1, true);
  for (int i = 0; i < nT; i++) if (T[i].state == ST_COND && T[i].cond == c) cond_wake (&T[i]);
  return 0;
}
int W(pthread_rwlock_init) (pthread_rwlock_t * l, const pthread_rwlockattr_t * a) { (void) a; rw_t * v = rw_of (l); v->writer = -1; v->readers = 0; return 0; }
int W(pthread_rwlock_destroy) (pthread_rwlock_t * l) { rw_t * v = rw_of (l); if (me >= 0 && (v->writer >= 0 || v->readers)) die ("destroy_locked"); v->addr = NULL; return 0; }
int W(pthread_rwlock_rdlock) (pthread_rwlock_t * l)
{
  if (me < 0) return 0;
  heap_check (l, 1, true); point (0); heap_check (l, 1, true);
  rw_t * v = rw_of (l);
  if (v->writer == me) return EDEADLK;
  while (v->writer >= 0) { T[me].rw = v; T[me].state = ST_RWR; block (); }
  v->readers++; return 0;
}
int W(pthread_rwlock_wrlock) (pthread_rwlock_t * l)
{
  if (me < 0) return 0;
  heap_check (l, 1, true); point (0); heap_check (l, 1, true);
  rw_t * v = rw_of (l);
  if (v->writer == me) return EDEADLK;
  while (v->writer >= 0 || v->readers) { T[me].rw = v; T[me].state = ST_RWW; block (); }
  v->writer = me; return 0;
}
int W(pthread_rwlock_tryrdlock) (pthread_rwlock_t * l) { rw_t * v = rw_of (l); point (0); if (v->writer >= 0) return EBUSY; v->readers++; return 0; }
int W(pthread_rwlock_trywrlock) (pthread_rwlock_t * l) { rw_t * v = rw_of (l); point (0); if (v->writer >= 0 || v->readers) return EBUSY; v->writer = me; return 0; }
int W(pthread_rwlock_unlock) (pthread_rwlock_t * l)
{
  if (me < 0) return 0;
  heap_check (l, 1, true);
  rw_t * v = rw_of (l);
  if (v->writer == me) v->writer = -1; else if (v->readers > 0) v->readers--; else die ("bad_unlock");
  point (0); return 0;
}
static struct { const void * a; int st; } onces[64]; static int nonce;
int W(pthread_once) (pthread_once_t * o, void (*fn) (void))
{
  int k; for (k = 0; k < nonce; k++) if (onces[k].a == o) break;
  if (k == nonce) { onces[nonce].a = o; onces[nonce++].st = 0; }
  while (onces[k].st == 1) vs_yield ();
  if (onces[k].st == 0) { onces[k].st = 1; fn (); onces[k].st = 2; }
  return 0;
}

/* threads */
static void * tramp (void * a)
{
  int id = (int) (intptr_t) a;
  me = id;
  T[id].stk_hi = (char *) __builtin_frame_address (0) + 512; T[id].stk_lo = T[id].stk_hi - 240 * 1024;
  fwait (&T[id].futex);
  T[id].ret = T[id].fn (T[id].arg);
  T[id].state = ST_DONE;
  if (++sh->steps > max_steps) die ("livelock");
  int nx = pick (false, false);
  cur = nx;
  fwake (&T[nx].futex);
  for (;;) pause ();   /* keep the thread id valid; the process ends with _exit */
  return NULL;
}
static int start_thread (void * (*fn) (void *), void * arg)
{
  if (nT >= MAXT) die ("harness");
  int id = nT;
  R(memset) (&T[id], 0, sizeof (T[id]));
  T[id].fn = fn; T[id].arg = arg; T[id].state = ST_RUN;
  T[id].prio = 1000 + (int) rnd (&rs_sched, 1000);
  pthread_attr_t at; pthread_attr_init (&at); pthread_attr_setstacksize (&at, 256 * 1024); pthread_attr_setdetachstate (&at, PTHREAD_CREATE_DETACHED);
  if (R(pthread_create) (&T[id].tid, &at, tramp, (void *) (intptr_t) id)) die ("harness");
  pthread_attr_destroy (&at);
  nT++;
  return id;
}
int W(pthread_create) (pthread_t * tid, const pthread_attr_t * attr, void * (*fn) (void *), void * arg)
{
  point (0);
  int inh = PTHREAD_INHERIT_SCHED, want = 0; struct sched_param sp;
  if (attr && pthread_attr_getinheritsched (attr, &inh) == 0 && inh == PTHREAD_EXPLICIT_SCHED && pthread_attr_getschedparam (attr, &sp) == 0) want = sp.sched_priority;
  static struct { bool retry, doomed; } cr[MAXT]; int mi = me >= 0 ? me : 0;     /* a call after a failed one is the second attempt at the same thread */
  if (!cr[mi].retry) cr[mi].doomed = fail_create && --fail_create == 0;
  if (cr[mi].doomed) { cr[mi].retry = !cr[mi].retry; if (!cr[mi].retry) cr[mi].doomed = false; if (me >= 0) T[me].crefused = want; return EAGAIN; }
  if (want && me >= 0 && refuse_pc && rnd (&rs_sched, 100) < refuse_pc) { cr[mi].retry = true; T[me].crefused = want; return EPERM; }
  cr[mi].retry = false;
  int id = start_thread (fn, arg);
  T[id].schedprio = want ? want : me >= 0 ? T[me].schedprio : 0;
  if (me >= 0) { if (T[me].crefused) refused (id, T[me].crefused); T[me].crefused = 0; }
  *tid = T[id].tid;
  if (attr) { int d; pthread_attr_getdetachstate (attr, &d); T[id].detached = d == PTHREAD_CREATE_DETACHED; }
  point (0);
  return 0;
}
static int by_tid (pthread_t t) { for (int i = 0; i < nT; i++) if (pthread_equal (T[i].tid, t)) return i; return -1; }
int W(pthread_join) (pthread_t t, void ** ret)
{
  int i = by_tid (t); if (i < 0) return ESRCH;
  point (0);
  while (T[i].state != ST_DONE) { T[me].joinee = i; T[me].state = ST_JOIN; block (); }
  if (ret) *ret = T[i].ret;
  return 0;
}
int W(pthread_detach) (pthread_t t) { int i = by_tid (t); if (i >= 0) T[i].detached = true; return 0; }
int W(pthread_setschedparam) (pthread_t t, int policy, const struct sched_param * p) { (void) policy; int i = by_tid (t); if (i < 0) return ESRCH; if (refuse_pc && rnd (&rs_sched, 100) < refuse_pc) { refused (i, p->sched_priority); return EPERM; } T[i].schedprio = p->sched_priority; return 0; }
int W(pthread_getschedparam) (pthread_t t, int * policy, struct sched_param * p) { int i = by_tid (t); *policy = SCHED_FIFO; p->sched_priority = i >= 0 ? T[i].schedprio : 0; return 0; }
int W(sched_yield) (void) { if (me >= 0) { if (++sh->steps > max_steps) die ("livelock"); switch_to (pick (true, true)); } return 0; }
struct spawn_t { void (*fn) (void *); void * arg; };
static void * spawn_tramp (void * a) { struct spawn_t * s = a; s->fn (s->arg); return NULL; }
int vs_spawn (void (*fn) (void *), void * arg) { struct spawn_t * s = R(malloc) (sizeof *s); s->fn = fn; s->arg = arg; int id = start_thread (spawn_tramp, s); point (0); return id; }
void vs_join (int t) { while (T[t].state != ST_DONE) { T[me].joinee = t; T[me].state = ST_JOIN; block (); } }

/* time */
int vs_clock_id;   /* which clock is being read, for vs_set_clock_fn */
static uint64_t reading (void) { if (clock_fn) return clock_fn (now); now += tick; return now; }
int W(clock_gettime) (clockid_t k, struct timespec * ts)
{
  if (me < 0) return R(clock_gettime) (k, ts);
  point (1);
  vs_clock_id = (int) k; uint64_t n = reading (); vs_clock_id = 0; ts->tv_sec = (time_t) (n / 1000000000ull); ts->tv_nsec = (long) (n % 1000000000ull); return 0;
}
int W(gettimeofday) (struct timeval * tv, void * z) { (void) z; uint64_t n = reading (); tv->tv_sec = (time_t) (n / 1000000000ull); tv->tv_usec = (suseconds_t) (n % 1000000000ull / 1000); return 0; }
time_t W(time) (time_t * t) { time_t v = (time_t) (reading () / 1000000000ull); if (t) *t = v; return v; }
int W(nanosleep) (const struct timespec * ts, struct timespec * rem)
{
  if (me < 0) return 0;
  uint64_t ns = (uint64_t) ts->tv_sec * 1000000000ull + (uint64_t) ts->tv_nsec;
  if (ts->tv_nsec < 0 || ts->tv_nsec > 999999999 || ts->tv_sec < 0) { errno = EINVAL; return -1; }
  if (eintr_pc && ns > 1 && rnd (&rs_sched, 100) < eintr_pc)
  {
    uint64_t part = rnd64 (&rs_sched) % ns;
    vs_sleep (part);
    if (rem) { uint64_t l = ns - part; rem->tv_sec = (time_t) (l / 1000000000ull); rem->tv_nsec = (long) (l % 1000000000ull); }
    errno = EINTR; return -1;
  }
  vs_sleep (ns);
  return 0;
}
int W(clock_nanosleep) (clockid_t k, int flags, const struct timespec * ts, struct timespec * rem)
{
  (void) k;
  if (flags & TIMER_ABSTIME) { uint64_t d = (uint64_t) ts->tv_sec * 1000000000ull + (uint64_t) ts->tv_nsec; if (d > now) vs_sleep (d - now); else point (0); return 0; }
  return W(nanosleep) (ts, rem) ? errno : 0;
}
int W(usleep) (useconds_t us) { struct timespec ts = { us / 1000000, (long) (us % 1000000) * 1000 }; return W(nanosleep) (&ts, NULL); }
unsigned W(sleep) (unsigned s) { struct timespec ts = { s, 0 }; W(nanosleep) (&ts, NULL); return 0; }
int W(sem_init) (sem_t * s, int sh_, unsigned v) { (void) sh_; *(unsigned *) s = v; return 0; }
int W(sem_destroy) (sem_t * s) { (void) s; return 0; }
int W(sem_post) (sem_t * s) { ++*(unsigned *) s; point (0); return 0; }
int W(sem_wait) (sem_t * s) { point (0); while (*(unsigned *) s == 0) W(sched_yield) (); --*(unsigned *) s; return 0; }
int W(sem_trywait) (sem_t * s) { point (0); if (*(unsigned *) s == 0) { errno = EAGAIN; return -1; } --*(unsigned *) s; return 0; }

/* ------------------------------------------------------------------ heap: never reused, checked */
#define ARENA (96u << 20)
#define HDR 32u
static char * arena; static uint8_t * shadow; static size_t top;
static uint64_t live, live_bytes;
#define F_NONE 0xFF
#define F_FREED 0xFD
typedef struct hdr_t { size_t size; uint64_t magic; } hdr_t;
uint64_t vs_live (void) { return live; }
uint64_t vs_live_bytes (void) { return live_bytes; }
static inline bool in_arena (const void * p) { return (const char *) p >= arena && (const char *) p < arena + ARENA; }
static void heap_check (const void * p, size_t n, bool wr)
{
  (void) wr;
  if (me < 0 || !in_arena (p) || !n) return;
  size_t a = (size_t) ((const char *) p - arena), b = a + n - 1;
  for (size_t g = a / 16; g <= b / 16; g++)
  {
    uint8_t s = shadow[g];
    size_t last = (g == b / 16) ? b % 16 : 15;
    if (s == F_FREED) die ("use_after_free");
    if (s == F_NONE || last >= s) die ("out_of_bounds");
  }
}
static void * heap_alloc (size_t n)
{
  size_t sz = (n + 15) / 16 * 16; if (!sz) sz = 16;
  if (top + sz + HDR + 16 > ARENA) die ("harness");
  hdr_t * h = (hdr_t *) (arena + top); h->size = n; h->magic = 0x51A5ED;
  char * p = arena + top + HDR; top += HDR + sz + 16;
  size_t g = (size_t) (p - arena) / 16, k;
  for (k = 0; k < n / 16; k++) shadow[g + k] = 16;
  if (n % 16) shadow[g + k] = (uint8_t) (n % 16); else if (!n) shadow[g] = F_NONE;
  live++; live_bytes += n;
  return p;
}
void * W(malloc) (size_t n) { if (me < 0) return R(malloc) (n); void * p = heap_alloc (n); R(memset) (p, 0xA5, n); return p; }
void * W(calloc) (size_t a, size_t b) { if (me < 0) { void * p = R(malloc) (a * b); R(memset) (p, 0, a * b); return p; } return heap_alloc (a * b); /* fresh mapping is zero */ }
void W(free) (void * p)
{
  if (!p) return;
  if (!in_arena (p)) { R(free) (p); return; }
  size_t g = (size_t) ((char *) p - arena) / 16;
  hdr_t * h = (hdr_t *) ((char *) p - HDR);
  if (((uintptr_t) p & 15) || h->magic != 0x51A5ED) die ("bad_free");
  if (shadow[g] == F_FREED) die ("double_free");
  size_t sz = (h->size + 15) / 16; if (!sz) sz = 1;
  for (size_t k = 0; k < sz; k++) shadow[g + k] = F_FREED;
  live--; live_bytes -= h->size;
}
void * W(realloc) (void * p, size_t n)
{
  if (!p) return W(malloc) (n);
  if (!in_arena (p)) return realloc (p, n);
  hdr_t * h = (hdr_t *) ((char *) p - HDR); size_t o = h->size;
  void * q = W(malloc) (n); R(memcpy) (q, p, o < n ? o : n); W(free) (p); return q;
}
char * W(strdup) (const char * s) { size_t n = R(strlen) (s) + 1; char * p = W(malloc) (n); R(memcpy) (p, s, n); return p; }
char * W(strndup) (const char * s, size_t n) { size_t l = strnlen (s, n); char * p = W(malloc) (l + 1); R(memcpy) (p, s, l); p[l] = 0; return p; }
void * W(memcpy) (void * d, const void * s, size_t n) { heap_check (s, n, false); heap_check (d, n, true); return R(memcpy) (d, s, n); }
void * W(memmove) (void * d, const void * s, size_t n) { heap_check (s, n, false); heap_check (d, n, true); return R(memmove) (d, s, n); }
void * W(memset) (void * d, int c, size_t n) { heap_check (d, n, true); return R(memset) (d, c, n); }
size_t W(strlen) (const char * s) { heap_check (s, 1, false); size_t n = R(strlen) (s); heap_check (s, n + 1, false); return n; }
int W(strcmp) (const char * a, const char * b) { heap_check (a, 1, false); heap_check (b, 1, false); return R(strcmp) (a, b); }

/* ------------------------------------------------------------------ instrumentation entry points */
static inline void acc (const void * a, size_t n, bool wr)
{
  if (me < 0 || !active) return;
  if ((const char *) a >= T[me].stk_lo && (const char *) a < T[me].stk_hi) return;
  heap_check (a, n, wr);
  point (1);
  heap_check (a, n, wr);
}
void __tsan_init (void) {}
void __tsan_func_entry (void * p) { (void) p; }
void __tsan_func_exit (void) {}
#define RW(n) void __tsan_read##n (void * a) { acc (a, n, false); } void __tsan_write##n (void * a) { acc (a, n, true); } \
  void __tsan_unaligned_read##n (void * a) { acc (a, n, false); } void __tsan_unaligned_write##n (void * a) { acc (a, n, true); } \
  void __tsan_volatile_read##n (void * a) { acc (a, n, false); } void __tsan_volatile_write##n (void * a) { acc (a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range (void * a, size_t n) { acc (a, n, false); }
void __tsan_write_range (void * a, size_t n) { acc (a, n, true); }
void __tsan_vptr_update (void ** a, void * b) { (void) a; (void) b; }
#define AT(bits, ty) \
 ty __tsan_atomic##bits##_load (const volatile ty * a, int mo) { (void) mo; acc ((const void *) a, bits / 8, false); return *a; } \
 void __tsan_atomic##bits##_store (volatile ty * a, ty v, int mo) { (void) mo; acc ((const void *) a, bits / 8, true); *a = v; } \
 ty __tsan_atomic##bits##_exchange (volatile ty * a, ty v, int mo) { (void) mo; acc ((const void *) a, bits / 8, true); ty o = *a; *a = v; return o; } \
 ty __tsan_atomic##bits##_fetch_add (volatile ty * a, ty v, int mo) { (void) mo; acc ((const void *) a, bits / 8, true); ty o = *a; *a = (ty) (o + v); return o; } \
 ty __tsan_atomic##bits##_fetch_sub (volatile ty * a, ty v, int mo) { (void) mo; acc ((const void *) a, bits / 8, true); ty o = *a; *a = (ty) (o - v); return o; } \
 ty __tsan_atomic##bits##_fetch_and (volatile ty * a, ty v, int mo) { (void) mo; acc ((const void *) a, bits / 8, true); ty o = *a; *a = o & v; return o; } \
 ty __tsan_atomic##bits##_fetch_or (volatile ty * a, ty v, int mo) { (void) mo; acc ((const void *) a, bits / 8, true); ty o = *a; *a = o | v; return o; } \
 ty __tsan_atomic##bits##_fetch_xor (volatile ty * a, ty v, int mo) { (void) mo; acc ((const void *) a, bits / 8, true); ty o = *a; *a = o ^ v; return o; } \
 int __tsan_atomic##bits##_compare_exchange_strong (volatile ty * a, ty * c, ty v, int mo, int f) { (void) mo; (void) f; acc ((const void *) a, bits / 8, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak (volatile ty * a, ty * c, ty v, int mo, int f) { return __tsan_atomic##bits##_compare_exchange_strong (a, c, v, mo, f); } \
 ty __tsan_atomic##bits##_compare_exchange_val (volatile ty * a, ty c, ty v, int mo, int f) { (void) mo; (void) f; acc ((const void *) a, bits / 8, true); ty o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence (int mo) { (void) mo; }
void __tsan_atomic_signal_fence (int mo) { (void) mo; }

/* ------------------------------------------------------------------ driver */
static void on_crash (int sig)
{
  char b[64]; snprintf (b, sizeof b, "[\"crash\",%d,%d]", me, sig); raw_ev (b); _exit (0);
}
static void child (const vs_scenario_t * sc, int m, uint64_t scen_seed, uint64_t sched_seed, int bound)
{
  R(memset) (&T[0], 0, sizeof (T[0]));
  arena = mmap (NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  shadow = mmap (NULL, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  /* shadow 0 means: no valid byte; same meaning as F_NONE */
  if (arena == MAP_FAILED || shadow == MAP_FAILED) _exit (3);
  struct sigaction sa = { .sa_handler = on_crash };
  char * alt = R(malloc) (65536); stack_t ss = { .ss_sp = alt, .ss_size = 65536 }; sigaltstack (&ss, NULL); sa.sa_flags = SA_ONSTACK;
  sigaction (SIGSEGV, &sa, NULL); sigaction (SIGBUS, &sa, NULL); sigaction (SIGABRT, &sa, NULL); sigaction (SIGFPE, &sa, NULL); sigaction (SIGILL, &sa, NULL);
  prctl (PR_SET_PDEATHSIG, SIGKILL);
  alarm (30);
  now = vs_base; rs_scen = scen_seed; rs_sched = sched_seed; dfs_bound = bound;
  mode = m;
  if (m != M_DFS)
  {
    uint32_t k = rnd (&rs_sched, 10);
    if (k < 4) { mode = M_PCT; pct_n = 1 + (int) rnd (&rs_sched, 4); pct_mem = rnd (&rs_sched, 2); uint32_t hor = pct_mem ? (rnd (&rs_sched, 2) ? 600 : 4000) : (rnd (&rs_sched, 2) ? 60 : 250); for (int i = 0; i < pct_n; i++) pct_at[i] = 1 + rnd (&rs_sched, hor); }
    else { static const uint32_t ps[] = { 20, 100, 300, 500, 1000 }, pm[] = { 0, 0, 4, 20, 100 }; mode = M_RANDOM; p_sync = ps[rnd (&rs_sched, 5)]; p_mem = pm[rnd (&rs_sched, 5)]; if (fine_mem) p_mem = 60 + 60 * rnd (&rs_sched, 8); }
    spurious_pc = rnd (&rs_sched, 4) == 0 ? 5 : 0;
  }
  pct_low = 999;
  me = 0; nT = 1; cur = 0; T[0].state = ST_RUN; T[0].tid = pthread_self (); T[0].prio = 1000 + (int) rnd (&rs_sched, 1000);
  T[0].stk_hi = (char *) __builtin_frame_address (0) + 4096; T[0].stk_lo = T[0].stk_hi - (4 << 20);
  active = true;
  sc->fn (scen_seed);
  raw_ev ("[\"end\"]");
  _exit (0);
}
static uint64_t fnv (const char * p, size_t n, uint64_t h) { while (n--) { h ^= (uint8_t) *p++; h *= 1099511628211ull; } return h; }
#define HT (1u << 20)
static uint64_t * seen;
static bool add_seen (uint64_t h) { if (!h) h = 1; uint32_t i = (uint32_t) h & (HT - 1); for (uint32_t k = 0; k < HT / 2; k++, i = (i + 1) & (HT - 1)) { if (seen[i] == h) return false; if (!seen[i]) { seen[i] = h; return true; } } return true; }

int main (int argc, char ** argv)
{
  if (argc < 6) { fprintf (stderr, "usage: %s OUT SCENARIO MODE SEED COUNT [BOUND [MAXSECS]]\n", argv[0]); return 2; }
  const vs_scenario_t * sc = vs_scenarios;
  while (sc->name && R(strcmp) (sc->name, argv[2])) sc++;
  if (!sc->name) { fprintf (stderr, "no scenario %s\n", argv[2]); return 2; }
  int m = R(strcmp) (argv[3], "dfs") == 0 || R(strcmp) (argv[3], "dfsm") == 0 ? M_DFS : M_RANDOM; dfs_mem = R(strcmp) (argv[3], "dfsm") == 0; fine_mem = R(strcmp) (argv[3], "fine") == 0;
  uint64_t seed = strtoull (argv[4], NULL, 0); uint32_t count = (uint32_t) strtoul (argv[5], NULL, 0);
  int bound = argc > 6 ? atoi (argv[6]) : 2;
  double maxsecs = argc > 7 ? atof (argv[7]) : 1e9;
  FILE * out = fopen (argv[1], "w"); if (!out) { perror (argv[1]); return 2; }
  sh = mmap (NULL, sizeof (*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  seen = mmap (NULL, HT * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  uint8_t * pre = R(malloc) (MAXCH); uint32_t plen = 0; prefix = pre;
  uint32_t runs = 0, hangs = 0, uniq = 0, fails = 0; bool exhausted = false; uint64_t steps = 0;
  struct timespec t0, t1; R(clock_gettime) (CLOCK_MONOTONIC, &t0);
  cpu_set_t cs; CPU_ZERO (&cs); 
  if (sched_getaffinity (0, sizeof cs, &cs) == 0)
  { /* one core for the token hand-over */
    int cores[CPU_SETSIZE], n = 0; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET (i, &cs)) cores[n++] = i;
    if (n > 1) { int c = cores[(unsigned) getpid () % (unsigned) n]; CPU_ZERO (&cs); CPU_SET (c, &cs); sched_setaffinity (0, sizeof cs, &cs); }
  }
  for (; runs < count; runs++)
  {
    R(clock_gettime) (CLOCK_MONOTONIC, &t1);
    if ((double) (t1.tv_sec - t0.tv_sec) + (double) (t1.tv_nsec - t0.tv_nsec) / 1e9 > maxsecs) break;
    uint64_t h = seed * 0x9E3779B97F4A7C15ull + fnv (sc->name, R(strlen) (sc->name), 1469598103934665603ull);
    uint64_t scen_seed, sched_seed;
    if (m == M_DFS) { scen_seed = rnd64 (&h); sched_seed = 1; }
    else { h += (uint64_t) runs * 0xD1342543DE82EF95ull; scen_seed = rnd64 (&h); sched_seed = rnd64 (&h); }
    if (m != M_DFS && argc > 8) { scen_seed = strtoull (argv[8], NULL, 0); sched_seed = strtoull (argv[9], NULL, 0); }
    sh->len = 0; sh->ev[0] = 0; sh->nch = 0; sh->plen = 0; sh->p[0] = 0; sh->steps = sh->memsteps = 0; sh->over = 0; prefix_len = plen;
    pid_t pid = fork ();
    if (pid == 0) child (sc, m, scen_seed, sched_seed, bound);
    int st; 
    /* a run that does not end is ended by its own alarm */
    waitpid (pid, &st, 0);
    steps += sh->steps;
    if (sh->over || !WIFEXITED (st) || WEXITSTATUS (st) != 0)
    { if (sh->over) { fails++; goto NEXT; }
      if (WIFSIGNALED (st) && WTERMSIG (st) == SIGALRM && ++hangs > 2) count = runs + 1;
      char b[64]; snprintf (b, sizeof b, "[\"crash\",-1,%d]", WIFSIGNALED (st) ? WTERMSIG (st) : 1000 + WEXITSTATUS (st)); raw_ev (b); }
    if (add_seen (fnv (sh->ev, sh->len, fnv (sh->p, sh->plen, 1469598103934665603ull))))
    {
      uniq++;
      fprintf (out, "{\"p\":{%s},\"sc\":\"%s\",\"seed\":\"%llu %llu %u\",\"ev\":[%s]}\n", sh->p, sc->name, (unsigned long long) scen_seed, (unsigned long long) sched_seed, runs, sh->ev);
    }
NEXT:
    if (m == M_DFS)
    {
      /* next choice sequence */
      uint32_t k = sh->nch;
      while (k > 0 && sh->choice[k - 1] + 1 >= sh->nopt[k - 1]) k--;
      if (k == 0) { exhausted = true; runs++; break; }
      for (uint32_t i = 0; i < k; i++) pre[i] = sh->choice[i];
      pre[k - 1]++; plen = k;
    }
  }
  fclose (out);
  printf ("{\"runs\":%u,\"unique\":%u,\"lost\":%u,\"exhausted\":%s,\"steps\":%llu}\n", runs, uniq, fails, exhausted ? "true" : "false", (unsigned long long) steps);
  return 0;
}
