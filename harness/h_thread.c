/* Threads made, their priorities, and mutexes, over a scripted operating system. */
#define _GNU_SOURCE
#include "seq.h"
#include "iot/iot.h"
#include "iot/thread.h"
#include <pthread.h>
#include <sched.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>

static struct { int euid, min, max, cpus; } os;
static int refuse[8], nrefuse;                     /* answers of the system, in order; then 0 */
#define MAXT 40
static struct { int policy, prio, cpu; bool detached; } th[MAXT];   /* 0: the caller's own */
static int nth; static bool scripted, inside;
static int answer (void) { if (!nrefuse) return 0; int r = refuse[0]; memmove (refuse, refuse + 1, sizeof refuse - sizeof refuse[0]); nrefuse--; return r; }
static pthread_t fake (int id) { return id ? (pthread_t) (0x7000 + (unsigned) id) : pthread_self (); }
static int known (pthread_t t) { if (t == pthread_self ()) return 0; for (int i = 1; i <= nth; i++) if (t == fake (i)) return i; return -1; }
int __real_pthread_create (pthread_t *, const pthread_attr_t *, void * (*) (void *), void *);
int __wrap_pthread_create (pthread_t * tid, const pthread_attr_t * attr, void * (*fn) (void *), void * arg)
{
  if (!scripted) return __real_pthread_create (tid, attr, fn, arg);
  int det = PTHREAD_CREATE_JOINABLE, inh = PTHREAD_INHERIT_SCHED, pol = SCHED_OTHER, cpu = -1; struct sched_param p = { 0 };
  if (attr)
  {
    pthread_attr_getdetachstate (attr, &det); pthread_attr_getinheritsched (attr, &inh); pthread_attr_getschedpolicy (attr, &pol); pthread_attr_getschedparam (attr, &p);
    cpu_set_t c; if (pthread_attr_getaffinity_np (attr, sizeof c, &c) == 0 && CPU_COUNT (&c) < 1024) { cpu = -2; if (CPU_COUNT (&c) == 1) for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET (i, &c)) cpu = i; }
  }
  int rc = answer (), id = 0;
  if (rc == 0 && nth + 1 < MAXT) { id = ++nth; th[id].policy = pol; th[id].prio = p.sched_priority; th[id].cpu = cpu; th[id].detached = det == PTHREAD_CREATE_DETACHED; *tid = fake (id); }
  sq_begin ("create"); sq_i (det == PTHREAD_CREATE_DETACHED); sq_i (inh == PTHREAD_EXPLICIT_SCHED); sq_i (pol); sq_i (p.sched_priority); sq_i (cpu); sq_i (rc); sq_i (id); sq_end ();
  if (id) fn (arg);
  return rc;
}
int __real_pthread_detach (pthread_t);
int __wrap_pthread_detach (pthread_t t) { if (!scripted) return __real_pthread_detach (t); sq_begin ("detach"); sq_i (known (t)); sq_end (); return 0; }
int __wrap_pthread_setschedparam (pthread_t t, int pol, const struct sched_param * p)
{
  int id = known (t), rc = answer (); if (id < 0) return ESRCH;
  if (rc == 0) { th[id].policy = pol; th[id].prio = p->sched_priority; }
  return rc;
}
int __wrap_pthread_setschedprio (pthread_t t, int prio) { int id = known (t), rc = answer (); if (id < 0) return ESRCH; if (rc == 0) th[id].prio = prio; return rc; }
int __wrap_pthread_getschedparam (pthread_t t, int * pol, struct sched_param * p) { int id = known (t); if (id < 0) return ESRCH; *pol = th[id].policy; p->sched_priority = th[id].prio; return 0; }
int __wrap_sched_get_priority_min (int policy) { return policy == SCHED_FIFO ? os.min : 0; }
int __wrap_sched_get_priority_max (int policy) { return policy == SCHED_FIFO ? os.max : 0; }
uid_t __real_geteuid (void); uid_t __wrap_geteuid (void) { return scripted ? (uid_t) os.euid : __real_geteuid (); }
long __real_sysconf (int); long __wrap_sysconf (int n) { return (scripted && inside && n == _SC_NPROCESSORS_ONLN) ? os.cpus : __real_sysconf (n); }
static int protocol;
int __real_pthread_mutex_init (pthread_mutex_t *, const pthread_mutexattr_t *);
int __wrap_pthread_mutex_init (pthread_mutex_t * m, const pthread_mutexattr_t * a) { protocol = PTHREAD_PRIO_NONE; if (a) pthread_mutexattr_getprotocol (a, &protocol); return __real_pthread_mutex_init (m, a); }
static int errors;
static void sink (struct iot_logger_t * l, iot_loglevel_t level, uint64_t ts, const char * msg, const void * ctx) { (void) l; (void) ts; (void) msg; (void) ctx; if (level == IOT_LOG_ERROR) errors++; }
static int cargo;
static void * body (void * arg) { sq_begin ("ran"); sq_i (arg == &cargo ? cargo : -1); sq_end (); return NULL; }
static void * body2 (void * arg) { sq_begin ("ran"); sq_i (arg == &cargo ? 1000 + cargo : -1); sq_end (); return NULL; }
void seq_child_start (void) { }
static void world (void)
{
  static const int cpus[] = { 1, 2, 3, 8, 64, 200 }; static const int lim[][2] = { { 1, 99 }, { 0, 31 }, { 5, 5 }, { 1, 32 }, { 10, 20 } };
  int k = (int) rnd (5); os.min = lim[k][0]; os.max = lim[k][1]; os.cpus = cpus[rnd (6)]; os.euid = chance (60) ? 0 : 1000; scripted = true;
  th[0].policy = SCHED_OTHER; th[0].prio = 0; th[0].cpu = -1;
  if (chance (30)) { th[0].policy = SCHED_FIFO; th[0].prio = os.min; }
  sq_param ("\"root\":%d,\"min\":%d,\"max\":%d,\"cpus\":%d", os.euid == 0, os.min, os.max, os.cpus);
  sq_param ("\"policy\":%d,\"prio\":%d,\"fifo\":%d,\"other\":%d", th[0].policy, th[0].prio, SCHED_FIFO, SCHED_OTHER);
}
static int some_prio (void) { static const int odd[] = { -1, -2, 0, 1, 100, 255, -1000 }; switch (rnd (4)) { case 0: return odd[rnd (7)]; case 1: return os.min - 1 + (int) rnd (3); case 2: return os.max - 1 + (int) rnd (3); default: return os.min + (int) rnd ((uint32_t) (os.max - os.min + 1)); } }
static int some_aff (void) { switch (rnd (4)) { case 0: return -1; case 1: return os.cpus - 1 + (int) rnd (3); case 2: return chance (50) ? -2 - (int) rnd (40) : 1000 + (int) rnd (4000); default: return (int) rnd ((uint32_t) os.cpus); } }
static void s_create (uint32_t run)
{
  (void) run; world (); iot_logger_t * lg = iot_logger_alloc_custom ("t", IOT_LOG_TRACE, false, NULL, sink, NULL, NULL); inside = true; iot_logger_start (lg);
  iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE);
  for (int i = 0; i < 12; i++)
  {
    static const int why[] = { EPERM, EAGAIN, EINVAL, ENOMEM };
    int op = (int) rnd (8), p = some_prio (), id = (int) rnd ((uint32_t) nth + 1);
    nrefuse = 0; if (chance (40)) { nrefuse = 1 + (int) rnd (2); for (int k = 0; k < nrefuse; k++) refuse[k] = why[rnd (4)]; if (nrefuse == 2 && chance (30)) refuse[0] = EPERM; }
    if (op < 4)
    {
      int a = some_aff (), other = (int) rnd (2), with = (int) rnd (3); pthread_t t = (pthread_t) 1; cargo = 1 + (int) rnd (900); errors = 0;
      if (chance (25)) { p = IOT_THREAD_NO_PRIORITY; if (chance (50)) a = IOT_THREAD_NO_AFFINITY; }
      sq_begin ("call"); sq_i (p); sq_i (a); sq_i (other * 1000 + cargo); sq_end ();
      bool ok = iot_thread_create (with ? &t : NULL, other ? body2 : body, &cargo, p, a, with == 2 ? NULL : lg);
      sq_begin ("ret"); sq_i (ok); sq_i (with && ok ? known (t) : -1); sq_i (with == 2 ? -1 : errors); sq_end ();
    }
    else if (op < 6) { int g = nrefuse == 0; if (nrefuse) nrefuse = 1; bool self = id == 0 && chance (60); bool ok = self ? iot_thread_current_set_priority (p) : iot_thread_set_priority (fake (id), p); sq_begin ("set"); sq_i (id); sq_i (p); sq_i (g); sq_i (ok); sq_i (th[id].policy); sq_i (th[id].prio); sq_end (); }
    else if (op < 7) { bool self = id == 0 && chance (60); int r = self ? iot_thread_current_get_priority () : iot_thread_get_priority (fake (id)); sq_begin ("get"); sq_i (id); sq_i (r); sq_end (); }
    else { bool r = iot_thread_priority_valid (p); sq_begin ("valid"); sq_i (p); sq_i (r); sq_end (); }
  }
  iot_logger_free (lg); sq_begin ("end"); sq_end ();
}
static pthread_mutex_t * mx; static int other_res[3];
static void * another (void * a) { int k = *(int *) a; other_res[k] = pthread_mutex_trylock (mx); if (other_res[k] == 0) pthread_mutex_unlock (mx); else if (k == 0) other_res[2] =
#ifndef NDEBUG
  pthread_mutex_unlock (mx);
#else
  0;
#endif
  return NULL; }
static void from_another (int k) { pthread_t t; pthread_create (&t, NULL, another, &k); pthread_join (t, NULL); }
static void s_mutex (uint32_t run)
{
  (void) run; pthread_mutex_t m; memset (&m, (int) rnd (256), sizeof m); mx = &m; 
  sq_param ("\"root\":0,\"min\":1,\"max\":99,\"cpus\":1,\"policy\":0,\"prio\":0,\"fifo\":1,\"other\":0");
  iot_mutex_init (&m); int l = pthread_mutex_lock (&m), re = 0;
#ifndef NDEBUG
  re = pthread_mutex_lock (&m);
  int dbg = 1;
#else
  int dbg = 0;
#endif
  from_another (0); int u = pthread_mutex_unlock (&m); from_another (1); int l2 = pthread_mutex_lock (&m), u2 = pthread_mutex_unlock (&m), d = pthread_mutex_destroy (&m);
  sq_begin ("mutex"); sq_i (dbg); sq_i (protocol == PTHREAD_PRIO_INHERIT); sq_i (l); sq_i (re == EDEADLK); sq_i (other_res[0] == EBUSY); sq_i (other_res[2] == EPERM); sq_i (u); sq_i (other_res[1]); sq_i (l2); sq_i (u2); sq_i (d); sq_end ();
  sq_begin ("end"); sq_end ();
}
const seq_scenario_t seq_scenarios[] = { { "create", s_create }, { "mutex", s_mutex }, { 0, 0 } };
