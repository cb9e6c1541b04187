/* Thread pool scenarios: clients and jobs call the pool; every call, return, job start and job end is an event. */
#include "vsched.h"
#include "iot/threadpool.h"
#include "iot/logger.h"
#include "iot/thread.h"
#include <string.h>

enum { ADD, TRY, WAIT, START, STOP, REF, FREE, NAP };
static const char * names[] = { "add", "try", "wait", "start", "stop", "ref", "free" };
enum { J_PLAIN, J_YIELD, J_SLEEP, J_TRY, J_ADD, J_FREE, J_STOP };
typedef struct { int id, kind, prio; } job_t;
static job_t jobs[64];
static int njobs, inside;
static iot_threadpool_t * pool;
static void * jobfn (void * a);

static int mkjob (int kind, int prio) { job_t * j = &jobs[njobs++]; j->id = njobs; j->kind = kind; j->prio = prio; return j->id; }
static int call (int op, int id)
{
  int t = vs_self (), r = 0;
  job_t * j = id ? &jobs[id - 1] : NULL;
  if (op == NAP) { vs_sleep (1000000); return 0; }
  vs_ev ("\"inv\",%d,\"%s\",%d,%d", t, names[op], id, j ? j->prio : 0);
  switch (op)
  {
    case ADD: iot_threadpool_add_work (pool, jobfn, j, j->prio); break;
    case TRY: r = iot_threadpool_try_work (pool, jobfn, j, j->prio); break;
    case WAIT: iot_threadpool_wait (pool); break;
    case START: iot_threadpool_start (pool); break;
    case STOP: iot_threadpool_stop (pool); break;
    case REF: iot_threadpool_add_ref (pool); break;
    case FREE: iot_threadpool_free (pool); break;
  }
  vs_ev ("\"ret\",%d,%d", t, r);
  return r;
}
static void * jobfn (void * a)
{
  job_t * j = a;
  int t = vs_self ();
  char pr[100]; vs_prio (pr, sizeof pr);
  vs_ev ("\"begin\",%d,%d,%s", t, j->id, pr);
  inside++;
  switch (j->kind)
  {
    case J_YIELD: vs_yield (); vs_yield (); break;
    case J_SLEEP: vs_sleep (5000000); break;
    case J_TRY: call (TRY, mkjob (J_PLAIN, j->prio)); break;
    case J_ADD: call (ADD, mkjob (J_YIELD, j->prio)); break;
    case J_FREE: vs_sleep (1000000); call (FREE, 0); vs_yield (); break;
    case J_STOP: call (STOP, 0); break;
  }
  inside--;
  vs_ev ("\"fin\",%d,%d", t, j->id);
  return NULL;
}
typedef struct { int n; struct { int op, id; } o[24]; } script_t;
static script_t scr[4];
static void client (void * a) { script_t * s = a; for (int i = 0; i < s->n; i++) call (s->o[i].op, s->o[i].id); }
static void put (int k, int op, int id) { script_t * s = &scr[k]; s->o[s->n].op = op; s->o[s->n++].id = id; }

static uint64_t base_live;
static bool configured;     /* made by its factory from a configuration instead of by a call */
static void sink (iot_logger_t * l, iot_loglevel_t level, uint64_t ts, const char * m, const void * c) { (void) l; (void) level; (void) ts; (void) m; (void) c; }
/* the pool keeps its logger: ours is given back at once */
static iot_logger_t * some_logger (void) { return vs_rand (3) ? NULL : iot_logger_alloc_custom ("l", vs_rand (3) ? IOT_LOG_ERROR : IOT_LOG_TRACE, true, NULL, sink, NULL, NULL); }
static void prepare (int threads, int max)
{
  int fail = threads > 1 && vs_rand (6) == 0 ? 2 + (int) vs_rand ((uint32_t) threads - 1) : 0;   /* the system refuses this thread: the pool gets by with fewer */
  vs_param ("\"max\":%d,\"n\":%d,\"lo\":%d", max, threads, fail ? fail - 1 : threads);
  if (fail) vs_set_fail_create (fail);
  if (vs_rand (4) == 0) vs_set_refuse (40);
  if (configured)
  {
    iot_container_t * cont = iot_container_alloc ("vs"); char c[120];
    snprintf (c, sizeof c, vs_rand (2) ? "{\"Threads\":%d,\"MaxJobs\":%d}" : "{\"Threads\":%d,\"MaxJobs\":%d,\"ShutdownDelay\":%d,\"Priority\":-1,\"Affinity\":-1}", threads, max, (int) vs_rand (300));
    iot_data_t * map = iot_data_from_json (c);
    base_live = vs_live ();
    pool = (iot_threadpool_t *) iot_threadpool_factory ()->config_fn (cont, map);
    uint64_t with = vs_live (); iot_data_free (map); base_live -= with - vs_live (); return;
  }
  base_live = vs_live ();
  iot_logger_t * lg = some_logger ();
  pool = iot_threadpool_alloc ((uint16_t) threads, (uint32_t) max, vs_rand (4) ? IOT_THREAD_NO_PRIORITY : 2, IOT_THREAD_NO_AFFINITY, lg);
  iot_logger_free (lg);
}
static void quiet (void) { vs_sleep (30000000000ull); vs_settle (); vs_ev ("\"quiet\""); }
/* mine: whether the main thread's reference is still there */
static void wind_down (int n, int * ids, bool mine)
{
  quiet ();
  bool all = true;
  for (int i = 0; i < n; i++) all = all && vs_done (ids[i]);
  if (!all && mine)
  {
    call (START, 0); quiet ();
    all = true;
    for (int i = 0; i < n; i++) all = all && vs_done (ids[i]);
  }
  if (!all || inside) return;   /* a job that waits for room in its own full pool never ends */
  if (mine) { call (FREE, 0); }
  quiet ();
  vs_ev ("\"live\",%d", (int) (vs_live () - base_live));
}
static void s_random (uint64_t seed)
{
  configured = vs_rand (5) == 0;
  static const int prios[] = { -1, -1, 1, 2, 3 };
  int threads = (int) vs_rand (10) ? 1 + (int) vs_rand (3) : 0, max = (int) vs_rand (4), n = 1 + (int) vs_rand (3), ids[4], total = 0;
  int profile = (int) vs_rand (5);
  bool early = vs_rand (2), refs = profile == 2 || profile == 3;
  for (int k = 0; k < n; k++)
  {
    int ops = 1 + (int) vs_rand (6);
    for (int i = 0; i < ops && total < 14; i++, total++)
    {
      uint32_t r = vs_rand (100); int p = prios[vs_rand (5)];
      int kind = vs_rand (3) ? (int) vs_rand (3) : (profile == 4 ? (vs_rand (2) ? J_TRY : J_ADD) : J_PLAIN);
      if (profile == 0) put (k, r < 60 ? TRY : r < 80 ? ADD : r < 90 ? WAIT : NAP, 0);
      else if (profile == 1) put (k, r < 30 ? ADD : r < 45 ? TRY : r < 65 ? WAIT : r < 80 ? STOP : START, 0);
      else if (profile == 2) put (k, r < 50 ? TRY : r < 70 ? ADD : r < 85 ? WAIT : NAP, 0);
      else if (profile == 3) put (k, r < 60 ? TRY : r < 75 ? START : r < 85 ? STOP : NAP, 0);
      else put (k, r < 45 ? ADD : r < 80 ? TRY : WAIT, 0);
      script_t * s = &scr[k]; int op = s->o[s->n - 1].op;
      if (op == ADD || op == TRY) s->o[s->n - 1].id = mkjob (kind, p);
    }
  }
  int fj = 0;
  if (profile == 3 && vs_rand (2)) fj = mkjob (J_FREE, vs_rand (2) ? -1 : 3);
  prepare (threads, max);
  if (refs) for (int k = 0; k < n; k++) { call (REF, 0); put (k, FREE, 0); }
  if (fj && jobs[fj - 1].kind == J_FREE) call (REF, 0);
  if (early) call (START, 0);
  if (fj && threads && !call (TRY, fj) && jobs[fj - 1].kind == J_FREE) call (FREE, 0);
  for (int k = 0; k < n; k++) ids[k] = vs_spawn (client, &scr[k]);
  if (!early) call (START, 0);
  if (refs && threads && vs_rand (3)) { if (vs_rand (2)) vs_sleep (vs_rand (3) * 1000000ull); call (FREE, 0); wind_down (n, ids, false); }
  else wind_down (n, ids, true);
}
/* shapes: a add, t try, w wait, S start, X stop, f free, n nap; a letter after a/t gives the job kind: p plain, y yield, s sleep, d adds a job, f frees, x stops; a digit after that the priority */
static int kindof (char c) { return c == 'y' ? J_YIELD : c == 's' ? J_SLEEP : c == 'd' ? J_ADD : c == 'f' ? J_FREE : c == 'x' ? J_STOP : J_PLAIN; }
static void parse (int k, const char * p)
{
  for (; *p; p++)
    switch (*p)
    {
      case 'a': case 't': { int op = *p == 'a' ? ADD : TRY; int kd = kindof (*++p); int pr = -1; if (p[1] >= '0' && p[1] <= '9') pr = *++p - '0'; put (k, op, mkjob (kd, pr)); break; }
      case 'w': put (k, WAIT, 0); break;
      case 'S': put (k, START, 0); break;
      case 'X': put (k, STOP, 0); break;
      case 'f': put (k, FREE, 0); break;
      case 'r': put (k, REF, 0); break;
      case 'n': put (k, NAP, 0); break;
    }
}
static void shape (int threads, int max, const char * pre, const char * a, const char * b, const char * c, bool mine)
{
  const char * s[3] = { a, b, c }; int ids[3], n = 0;
  static script_t save;
  parse (3, pre);
  for (int k = 0; k < 3; k++) if (s[k]) { n++; parse (k, s[k]); }
  prepare (threads, max);
  save = scr[3]; client (&save);
  for (int k = 0; k < n; k++) ids[k] = vs_spawn (client, &scr[k]);
  wind_down (n, ids, mine);
}
static void d1 (uint64_t s) { shape (1, 0, "S", "apw", "w", NULL, true); }
static void d2 (uint64_t s) { shape (2, 1, "S", "apap", "apw", NULL, true); }
static void d3 (uint64_t s) { shape (2, 2, "S", "tytytp", "w", "w", true); }
static void d4 (uint64_t s) { shape (1, 1, "S", "apap", "XS", NULL, true); }
static void d5 (uint64_t s) { shape (2, 0, "rSap", "apf", "f", NULL, false); }
static void d6 (uint64_t s) { shape (2, 0, "rrrSaf", "tpf", "f", NULL, true); }
static void d7 (uint64_t s) { shape (1, 0, "ap1ap3apap2", "S", "ap3w", NULL, true); }
static void d8 (uint64_t s) { shape (1, 2, "tp", "tptp", "S", "X", true); }
static void d9 (uint64_t s) { shape (2, 1, "S", "ay", "ay", "ay", true); }
static void d10 (uint64_t s) { shape (2, 0, "S", "axw", "apSw", NULL, true); }
/* many jobs, one submitter: counters and cache reuse over a long history */
static void s_long (uint64_t seed)
{
  configured = vs_rand (3) == 0;
  int threads = 1 + (int) vs_rand (3), max = vs_rand (2) ? 0 : 5 + (int) vs_rand (20);
  static const int prios[] = { -1, 1, 2, 3, 50, 99 };
  prepare (threads, max);
  bool started = vs_rand (2);
  if (started) call (START, 0);
  for (int r = 0; r < 4; r++)
  {
    int k = 4 + (int) vs_rand (9);
    for (int i = 0; i < k && njobs < 60; i++) call (TRY, mkjob ((int) vs_rand (3), prios[vs_rand (6)]));
    if (!started) { call (START, 0); started = true; }
    if (vs_rand (3)) call (WAIT, 0);
    if (vs_rand (3) == 0) { call (STOP, 0); started = false; }
  }
  wind_down (0, NULL, true);
}
const vs_scenario_t vs_scenarios[] = { { "random", s_random }, { "long", s_long }, { "d1", d1 }, { "d2", d2 }, { "d3", d3 }, { "d4", d4 }, { "d5", d5 }, { "d6", d6 }, { "d7", d7 }, { "d8", d8 }, { "d9", d9 }, { "d10", d10 }, { NULL, NULL } };
