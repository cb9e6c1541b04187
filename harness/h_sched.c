/* Scheduler scenarios. Every call, callback, execution and free is an event carrying the virtual time in microseconds. */
#include "vsched.h"
#include "iot/scheduler.h"
#include "iot/logger.h"
#include "iot/threadpool.h"
#include "iot/thread.h"
#include "iot/time.h"

enum { CREATE, ADD, REMOVE, RESET, DELETE, CONC, SYNC, DROPPED, START, STOP, REF, FREE, NAP };
static const char * names[] = { "create", "add", "remove", "reset", "delete", "conc", "sync", "dropped", "start", "stop", "ref", "free" };
#define US 1000ull
#define PICK(...) ({ static const int v_[] = { __VA_ARGS__ }; v_[vs_rand (sizeof (v_) / sizeof (v_[0]))]; })
typedef struct { int period, delay, repeat, less; bool pool, hasrun, hasab; int fdur, rdur; int fop, rop, aop; int fmax, rmax, prio; bool sync, conc; iot_schedule_t * h; int nf, nr, na; bool deleted; } sch_t;
static sch_t S[5];
static iot_scheduler_t * sd;
static iot_threadpool_t * pool;
static void * fn (void * a); static void * runcb (void * a); static void * abortcb (void * a); static void freecb (void * a);

static int tm (void) { uint64_t d = (vs_now () - vs_base) / US; return d > 2000000000ull ? 2000000000 : (int) d; }
static int call (int op, int i, int v)
{
  int t = vs_self (), r = 0; sch_t * s = &S[i];
  if (op == NAP) { vs_sleep ((uint64_t) v * US); return 0; }
  if (op == CREATE) vs_ev ("\"inv\",%d,%d,\"create\",%d,[%d,%d,%d,%d,%d,%d,%d,%d]", tm (), t, i, s->period, s->delay - (s->less > 0), s->repeat, s->pool, s->hasrun, s->hasab, s->prio, s->less > 0);
  else vs_ev ("\"inv\",%d,%d,\"%s\",%d,%d", tm (), t, names[op], i, v);
  switch (op)
  {
    case CREATE:
      s->h = iot_schedule_create (sd, fn, freecb, s, (uint64_t) s->period * US, (uint64_t) s->delay * US - (uint64_t) s->less, (uint64_t) s->repeat, s->pool ? pool : NULL, s->prio);
      if (s->hasrun) iot_schedule_add_run_callback (sd, s->h, runcb);
      if (s->hasab) iot_schedule_add_abort_callback (sd, s->h, abortcb);
      break;
    case ADD: r = iot_schedule_add (sd, s->h); break;
    case REMOVE: r = iot_schedule_remove (sd, s->h); break;
    case RESET: iot_schedule_reset (sd, s->h, (uint64_t) v * US); break;
    case DELETE: s->deleted = true; iot_schedule_delete (sd, s->h); break;
    case CONC: iot_schedule_set_concurrent (s->h, v); break;
    case SYNC: r = iot_schedule_set_sync (s->h, v); break;
    case DROPPED: r = (int) iot_schedule_dropped (s->h); break;
    case START: iot_scheduler_start (sd); break;
    case STOP: iot_scheduler_stop (sd); break;
    case REF: iot_scheduler_add_ref (sd); break;
    case FREE: iot_scheduler_free (sd); break;
  }
  vs_ev ("\"ret\",%d,%d,%d", tm (), t, r);
  if (op == CREATE) vs_ev ("\"sid\",%d,%d,%d", tm (), i, (int) iot_schedule_id (s->h));
  return r;
}
static int idx (void * a) { return (int) ((sch_t*) a - S); }
static void self_op (sch_t * s, int op)
{
  if (op < 0 || s->deleted) return;
  call (op, idx (s), op == RESET ? 1300 : 0);
}
static void * fn (void * a)
{
  sch_t * s = a;
  char pr[100]; vs_prio (pr, sizeof pr);
  vs_ev ("\"begin\",%d,%d,%d,%s", tm (), vs_self (), idx (a), pr);
  if (s->fdur) vs_sleep ((uint64_t) s->fdur * US);
  if (++s->nf == s->fmax && !s->sync) self_op (s, s->fop);
  vs_ev ("\"fin\",%d,%d,%d", tm (), vs_self (), idx (a));
  return NULL;
}
static void * runcb (void * a)
{
  sch_t * s = a;
  vs_ev ("\"runcb\",%d,%d", tm (), idx (a));
  if (s->rdur) vs_sleep ((uint64_t) s->rdur * US);
  if (++s->nr == s->rmax) self_op (s, s->rop);
  vs_ev ("\"runend\",%d,%d", tm (), idx (a));
  return NULL;
}
static void * abortcb (void * a)
{
  sch_t * s = a;
  vs_ev ("\"abort\",%d,%d", tm (), idx (a));
  if (s->rdur) vs_sleep ((uint64_t) s->rdur * US);
  if (++s->na == 1) self_op (s, s->aop);
  vs_ev ("\"abend\",%d,%d", tm (), idx (a));
  return NULL;
}
static void freecb (void * a) { vs_ev ("\"freed\",%d,%d", tm (), idx (a)); }

typedef struct { int n; struct { int op, i, v; } o[20]; } script_t;
static script_t scr[5];
static void put (int k, int op, int i, int v) { script_t * s = &scr[k]; s->o[s->n].op = op; s->o[s->n].i = i; s->o[s->n++].v = v; }
static void client (void * a) { script_t * s = a; for (int i = 0; i < s->n; i++) call (s->o[i].op, s->o[i].i, s->o[i].v); }

static uint64_t base_live;
static bool configured, shared;
static void sink (iot_logger_t * l, iot_loglevel_t level, uint64_t ts, const char * m, const void * c) { (void) l; (void) level; (void) ts; (void) m; (void) c; }
/* the scheduler keeps its logger: ours is given back at once */
static iot_logger_t * some_logger (void) { return vs_rand (3) ? NULL : iot_logger_alloc_custom ("l", vs_rand (3) ? IOT_LOG_ERROR : IOT_LOG_TRACE, true, NULL, sink, NULL, NULL); }
static void prepare (int n, int m, int failn)
{
  vs_param ("\"n\":%d,\"m\":%d,\"tf\":%d", n, m, failn > 0);
  if (vs_rand (4) == 0) vs_set_refuse (40);
  base_live = vs_live ();
  uint64_t with;
  if (n) { pool = iot_threadpool_alloc ((uint16_t) n, (uint32_t) m, IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL); iot_threadpool_start (pool); vs_sleep (1000); }
  with = vs_live ();
  if (configured)
  {
    iot_container_t * cont = iot_container_alloc ("vs"); iot_data_t * map = iot_data_from_json (vs_rand (2) ? "{}" : "{\"Priority\":-1,\"Affinity\":-1}");
    base_live += vs_live () - with;
    sd = (iot_scheduler_t *) iot_scheduler_factory ()->config_fn (cont, map);
    with = vs_live (); iot_data_free (map); base_live -= with - vs_live ();
  }
  else
  {
    iot_logger_t * lg = some_logger ();
    sd = iot_scheduler_alloc (IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, lg);
    iot_logger_free (lg);
  }
  vs_sleep (1000);
  if (shared) call (REF, 0, 0);
  if (failn) vs_set_fail_create (failn);
}
static void finish (int n, int * ids, int run_us, int mode)
{
  for (int i = 0; i < n; i++) vs_join (ids[i]);
  vs_sleep ((uint64_t) run_us * US);
  if (!S[1].deleted) call (DROPPED, 1, 0);
  if (mode > 0) call (STOP, 0, 0);
  if (mode == 2) { vs_sleep (60000 * US); vs_settle (); vs_ev ("\"quiet\",%d", tm ()); }
  if (shared) { call (FREE, 0, 0); vs_sleep (8000 * US); }
  call (FREE, 0, 0);
  vs_sleep (80000 * US); vs_settle ();
  vs_ev ("\"quiet\",%d", tm ());
  if (pool) iot_threadpool_free (pool);
  vs_sleep (1000000 * US); vs_settle ();
  vs_ev ("\"live\",%d,%d", tm (), (int) (vs_live () - base_live));
}
static void s_random (uint64_t seed)
{
  configured = vs_rand (6) == 0; shared = vs_rand (6) == 0;
  int K = 1 + (int) vs_rand (3), n = 1 + (int) vs_rand (3), pn = vs_rand (2) ? 1 + (int) vs_rand (2) : 0, pm = 1 + (int) vs_rand (2), ids[5];
  bool selfops = vs_rand (3) == 0; int mode = selfops ? 2 : (int) vs_rand (3);
  int own[5] = { 0 };
  if (vs_rand (5) == 0) pm = 0;
  for (int i = 1; i <= K; i++)
  {
    sch_t * s = &S[i];
    s->period = PICK (1000, 2000, 2150, 3000, 5000); s->delay = PICK (0, 0, 150, 1000, 1120, 2000, 4000); s->repeat = PICK (0, 0, 1, 2, 3); s->prio = PICK (-1, -1, -1, 1, 2, 50); if (s->repeat && vs_rand (8) == 0) s->period = 0;
    s->pool = pn && vs_rand (3); s->hasrun = vs_rand (5) != 0; s->hasab = vs_rand (2);
    s->fdur = PICK (0, 0, 500, 2500, 6000); s->rdur = PICK (0, 0, 0, 0, 700, 1900); s->fop = s->rop = s->aop = -1;
    s->sync = vs_rand (5) == 0; s->conc = !s->sync && vs_rand (3) == 0;
    own[i] = (int) vs_rand ((uint32_t) n);
    if (selfops && i == 1)
    {
      own[i] = -1; if (!s->period) s->period = 1000;
      if (!s->sync && vs_rand (2)) { s->fop = PICK (ADD, REMOVE, RESET, DELETE); s->fmax = 1 + (int) vs_rand (3); }
      else if (pn && s->pool && !s->sync && vs_rand (2)) { s->hasab = true; s->aop = PICK (REMOVE, RESET, DELETE, DELETE); s->fdur = 6000; }
      else { s->hasrun = true; s->rop = PICK (ADD, REMOVE, RESET, DELETE); s->rmax = 1 + (int) vs_rand (3); }
      if (s->conc && (s->fop == DELETE || s->rop == DELETE || s->aop == DELETE)) s->conc = false;
    }
  }
  prepare (pn, pm, vs_rand (8) == 0 ? 1 + (int) vs_rand (3) : 0);
  bool early = vs_rand (2);
  if (early) call (START, 0, 0);
  for (int i = 1; i <= K; i++)
  {
    call (CREATE, i, 0);
    if (S[i].sync) call (SYNC, i, 1);
    if (S[i].conc) call (CONC, i, 1);
    if (own[i] < 0 || !S[i].period || vs_rand (2)) call (ADD, i, 0);
  }
  bool dead[5] = { false }, used_del = false;
  for (int k = 0; k < n; k++)
  {
    int ops = 1 + (int) vs_rand (5);
    for (int o = 0; o < ops; o++)
    {
      uint32_t r = vs_rand (100); int i = 1 + (int) vs_rand ((uint32_t) K);
      bool mine = own[i] == k;
      if (r < 25) put (k, NAP, 0, PICK (300, 1000, 2000, 3500));
      else if (r < 85)
      {
        if (!mine || dead[i] || !S[i].period) continue;
        if (r < 43) put (k, ADD, i, 0);
        else if (r < 55) put (k, REMOVE, i, 0);
        else if (r < 68) put (k, RESET, i, PICK (0, 0, 700, 2000));
        else if (r < 72) put (k, DROPPED, i, 0);
        else if (r < 80) { if (S[i].fop < 0 && vs_rand (2)) put (k, SYNC, i, (int) vs_rand (2)); else put (k, CONC, i, (int) vs_rand (2)); }
        else if (i != 1) { put (k, DELETE, i, 0); dead[i] = true; used_del = true; }
      }
      else if (r < 92) put (k, STOP, 0, 0);
      else put (k, START, 0, 0);
    }
  }
  (void) used_del;
  for (int k = 0; k < n; k++) ids[k] = vs_spawn (client, &scr[k]);
  if (!early) call (START, 0, 0);
  finish (n, ids, PICK (0, 0, 1500, 6000, 12000), mode);
}
/* one schedule each, fixed shapes. letters: a add, r remove, z reset(0), Z reset(2ms), d delete, S start, X stop, n nap 1ms, N nap 3ms; digit chooses the schedule */
static void parse (int k, const char * p)
{
  int i = 1;
  for (; *p; p++)
    switch (*p)
    {
      case '1': case '2': case '3': i = *p - '0'; break;
      case 'a': put (k, ADD, i, 0); break; case 'r': put (k, REMOVE, i, 0); break; case 'z': put (k, RESET, i, 0); break; case 'Z': put (k, RESET, i, 2000); break;
      case 'd': put (k, DELETE, i, 0); break; case 'S': put (k, START, 0, 0); break; case 'X': put (k, STOP, 0, 0); break; case 'n': put (k, NAP, 0, 1000); break; case 'N': put (k, NAP, 0, 3000); break;
      case 'c': put (k, CREATE, i, 0); break;
    }
}
static void def (int i, int period, int delay, int repeat, bool pl, bool run, bool ab, int fdur, int rdur) { S[i] = (sch_t) { .period = period, .delay = delay, .repeat = repeat, .pool = pl, .hasrun = run, .hasab = ab, .fdur = fdur, .rdur = rdur, .fop = -1, .rop = -1, .aop = -1, .prio = PICK (-1, -1, 1, 2) }; }
static void shape (int pn, int pm, const char * pre, const char * a, const char * b, int run_us, int mode)
{
  const char * s[2] = { a, b }; int ids[2], n = 0;
  parse (3, pre);
  for (int k = 0; k < 2; k++) if (s[k]) { n++; parse (k, s[k]); }
  prepare (pn, pm, 0);
  client (&scr[3]);
  for (int k = 0; k < n; k++) ids[k] = vs_spawn (client, &scr[k]);
  finish (n, ids, run_us, mode);
}
static void d1 (uint64_t s) { def (1, 2000, 0, 0, false, true, false, 0, 0); shape (0, 0, "c1S", "a", NULL, 5000, 2); }
static void d2 (uint64_t s) { def (1, 3000, 3000, 0, false, true, false, 0, 0); def (2, 2000, 1000, 2, false, true, false, 0, 0); shape (0, 0, "1c2c1aS", "2a", NULL, 7000, 1); }
static void d3 (uint64_t s) { def (1, 2000, 1000, 0, false, true, false, 0, 0); shape (0, 0, "1caS", "X", "S", 5000, 2); }
static void d4 (uint64_t s) { def (1, 2000, 0, 0, false, true, false, 0, 700); def (2, 2000, 0, 2, true, true, true, 2500, 0); shape (1, 1, "1c2c1a2aS", "n2d", "zra", 4000, 0); }
static void d5 (uint64_t s) { def (1, 1000, 0, 3, true, true, true, 2500, 0); def (2, 1000, 0, 3, true, true, true, 2500, 0); shape (1, 1, "1c2c1a2aS", "n2d", NULL, 9000, 2); }
static void d6 (uint64_t s) { def (1, 4000, 0, 0, false, true, false, 500, 0); shape (0, 0, "c1S", "aXaS", "zr", 6000, 1); }
static void d7 (uint64_t s) { def (1, 2000, 0, 2, false, false, false, 0, 0); def (2, 1000, 500, 0, false, true, false, 3500, 0); shape (0, 0, "S1c2c", "a", "2aNz", 4000, 0); }
static void d8 (uint64_t s) { def (1, 2000, 5000, 0, false, true, false, 0, 0); shape (0, 0, "1caS", "z", NULL, 9000, 1); }
static void d9 (uint64_t s) { def (1, 2000, 0, 0, false, true, false, 0, 700); shape (0, 0, "1caS", NULL, NULL, 2500, 0); }
static void d10 (uint64_t s) { def (1, 1000, 150, 0, true, false, false, 5500, 0); def (2, 1000, 300, 0, true, true, true, 5500, 0); S[2].aop = vs_rand (2) ? DELETE : REMOVE; def (3, 1000, 0, 0, true, false, true, 5500, 0); shape (1, 1, "1c2c3cS", "1a3a2a", NULL, 6000, 2); }
static void d11 (uint64_t s)
{
  int ids[1]; def (1, 1000, 0, 0, false, true, false, 500, 0); S[1].rop = PICK (REMOVE, REMOVE, DELETE, RESET); S[1].rmax = 1 + (int) vs_rand (2);
  def (2, 2000, 500, 0, false, false, false, 500, 0);
  parse (3, "1c2c1a2aS"); prepare (0, 0, 1 + (int) vs_rand (4)); client (&scr[3]); finish (0, ids, 5000, 2);
}
/* schedules due at the same nanosecond (less: nanoseconds by which a delay is shorter, to make up for the time that passed since another was created) */
static void s_even (uint64_t seed)
{
  (void) seed; int ids[1], K = 2 + (int) vs_rand (3), delay = PICK (1000, 2000);
  for (int i = 1; i <= K; i++) { def (i, PICK (2000, 2000, 3000), delay, PICK (0, 1, 2, 2), false, vs_rand (2), false, PICK (0, 0, 500), 0); S[i].less = 100 * (int) vs_rand (4) * i; S[i].sync = vs_rand (2); }
  bool early = vs_rand (2); prepare (0, 0, 0); if (early) call (START, 0, 0);
  for (int i = 1; i <= K; i++) { call (CREATE, i, 0); if (S[i].sync) call (SYNC, i, 1); }
  for (int i = K; i >= 1; i--) call (ADD, i, 0);
  if (!early) call (START, 0, 0);
  if (vs_rand (2)) { call (NAP, 0, PICK (500, 2500)); call (PICK (REMOVE, RESET, DELETE), 1 + (int) vs_rand ((uint32_t) K), 0); }
  S[1].deleted = true; finish (0, ids, PICK (4500, 9000), 2);
}
const vs_scenario_t vs_scenarios[] = { { "random", s_random }, { "even", s_even }, { "d1", d1 }, { "d2", d2 }, { "d3", d3 }, { "d4", d4 }, { "d5", d5 }, { "d6", d6 }, { "d7", d7 }, { "d8", d8 }, { "d9", d9 }, { "d10", d10 }, { "d11", d11 }, { NULL, NULL } };
