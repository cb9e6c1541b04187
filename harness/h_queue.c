/* Queue scenarios: clients issue random calls; every call and return is an event. */
#include "vsched.h"
#include "iot/queue.h"
#include "iot/iot.h"

static iot_queue_t * q;
enum { ENQ, TENQ, DEQ, TDEQ, SIZE, MAXS, SETMAX, STOP };
static const char * names[] = { "enq", "tenq", "deq", "tdeq", "size", "maxs", "setmax", "stop" };
typedef struct { int n; struct { int op, arg; } o[16]; int t; } script_t;
static script_t scr[6];
static int nextv;

static void freed (void * p) { vs_ev ("\"freed\",%d,%d", vs_self (), (int) (intptr_t) p); }
static int val (const iot_data_t * d) { return d ? (int) (intptr_t) iot_data_pointer (d) : 0; }
static iot_data_t * elems[200];
static iot_data_t * mk (int v) { return elems[v]; }

static void run_op (int t, int op, int arg)
{
  int r = 0;
  iot_data_t * d = NULL;
  vs_ev ("\"inv\",%d,\"%s\",%d", t, names[op], arg);
  switch (op)
  {
    case ENQ: iot_queue_enqueue (q, mk (arg)); break;
    case TENQ: r = iot_queue_try_enqueue (q, mk (arg)); break;
    case DEQ: d = iot_queue_dequeue (q); r = val (d); break;
    case TDEQ: d = iot_queue_try_dequeue (q); r = val (d); break;
    case SIZE: r = (int) iot_queue_size (q); break;
    case MAXS: r = (int) iot_queue_maxsize (q); break;
    case SETMAX: iot_queue_setmaxsize (q, (uint32_t) arg); break;
    case STOP: iot_queue_stop (q); break;
  }
  vs_ev ("\"ret\",%d,%d", t, r);
}
static void client (void * a)
{
  script_t * s = a;
  int me = (int) (s - scr) + 1;
  for (int i = 0; i < s->n; i++) run_op (me, s->o[i].op, s->o[i].arg);
}
static int add (int k, int op, int arg) { script_t * s = &scr[k]; s->o[s->n].op = op; s->o[s->n].arg = (op == ENQ || op == TENQ) ? ++nextv : arg; return s->n++; }

static void prepare (int max)
{
  vs_param ("\"max\":%d", max);
  for (int i = 1; i <= nextv; i++) elems[i] = iot_data_alloc_pointer ((void *) (intptr_t) i, freed);
  q = iot_queue_alloc ((uint32_t) max);
}
/* after the clients: look at what is blocked, stop, drain, free */
static void wind_down (int n, int * ids, bool stop, int drain)
{
  vs_settle ();
  vs_ev ("\"quiet\",0,0");
  if (stop)
  {
    run_op (0, STOP, 0);
    for (int i = 0; i < n; i++) vs_join (ids[i]);
    for (int i = 0; i < drain; i++) run_op (0, i & 1 ? TDEQ : DEQ, 0);
    vs_ev ("\"inv\",0,\"free\",0");
    iot_queue_free (q);
    vs_ev ("\"ret\",0,0");
  }
}
static void s_random (uint64_t seed)
{
  int n = 2 + (int) vs_rand (3), ids[6];
  int profile = (int) vs_rand (4);
  int max = (int) vs_rand (4);
  int total = 0;
  for (int k = 0; k < n; k++)
  {
    int ops = 1 + (int) vs_rand (profile == 3 ? 3 : 5);
    for (int i = 0; i < ops && total < 14; i++, total++)
    {
      uint32_t r = vs_rand (100);
      if (profile == 0) add (k, r < 35 ? ENQ : r < 50 ? TENQ : r < 75 ? DEQ : r < 85 ? TDEQ : r < 90 ? SIZE : r < 93 ? MAXS : SETMAX, (int) vs_rand (4));
      else if (profile == 1) add (k, k == 0 ? (r < 50 ? SETMAX : r < 80 ? TDEQ : DEQ) : ENQ, (int) vs_rand (5));
      else if (profile == 2) add (k, k == 0 ? (r < 70 ? ENQ : TENQ) : DEQ, 0);
      else add (k, r < 40 ? ENQ : r < 70 ? DEQ : r < 80 ? STOP : r < 90 ? TENQ : TDEQ, 0);
    }
  }
  prepare (max);
  for (int k = 0; k < n; k++) ids[k] = vs_spawn (client, &scr[k]);
  wind_down (n, ids, vs_rand (4) != 0, (int) vs_rand (6));
}
/* small fixed shapes for depth-first search; seed selects nothing, the shape is in the name */
static void shape (int max, const char * a, const char * b, const char * c, bool stop)
{
  const char * s[3] = { a, b, c }; int ids[3], n = 0;
  for (int k = 0; k < 3; k++) if (s[k]) { n++; for (const char * p = s[k]; *p; p++)
    switch (*p) { case 'e': add (k, ENQ, 0); break; case 't': add (k, TENQ, 0); break; case 'd': add (k, DEQ, 0); break; case 'x': add (k, TDEQ, 0); break;
      case 's': add (k, STOP, 0); break; case 'n': add (k, SIZE, 0); break; default: add (k, SETMAX, *p - '0'); } }
  prepare (max);
  for (int k = 0; k < n; k++) ids[k] = vs_spawn (client, &scr[k]);
  wind_down (n, ids, stop, 2);
}
static void d1 (uint64_t s) { shape (1, "ee", "dd", NULL, true); }
static void d2 (uint64_t s) { shape (1, "e", "e", "dxd", true); }
static void d3 (uint64_t s) { shape (0, "d", "d", "ee", true); }
static void d4 (uint64_t s) { shape (1, "te", "e", "3", false); }
static void d5 (uint64_t s) { shape (2, "eee", "1d0", NULL, true); }
static void d6 (uint64_t s) { shape (1, "d", "d", "s", false); }
static void d7 (uint64_t s) { shape (1, "ee", "te", "s", false); }
static void d8 (uint64_t s) { shape (2, "tnt", "xd", "t", true); }
static void d9 (uint64_t s) { shape (1, "te", "e", "0", false); }
static void d10 (uint64_t s) { shape (2, "eee", "dd", "d", true); }
const vs_scenario_t vs_scenarios[] = { { "random", s_random }, { "d1", d1 }, { "d2", d2 }, { "d3", d3 }, { "d4", d4 }, { "d5", d5 }, { "d6", d6 }, { "d7", d7 }, { "d8", d8 }, { "d9", d9 }, { "d10", d10 }, { NULL, NULL } };
