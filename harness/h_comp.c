/* One component used by several threads: state changes, waits, locking, references. */
#include "vsched.h"
#include "iot/component.h"
#include "iot/iot.h"
#include <string.h>
#include <stdlib.h>
enum { STOPPED, RUNNING, DELETED, STARTING, WAIT, WAITLOCK, LOCK, UNLOCK, READ, ADDREF, DECREF };
static const char * names[] = { "set_stopped", "set_running", "set_deleted", "set_starting", "wait", "waitlock", "lock", "unlock", "read", "addref", "decref" };
typedef struct { int n; struct { int op, arg; } o[24]; } script_t;
static script_t scr[6];
static iot_component_t comp;
static void nofn (iot_component_t * c) { (void) c; }
static const iot_component_factory_t fac = { "T", "K", NULL, nofn, NULL, NULL };
static void run_op (int t, int op, int arg)
{
  int r = 0;
  vs_ev ("\"inv\",%d,\"%s\",%d", t, names[op], arg);
  switch (op)
  {
    case STOPPED: r = iot_component_set_stopped (&comp); break;
    case RUNNING: r = iot_component_set_running (&comp); break;
    case DELETED: r = iot_component_set_deleted (&comp); break;
    case STARTING: r = iot_component_set_starting (&comp); break;
    case WAIT: r = iot_component_wait (&comp, (uint32_t) arg); break;
    case WAITLOCK: r = iot_component_wait_and_lock (&comp, (uint32_t) arg); break;
    case LOCK: r = iot_component_lock (&comp); break;
    case UNLOCK: r = iot_component_unlock (&comp); break;
    case READ:
    {
      iot_data_t * m = iot_component_read (&comp);
      const char * n = iot_data_string_map_get_string (m, "state"), * nm = iot_data_string_map_get_string (m, "name"), * ty = iot_data_string_map_get_string (m, "type"), * ca = iot_data_string_map_get_string (m, "category");
      static const int codes[] = { 0, 1, 2, 4, 8 }; static const char * sn[] = { "Initial", "Stopped", "Running", "Deleted", "Starting" };
      r = -9; for (int i = 0; i < 5; i++) if (n && strcmp (n, sn[i]) == 0) r = codes[i];
      if (!nm || strcmp (nm, "c") || !ty || strcmp (ty, "T") || !ca || strcmp (ca, "K") || iot_data_string_map_get (m, "config") != comp.config) r = -8;
      iot_data_free (m);
      break;
    }
    case ADDREF: iot_component_add_ref (&comp); break;
    case DECREF: r = iot_component_dec_ref (&comp); break;
  }
  vs_ev ("\"ret\",%d,%d", t, r);
}
static void client (void * a) { script_t * s = a; int me = (int) (s - scr) + 1; for (int i = 0; i < s->n; i++) run_op (me, s->o[i].op, s->o[i].arg); }
static void add (int k, int op, int arg) { script_t * s = &scr[k]; if (s->n < 23) { s->o[s->n].op = op; s->o[s->n].arg = arg; s->n++; } }
static void go (int n, int refs)
{
  int ids[6];
  memset (&comp, 0, sizeof comp);
  vs_param ("\"threads\":%d,\"refs\":%d", n, refs);
  iot_component_init (&comp, &fac, nofn, nofn);
  comp.name = strdup ("c"); comp.config = iot_data_alloc_map (IOT_DATA_STRING);
  for (int i = 1; i < refs; i++) iot_component_add_ref (&comp);
  for (int k = 0; k < n; k++) ids[k] = vs_spawn (client, &scr[k]);
  vs_settle (); vs_ev ("\"quiet\"");
  /* let everybody go that can: the states in turn */
  static const int tail[][3] = { { RUNNING, STOPPED, STARTING }, { STARTING, RUNNING, STOPPED }, { STOPPED, DELETED, RUNNING } };
  const int * w = tail[vs_rand (3)];
  bool held = false;    /* main holds nothing; a client may end while it holds the lock: not generated */
  for (int i = 0; i < 3 && !held; i++) { run_op (0, w[i], 0); vs_settle (); vs_ev ("\"quiet\""); }
  bool all = true; for (int k = 0; k < n; k++) all = all && vs_done (ids[k]);
  if (all) { for (int k = 0; k < n; k++) vs_join (ids[k]); iot_component_fini (&comp); }
}
static void s_random (uint64_t seed)
{
  (void) seed;
  int n = 2 + (int) vs_rand (3), total = 0, drops = 0;
  memset (scr, 0, sizeof scr);
  int profile = (int) vs_rand (3);
  for (int k = 0; k < n; k++)
  {
    int held = 0, refs = 1, ops = 1 + (int) vs_rand (5);
    for (int i = 0; i < ops && total < 14; i++, total++)
    {
      uint32_t r = vs_rand (100);
      int masks[] = { 1, 2, 4, 8, 3, 5, 9, 6, 10, 15, 13 };
      if (held) { if (r < 70) { add (k, UNLOCK, 0); held = 0; } else { add (k, ADDREF, 0); refs++; } continue; }
      if (r < (profile == 1 ? 20 : 45)) { static const int so[] = { STOPPED, RUNNING, STARTING, DELETED, RUNNING, STOPPED }; add (k, so[vs_rand (profile == 2 ? 6 : 3)], 0); }
      else if (r < 60) add (k, WAIT, masks[vs_rand (11)]);
      else if (r < 70) { add (k, WAITLOCK, masks[vs_rand (11)]); held = 1; }
      else if (r < 76) { add (k, LOCK, 0); held = 1; }
      else if (r < 82) add (k, READ, 0);
      else if (r < 91) { add (k, ADDREF, 0); refs++; }
      else if (refs > 0) { add (k, DECREF, 0); refs--; }
    }
    if (held) add (k, UNLOCK, 0);
    if (vs_rand (2)) while (refs-- > 0) { add (k, DECREF, 0); drops++; }
  }
  go (n, n);
}
static void shape (const char * a, const char * b, const char * c, int refs)
{   /* letters: s r d g state changes; w/W wait/wait_and_lock for running; x/X for stopped or deleted; y for starting or stopped; l u lock unlock; n read; + - references */
  const char * s[3] = { a, b, c }; int n = 0;
  memset (scr, 0, sizeof scr);
  for (int k = 0; k < 3; k++) if (s[k]) { n++; for (const char * p = s[k]; *p; p++) switch (*p)
  {
    case 's': add (k, STOPPED, 0); break; case 'r': add (k, RUNNING, 0); break; case 'd': add (k, DELETED, 0); break; case 'g': add (k, STARTING, 0); break;
    case 'w': add (k, WAIT, 2); break; case 'W': add (k, WAITLOCK, 2); add (k, UNLOCK, 0); break; case 'x': add (k, WAIT, 5); break; case 'X': add (k, WAITLOCK, 5); add (k, UNLOCK, 0); break;
    case 'y': add (k, WAIT, 9); break; case 'l': add (k, LOCK, 0); break; case 'u': add (k, UNLOCK, 0); break; case 'n': add (k, READ, 0); break;
    case '+': add (k, ADDREF, 0); break; case '-': add (k, DECREF, 0); break;
  } }
  go (n, refs);
}
static void d1 (uint64_t s) { shape ("w", "W", "r", 1); }
static void d2 (uint64_t s) { shape ("r", "d", "x", 1); }
static void d3 (uint64_t s) { shape ("--", "-", NULL, 3); }
static void d4 (uint64_t s) { shape ("+-", "+--", "-", 3); }
static void d5 (uint64_t s) { shape ("rs", "wn", "X", 1); }
static void d6 (uint64_t s) { shape ("dr", "sd", "g", 1); }
static void d7 (uint64_t s) { shape ("y", "gs", "lu", 1); }
static void d8 (uint64_t s) { shape ("rd", "sd", "n", 1); }
static void d9 (uint64_t s) { shape ("x", "x", "s", 1); }
const vs_scenario_t vs_scenarios[] = { { "random", s_random }, { "d1", d1 }, { "d2", d2 }, { "d3", d3 }, { "d4", d4 }, { "d5", d5 }, { "d6", d6 }, { "d7", d7 }, { "d8", d8 }, { "d9", d9 }, { NULL, NULL } };
