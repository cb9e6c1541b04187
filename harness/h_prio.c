/* Threads that ask at once whether a priority is a valid one. */
#include "vsched.h"
#include "iot/iot.h"
#include "iot/thread.h"
#include <sched.h>
static int lo, hi;
int __wrap_sched_get_priority_min (int policy) { vs_yield (); return policy == SCHED_FIFO ? lo : 0; }
int __wrap_sched_get_priority_max (int policy) { vs_yield (); return policy == SCHED_FIFO ? hi : 0; }
static int ask[4][3], per;
static void client (void * a) { int me = (int) (intptr_t) a; for (int i = 0; i < per; i++) { int p = ask[me][i]; int r = iot_thread_priority_valid (p); vs_ev ("\"valid\",%d,%d", p, r); } }
static void scenario (int n, int k)
{
  static const int lim[][2] = { { 1, 99 }, { 0, 31 }, { 5, 5 }, { 10, 20 } }; int w = (int) vs_rand (4), ids[4]; lo = lim[w][0]; hi = lim[w][1]; per = k;
  vs_param ("\"root\":0,\"min\":%d,\"max\":%d,\"cpus\":1,\"policy\":0,\"prio\":0,\"fifo\":1,\"other\":0", lo, hi);
  for (int t = 1; t <= n; t++) for (int i = 0; i < k; i++) { switch (vs_rand (6)) { case 0: ask[t][i] = -1; break; case 1: ask[t][i] = lo - 1; break; case 2: ask[t][i] = hi + 1; break; case 3: ask[t][i] = lo; break; case 4: ask[t][i] = hi; break; default: ask[t][i] = -2 + (int) vs_rand (4); } }
  for (int t = 1; t <= n; t++) ids[t] = vs_spawn (client, (void *) (intptr_t) t);
  for (int t = 1; t <= n; t++) vs_join (ids[t]);
}
static void s_two (uint64_t seed) { (void) seed; scenario (2, 1); }
static void s_three (uint64_t seed) { (void) seed; scenario (3, 2); }
const vs_scenario_t vs_scenarios[] = { { "two", s_two }, { "three", s_three }, { 0, 0 } };
