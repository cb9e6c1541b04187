/* Time: stamps under any clock, clock readings, waits with interrupted sleeps. */
#include "vsched.h"
#include "iot/iot.h"
#include <stdio.h>
#include <string.h>
extern int vs_clock_id;
static const char * dig (uint64_t v) { static char b[4][64]; static int k; char * p = b[k++ & 3]; unsigned d[7]; for (int i = 6; i >= 0; i--) { d[i] = (unsigned) (v % 1000); v /= 1000; } sprintf (p, "[%u,%u,%u,%u,%u,%u,%u]", d[0], d[1], d[2], d[3], d[4], d[5], d[6]); return p; }
/* the clock: moves on, stands still, steps back, jumps; only the real time clock tells the time */
static uint64_t cur; static uint32_t mood;
static bool oncall[8];
static uint64_t clock_now (uint64_t now)
{
  (void) now;
  if (vs_clock_id != 0) return 12345678901ull;
  switch (mood)
  {
    case 0: break;                                                             /* stands still */
    case 1: cur += vs_rand (3); break;                                         /* slow */
    case 2: if (vs_rand (3) == 0) cur -= vs_rand (6); else cur += vs_rand (5); break;  /* to and fro */
    case 3: if (vs_rand (4) == 0) cur = cur / 2 + vs_rand (1000000000); else cur += vs_rand (2000000000); break;
    case 4: if (vs_rand (2)) cur = (cur / 1000000000ull + vs_rand (2)) * 1000000000ull + (vs_rand (2) ? 0 : 999999999); else cur += 1 + vs_rand (1000); break;   /* edges of units */
    default: cur += vs_rand (1u << 31); break;
  }
  int t = vs_self (); if (t >= 0 && t < 8 && oncall[t]) vs_ev ("\"clk\",%d,%s", t, dig (cur));
  return cur;
}
static struct { int n; int op[8]; } scr[5];
static void client (void * a)
{
  int me = (int) (intptr_t) a, s = vs_self ();
  for (int i = 0; i < scr[me].n; i++)
  {
    int op = scr[me].op[i]; oncall[s] = true; vs_ev ("\"call\",%d", s); uint64_t v;
    switch (op)
    {
      case 1: v = iot_time_usecs (); break; case 2: v = iot_time_msecs (); break; case 3: v = iot_time_secs (); break; default: v = iot_time_nsecs (); break;
    }
    oncall[s] = false;
    if (op) vs_ev ("\"unit\",%d,%d,%s", s, op, dig (v)); else vs_ev ("\"ret\",%d,%s", s, dig (v));
  }
}
static void stamps (int nthreads, int ops, bool units)
{
  int ids[5]; memset (scr, 0, sizeof scr); mood = vs_rand (6);
  static const uint64_t from[] = { 1700000000123456789ull, 1000, 999999999ull, 4294967295999999999ull, 4294967296ull, 12000000000000000000ull };
  cur = from[vs_rand (6)] + vs_rand (3);
  for (int t = 1; t <= nthreads; t++) for (int i = 0; i < ops; i++) scr[t].op[scr[t].n++] = units ? (int) vs_rand (4) : 0;
  vs_param ("\"threads\":%d", nthreads); vs_set_clock_fn (clock_now);
  for (int t = 1; t <= nthreads; t++) ids[t] = vs_spawn (client, (void *) (intptr_t) t);
  for (int t = 1; t <= nthreads; t++) vs_join (ids[t]);
}
static void s_two (uint64_t seed) { (void) seed; stamps (2, 2, false); }
static void s_three (uint64_t seed) { (void) seed; stamps (3, 2, false); }
static void s_many (uint64_t seed) { (void) seed; stamps (1 + (int) vs_rand (4), 6, vs_rand (2)); }
static void s_units (uint64_t seed) { (void) seed; stamps (1, 8, true); }
/* waits */
static void waiter (void * a)
{
  int me = (int) (intptr_t) a;
  for (int i = 0; i < 3; i++)
  {
    int k = 1 + (int) vs_rand (3);
    static const uint64_t some[] = { 0, 1, 2, 999, 1000, 1001, 999999, 1000000, 1000001, 1500000, 2999999, 4294967ull, 4294968ull };
    static const uint64_t big[] = { 4294967295ull, 4294967296ull, 4294967300ull, 10000000000ull, 99999999999999ull };
    uint64_t n = vs_rand (3) ? some[vs_rand (13)] : vs_rand (5000000); if (vs_rand (8) == 0) n = big[vs_rand (k == 1 ? 5 : k == 2 ? 4 : 2)]; if (k == 3 && n > 4294967296ull) n = 4294967296ull; if (k == 3 && n > 2000000 && n < 4294967295ull) n = 2000000;
    uint64_t b = vs_now ();
    if (b > 9000000000000000000ull && n > 5000000) n = 5000000;
    switch (k) { case 1: iot_wait_usecs (n); break; case 2: iot_wait_msecs (n); break; default: iot_wait_secs (n); break; }
    uint64_t e = vs_now ();
    char s1[64], s2[64], s3[64]; strcpy (s1, dig (n)); strcpy (s2, dig (b)); strcpy (s3, dig (e));
    vs_ev ("\"wait\",%d,%d,%s,%s,%s", me, k, s1, s2, s3);
  }
}
static void s_wait (uint64_t seed)
{
  (void) seed; int n = 1 + (int) vs_rand (3), ids[4]; vs_param ("\"threads\":%d", n); vs_set_eintr (vs_rand (2) ? 40 : 0);
  for (int t = 1; t <= n; t++) ids[t] = vs_spawn (waiter, (void *) (intptr_t) t);
  for (int t = 1; t <= n; t++) vs_join (ids[t]);
}
const vs_scenario_t vs_scenarios[] = { { "two", s_two }, { "three", s_three }, { "many", s_many }, { "units", s_units }, { "wait", s_wait }, { 0, 0 } };
