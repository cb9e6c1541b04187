/* Identifiers made by several threads at once; the random source fails and gives short answers. */
#include "vsched.h"
#include "iot/iot.h"
#include "iot/uuid.h"
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <sys/types.h>
static int trouble;
ssize_t __wrap_getrandom (void * b, size_t n, unsigned f)
{
  (void) f; vs_yield ();
  if (trouble && vs_rand (3)) { trouble--; if (vs_rand (2)) { errno = vs_rand (2) ? EINTR : EAGAIN; return -1; } n = vs_rand ((uint32_t) n); for (size_t i = 0; i < n; i++) ((uint8_t *) b)[i] = (uint8_t) vs_rand (256); return (ssize_t) n; }
  for (size_t i = 0; i < n; i++) ((uint8_t *) b)[i] = (uint8_t) vs_rand (256);
  return (ssize_t) n;
}
static const char * hex (const uint8_t * b, size_t n) { static char s[400]; char * p = s; *p++ = '['; for (size_t i = 0; i < n; i++) p += sprintf (p, "%s%u", i ? "," : "", b[i]); strcpy (p, "]"); return s; }
static int calls[5];
static void client (void * a)
{
  int me = (int) (intptr_t) a;
  for (int i = 0; i < calls[me]; i++)
  {
    if (vs_rand (4) == 0)
    {
      iot_data_t * d = iot_data_alloc_uuid_string (); const char * s = iot_data_string (d);
      vs_ev ("\"gentext\",%d,%s", me, hex ((const uint8_t *) s, strlen (s))); iot_data_free (d);
    }
    else { iot_uuid_t u; iot_uuid_generate (u); vs_ev ("\"gen\",%d,%s", me, hex (u, 16)); }
  }
}
static void scenario (int n, int k)
{
  int ids[5]; trouble = (int) vs_rand (4); vs_param ("\"threads\":%d", n);
  for (int t = 1; t <= n; t++) calls[t] = k;
  for (int t = 1; t <= n; t++) ids[t] = vs_spawn (client, (void *) (intptr_t) t);
  for (int t = 1; t <= n; t++) vs_join (ids[t]);
}
static void s_two (uint64_t seed) { (void) seed; scenario (2, 1); }
static void s_three (uint64_t seed) { (void) seed; scenario (3, 2); }
static void s_many (uint64_t seed) { (void) seed; scenario (1 + (int) vs_rand (4), 5); }
const vs_scenario_t vs_scenarios[] = { { "two", s_two }, { "three", s_three }, { "many", s_many }, { 0, 0 } };
