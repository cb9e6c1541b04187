/* Several threads share data: each adds and drops references it holds, reads what it holds and makes values of its own. */
#include "vsched.h"
#include "iot/data.h"
#include "iot/iot.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#define NOBJ 8
static iot_data_t * obj[NOBJ + 1];          /* what is shared: containers and pointers */
static char cell[64];                        /* what pointers point to; cell i belongs to pointer i */
static int nobj;
static void released (void * p) { vs_ev ("\"rel\",%d,%d", vs_self (), (int) ((char *) p - cell)); }
typedef struct { int op, obj; } op_t;
static struct { int n; op_t o[12]; int held[NOBJ + 1]; } scr[5];
static uint32_t hashes[NOBJ + 1];
static iot_data_t * twin[NOBJ + 1];
static int check_contents (int i)
{   /* 1: what is read is what was put there */
  const iot_data_t * d = obj[i];
  if (iot_data_type (d) == IOT_DATA_POINTER) return iot_data_pointer (d) == cell + i;
  if (iot_data_type (d) == IOT_DATA_STRING) { char b[80]; memset (b, 'a' + i, 60); b[60] = 0; return strcmp (iot_data_string (d), i % 2 ? b : b + 57) == 0; }
  if (iot_data_type (d) == IOT_DATA_VECTOR) return iot_data_vector_size (d) == 2 && iot_data_pointer (iot_data_vector_get (d, 0)) == cell + i + 16 && iot_data_ui32 (iot_data_vector_get (d, 1)) == (uint32_t) i;
  if (iot_data_type (d) == IOT_DATA_LIST) { iot_data_list_iter_t it; iot_data_list_iter (d, &it); const iot_data_t * p = NULL; while (iot_data_list_iter_next (&it)) if (iot_data_type (iot_data_list_iter_value (&it)) == IOT_DATA_POINTER) p = iot_data_list_iter_value (&it); return iot_data_list_length (d) == 2 && p && iot_data_pointer (p) == cell + i + 16; }
  if (iot_data_type (d) == IOT_DATA_MAP) { const iot_data_t * p = iot_data_string_map_get (d, "p"); return iot_data_map_size (d) == 2 && p && iot_data_pointer (p) == cell + i + 16; }
  return 0;
}
static void own_values (int me)
{   /* values of this thread alone, made and freed while others do the same */
  iot_data_t * l = iot_data_alloc_list (); char b[64]; int ok = 1;
  for (int i = 0; i < 3; i++) { snprintf (b, sizeof b, "own-%d-%d", me, i); iot_data_list_tail_push (l, iot_data_alloc_string (b, IOT_DATA_COPY)); iot_data_list_tail_push (l, iot_data_alloc_i32 (me * 10 + i)); }
  for (int i = 0; i < 3; i++)
  {
    snprintf (b, sizeof b, "own-%d-%d", me, i);
    iot_data_t * s = iot_data_list_head_pop (l), * n = iot_data_list_head_pop (l);
    if (!s || !n || iot_data_type (s) != IOT_DATA_STRING || strcmp (iot_data_string (s), b) || iot_data_type (n) != IOT_DATA_INT32 || iot_data_i32 (n) != me * 10 + i) ok = 0;
    iot_data_free (s); iot_data_free (n);
  }
  iot_data_free (l);
  vs_ev ("\"own\",%d,%d", me, ok);
}
static void client (void * a)
{
  int me = (int) (intptr_t) a;
  for (int i = 0; i < scr[me].n; i++)
  {
    int op = scr[me].o[i].op, x = scr[me].o[i].obj;
    switch (op)
    {
      case 0: iot_data_add_ref (obj[x]); vs_ev ("\"ref\",%d,%d", me, x); break;
      case 1: vs_ev ("\"drop\",%d,%d", me, x); iot_data_free (obj[x]); vs_ev ("\"dropped\",%d,%d", me, x); break;
      case 2: { int ok = check_contents (x); vs_ev ("\"read\",%d,%d,%d", me, x, ok); break; }
      case 3: { int h = iot_data_hash (obj[x]) == hashes[x]; vs_ev ("\"read\",%d,%d,%d", me, x, h); break; }
      case 4: { int h = iot_data_equal (obj[x], twin[x]); vs_ev ("\"read\",%d,%d,%d", me, x, h); break; }
      case 5: { iot_data_t * c = iot_data_copy (obj[x]); int h = c && iot_data_type (c) == iot_data_type (obj[x]) && iot_data_hash (c) == hashes[x]; vs_ev ("\"copied\",%d,%d,%d", me, x, h); iot_data_free (c); vs_ev ("\"uncopied\",%d,%d", me, x); break; }
      case 6: own_values (me); break;
      case 7: { iot_data_t * c = iot_data_alloc_vector (1); iot_data_vector_add (c, 0, iot_data_add_ref (obj[x])); vs_ev ("\"ref\",%d,%d", me, x); vs_ev ("\"drop\",%d,%d", me, x); iot_data_free (c); vs_ev ("\"dropped\",%d,%d", me, x); break; }
    }
  }
  for (int x = 1; x <= nobj; x++) while (scr[me].held[x]-- > 0) { vs_ev ("\"drop\",%d,%d", me, x); iot_data_free (obj[x]); vs_ev ("\"dropped\",%d,%d", me, x); }
}
static iot_data_t * make (int i, int kind, bool real)
{
  iot_data_t * d, * p = iot_data_alloc_pointer (cell + i + (kind ? 16 : 0), real ? released : NULL);
  switch (kind)
  {
    case 0: return p;
    case 1: { char b[80]; memset (b, 'a' + i, 60); b[60] = 0; iot_data_free (NULL); iot_data_t * q = iot_data_alloc_vector (2); (void) q; iot_data_free (q); d = iot_data_alloc_vector (2); iot_data_vector_add (d, 0, p); iot_data_vector_add (d, 1, iot_data_alloc_ui32 ((uint32_t) i)); return d; }
    case 2: d = iot_data_alloc_list (); iot_data_list_tail_push (d, p); iot_data_list_tail_push (d, iot_data_alloc_string ("x", IOT_DATA_COPY)); return d;
    default: d = iot_data_alloc_map (IOT_DATA_STRING); iot_data_map_add (d, iot_data_alloc_string ("p", IOT_DATA_COPY), p); iot_data_map_add (d, iot_data_alloc_string ("q", IOT_DATA_COPY), iot_data_alloc_i64 (i)); return d;
  }
}
static void scenario (int nthreads, int objs, int ops, int kinds)
{
  int ids[5]; nobj = objs; memset (scr, 0, sizeof scr);
  if (vs_rand (3) == 0) iot_data_alloc_heap (true);
  int total[NOBJ + 1] = { 0 };
  for (int t = 1; t <= nthreads; t++)
  {
    for (int x = 1; x <= objs; x++) { scr[t].held[x] = 1; total[x]++; }
    int cur[NOBJ + 1]; for (int x = 1; x <= objs; x++) cur[x] = 1;
    for (int i = 0; i < ops; i++)
    {
      int x = 1 + (int) vs_rand ((uint32_t) objs), op = (int) vs_rand (8);
      if (op != 6 && !cur[x]) continue;
      if (op == 0) cur[x]++;
      if (op == 1) cur[x]--;
      scr[t].o[scr[t].n++] = (op_t) { op, x };
    }
    memcpy (scr[t].held, cur, sizeof cur);
  }
  char kb[100] = ""; 
  for (int x = 1; x <= objs; x++)
  {
    int k = kinds < 0 ? (int) vs_rand (4) : kinds; obj[x] = make (x, k, true); twin[x] = make (x, k, false); 
    hashes[x] = iot_data_hash (twin[x]); for (int i = 1; i < total[x]; i++) iot_data_add_ref (obj[x]);
    sprintf (kb + strlen (kb), "%s%d", x > 1 ? "," : "", k ? 16 + x : x);
  }
  uint64_t twins = 0; (void) twins;
  vs_param ("\"threads\":%d,\"objs\":%d,\"cells\":[%s]", nthreads, objs, kb);
  for (int t = 1; t <= nthreads; t++) ids[t] = vs_spawn (client, (void *) (intptr_t) t);
  for (int t = 1; t <= nthreads; t++) vs_join (ids[t]);
  vs_ev ("\"all\"");
  for (int x = 1; x <= objs; x++) iot_data_free (twin[x]);
#ifndef NDEBUG
  vs_ev ("\"live\",%d", (int) vs_live ());    /* otherwise blocks are kept for reuse */
#endif
}
static void s_two (uint64_t seed) { (void) seed; scenario (2, 1, 2, -1); }
static void s_three (uint64_t seed) { (void) seed; scenario (3, 1 + (int) vs_rand (2), 3, -1); }
static void s_many (uint64_t seed) { (void) seed; scenario (2 + (int) vs_rand (3), 1 + (int) vs_rand (4), 7, -1); }
const vs_scenario_t vs_scenarios[] = { { "two", s_two }, { "three", s_three }, { "many", s_many }, { 0, 0 } };
