/* Histories of data API calls.  Every object the harness learns of gets a number; every call is an event with its arguments,
   results, the objects it made (as read back through the public interface) and the objects and buffers freed during it. */
#include "seq.h"
#include "num.h"
#include "iot/data.h"
#include "iot/base64.h"
#include "iot/iot.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>


extern void __real_free (void *); extern void * __real_malloc (size_t); extern void * __real_calloc (size_t, size_t); extern void * __real_realloc (void *, size_t); extern char * __real_strdup (const char *);
#define MAXO 6000
typedef struct { const void * p; bool live, frozen, konst, buf, fresh; int held; int type; uint32_t len; } ob_t;
static ob_t tab[MAXO]; static int nob;      /* numbers start at 1 */
static int freed[4000], nfreed;
static long nlive; static bool rec;
#ifdef NDEBUG
#define FR 0
#else
#define FR 1
#endif
static int lookup (const void * p) { if (p) for (int i = nob; i > 0; i--) if (tab[i].live && tab[i].p == p) return i; return 0; }
void __wrap_free (void * p)
{
  if (p && rec)
  {
    nlive--;
    int i = lookup (p);
    if (i && nfreed < 4000) { freed[nfreed++] = i; tab[i].live = false; }
  }
  __real_free (p);
}
void * __wrap_malloc (size_t n) { if (rec) nlive++; return __real_malloc (n); }
void * __wrap_calloc (size_t n, size_t m) { if (rec) nlive++; return __real_calloc (n, m); }
void * __wrap_realloc (void * p, size_t n) { if (rec && !p) nlive++; return __real_realloc (p, n); }
char * __wrap_strdup (const char * s) { if (rec) nlive++; return __real_strdup (s); }

/* ------------------------------------------------------------ reading values back */
static uint8_t refpool[256]; static char refstr[4][48];      /* memory of the user, referenced but never given away */
static iot_data_static_t kdata[8]; static iot_data_t * kkey[4]; static iot_data_list_static_t klist;
static int metakey[4]; static int nmetakey;
static bool use_meta;
static char names[3][8] = { "a", "bb", "c" };

static void emit_bytes_n (const void * p, size_t n) { const uint8_t * b = p; for (size_t i = 0; i < n; i++) sq_i (b[i]); }
static void emit_payload (const iot_data_t * d)
{
  sq_open ();
  switch (iot_data_type (d))
  {
    case IOT_DATA_POINTER:
    {
      const void * p = iot_data_pointer (d); int b = lookup (p);
      sq_i (b ? 1000 + b : (int) ((const uint8_t *) p - refpool)); break;
    }
    case IOT_DATA_STRING: { const char * s = iot_data_string (d); emit_bytes_n (s, strlen (s)); break; }
    case IOT_DATA_BINARY: case IOT_DATA_ARRAY: emit_bytes_n (iot_data_address (d), iot_data_array_size (d)); break;
    case IOT_DATA_NULL: case IOT_DATA_VECTOR: case IOT_DATA_LIST: case IOT_DATA_MAP: break;
    default: emit_num (iot_data_type (d), iot_data_address (d)); break;
  }
  sq_close ();
}
static int fresh_[3000], nfresh;
static int add_obj (const void * p, int type)
{
  if (nob + 1 >= MAXO) _exit (77);
  ob_t * o = &tab[++nob]; memset (o, 0, sizeof *o); o->p = p; o->live = true; o->type = type; return nob;
}
static const void * buffer_of (const iot_data_t * d)
{
  const void * a = NULL;
  if (iot_data_is_static (d)) return NULL;
  switch (iot_data_type (d))
  {
    case IOT_DATA_STRING: a = iot_data_string (d); break;
    case IOT_DATA_BINARY: case IOT_DATA_ARRAY: a = iot_data_address (d); break;
    case IOT_DATA_POINTER: a = iot_data_pointer (d); return lookup (a) ? a : NULL;
    default: return NULL;
  }
  const uint8_t * b = a, * o = (const uint8_t *) d;
  if (!a || (b >= o && b < o + 64) || (b >= refpool && b < refpool + sizeof refpool) || (b >= (uint8_t *) refstr && b < (uint8_t *) refstr + sizeof refstr) || (b >= (uint8_t *) names && b < (uint8_t *) names + sizeof names)) return NULL;
  for (int i = 0; i < 4; i++) if (kkey[i] && a == (const void *) iot_data_string (kkey[i])) return NULL;
  return a;
}
static int discover (const iot_data_t * d)
{
  if (!d) return 0;
  int i = lookup (d);
  if (i) return i;
  i = add_obj (d, iot_data_type (d)); fresh_[nfresh++] = i;
  tab[i].konst = iot_data_is_static (d);
  const void * b = buffer_of (d);
  if (b && !lookup (b)) { int k = add_obj (b, 30); tab[k].buf = true; fresh_[nfresh++] = k; }
  if (tab[i].type == IOT_DATA_VECTOR) for (uint32_t k = 0; k < iot_data_vector_size (d); k++) discover (iot_data_vector_get (d, k));
  if (tab[i].type == IOT_DATA_LIST) { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) discover (iot_data_list_iter_value (&it)); }
  if (tab[i].type == IOT_DATA_MAP)
  {
    iot_data_map_iter_t it; iot_data_map_iter (d, &it);
    while (iot_data_map_iter_next (&it)) { int k = discover (iot_data_map_iter_key (&it)); tab[k].frozen = true; discover (iot_data_map_iter_value (&it)); }
  }
  if (use_meta) for (int k = 0; k < nmetakey; k++) discover (iot_data_get_metadata (d, tab[metakey[k]].p));
  return i;
}
static int nbudget;
static void emit_obj (int i)
{
  sq_open ();
  if (tab[i].buf) { sq_raw ("30,0,0,0,[],[],[],[]"); sq_close (); return; }
  const iot_data_t * d = tab[i].p; iot_typecode_t tc; iot_data_typecode (d, &tc);
  sq_i (tc.type); sq_i (iot_data_is_static (d)); sq_i (tc.element_type); sq_i (tc.key_type);
  emit_payload (d);
  sq_open ();
  const void * b = buffer_of (d);
  if (b) sq_i (lookup (b));
  uint32_t n = 0;
  if (tc.type == IOT_DATA_VECTOR) for (uint32_t k = 0; k < iot_data_vector_size (d); k++) { const iot_data_t * v = iot_data_vector_get (d, k); int x = lookup (v); sq_i (v && !x ? -1 : x); }
  if (tc.type == IOT_DATA_LIST) { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it) && n++ < 3000) { int x = lookup (iot_data_list_iter_value (&it)); sq_i (x ? x : -1); } }
  sq_close (); sq_open ();
  if (tc.type == IOT_DATA_MAP)
  {
    iot_data_map_iter_t it; iot_data_map_iter (d, &it);
    while (iot_data_map_iter_next (&it) && n++ < 3000) { int k = lookup (iot_data_map_iter_key (&it)), v = lookup (iot_data_map_iter_value (&it)); sq_open (); sq_i (k ? k : -1); sq_i (v ? v : -1); sq_close (); }
  }
  sq_close (); sq_open ();
  if (use_meta) for (int k = 0; k < nmetakey; k++) { const iot_data_t * v = iot_data_get_metadata (d, tab[metakey[k]].p); if (v) { int x = lookup (v); sq_open (); sq_i (metakey[k]); sq_i (x ? x : -1); sq_close (); } }
  sq_close (); sq_close ();
}
static void emit_fresh (void)
{
  sq_open ();
  for (int k = 0; k < nfresh; k++) { sq_open (); sq_i (fresh_[k]); emit_obj (fresh_[k]); sq_close (); }
  sq_close ();
}
/* without the freed list (block cache in use) the harness forgets what can no longer be reached */
static bool seen[MAXO];
static void mark (const iot_data_t * d)
{
  int i = lookup (d);
  if (!i || seen[i]) return;
  seen[i] = true;
  int b = lookup (buffer_of (d)); if (b) seen[b] = true;
  if (tab[i].type == IOT_DATA_VECTOR) for (uint32_t k = 0; k < iot_data_vector_size (d); k++) mark (iot_data_vector_get (d, k));
  if (tab[i].type == IOT_DATA_LIST) { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) mark (iot_data_list_iter_value (&it)); }
  if (tab[i].type == IOT_DATA_MAP) { iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (iot_data_map_iter_next (&it)) { mark (iot_data_map_iter_key (&it)); mark (iot_data_map_iter_value (&it)); } }
  if (use_meta) for (int k = 0; k < nmetakey; k++) mark (iot_data_get_metadata (d, tab[metakey[k]].p));
}
static void forget (void)
{
  if (FR) return;
  memset (seen, 0, sizeof seen);
  for (int i = 1; i <= nob; i++) if (tab[i].live && (tab[i].held > 0 || tab[i].konst)) { if (tab[i].buf) seen[i] = true; else mark (tab[i].p); }
  for (int i = 1; i <= nob; i++) if (!seen[i]) tab[i].live = false;
}
static void fin (void)
{
  sq_open (); for (int k = 0; k < nfreed; k++) sq_i (freed[k]); sq_close (); nfreed = 0; nfresh = 0; sq_end (); forget ();
}
static void begin (const char * op) { nfresh = 0; sq_begin (op); }
static iot_data_t * D (int i) { return (iot_data_t *) tab[i].p; }

/* ------------------------------------------------------------ choosing */
static bool is (int i, unsigned mask) { return tab[i].live && !tab[i].buf && (mask >> tab[i].type & 1); }
#define M(t) (1u << (t))
#define ALL 0x7ffffu
#define BASIC 0x7ffu
#define NUMS 0x3ffu
#define COMP (M (16) | M (17) | M (18))
static bool keep[MAXO];
static int pick_if (unsigned mask, bool held, bool nofreeze)
{
  int c[MAXO], n = 0;
  for (int i = 1; i <= nob; i++) if (is (i, mask) && (!held || tab[i].held > 0 || tab[i].konst) && !(nofreeze && (tab[i].frozen || (tab[i].konst && !(tab[i].type == IOT_DATA_LIST))))) c[n++] = i;
  return n ? c[rnd ((uint32_t) n)] : 0;
}
static int pick (unsigned mask) { return pick_if (mask, true, false); }        /* a live reference of the caller */
static int focus;     /* the container an operation is to change, 0 when any */
static int pick_mut (unsigned mask)
{
  if (focus && is (focus, mask) && (tab[focus].held > 0 || tab[focus].konst) && !tab[focus].frozen) return focus;
  return pick_if (mask, true, true);
}
static int any (unsigned mask)     /* anything reachable: what the caller holds, or a member of it */
{
  int i = pick (mask);
  int j = pick (COMP);
  if (j && chance (50))
  {
    memset (seen, 0, sizeof seen); mark (D (j));
    int c[MAXO], n = 0; for (int k = 1; k <= nob; k++) if (seen[k] && is (k, mask)) c[n++] = k;
    if (n) return c[rnd ((uint32_t) n)];
  }
  return i;
}
static bool below (int i, int target) { memset (seen, 0, sizeof seen); mark (D (i)); return seen[target]; }
static int weight (int i) { memset (seen, 0, sizeof seen); mark (D (i)); int n = 0; for (int k = 1; k <= nob; k++) n += seen[k]; return n; }
static int depth_of (const iot_data_t * d)
{
  int m = 0, x; if (!d) return 0;
  switch (iot_data_type (d))
  {
    case IOT_DATA_VECTOR: for (uint32_t k = 0; k < iot_data_vector_size (d); k++) if ((x = depth_of (iot_data_vector_get (d, k))) > m) m = x; return m + 1;
    case IOT_DATA_LIST: { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) if ((x = depth_of (iot_data_list_iter_value (&it))) > m) m = x; return m + 1; }
    case IOT_DATA_MAP: { iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (iot_data_map_iter_next (&it)) if ((x = depth_of (iot_data_map_iter_value (&it))) > m) m = x; return m + 1; }
    default: return 0;
  }
}
static uint32_t tree_size (const iot_data_t * d)
{
  uint32_t n = 1; if (!d) return 0;
  switch (iot_data_type (d))
  {
    case IOT_DATA_VECTOR: for (uint32_t k = 0; k < iot_data_vector_size (d); k++) n += tree_size (iot_data_vector_get (d, k)); return n;
    case IOT_DATA_LIST: { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) n += tree_size (iot_data_list_iter_value (&it)); return n; }
    case IOT_DATA_MAP: { iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (iot_data_map_iter_next (&it)) n += 1 + tree_size (iot_data_map_iter_value (&it)); return n; }
    default: return 1;
  }
}
/* may v be put into container c? (no cycles, bounded size) */
static bool fits (int c, int v)
{
  iot_typecode_t tc; iot_data_typecode (D (c), &tc);
  if (tc.element_type != IOT_DATA_MULTI && tc.element_type != tab[v].type) return false;
  if (tab[v].type >= IOT_DATA_VECTOR && (below (v, c) || depth_of (D (v)) > 2 || tree_size (D (v)) > 25)) return false;
  return tree_size (D (c)) < 60;
}

/* ------------------------------------------------------------ making values */
static int op_buf (const void * init, size_t n)
{
  void * p = malloc (n ? n : 1); memcpy (p, init, n);
  int i = add_obj (p, 30); tab[i].buf = true; tab[i].held = 1; tab[i].len = (uint32_t) n;
  begin ("buf"); sq_i (i); fin ();
  return i;
}
static void clobber (void * p, size_t n) { memset (p, 0xdb, n); }
static void rand_str (char * s, uint32_t n) { for (uint32_t i = 0; i < n; i++) s[i] = chance (10) ? (char) (128 + rnd (100)) : (char) ('a' + rnd (3)); s[n] = 0; }
/* finish a "new" event */
static void emit_id (const iot_data_t * d) { int i = lookup (d); sq_i (d && !i ? -1 : i); }
static void emit_ptr (const void * p) { sq_open (); if (p) { int b = lookup (p); sq_i (b ? 1000 + b : (int) ((const uint8_t *) p - refpool)); } sq_close (); }
static void emit_str (const char * s) { sq_open (); if (s) { sq_i (1); emit_bytes_n (s, strlen (s)); } sq_close (); }
static int made (iot_data_t * d, int type, int et, int kt, const void * v, size_t vn, int size, int give)
{
  begin ("new");
  int known = lookup (d);
  if (known && FR) { sq_i (known); sq_raw ("[]"); }
  else { if (known) tab[known].live = false; int i = discover (d); tab[i].held = 1; tab[i].fresh = true; sq_i (i); emit_fresh (); known = i; }
  sq_i (type); sq_i (et); sq_i (kt);
  sq_open (); if (type <= IOT_DATA_BOOL) emit_num (type, v); else if (type == IOT_DATA_POINTER) { int b = lookup (v); sq_i (b ? 1000 + b : (int) ((const uint8_t *) v - refpool)); } else emit_bytes_n (v, vn); sq_close ();
  sq_i (size); sq_i (give); if (give) tab[give].held--; fin ();
  return known;
}
static int same (iot_data_t * d, int type, int v)
{
  int i = lookup (d); begin ("same"); sq_i (i); sq_i (type); sq_open (); if (v >= 0) sq_i (v); sq_close (); if (i) tab[i].held++; fin (); return i;
}
static int64_t small_int (int type)
{
  static const int64_t pool[] = { 0, 1, 2, 3, 5, 7, 8, 100, 127, 128, 255, 256, 1000, 32767, 65535, 65536, 2147483647, 4294967295ll, 4294967296ll, 9007199254740993ll, INT64_MAX };
  int64_t v = chance (70) ? pool[rnd (6)] : pool[rnd (21)];
  if (chance (30)) v = -v - (int) rnd (2);
  (void) type; return v;
}
static iot_data_t * alloc_num (int type, int64_t v, void * out)
{
#define A(N,T,F) case N: { T x = (T) v; memcpy (out, &x, sizeof x); return F (x); }
  switch (type)
  {
    A (0, int8_t, iot_data_alloc_i8) A (1, uint8_t, iot_data_alloc_ui8) A (2, int16_t, iot_data_alloc_i16) A (3, uint16_t, iot_data_alloc_ui16)
    A (4, int32_t, iot_data_alloc_i32) A (5, uint32_t, iot_data_alloc_ui32) A (6, int64_t, iot_data_alloc_i64) A (7, uint64_t, iot_data_alloc_ui64)
    case 8: { float x = (float) v * 0.5f; memcpy (out, &x, sizeof x); return iot_data_alloc_f32 (x); }
    default: { double x = (double) v * 0.25; memcpy (out, &x, sizeof x); return iot_data_alloc_f64 (x); }
  }
}
static int mk_num (int type) { uint8_t b[8]; iot_data_t * d = alloc_num (type, small_int (type), b); return made (d, type, 20, 20, b, 0, 0, 0); }
/* lengths about the sizes at which the storage of a string changes, and any other */
static uint32_t str_len (void)
{
  uint32_t b = iot_data_block_size ();
  switch (rnd (4)) { case 0: return b - 2 + rnd (4); case 1: return b - 25 + rnd (10); default: return rnd (2 * b < 90 ? 2 * b : 90); }
}
static int mk_string (void)
{
  char s[128]; rand_str (s, chance (75) ? rnd (4) : str_len ());
  size_t n = strlen (s);
  switch (rnd (4))
  {
    case 0: { int b = op_buf (s, n + 1); iot_data_t * d = iot_data_alloc_string (tab[b].p, IOT_DATA_TAKE); return made (d, 12, 20, 20, s, n, 0, b); }
    case 1: { int k = (int) rnd (4); iot_data_t * d = iot_data_alloc_string (refstr[k], IOT_DATA_REF); return made (d, 12, 20, 20, refstr[k], strlen (refstr[k]), 0, 0); }
    case 2: { iot_data_t * d = iot_data_alloc_string_fmt ("%s", s); return made (d, 12, 20, 20, s, n, 0, 0); }
    default: { char c[128]; strcpy (c, s); iot_data_t * d = iot_data_alloc_string (c, IOT_DATA_COPY); clobber (c, n); return made (d, 12, 20, 20, s, n, 0, 0); }
  }
}
static int mk_array (void)
{
  static const int sz[] = { 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 1 };
  bool bin = chance (40); int et = bin ? 1 : chance (60) ? (int) rnd (2) : (int) rnd (11);
  uint32_t n = chance (10) ? 0 : 1 + rnd (chance (20) ? 9 : 3);
  uint8_t raw[128]; size_t bytes = n * (size_t) sz[et];
  if (et < 8) for (size_t i = 0; i < bytes; i++) raw[i] = chance (60) ? (uint8_t) rnd (3) : (uint8_t) rnd (256);
  else for (uint32_t i = 0; i < n; i++)
  {
    if (et == 8) { float f = (float) small_int (4) * 0.5f; memcpy (raw + 4 * i, &f, 4); }
    else if (et == 9) { double f = (double) small_int (6) * 0.5; memcpy (raw + 8 * i, &f, 8); }
    else raw[i] = (uint8_t) rnd (2);
  }
  int type = bin ? 14 : 15;
#define AL(p,o) (bin ? iot_data_alloc_binary ((p), n, (o)) : iot_data_alloc_array ((p), n, (iot_data_type_t) et, (o)))
  switch (rnd (4))
  {
    case 0: { int b = op_buf (raw, bytes); iot_data_t * d = AL ((void *) tab[b].p, IOT_DATA_TAKE); return made (d, type, et, 20, raw, bytes, 0, b); }
    case 1:
    {
      if (et >= 8) { iot_data_t * d = AL (n ? raw : NULL, IOT_DATA_COPY); return made (d, type, et, 20, raw, bytes, 0, 0); }
      uint32_t off = rnd (16); iot_data_t * d = AL (refpool + off * 8, IOT_DATA_REF); return made (d, type, et, 20, refpool + off * 8, bytes, 0, 0);
    }
    case 2: if (!n) { iot_data_t * d = AL (NULL, IOT_DATA_COPY); return made (d, type, et, 20, raw, 0, 0, 0); } /* fall through */
    default: { uint8_t c[128]; memcpy (c, raw, bytes); iot_data_t * d = AL (c, IOT_DATA_COPY); clobber (c, bytes); return made (d, type, et, 20, raw, bytes, 0, 0); }
  }
}
static void ptr_free (void * p) { free (p); }
static int mk_pointer (void)
{
  if (chance (50)) { int b = op_buf ("x", 1); iot_data_t * d = iot_data_alloc_pointer ((void *) tab[b].p, ptr_free); return made (d, 11, 20, 20, tab[b].p, 0, 0, b); }
  void * p = refpool + rnd (3); iot_data_t * d = iot_data_alloc_pointer (p, NULL); return made (d, 11, 20, 20, p, 0, 0, 0);
}
static int rand_type (void) { static const int t[] = { 0, 1, 4, 5, 6, 7, 9, 10, 12, 12, 15, 16, 18 }; return t[rnd (13)]; }
static int mk_comp (int type)
{
  bool typed = chance (20); int et = typed ? rand_type () : 19; iot_data_t * d;
  if (type == 17) { d = typed ? iot_data_alloc_typed_list ((iot_data_type_t) et) : iot_data_alloc_list (); return made (d, 17, et, 20, NULL, 0, 0, 0); }
  if (type == 16) { uint32_t n = rnd (5); d = typed ? iot_data_alloc_typed_vector (n, (iot_data_type_t) et) : iot_data_alloc_vector (n); return made (d, 16, et, 20, NULL, 0, (int) n, 0); }
  static const int kts[] = { 19, 19, 19, 12, 12, 12, 5, 4, 7, 0, 10, 14, 15, 9 }; int kt = kts[rnd (14)];
  d = typed ? iot_data_alloc_typed_map ((iot_data_type_t) kt, (iot_data_type_t) et) : iot_data_alloc_map ((iot_data_type_t) kt);
  return made (d, 18, et, kt, NULL, 0, 0, 0);
}
static int mk_scalar (void)
{
  switch (rnd (10))
  {
    case 0: case 1: case 2: return mk_num (chance (50) ? 4 + (int) rnd (2) : (int) rnd (10));
    case 3: { bool b = rnd (2); return same (iot_data_alloc_bool (b), 10, b); }
    case 4: return chance (50) ? same (iot_data_alloc_null (), 13, -1) : mk_pointer ();
    case 5: case 6: return mk_array ();
    default: return mk_string ();
  }
}
static int mk_type (int t)
{
  if (t < 10) return mk_num (t);
  switch (t) { case 10: { bool b = rnd (2); return same (iot_data_alloc_bool (b), 10, b); } case 11: return mk_pointer (); case 12: return mk_string (); case 13: return same (iot_data_alloc_null (), 13, -1);
    case 14: case 15: for (int k = 0; k < 30; k++) { int i = mk_array (); if (tab[i].type == t) return i; begin ("free"); sq_i (i); tab[i].held--; iot_data_free (D (i)); fin (); } return mk_scalar ();
    default: return mk_comp (t); }
}
/* ------------------------------------------------------------ operations */
static void op_ref (int i) { begin ("ref"); sq_i (i); iot_data_add_ref (D (i)); tab[i].held++; fin (); }
static void op_free (int i)
{
  begin (tab[i].buf ? "bfree" : "free"); sq_i (i); tab[i].held--;
  if (tab[i].buf) free ((void *) tab[i].p); else iot_data_free (D (i));
  fin ();
}
static void dump (int i)
{
  if (!i || !tab[i].live || tab[i].buf) return;
  begin ("dump"); sq_i (i); emit_obj (i); sq_i (tab[i].konst ? 0 : (int) iot_data_ref_count (D (i))); fin ();
}
/* a value for container c, one reference of which will be given away */
static int give_for (int c)
{
  iot_typecode_t tc; iot_data_typecode (D (c), &tc);
  for (int k = 0; k < 4; k++)
  {
    int v = chance (45) ? any (tc.element_type == IOT_DATA_MULTI ? ALL : M (tc.element_type)) : 0;
    if (v && fits (c, v)) { if (!tab[v].konst) { if (tab[v].held == 0 || chance (60)) op_ref (v); } else op_ref (v); return v; }
  }
  int v = tc.element_type == IOT_DATA_MULTI ? (chance (12) ? mk_comp (16 + (int) rnd (3)) : mk_scalar ()) : mk_type (tc.element_type);
  return v && fits (c, v) ? v : 0;
}
static void gave (int v) { if (v && tab[v].held > 0) tab[v].held--; }
/* a key for map m, one reference to give away */
static int key_for (int m)
{
  iot_typecode_t tc; iot_data_typecode (D (m), &tc);
  unsigned mask = tc.key_type == IOT_DATA_MULTI ? (NUMS | M (10) | M (12) | M (14) | M (15)) : M (tc.key_type);
  int k = 0;
  if (chance (30)) k = any (mask);
  if (k && tab[k].konst) { if (tab[k].type == 10) same (D (k), 10, iot_data_bool (D (k))); else if (tab[k].type == 12) { op_ref (k); } else k = 0; }
  else if (k) op_ref (k);
  if (!k)
  {
    int t = tc.key_type;
    if (t == IOT_DATA_MULTI) { static const int ts[] = { 4, 5, 6, 12, 12, 12, 10, 14, 9, 1 }; t = ts[rnd (10)]; }
    k = mk_type (t);
    if (tab[k].type != t) return 0;
  }
  tab[k].frozen = true;
  return k;
}
static int probe_key (int m)     /* a key to look up, kept by the caller */
{
  iot_typecode_t tc; iot_data_typecode (D (m), &tc);
  iot_data_map_iter_t it; uint32_t n = iot_data_map_size (D (m));
  if (n && chance (70))
  {
    uint32_t k = rnd (n); iot_data_map_iter (D (m), &it); for (uint32_t i = 0; i <= k; i++) iot_data_map_iter_next (&it);
    int i = lookup (iot_data_map_iter_key (&it)); if (chance (50)) return i;
    /* an equal one of its own */
    begin ("copy"); iot_data_t * c = iot_data_copy (D (i)); int j = discover (c); sq_i (i); sq_i (j); emit_fresh (); tab[j].held++; fin (); return j;
  }
  return key_for (m);
}
static bool eq_cmp (const iot_data_t * d, const void * arg) { return d && iot_data_equal (d, arg); }

static void op_list (void)
{
  int l = pick_mut (M (17)); if (!l) { mk_comp (17); return; }
  int v; iot_data_t * r; int end;
  switch (rnd (12))
  {
    case 0: case 1: case 2: case 3:
      v = give_for (l); if (!v) return;
      end = (int) rnd (2); begin ("lpush"); sq_i (l); sq_i (end); sq_i (v);
      end ? iot_data_list_tail_push (D (l), D (v)) : iot_data_list_head_push (D (l), D (v)); gave (v); fin (); break;
    case 4: case 5:
      end = (int) rnd (2); begin ("lpop"); r = end ? iot_data_list_tail_pop (D (l)) : iot_data_list_head_pop (D (l));
      sq_i (l); sq_i (end); v = lookup (r); sq_i (r && !v ? -1 : v); if (v) tab[v].held++; fin (); break;
    case 6: if (chance (30)) { begin ("lempty"); sq_i (l); iot_data_list_empty (D (l)); fin (); } break;
    case 7: case 8:
      v = any (ALL);
      if (chance (50) && iot_data_list_length (D (l))) { iot_data_list_iter_t it; iot_data_list_iter (D (l), &it); for (uint32_t q = rnd (iot_data_list_length (D (l))) + 1; q; q--) iot_data_list_iter_next (&it); int x = lookup (iot_data_list_iter_value (&it)); if (x) v = x; }
      if (!v) return;
      if (!tab[v].held && !tab[v].konst) op_ref (v);      /* the argument outlives the call */
      if (chance (50)) { begin ("find"); r = (iot_data_t *) iot_data_list_find (D (l), eq_cmp, D (v)); sq_i (l); sq_i (v); end = lookup (r); sq_i (r && !end ? -1 : end); fin (); }
      else { begin ("lrem"); sq_i (l); sq_i (v); sq_i (iot_data_list_remove (D (l), eq_cmp, D (v))); fin (); }
      break;
    default:
    {
      begin ("iter"); sq_i (l); sq_open ();
      iot_data_list_iter_t it; iot_data_iter_t g; bool gen = chance (25); int spare[16], ns = 0;
      if (gen) iot_data_iter (D (l), &g); else iot_data_list_iter (D (l), &it);
      int n = 2 + (int) rnd (12); bool back = chance (30);
      for (int k = 0; k < n; k++)
      {
        sq_open ();
        switch (rnd (gen ? 9 : 12))
        {
          case 0: case 1: case 2: case 3: if (back) { sq_raw ("\"prev\""); sq_i (gen ? iot_data_iter_prev (&g) : iot_data_list_iter_prev (&it)); } else { sq_raw ("\"next\""); sq_i (gen ? iot_data_iter_next (&g) : iot_data_list_iter_next (&it)); } break;
          case 4: if (chance (60)) back = !back; /* fall through */
          case 5: sq_raw ("\"has\""); sq_i (gen ? iot_data_iter_has_next (&g) : iot_data_list_iter_has_next (&it)); break;
          case 6: case 7: case 8: { const iot_data_t * x = gen ? iot_data_iter_value (&g) : iot_data_list_iter_value (&it);
            if (!gen && chance (40) && (!x || iot_data_type (x) == IOT_DATA_STRING)) { sq_raw ("\"str\""); emit_str (iot_data_list_iter_string_value (&it)); break; }
            if (!gen && chance (40) && (!x || iot_data_type (x) == IOT_DATA_POINTER)) { sq_raw ("\"ptr\""); emit_ptr (iot_data_list_iter_pointer_value (&it)); break; }
            sq_raw ("\"val\""); int i = lookup (x); sq_i (x && !i ? -1 : i); break; }
          case 9: sq_raw ("\"rem\""); sq_i (iot_data_list_iter_remove (&it)); break;
          default:
          {  /* replace by a constant: needs no event of its own */
            iot_data_t * nv = chance (50) ? iot_data_alloc_bool (chance (50)) : iot_data_alloc_null (); iot_typecode_t tc; iot_data_typecode (D (l), &tc);
            if (tc.element_type != IOT_DATA_MULTI) { sq_raw ("\"val\""); const iot_data_t * x = iot_data_list_iter_value (&it); sq_i (lookup (x)); break; }
            sq_raw ("\"rep\""); sq_i (lookup (nv)); iot_data_t * old = iot_data_list_iter_replace (&it, nv); int i = lookup (old); sq_i (old && !i ? -1 : i); if (i) { tab[i].held++; spare[ns++] = i; } break;
          }
        }
        sq_close ();
      }
      sq_close (); fin ();
      for (int k = 0; k < ns; k++) if (!tab[spare[k]].konst) op_free (spare[k]);
    }
  }
  dump (l);
}
static void op_vector (void)
{
  int l = pick_mut (M (16)); if (!l) { mk_comp (16); return; }
  uint32_t n = iot_data_vector_size (D (l)); int v, t; iot_data_t * r;
  switch (rnd (15))
  {
    case 0: case 1: case 2: case 3:
      if (!n) return;
      v = chance (15) ? 0 : give_for (l);
      { uint32_t i = rnd (n); begin ("vadd"); sq_i (l); sq_i (i); sq_i (v); iot_data_vector_add (D (l), i, v ? D (v) : NULL); gave (v); fin (); } break;
    case 4: if (n) { uint32_t i = rnd (n); begin ("vget"); sq_i (l); sq_i (i); const iot_data_t * x = iot_data_vector_get (D (l), i); v = lookup (x); sq_i (x && !v ? -1 : v); fin (); } return;
    case 5: { uint32_t i = rnd (n + 2); begin ("vgetp"); sq_i (l); sq_i (i); const void * p = iot_data_vector_get_pointer (D (l), i); sq_open (); if (p) { int b = lookup (p); sq_i (b ? 1000 + b : (int) ((const uint8_t *) p - refpool)); } sq_close (); fin (); } return;
    case 6: case 7: { uint32_t m = chance (30) ? n : rnd (8); begin ("vres"); sq_i (l); sq_i (m); iot_data_vector_resize (D (l), m); fin (); } break;
    case 8: begin ("vcomp"); sq_i (l); sq_i (iot_data_vector_compact (D (l))); fin (); break;
    case 9: { t = chance (40) ? 19 : rand_type (); bool rcr = rnd (2); begin ("vcount"); sq_i (l); sq_i (t); sq_i (rcr); sq_i (iot_data_vector_element_count (D (l), (iot_data_type_t) t, rcr)); fin (); } return;
    case 10: v = any (ALL); if (!v) return; begin ("find"); r = (iot_data_t *) iot_data_vector_find (D (l), eq_cmp, D (v)); sq_i (l); sq_i (v); t = lookup (r); sq_i (r && !t ? -1 : t); fin (); return;
    case 11:
    {
      uint32_t total = 77; begin ("vdims"); r = iot_data_vector_dimensions (D (l), &total); sq_i (l); sq_i (total); sq_open ();
      if (!r) sq_i (-1); else { if (iot_data_type (r) != IOT_DATA_ARRAY || iot_data_array_type (r) != IOT_DATA_UINT32) sq_i (-9); else for (uint32_t i = 0; i < iot_data_array_length (r); i++) sq_i (*(uint32_t *) iot_data_array_get (r, i)); }
      sq_close (); iot_data_free (r); fin (); return;
    }
    default:
    {
      begin ("iter"); sq_i (l); sq_open ();
      iot_data_vector_iter_t it; iot_data_iter_t g; bool gen = chance (25); int spare[16], ns = 0;
      if (gen) iot_data_iter (D (l), &g); else iot_data_vector_iter (D (l), &it);
      int m = 2 + (int) rnd (12); bool back = chance (30), pos = false;
      for (int k = 0; k < m; k++)
      {
        sq_open ();
        switch (rnd (gen ? 8 : 12))
        {
          case 0: case 1: case 2: case 3: if (back) { sq_raw ("\"prev\""); sq_i (pos = gen ? iot_data_iter_prev (&g) : iot_data_vector_iter_prev (&it)); } else { sq_raw ("\"next\""); sq_i (pos = gen ? iot_data_iter_next (&g) : iot_data_vector_iter_next (&it)); } break;
          case 4: if (chance (60)) back = !back; /* fall through */
          case 5: sq_raw ("\"has\""); sq_i (gen ? iot_data_iter_has_next (&g) : iot_data_vector_iter_has_next (&it)); break;
          case 6: case 7: case 8: { const iot_data_t * x = gen ? iot_data_iter_value (&g) : iot_data_vector_iter_value (&it);
            if (!gen && chance (40) && (!x || iot_data_type (x) == IOT_DATA_STRING)) { sq_raw ("\"str\""); emit_str (x && chance (50) ? iot_data_vector_iter_string (&it) : iot_data_vector_iter_string_value (&it)); break; }
            if (!gen && chance (40) && (!x || iot_data_type (x) == IOT_DATA_POINTER)) { sq_raw ("\"ptr\""); emit_ptr (iot_data_vector_iter_pointer_value (&it)); break; }
            sq_raw ("\"val\""); int i = lookup (x); sq_i (x && !i ? -1 : i); break; }
          case 9: if (pos) { sq_raw ("\"idx\""); sq_i (iot_data_vector_iter_index (&it)); break; } /* fall through */
          default:
          {
            iot_data_t * nv = chance (50) ? iot_data_alloc_bool (chance (50)) : iot_data_alloc_null (); iot_typecode_t tc; iot_data_typecode (D (l), &tc);
            if (tc.element_type != IOT_DATA_MULTI) { sq_raw ("\"val\""); const iot_data_t * x = iot_data_vector_iter_value (&it); sq_i (lookup (x)); break; }
            sq_raw ("\"rep\""); sq_i (lookup (nv)); iot_data_t * old = iot_data_vector_iter_replace_value (&it, nv); int i = lookup (old); sq_i (old && !i ? -1 : i); if (i) { tab[i].held++; spare[ns++] = i; } break;
          }
        }
        sq_close ();
      }
      sq_close (); fin ();
      for (int k = 0; k < ns; k++) if (!tab[spare[k]].konst) op_free (spare[k]);
    }
  }
  dump (l);
}
static void op_map (void)
{
  int m = pick_mut (M (18)); if (!m) { mk_comp (18); return; }
  iot_typecode_t tc; iot_data_typecode (D (m), &tc); int k, v, o;
  bool strk = tc.key_type == IOT_DATA_STRING || tc.key_type == IOT_DATA_MULTI;
  switch (rnd (20))
  {
    case 0: case 1: case 2: case 3: case 4:
      v = give_for (m); if (!v) return; k = key_for (m); if (!k) return;
      if (v == k) return;
      begin ("madd"); sq_i (m); sq_i (k); sq_i (v); iot_data_map_add (D (m), D (k), D (v)); gave (k); gave (v); fin (); break;
    case 5:
    {
      if (!strk) return;
      const char * s = names[rnd (3)];
      v = give_for (m); if (!v) return;
      begin ("smadd"); sq_i (m); sq_bytes (s, strlen (s)); iot_data_string_map_add (D (m), s, D (v));
      iot_data_map_iter_t it; iot_data_map_iter (D (m), &it); const iot_data_t * kk = NULL;
      while (iot_data_map_iter_next (&it)) if (iot_data_type (iot_data_map_iter_key (&it)) == IOT_DATA_STRING && iot_data_string (iot_data_map_iter_key (&it)) == s && !lookup (iot_data_map_iter_key (&it))) kk = iot_data_map_iter_key (&it);
      int ki = 0; if (kk) { ki = discover (kk); tab[ki].frozen = true; }
      sq_i (ki); emit_fresh ();
      sq_i (v); gave (v); fin (); break;
    }
    case 6: case 7: v = give_for (m); if (!v) return; k = key_for (m); if (!k || k == v) return;
      begin ("munus"); sq_i (m); sq_i (k); sq_i (v); o = iot_data_map_add_unused (D (m), D (k), D (v)); sq_i (o); if (o) { gave (k); gave (v); } fin (); break;
    case 8: case 9: k = probe_key (m); if (!k) return;
      if (!tab[k].held && !tab[k].konst) op_ref (k);
      begin ("mrem"); sq_i (m); sq_i (k); sq_i (iot_data_map_remove (D (m), D (k))); fin (); break;
    case 10: { if (!strk) return; static const char * names[] = { "a", "bb", "c", "zz" }; const char * s = names[rnd (4)]; begin ("smrem"); sq_i (m); sq_bytes (s, strlen (s)); sq_i (iot_data_string_map_remove (D (m), s)); fin (); break; }
    case 11: k = probe_key (m); if (!k) return; begin ("mget"); sq_i (m); sq_i (k); emit_id (iot_data_map_get (D (m), D (k))); fin (); return;
    case 12: k = probe_key (m); if (!k) return; o = rand_type (); begin ("mgett"); sq_i (m); sq_i (k); sq_i (o); emit_id (iot_data_map_get_typed (D (m), D (k), (iot_data_type_t) o)); fin (); return;
    case 13: case 14:
    {
      k = probe_key (m); if (!k) return;
      bool str = tab[k].type == 12 && chance (50); const char * s = str ? iot_data_string (D (k)) : NULL; static const int gs[] = { 6, 7, 10, 9, 12, 11, 16, 18, 15, 17 }; o = gs[rnd (10)];
      if (str && o == 15) o = 16;
      begin (str ? "smgtyp" : "mgtyp"); sq_i (m); if (str) sq_bytes (s, strlen (s)); else sq_i (k); sq_i (o);
      const iot_data_t * key = D (k), * mp = D (m);
#undef bool

#define G(f) (str ? iot_data_string_map_get_##f (mp, s) : iot_data_map_get_##f (mp, key))
#define GD(f,d) (str ? iot_data_string_map_get_##f (mp, s, d) : iot_data_map_get_##f (mp, key, d))
      switch (o)
      {
#define GN(T,f,t,d) { T dv = (T) d, x = GD (f, dv); _Bool miss = false; sq_open (); emit_num (t, &dv); sq_close (); \
        const iot_data_t * e = iot_data_map_get (mp, key); miss = !(e && iot_data_type (e) == t); sq_open (); sq_i (!miss); emit_num (t, &x); sq_close (); break; }
        case 6: GN (int64_t, i64, 6, -77)
        case 7: GN (uint64_t, ui64, 7, 78)
        case 9: GN (double, f64, 9, 0.375)
        case 10: GN (_Bool, bool, 10, chance (50))
        case 12: { const char * x = G (string); sq_raw ("[]"); sq_open (); sq_i (x != NULL); if (x) emit_bytes_n (x, strlen (x)); sq_close (); break; }
        case 11: { const void * x = G (pointer); sq_raw ("[]"); sq_open (); sq_i (x != NULL); if (x) { int b = lookup (x); sq_i (b ? 1000 + b : (int) ((const uint8_t *) x - refpool)); } sq_close (); break; }
        case 16: sq_raw ("[]"); sq_open (); emit_id (G (vector)); sq_close (); break;
        case 18: sq_raw ("[]"); sq_open (); emit_id (G (map)); sq_close (); break;
        case 15: sq_raw ("[]"); sq_open (); emit_id (iot_data_map_get_array (mp, key)); sq_close (); break;
        default: sq_raw ("[]"); sq_open (); emit_id (G (list)); sq_close (); break;
      }
#define bool _Bool
      fin (); return;
    }
    case 15:
    {
      k = probe_key (m); if (!k) return;
      bool str = tab[k].type == 12 && chance (50); const char * s = str ? iot_data_string (D (k)) : NULL; o = (int) rnd (12); uint8_t out[8]; memset (out, 0, 8); bool ok; int t = o == 11 ? 4 : o;
      if (o == 11) ok = str ? iot_data_string_map_get_int (D (m), s, (int *) out) : iot_data_map_get_int (D (m), D (k), (int *) out);
      else ok = str ? iot_data_string_map_get_number (D (m), s, (iot_data_type_t) o, out) : iot_data_map_get_number (D (m), D (k), (iot_data_type_t) o, out);
      begin (str ? "smgnum" : "mgnum"); sq_i (m); if (str) sq_bytes (s, strlen (s)); else sq_i (k); sq_i (t); sq_open (); sq_i (ok); if (ok) emit_num (t, out); sq_close (); fin (); return;
    }
    case 16:
      if (chance (40))
      {
        const iot_data_t * a = iot_data_map_start (D (m)), * b = iot_data_map_end (D (m));
        if (chance (60) && (!a || (iot_data_type (a) == IOT_DATA_POINTER && iot_data_type (b) == IOT_DATA_POINTER))) { begin ("mendp"); sq_i (m); emit_ptr (iot_data_map_start_pointer (D (m))); emit_ptr (iot_data_map_end_pointer (D (m))); fin (); return; }
        if (chance (15))
        {   /* a map of pointers */
          static const char * const ks[] = { "p", "q", "r" }; int pm = made (iot_data_alloc_map (IOT_DATA_STRING), 18, 19, 12, NULL, 0, 0, 0);
          for (int q = (int) rnd (4); q; q--) { const char * c = ks[rnd (3)]; int a2 = made (iot_data_alloc_string (c, IOT_DATA_COPY), 12, 20, 20, c, 1, 0, 0), v2 = mk_pointer (); tab[a2].frozen = true; begin ("madd"); sq_i (pm); sq_i (a2); sq_i (v2); iot_data_map_add (D (pm), D (a2), D (v2)); gave (a2); gave (v2); fin (); }
          begin ("mendp"); sq_i (pm); emit_ptr (iot_data_map_start_pointer (D (pm))); emit_ptr (iot_data_map_end_pointer (D (pm))); fin (); return;
        }
        begin ("mends"); sq_i (m); emit_id (iot_data_map_start (D (m))); emit_id (iot_data_map_end (D (m))); fin (); return; }
      if (chance (30)) { begin ("mempty"); sq_i (m); iot_data_map_empty (D (m)); fin (); break; }
      k = pick (M (18)); if (!k) return;
      {
        iot_typecode_t t2; iot_data_typecode (D (k), &t2); if (tc.key_type != IOT_DATA_MULTI && tc.key_type != t2.key_type) return; if (tc.element_type != IOT_DATA_MULTI && tc.element_type != t2.element_type) return;
        if ((k != m && below (k, m)) || depth_of (D (k)) > 3 || tree_size (D (m)) + tree_size (D (k)) > 60) return;
        begin ("mmerge"); sq_i (m); sq_i (k); iot_data_map_merge (D (m), D (k)); fin ();
      }
      break;
    default:
    {
      begin ("iter"); sq_i (m); sq_open ();
      iot_data_map_iter_t it; iot_data_iter_t g; bool gen = chance (25); int spare[16], ns = 0;
      if (gen) iot_data_iter (D (m), &g); else iot_data_map_iter (D (m), &it);
      int n = 2 + (int) rnd (14); bool back = chance (30);
      for (int q = 0; q < n; q++)
      {
        sq_open ();
        switch (rnd (gen ? 8 : 12))
        {
          case 0: case 1: case 2: case 3: if (back) { sq_raw ("\"prev\""); sq_i (gen ? iot_data_iter_prev (&g) : iot_data_map_iter_prev (&it)); } else { sq_raw ("\"next\""); sq_i (gen ? iot_data_iter_next (&g) : iot_data_map_iter_next (&it)); } break;
          case 4: if (chance (60)) back = !back; /* fall through */
          case 5: sq_raw ("\"has\""); sq_i (gen ? iot_data_iter_has_next (&g) : iot_data_map_iter_has_next (&it)); break;
          case 6: case 7: case 8: { const iot_data_t * x = gen ? iot_data_iter_value (&g) : iot_data_map_iter_value (&it);
            if (!gen && chance (40) && (!x || iot_data_type (x) == IOT_DATA_STRING)) { sq_raw ("\"str\""); emit_str (iot_data_map_iter_string_value (&it)); break; }
            if (!gen && chance (40) && (!x || iot_data_type (x) == IOT_DATA_POINTER)) { sq_raw ("\"ptr\""); emit_ptr (iot_data_map_iter_pointer_value (&it)); break; }
            if (!gen && chance (40) && (!x || iot_data_type (x) == IOT_DATA_BOOL)) { sq_raw ("\"bool\""); sq_i (iot_data_map_iter_bool_value (&it)); break; }
            sq_raw ("\"val\""); emit_id (x); break; }
          case 9: { const iot_data_t * x = iot_data_map_iter_key (&it); if (!x || iot_data_type (x) == IOT_DATA_STRING) { sq_raw ("\"kstr\""); emit_str (iot_data_map_iter_string_key (&it)); break; } } /* fall through */
          case 10: sq_raw ("\"key\""); emit_id (iot_data_map_iter_key (&it)); break;
          default:
          {
            iot_data_t * nv = chance (50) ? iot_data_alloc_bool (chance (50)) : iot_data_alloc_null ();
            if (tc.element_type != IOT_DATA_MULTI) { sq_raw ("\"val\""); emit_id (iot_data_map_iter_value (&it)); break; }
            sq_raw ("\"rep\""); sq_i (lookup (nv)); iot_data_t * old = iot_data_map_iter_replace_value (&it, nv); int i = lookup (old); sq_i (old && !i ? -1 : i); if (i) { tab[i].held++; spare[ns++] = i; } break;
          }
        }
        sq_close ();
      }
      sq_close (); fin ();
      for (int q = 0; q < ns; q++) if (!tab[spare[q]].konst) op_free (spare[q]);
    }
  }
  dump (m);
}
static int sgn (int x) { return x < 0 ? -1 : x > 0; }
static void op_eq (int a, int b)
{
  const iot_data_t * x = a ? D (a) : NULL, * y = b ? D (b) : NULL;
  begin ("eq"); sq_i (a); sq_i (b); sq_i (iot_data_equal (x, y)); sq_i (sgn (iot_data_compare (x, y))); sq_i (sgn (iot_data_compare (y, x)));
  sq_i (iot_data_equal_value (x, y)); sq_i (sgn (iot_data_compare_value (x, y))); sq_i (sgn (iot_data_compare_value (y, x))); sq_i (iot_data_hash (x) == iot_data_hash (y)); fin ();
}
static int op_copy (int i)
{
  begin ("copy"); iot_data_t * c = iot_data_copy (D (i)); int j = discover (c); sq_i (i); sq_i (j); emit_fresh (); tab[j].held++; fin (); return j;
}
static int like (int i)     /* another value of the same type, often equal */
{
  if (chance (50)) return op_copy (i);
  int c[MAXO], n = 0; for (int k = 1; k <= nob; k++) if (k != i && tab[k].live && !tab[k].buf && (tab[k].held || tab[k].konst) && tab[k].type == tab[i].type) c[n++] = k;
  return n ? c[rnd ((uint32_t) n)] : pick (ALL);
}
static void op_twin (void);
static void op_eqs (void)
{
  if (chance (25)) { op_twin (); return; }
  int a = any (ALL), b; if (!a) return;
  b = chance (10) ? 0 : chance (60) ? like (a) : any (chance (50) ? (1u << tab[a].type) : IOT_DATA_MULTI > tab[a].type && tab[a].type < 10 ? NUMS : ALL);
  if (chance (50)) op_eq (a, b); else op_eq (b, a);
  if (chance (30) && b)
  {
    int c = like (a); if (!c) return;
    begin ("ord3"); sq_i (sgn (iot_data_compare (D (a), D (b)))); sq_i (sgn (iot_data_compare (D (b), D (c)))); sq_i (sgn (iot_data_compare (D (a), D (c)))); fin ();
  }
}
/* a change made after the value has been compared: it equals a copy built afresh, before and after */
static void op_twin (void)
{
  int i = pick_mut (COMP); if (!i || tab[i].konst || tree_size (D (i)) > 40) return;
  int j = op_copy (i); op_eq (i, j); op_free (j);
  focus = i;
  for (int n = 1 + (int) rnd (2); n; n--) switch (tab[i].type) { case 16: op_vector (); break; case 17: op_list (); break; default: op_map (); }
  focus = 0;
  if (!tab[i].live || !tab[i].held || tree_size (D (i)) > 40) return;
  j = op_copy (i); op_eq (i, j);
}
static void op_types (void)
{
  int i = any (ALL); if (!i) return; iot_typecode_t tc;
  static int tagged; if (tagged && tab[tagged].live && tab[tagged].fresh && is (tagged, ALL) && chance (20)) i = tagged;
  iot_data_typecode (D (i), &tc);
  if (tab[i].fresh && !tab[i].konst && chance (i == tagged ? 80 : 30))
  {
    tagged = i; int w = 1 + (int) rnd (2); bool v = rnd (2);
    if (chance (50)) { begin ("tag"); sq_i (i); sq_i (w); sq_i (v); sq_i (iot_data_set_tag (D (i), (iot_data_tag_t) w, v)); fin (); }
    else { begin ("gtag"); sq_i (i); sq_i (w); sq_i (iot_data_get_tag (D (i), (iot_data_tag_t) w)); fin (); }
    return;
  }
  if (chance (30))
  {   /* the kind of the value, its elements and its keys, asked for and guessed */
    int t = chance (50) ? (int) tc.type : (int) rnd (19), et = chance (50) ? (int) tc.element_type : (int) rnd (21), kt = chance (50) ? (int) tc.key_type : (int) rnd (21); iot_data_t * d = D (i);
    begin ("tq"); sq_i (i); sq_i (t); sq_i (iot_data_is_of_type (d, (iot_data_type_t) t)); sq_i (et); sq_i (iot_data_array_is_of_type (d, (iot_data_type_t) et)); sq_i (kt); sq_i (iot_data_map_key_is_of_type (d, (iot_data_type_t) kt));
    sq_i (tc.type == 18 ? iot_data_map_type (d) : tc.type == 16 ? iot_data_vector_type (d) : tc.type == 17 ? iot_data_list_type (d) : tc.type == 14 || tc.type == 15 ? iot_data_array_type (d) : 20);
    sq_i (tc.type == 18 ? iot_data_map_key_type (d) : 20); fin ();
    return;
  }
  if (chance (50)) { begin ("tc"); sq_i (i); sq_open (); sq_i (tc.type); sq_i (tc.element_type); sq_i (tc.key_type); sq_close (); sq_i (iot_data_type (D (i))); sq_i (iot_data_length (D (i))); sq_i (iot_data_name_type (iot_data_type_name (D (i)))); fin (); }
  else
  {
    if (chance (50)) tc.type = (iot_data_type_t) rnd (19); if (chance (30)) tc.element_type = (iot_data_type_t) (chance (50) ? 19 : rnd (21)); if (chance (30)) tc.key_type = (iot_data_type_t) (chance (50) ? 19 : rnd (21));
    begin ("match"); sq_i (i); sq_open (); sq_i (tc.type); sq_i (tc.element_type); sq_i (tc.key_type); sq_close (); sq_i (iot_data_matches (D (i), &tc));
    iot_typecode_t own; iot_data_typecode (D (i), &own); sq_i (iot_typecode_equal (&tc, &own)); sq_i (iot_typecode_equal (&own, &tc)); sq_i (iot_typecode_equal (&own, &own) + 2 * iot_typecode_equal (NULL, NULL) + 4 * iot_data_matches (D (i), NULL) + 8 * iot_typecode_equal (&own, NULL)); fin ();
  }
}
static int result (iot_data_t * r)      /* a value the call returned to the caller: its number and what is new */
{
  int i = discover (r); sq_i (i); emit_fresh (); if (i && !tab[i].konst) tab[i].held++;
  if (i && tab[i].konst) tab[i].held++;
  return i;
}
static void emit_nums (const iot_data_t * a)
{
  uint32_t n = iot_data_array_length (a); int t = iot_data_array_type (a); size_t sz = iot_data_type_size ((iot_data_type_t) t); const uint8_t * p = iot_data_address (a);
  sq_open (); for (uint32_t i = 0; i < n; i++) { sq_open (); emit_num (t, p + i * sz); sq_close (); } sq_close ();
}
static void op_array (void)
{
  int i = pick (M (14) | M (15)); if (!i) { mk_array (); return; }
  iot_typecode_t tc; iot_data_typecode (D (i), &tc); int sz = (int) iot_data_type_size (tc.element_type), t; iot_data_t * r;
  switch (rnd (8))
  {
    case 0: if (tc.element_type != IOT_DATA_UINT8 || tab[i].frozen) return;
      if (iot_data_ref_count (D (i)) != (uint32_t) tab[i].held) return;   /* an element of a typed container must keep its type */
      t = 14 + (int) rnd (2); begin ("a2b"); sq_i (i); sq_i (t); if (t == 14) iot_data_array_to_binary (D (i)); else iot_data_binary_to_array (D (i)); tab[i].type = t; fin (); break;
    case 1:
    {
      if (tab[i].frozen) return;
      uint32_t len = 0; uint32_t before = iot_data_array_length (D (i)); begin ("btake"); uint8_t * p = iot_data_binary_take (D (i), &len); sq_i (i); sq_i (len); sq_bytes (p, p ? len : 0);
      int b = lookup (p); if (p && !b) { b = add_obj (p, 30); tab[b].buf = true; } if (b) tab[b].held++; sq_i (b); sq_i (before && !iot_data_array_length (D (i))); fin (); break;
    }
    case 2:
    {
      if (chance (50)) { i = any (M (12)); if (!i) return; begin ("tobin"); r = iot_data_binary_from_string (D (i)); }
      else { if (tab[i].type != 14) return; begin ("tostr"); r = iot_data_string_from_binary (D (i)); }
      sq_i (i); result (r); fin (); return;
    }
    case 3: { if (tab[i].type != 15 || !iot_data_array_length (D (i))) return; uint32_t k = rnd (iot_data_array_length (D (i))); begin ("aget"); sq_i (i); sq_i (k); sq_bytes (iot_data_array_get (D (i), k), (size_t) sz); fin (); return; }
    case 4:
    {
      if (tab[i].type != 15) return; t = (int) rnd (11); begin ("atrans"); r = iot_data_array_transform (D (i), (iot_data_type_t) t); sq_i (i); sq_i (t); result (r);
      emit_nums (D (i)); emit_nums (r); fin (); return;
    }
    default:
    {
      begin ("iter"); sq_i (i); sq_open (); iot_data_array_iter_t it; iot_data_array_iter (D (i), &it); int n = 2 + (int) rnd (12); bool back = chance (30), pos = false;
      for (int k = 0; k < n; k++)
      {
        sq_open ();
        switch (rnd (9))
        {
          case 0: case 1: case 2: case 3: if (back) { sq_raw ("\"prev\""); sq_i (pos = iot_data_array_iter_prev (&it)); } else { sq_raw ("\"next\""); sq_i (pos = iot_data_array_iter_next (&it)); } break;
          case 4: if (chance (60)) back = !back; /* fall through */
          case 5: sq_raw ("\"has\""); sq_i (iot_data_array_iter_has_next (&it)); break;
          case 6: if (pos) { sq_raw ("\"idx\""); sq_i (iot_data_array_iter_index (&it)); break; } /* fall through */
          default: { const void * p = iot_data_array_iter_value (&it); sq_raw ("\"bytes\""); sq_bytes (p, p ? (size_t) sz : 0); break; }
        }
        sq_close ();
      }
      sq_close (); fin (); return;
    }
  }
  dump (i);
}

static void op_b64 (void)
{
  int m = pick_mut (M (18)); if (!m) return;
  iot_typecode_t tc; iot_data_typecode (D (m), &tc);
  if (tc.key_type == IOT_DATA_MULTI || tc.element_type != IOT_DATA_MULTI || iot_data_map_size (D (m)) > 12) return;
  int k = key_for (m), v; if (!k) return;
  uint8_t raw[32]; uint32_t n = rnd (12); for (uint32_t i = 0; i < n; i++) raw[i] = (uint8_t) rnd (256);
  char txt[64]; bool good = chance (80);
  if (good) iot_b64_encode (raw, n, txt, sizeof txt); else strcpy (txt, "a*b");
  op_ref (k);
  v = made (iot_data_alloc_string (txt, IOT_DATA_COPY), 12, 20, 20, txt, strlen (txt), 0, 0);
  begin ("madd"); sq_i (m); sq_i (k); sq_i (v); iot_data_map_add (D (m), D (k), D (v)); gave (k); gave (v); fin ();
  if (chance (40)) op_eq (m, pick (M (18)));
  begin ("mb64"); bool ok = iot_data_map_base64_to_array (D (m), D (k)); const iot_data_t * x = iot_data_map_get (D (m), D (k));
  sq_i (m); sq_i (k); sq_i (ok); int i = lookup (x); if (i) sq_i (0); else { i = discover (x); sq_i (i); } emit_fresh ();
  sq_open (); if (good) emit_bytes_n (raw, n); else sq_i (-1); sq_close (); fin (); dump (m);
  op_free (k);
}
static void op_conv (void)
{
  int i, t; bool rc = chance (50); iot_data_t * r;
  switch (rnd (4))
  {
    case 0: i = any (M (16)); if (!i) return; t = (int) rnd (11); begin ("vtoarr"); r = iot_data_vector_to_array (D (i), (iot_data_type_t) t, rc); sq_i (i); sq_i (t); sq_i (rc); result (r); emit_nums (r); fin (); break;
    case 1: i = any (M (16)); if (!i) return; t = rand_type (); begin ("vtovec"); r = iot_data_vector_to_vector (D (i), (iot_data_type_t) t, rc); sq_i (i); sq_i (t); sq_i (rc); result (r); fin (); break;
    default: i = any (ALL); if (!i) return; t = chance (50) ? (int) rnd (11) : (int) rnd (19); begin ("transf"); r = iot_data_transform (D (i), (iot_data_type_t) t); sq_i (i); sq_i (t); result (r); fin (); break;
  }
}
static void op_copies (void)
{
  int i = any (chance (70) ? COMP : ALL), j; if (!i || tree_size (D (i)) > 60) return;
  if (chance (70)) { j = op_copy (i); if (chance (60)) op_eq (i, j); }
  else { begin ("shallow"); iot_data_t * r = iot_data_shallow_copy (D (i)); sq_i (i); j = result (r); fin (); if (chance (50)) op_eq (i, j); }
}
static void op_meta (void)
{
  int i = pick_mut (ALL), k, v; if (!i || tab[i].konst) return;
  k = metakey[rnd ((uint32_t) nmetakey)];
  if (chance (60))
  {
    v = mk_scalar ();
    begin ("meta"); sq_i (i); sq_i (v); sq_i (k); iot_data_set_metadata (D (i), D (v), D (k)); gave (v); fin (); dump (i);
  }
  else { begin ("gmeta"); sq_i (i); sq_i (k); emit_id (iot_data_get_metadata (D (i), D (k))); fin (); }
}
static void op_inc (void)
{
  int i = pick_if (NUMS, true, true); if (!i || tab[i].held != 1 || iot_data_ref_count (D (i)) != 1) return;
  int d = chance (50) ? 1 : -1, t = tab[i].type; const uint8_t * p = iot_data_address (D (i));
  if (t >= 8) { double x = t == 8 ? (double) iot_data_f32 (D (i)) : iot_data_f64 (D (i)); if (x != floor (x) || fabs (x) > 1e6) return; }
  if (t == 4 && (iot_data_i32 (D (i)) == INT32_MAX || iot_data_i32 (D (i)) == INT32_MIN)) return;
  if (t == 6 && (iot_data_i64 (D (i)) == INT64_MAX || iot_data_i64 (D (i)) == INT64_MIN)) return;
  begin ("inc"); d > 0 ? iot_data_increment (D (i)) : iot_data_decrement (D (i)); sq_i (i); sq_i (d); sq_open (); emit_num (t, p); sq_close (); fin ();
  if (chance (70)) { int j = like (i); if (j) op_eq (i, j); }
}
static void refreeze (const iot_data_t * d)
{
  if (!d) return;
  int i = lookup (d); if (!i) return;
  if (tab[i].type == IOT_DATA_VECTOR) for (uint32_t k = 0; k < iot_data_vector_size (d); k++) refreeze (iot_data_vector_get (d, k));
  if (tab[i].type == IOT_DATA_LIST) { iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) refreeze (iot_data_list_iter_value (&it)); }
  if (tab[i].type == IOT_DATA_MAP) { iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (iot_data_map_iter_next (&it)) { int k = lookup (iot_data_map_iter_key (&it)); if (k) tab[k].frozen = true; refreeze (iot_data_map_iter_value (&it)); } }
}
static void op_compress (void)
{
  int i = pick (COMP); if (!i || tree_size (D (i)) > 50) return;
  int j = chance (40) ? pick (COMP) : 0; if (j && tree_size (D (j)) > 50) j = 0;
  begin ("compr");
  if (j || chance (20))
  {
    iot_data_t * cache = iot_data_alloc_typed_map (IOT_DATA_MULTI, IOT_DATA_MULTI);
    iot_data_compress_with_cache (D (i), cache); if (j) iot_data_compress_with_cache (D (j), cache);
    iot_data_free (cache);
  }
  else iot_data_compress (D (i));
  sq_i (i);
  memset (seen, 0, sizeof seen); mark (D (i)); refreeze (D (i)); if (j) { mark (D (j)); refreeze (D (j)); }
  sq_open (); for (int k = 1; k <= nob; k++) if (seen[k]) { sq_open (); sq_i (k); emit_obj (k); sq_close (); } sq_close (); sq_i (j); fin ();
  dump (i); if (j) dump (j);
}
/* ---- paths */
static int upd_value, upd_seen;
static iot_data_t * upd_fn (const iot_data_t * d, void * arg) { (void) arg; int i = lookup (d); upd_seen = d && !i ? -2 : i; return D (upd_value); }
static int mk_index (uint32_t n) { return made (iot_data_alloc_ui32 (n), 5, 20, 20, &n, 0, 0, 0); }
static void op_path (void)
{
  static const int kinds[] = { 0, 0, 1, 1, 2, 2, 3, 3, 3 };
  int what = kinds[rnd (9)];    /* get add remove update */
  int i = pick (M (16) | M (18)); if (!i || tree_size (D (i)) > 50) return;
  int steps[6], n = 0; const iot_data_t * at = D (i), * last = NULL; bool open = false; int max = 1 + (int) rnd (3);
  while (n < max && at && !open)
  {
    int k = 0;
    if (iot_data_type (at) == IOT_DATA_MAP)
    {
      int m = lookup (at); uint32_t sz = iot_data_map_size (at); iot_data_map_iter_t it;
      if (sz && chance (85))
      {
        uint32_t q = rnd (sz); iot_data_map_iter (at, &it); for (uint32_t z = 0; z <= q; z++) iot_data_map_iter_next (&it);
        k = lookup (iot_data_map_iter_key (&it)); if (!k) return;
        if (chance (50)) k = op_copy (k); else op_ref (k);
      }
      else { k = key_for (m); if (!k) return; }
      last = at; at = iot_data_map_get (at, D (k)); if (!at) open = true;
    }
    else if (iot_data_type (at) == IOT_DATA_VECTOR)
    {
      uint32_t sz = iot_data_vector_size (at);
      if (what == 0 && chance (12)) { k = chance (50) ? mk_index (sz + rnd (2)) : mk_scalar (); last = at; at = NULL; open = true; if (tab[k].type == 5) at = NULL; }
      else
      {
        if (!sz) break;
        uint32_t q = rnd (sz);
        if (what == 3 && !iot_data_vector_get (at, q)) break; k = mk_index (q); last = at; at = iot_data_vector_get (at, q); if (!at) open = true;
      }
    }
    else
    {
      if (what == 0 && chance (20)) { k = mk_scalar (); at = NULL; open = true; } else break;
    }
    steps[n++] = k;
  }
  if (n && what == 0 && chance (8)) { steps[n++] = mk_scalar (); }       /* beyond where it leads */
  iot_typecode_t tc = { .element_type = IOT_DATA_MULTI }; if (last) iot_data_typecode (last, &tc);
  int path = made (iot_data_alloc_list (), 17, 19, 20, NULL, 0, 0, 0), v = 0;
  for (int q = 0; q < n; q++) { begin ("lpush"); sq_i (path); sq_i (1); sq_i (steps[q]); iot_data_list_tail_push (D (path), D (steps[q])); gave (steps[q]); fin (); }
  if (what == 1 || what == 3)
  {
    v = tc.element_type == IOT_DATA_MULTI ? mk_scalar () : mk_type (tc.element_type);
    if (what == 3 && tc.element_type == IOT_DATA_MULTI && !v) { op_free (path); return; }
  }
#define PATH sq_i (i); sq_open (); for (int q = 0; q < n; q++) sq_i (steps[q]); sq_close ()
  iot_data_t * r; int res;
  switch (what)
  {
    case 0: begin ("getp"); PATH; emit_id (iot_data_get_at (D (i), D (path))); fin (); break;
    case 1: begin ("addat"); r = iot_data_add_at (D (i), D (path), D (v)); PATH; sq_i (v); gave (v); result (r); fin (); refreeze (r); break;
    case 2: begin ("rmat"); r = iot_data_remove_at (D (i), D (path)); PATH; res = result (r); fin (); (void) res; refreeze (r); break;
    default:
      upd_value = v; upd_seen = -1;
      begin ("updat"); r = iot_data_update_at (D (i), D (path), upd_fn, NULL); PATH; sq_i (upd_seen); sq_i (v); if (upd_seen != -1) gave (v); result (r); fin (); refreeze (r);
      if (upd_seen == -1 && tab[v].held > 0 && !tab[v].konst) op_free (v);
      break;
  }
  dump (i);
  op_free (path);
}
/* ------------------------------------------------------------ histories */
static void konst_entry (const iot_data_t * d, bool more)
{
  int i = discover (d); tab[i].konst = true; if (iot_data_type (d) == IOT_DATA_STRING) tab[i].frozen = true;
  sq_open (); sq_i (i); emit_obj (i); sq_close (); (void) more;
}
static iot_data_t * konst_num (iot_data_static_t * d)
{
  int64_t v = chance (50) ? (int64_t) rnd (4) : chance (50) ? -1 - (int64_t) rnd (2) : (int64_t) (0x7fffffffffffff00ull >> (8 * rnd (8))) + (int64_t) rnd (256);
  switch (rnd (8))
  {
    case 0: return iot_data_alloc_const_i8 (d, (int8_t) v); case 1: return iot_data_alloc_const_ui8 (d, (uint8_t) v);
    case 2: return iot_data_alloc_const_i16 (d, (int16_t) v); case 3: return iot_data_alloc_const_ui16 (d, (uint16_t) v);
    case 4: return iot_data_alloc_const_i32 (d, (int32_t) v); case 5: return iot_data_alloc_const_ui32 (d, (uint32_t) v);
    case 6: return iot_data_alloc_const_i64 (d, v); default: return iot_data_alloc_const_ui64 (d, (uint64_t) v);
  }
}
void seq_child_start (void)
{
  for (int i = 0; i < 256; i++) refpool[i] = (uint8_t) (i / 5 % 3);
  for (int i = 0; i < 4; i++) { int n = i * 15; for (int k = 0; k < n; k++) refstr[i][k] = (char) ('a' + (i + k) % 3); refstr[i][n] = 0; }
  static const char * names[] = { "a", "bb", "kc", "kd" };
  for (int i = 0; i < 4; i++) kkey[i] = iot_data_alloc_const_string (&kdata[i], names[i]);
  iot_data_t * kl = iot_data_alloc_const_list (&klist);
  rec = true; nlive = 0;
  size_t from = sq_pos ();
  sq_open ();
  iot_data_t * n = iot_data_alloc_null (), * t = iot_data_alloc_bool (true), * f = iot_data_alloc_bool (false);
  konst_entry (n, true); konst_entry (t, true); konst_entry (f, true);
  for (int i = 0; i < 4; i++) { konst_entry (kkey[i], true); if (i >= 2) metakey[nmetakey++] = lookup (kkey[i]); }
  konst_entry (kl, false);
  for (int i = 4; i < 8; i++) konst_entry (konst_num (&kdata[i]), true);
  sq_close ();
  sq_take_param ("consts", from);
  sq_param ("\"fr\":%d", FR);
  nfresh = 0;
}
static void history (const int * w, int steps)
{
  static void (* const ops[]) (void) = { NULL, NULL, op_list, op_vector, op_map, op_eqs, op_types, op_array, op_conv, op_copies, op_meta, op_inc, op_compress, op_path, op_b64 };
  if (FR == 0) iot_data_alloc_heap (chance (30));
  int tot = 0; for (int i = 0; i < 15; i++) tot += w[i];
  for (int s = 0; s < steps && sq_pos () < 600000; s++)
  {
    int r = (int) rnd ((uint32_t) tot), o = 0; while (r >= w[o]) r -= w[o++];
    int live = 0; for (int i = 1; i <= nob; i++) live += tab[i].live;
    if (live > 150 || chance (4)) o = 1;
    if (o == 10 && !use_meta) o = 2;
    if (o == 0) { switch (rnd (3)) { case 0: mk_comp (16 + (int) rnd (3)); break; default: mk_scalar (); } }
    else if (o == 1)
    {
      int c[MAXO], n = 0; for (int i = 1; i <= nob; i++) if (tab[i].live && tab[i].held > 0 && !tab[i].konst) c[n++] = i;
      if (n > 1) { int i = c[rnd ((uint32_t) n)]; if (!tab[i].buf && chance (15)) op_ref (i); else op_free (i); }
    }
    else ops[o] ();
    if (chance (10)) { int i = pick (COMP); dump (i); }
  }
  /* everything goes: constant lists are emptied, every reference the caller still has is dropped */
  for (int i = 1; i <= nob; i++) if (tab[i].live && tab[i].konst && tab[i].type == IOT_DATA_LIST) { begin ("lempty"); sq_i (i); iot_data_list_empty (D (i)); fin (); }
  for (int i = nob; i > 0; i--) while (tab[i].live && tab[i].held > 0) op_free (i);
  rec = false;
  begin ("end"); sq_i (FR ? nlive : 0); fin ();
}
/* vectors of vectors, nearly all of one shape */
static int mk_grid (const int * dim, int depth)
{
  int n = chance (6) ? (int) rnd (4) : dim[0];
  int l = made (iot_data_alloc_vector ((uint32_t) n), 16, 19, 20, NULL, 0, n, 0);
  for (int i = 0; i < n; i++)
  {
    int v = chance (4) ? 0 : depth > 1 ? mk_grid (dim + 1, chance (4) ? 1 : depth - 1)  : mk_num (chance (60) ? 4 : (int) rnd (10));
    if (chance (3) && v) { op_free (v); v = mk_scalar (); }
    begin ("vadd"); sq_i (l); sq_i (i); sq_i (v); iot_data_vector_add (D (l), (uint32_t) i, v ? D (v) : NULL); gave (v); fin ();
  }
  return l;
}
static int mk_grid_of (void) { int dim[5]; for (int i = 0; i < 5; i++) dim[i] = chance (12) ? 0 : 1 + (int) rnd (3); return mk_grid (dim, 1 + (int) rnd (3)); }
static void sc_grid (uint32_t r)
{
  (void) r;
  for (int s = 0; s < 8; s++)
  {
    int l = mk_grid_of (), t; iot_data_t * q; uint32_t total = 77;
    dump (l);
    begin ("vdims"); q = iot_data_vector_dimensions (D (l), &total); sq_i (l); sq_i (total); sq_open ();
    if (!q) sq_i (-1); else { if (iot_data_type (q) != IOT_DATA_ARRAY || iot_data_array_type (q) != IOT_DATA_UINT32) sq_i (-9); else for (uint32_t i = 0; i < iot_data_array_length (q); i++) sq_i (*(uint32_t *) iot_data_array_get (q, i)); }
    sq_close (); iot_data_free (q); fin ();
    bool rc = chance (70); t = chance (40) ? 19 : chance (40) ? 16 : 4;
    begin ("vcount"); sq_i (l); sq_i (t); sq_i (rc); sq_i (iot_data_vector_element_count (D (l), (iot_data_type_t) t, rc)); fin ();
    if (chance (60)) { t = (int) rnd (11); begin ("vtoarr"); q = iot_data_vector_to_array (D (l), (iot_data_type_t) t, rc); sq_i (l); sq_i (t); sq_i (rc); result (q); emit_nums (q); fin (); }
    if (chance (60)) { t = chance (70) ? (int) rnd (11) : rand_type (); begin ("vtovec"); q = iot_data_vector_to_vector (D (l), (iot_data_type_t) t, rc); sq_i (l); sq_i (t); sq_i (rc); result (q); fin (); }
    if (chance (60)) { begin ("vcomp"); sq_i (l); sq_i (iot_data_vector_compact (D (l))); fin (); dump (l); }
    if (chance (60)) { int c = op_copy (l); dump (c); }
  }
  history ((const int[15]) { 0 }, 0);
}
/* maps of many keys */
static void sc_big (uint32_t r)
{
  uint32_t range = 8 + rnd (40); bool multi = r % 2; int kt = multi ? 19 : 5;
  int m = made (iot_data_alloc_map ((iot_data_type_t) kt), 18, 19, kt, NULL, 0, 0, 0), k;
  for (int s = 0; s < 170; s++)
  {
    uint32_t x = rnd (range); int grow = (s / 35) % 2 ? 35 : 70;
    k = multi && x % 4 == 0 ? mk_num ((int) (x % 8)) : mk_index (x); tab[k].frozen = true;
    if (chance (grow))
    {
      int v = chance (50) ? same (iot_data_alloc_bool (true), 10, 1) : mk_index (rnd (5)), o;
      if (chance (75)) { begin ("madd"); sq_i (m); sq_i (k); sq_i (v); iot_data_map_add (D (m), D (k), D (v)); gave (k); gave (v); fin (); }
      else { begin ("munus"); sq_i (m); sq_i (k); sq_i (v); o = iot_data_map_add_unused (D (m), D (k), D (v)); sq_i (o); if (o) { gave (k); gave (v); } fin (); if (!o) { op_free (k); if (!tab[v].konst) op_free (v); } }
    }
    else { bool rem = chance (70); begin (rem ? "mrem" : "mget"); if (rem) { sq_i (m); sq_i (k); sq_i (iot_data_map_remove (D (m), D (k))); } else { sq_i (m); sq_i (k); emit_id (iot_data_map_get (D (m), D (k))); } fin (); op_free (k); }
    if (s % 10 == 9) dump (m);
    if (chance (3)) { begin ("mends"); sq_i (m); emit_id (iot_data_map_start (D (m))); emit_id (iot_data_map_end (D (m))); fin (); }
  }
  history ((const int[15]) { 0 }, 0);
}
/* more elements than fit in one byte */
static void walk (int i, int kind)       /* kind 0 array, 1 vector, 2 list */
{
  bool back = chance (40); iot_data_array_iter_t ai; iot_data_vector_iter_t vi; iot_data_list_iter_t li; int every = 5 + (int) rnd (30); bool pos = true; iot_typecode_t tc;
  iot_data_typecode (D (i), &tc); int sz = (int) iot_data_type_size (tc.element_type);
  begin ("iter"); sq_i (i); sq_open ();
  if (kind == 0) iot_data_array_iter (D (i), &ai); else if (kind == 1) iot_data_vector_iter (D (i), &vi); else iot_data_list_iter (D (i), &li);
  for (int k = 0; k < 700 && pos; k++)
  {
    sq_open (); sq_raw (back ? "\"prev\"" : "\"next\"");
    if (kind == 0) pos = back ? iot_data_array_iter_prev (&ai) : iot_data_array_iter_next (&ai);
    else if (kind == 1) pos = back ? iot_data_vector_iter_prev (&vi) : iot_data_vector_iter_next (&vi);
    else pos = back ? iot_data_list_iter_prev (&li) : iot_data_list_iter_next (&li);
    sq_i (pos); sq_close ();
    if (!pos) break;
    if (k % every) continue;
    if (kind == 0) { sq_open (); sq_raw ("\"idx\""); sq_i (iot_data_array_iter_index (&ai)); sq_close (); sq_open (); sq_raw ("\"bytes\""); sq_bytes (iot_data_array_iter_value (&ai), (size_t) sz); sq_close (); }
    else { const iot_data_t * x = kind == 1 ? iot_data_vector_iter_value (&vi) : iot_data_list_iter_value (&li); int e = lookup (x); sq_open (); sq_raw ("\"val\""); sq_i (x && !e ? -1 : e); sq_close (); }
  }
  sq_close (); fin ();
}
static void sc_long (uint32_t r)
{
  int n = 200 + (int) rnd (120), l, v; iot_data_t * q;
  if (r % 3 == 0)
  {
    static const int ets[] = { 1, 3, 0, 5, 2, 7 }; int et = ets[rnd (6)]; uint8_t raw[8 * 320]; size_t sz = iot_data_type_size ((iot_data_type_t) et);
    for (size_t i = 0; i < n * sz; i++) raw[i] = (uint8_t) rnd (256);
    l = made (iot_data_alloc_array (raw, (uint32_t) n, (iot_data_type_t) et, IOT_DATA_COPY), 15, et, 20, raw, n * sz, 0, 0);
    walk (l, 0); walk (l, 0); dump (l);
    int t = (int) rnd (8); begin ("atrans"); q = iot_data_array_transform (D (l), (iot_data_type_t) t); sq_i (l); sq_i (t); int c = result (q); emit_nums (D (l)); emit_nums (q); fin ();
    if (c) walk (c, 0);
    c = op_copy (l); dump (c); walk (c, 0);
    begin ("aget"); uint32_t k = (uint32_t) n - 1 - rnd (40); sq_i (l); sq_i (k); sq_bytes (iot_data_array_get (D (l), k), sz); fin ();
  }
  else if (r % 3 == 1)
  {
    int n1 = 10 + (int) rnd (250); l = made (iot_data_alloc_vector ((uint32_t) n1), 16, 19, 20, NULL, 0, n1, 0);
    begin ("vres"); sq_i (l); sq_i (n); iot_data_vector_resize (D (l), (uint32_t) n); fin ();
    for (int s = 0; s < 60; s++) { int i = chance (60) ? n - 1 - (int) rnd (60) : (int) rnd ((uint32_t) n); v = mk_index (rnd (20)); begin ("vadd"); sq_i (l); sq_i (i); sq_i (v); iot_data_vector_add (D (l), (uint32_t) i, D (v)); gave (v); fin (); }
    walk (l, 1); walk (l, 1);
    if (chance (50)) { int m = 190 + (int) rnd (120); begin ("vres"); sq_i (l); sq_i (m); iot_data_vector_resize (D (l), (uint32_t) m); fin (); walk (l, 1); }
    if (chance (50)) { int t = 4; begin ("vtoarr"); q = iot_data_vector_to_array (D (l), (iot_data_type_t) t, false); sq_i (l); sq_i (t); sq_i (0); result (q); emit_nums (q); fin (); }
    begin ("vcomp"); sq_i (l); sq_i (iot_data_vector_compact (D (l))); fin (); dump (l); walk (l, 1);
  }
  else
  {
    l = made (iot_data_alloc_list (), 17, 19, 20, NULL, 0, 0, 0); int k[8]; for (int i = 0; i < 8; i++) k[i] = mk_index ((uint32_t) i);
    for (int s = 0; s < n; s++) { v = k[rnd (8)]; op_ref (v); int end = (int) rnd (2); begin ("lpush"); sq_i (l); sq_i (end); sq_i (v); end ? iot_data_list_tail_push (D (l), D (v)) : iot_data_list_head_push (D (l), D (v)); gave (v); fin (); }
    dump (l); walk (l, 2); walk (l, 2);
    for (int s = 0; s < 40; s++) { int end = (int) rnd (2); begin ("lpop"); q = end ? iot_data_list_tail_pop (D (l)) : iot_data_list_head_pop (D (l)); sq_i (l); sq_i (end); v = lookup (q); sq_i (q && !v ? -1 : v); if (v) tab[v].held++; fin (); }
    dump (l); walk (l, 2);
  }
  history ((const int[15]) { 0 }, 0);
}
/*                            new free list vec map eq type arr conv copy meta inc compr path b64 */
static void sc_own (uint32_t r)  { static const int w[] = { 5, 12, 10, 10, 12, 2, 1, 8, 3, 5, 6, 1, 1, 4, 1 }; use_meta = r % 2; history (w, 70); }
static void sc_list (uint32_t r) { static const int w[] = { 3, 6, 40, 0, 1, 2, 1, 0, 0, 2, 0, 0, 0, 0, 0 }; (void) r; history (w, 70); }
static void sc_vec (uint32_t r)  { static const int w[] = { 3, 6, 0, 40, 1, 2, 1, 1, 6, 2, 0, 0, 0, 0, 0 }; (void) r; history (w, 70); }
static void sc_map (uint32_t r)  { static const int w[] = { 3, 6, 0, 0, 45, 2, 1, 0, 0, 2, 0, 0, 0, 0, 2 }; (void) r; history (w, 80); }
static void sc_eq (uint32_t r)   { static const int w[] = { 6, 4, 8, 8, 10, 30, 1, 6, 3, 4, 0, 6, 0, 1, 1 }; (void) r; history (w, 90); }
static void sc_copy (uint32_t r) { static const int w[] = { 4, 6, 9, 9, 12, 6, 1, 5, 0, 20, 5, 2, 1, 1, 0 }; use_meta = r % 2; history (w, 70); }
static void sc_path (uint32_t r) { static const int w[] = { 3, 5, 6, 9, 14, 1, 0, 0, 0, 2, 0, 0, 6, 24, 0 }; (void) r; history (w, 60); }
static void sc_arr (uint32_t r)  { static const int w[] = { 6, 5, 2, 6, 3, 4, 12, 34, 12, 4, 0, 0, 0, 0, 1 }; (void) r; history (w, 80); }
const seq_scenario_t seq_scenarios[] = { { "own", sc_own }, { "list", sc_list }, { "vec", sc_vec }, { "map", sc_map }, { "eq", sc_eq }, { "copy", sc_copy }, { "path", sc_path }, { "arr", sc_arr }, { "grid", sc_grid }, { "big", sc_big }, { "long", sc_long }, { NULL, NULL } };
