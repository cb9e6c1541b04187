/* What the text and binary formats read and write: JSON (values, ordering, tokens), CBOR, base64, XML and YAML.
   Every text handed to the library lies in a heap block of exactly its size, every buffer too. */
#include "seq.h"
#include "num.h"
#include "iot/data.h"
#include "iot/json.h"
#include "iot/base64.h"
#include "iot/iot.h"
#include <yaml.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <float.h>
#include <unistd.h>

extern void __real_free (void *); extern void * __real_malloc (size_t); extern void * __real_calloc (size_t, size_t); extern void * __real_realloc (void *, size_t); extern char * __real_strdup (const char *);
static long nlive; static bool rec;
#ifdef NDEBUG
#define FR 0
#else
#define FR 1
#endif
void __wrap_free (void * p) { if (p && rec) nlive--; __real_free (p); }
void * __wrap_malloc (size_t n) { if (rec) nlive++; return __real_malloc (n); }
void * __wrap_calloc (size_t n, size_t m) { if (rec) nlive++; return __real_calloc (n, m); }
void * __wrap_realloc (void * p, size_t n) { if (rec && !p) nlive++; return __real_realloc (p, n); }
char * __wrap_strdup (const char * s) { if (rec) nlive++; return __real_strdup (s); }
extern int __real_yaml_parser_parse (yaml_parser_t *, yaml_event_t *); extern void __real_yaml_event_delete (yaml_event_t *);
extern int __real_yaml_parser_initialize (yaml_parser_t *); extern void __real_yaml_parser_delete (yaml_parser_t *);
static bool holds (const yaml_event_t * e) { return e->type == YAML_SCALAR_EVENT || e->type == YAML_ALIAS_EVENT || e->type == YAML_SEQUENCE_START_EVENT || e->type == YAML_MAPPING_START_EVENT; }
int __wrap_yaml_parser_parse (yaml_parser_t * p, yaml_event_t * e) { int r = __real_yaml_parser_parse (p, e); if (r && rec && holds (e)) nlive++; return r; }
void __wrap_yaml_event_delete (yaml_event_t * e) { if (rec && holds (e)) nlive--; __real_yaml_event_delete (e); }
int __wrap_yaml_parser_initialize (yaml_parser_t * p) { int r = __real_yaml_parser_initialize (p); if (r && rec) nlive++; return r; }
void __wrap_yaml_parser_delete (yaml_parser_t * p) { if (rec) nlive--; __real_yaml_parser_delete (p); }
static void fin_live (void) { rec = false; sq_begin ("live"); sq_i (FR ? nlive : 0); sq_end (); sq_begin ("end"); sq_end (); }

/* ------------------------------------------------------------ values */
static void bytes (const void * p, size_t n) { sq_open (); const uint8_t * b = p; for (size_t i = 0; i < n; i++) sq_i (b[i]); sq_close (); }
static void emit_val (const iot_data_t * d)
{
  sq_open ();
  if (d == NULL) { sq_s ("u"); sq_close (); return; }
  iot_data_type_t t = iot_data_type (d);
  switch (t)
  {
    case IOT_DATA_NULL: sq_s ("n"); break;
    case IOT_DATA_BOOL: sq_s ("b"); sq_i (iot_data_bool (d)); break;
    case IOT_DATA_STRING: sq_s ("s"); bytes (iot_data_string (d), strlen (iot_data_string (d))); break;
    case IOT_DATA_BINARY: sq_s ("y"); bytes (iot_data_address (d), iot_data_array_size (d)); break;
    case IOT_DATA_FLOAT32: case IOT_DATA_FLOAT64: sq_s ("d"); sq_i (t); sq_open (); emit_num (t, iot_data_address (d)); sq_close (); break;
    case IOT_DATA_ARRAY:
    {
      sq_s ("a"); sq_open ();
      iot_data_array_iter_t it; iot_data_array_iter (d, &it); iot_data_type_t e = iot_data_array_type (d);
      while (iot_data_array_iter_next (&it))
      {
        sq_open (); const void * p = iot_data_array_iter_value (&it);
        if (e == IOT_DATA_BOOL) { sq_s ("b"); sq_i (*(const bool *) p); } else { sq_s (e >= IOT_DATA_FLOAT32 ? "d" : "i"); sq_i (e); sq_open (); emit_num (e, p); sq_close (); }
        sq_close ();
      }
      sq_close (); sq_s ("array"); break;
    }
    case IOT_DATA_VECTOR: sq_s ("a"); sq_open (); for (uint32_t i = 0; i < iot_data_vector_size (d); i++) emit_val (iot_data_vector_get (d, i)); sq_close (); break;
    case IOT_DATA_LIST: { sq_s ("a"); sq_open (); iot_data_list_iter_t it; iot_data_list_iter (d, &it); while (iot_data_list_iter_next (&it)) emit_val (iot_data_list_iter_value (&it)); sq_close (); sq_s ("list"); break; }
    case IOT_DATA_MAP:
    {
      sq_s ("o"); sq_open (); iot_data_map_iter_t it; iot_data_map_iter (d, &it);
      while (iot_data_map_iter_next (&it)) { sq_open (); emit_val (iot_data_map_iter_key (&it)); emit_val (iot_data_map_iter_value (&it)); sq_close (); }
      sq_close (); break;
    }
    default: if (t <= IOT_DATA_UINT64) { sq_s ("i"); sq_i (t); sq_open (); emit_num (t, iot_data_address (d)); sq_close (); } else sq_s ("?"); break;
  }
  sq_close ();
}

/* ------------------------------------------------------------ random JSON documents */
typedef struct { char * p; size_t n, cap; } buf_t;
static char store_[4][200000];
static void bc (buf_t * b, int c) { if (b->n + 1 < b->cap) b->p[b->n++] = (char) c; }
static void bs (buf_t * b, const char * s) { while (*s) bc (b, *s++); }
static buf_t bufn (int i) { buf_t b = { store_[i], 0, sizeof store_[i] }; return b; }
static int wsrate;
static void ws (buf_t * b) { while (chance ((uint32_t) wsrate)) bc (b, " \t\r\n"[rnd (4)]); }
static void utf8 (buf_t * b, uint32_t c)
{
  if (c < 0x80) bc (b, (int) c);
  else if (c < 0x800) { bc (b, (int) (0xc0 | c >> 6)); bc (b, (int) (0x80 | (c & 63))); }
  else if (c < 0x10000) { bc (b, (int) (0xe0 | c >> 12)); bc (b, (int) (0x80 | (c >> 6 & 63))); bc (b, (int) (0x80 | (c & 63))); }
  else { bc (b, (int) (0xf0 | c >> 18)); bc (b, (int) (0x80 | (c >> 12 & 63))); bc (b, (int) (0x80 | (c >> 6 & 63))); bc (b, (int) (0x80 | (c & 63))); }
}
static uint32_t code_point (void)
{
  static const uint32_t edge[] = { 1, 8, 9, 0x1f, 0x20, 0x22, 0x5c, 0x2f, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10001, 0x1f600, 0xfffff, 0x100000, 0x10ffff };
  uint32_t c = chance (60) ? 0x20 + rnd (0x5f) : chance (70) ? edge[rnd (sizeof edge / 4)] : chance (50) ? 1 + rnd (0xd7ff) : 0xe000 + rnd (0x102000);
  return c;
}
static void hex4 (buf_t * b, uint32_t c) { bs (b, "\\u"); for (int i = 12; i >= 0; i -= 4) bc (b, (chance (50) ? "0123456789abcdef" : "0123456789ABCDEF")[c >> i & 15]); }
static void jstr (buf_t * b, int max)
{
  bc (b, '"');
  int n = chance (20) ? 0 : (int) rnd ((uint32_t) max);
  if (chance (2)) n += 40 + (int) rnd (60);
  for (int i = 0; i < n; i++)
  {
    uint32_t c = code_point ();
    static const char * two = "\"\\/\b\f\n\r\t"; const char * q = c < 128 ? strchr (two, (int) c) : NULL;
    if (q && chance (85)) { bc (b, '\\'); bc (b, "\"\\/bfnrt"[q - two]); }
    else if (c < 0x20 || c == '"' || c == '\\' || chance (12)) { if (c < 0x10000) hex4 (b, c); else { hex4 (b, 0xd800 + ((c - 0x10000) >> 10)); hex4 (b, 0xdc00 + ((c - 0x10000) & 0x3ff)); } }
    else utf8 (b, c);
  }
  bc (b, '"');
}
static void digits (buf_t * b, int n) { for (int i = 0; i < n; i++) bc (b, '0' + (int) rnd (10)); }
static void jnum (buf_t * b)
{
  static const char * pick[] = { "0", "-0", "1", "-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551614", "2147483648", "4294967295", "4294967296",
    "9007199254740993", "9007199254740993.0", "36893488147419103232", "1e308", "1.7976931348623157e308", "1.7976931348623158079e308", "1.797693134862315808e308", "1e309", "-1e400", "5e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2e-324", "1e-400", "2.2250738585072014e-308", "2.2250738585072011e-308",
    "0.1", "0.5", "1e0", "1E+2", "1e-2", "0e5", "0.0", "-0.0", "123456789012345678901234567890", "0.30000000000000004", "1e00005", "4.35", "8.5e-1", "100E-2", "-5E+00", "1.0000000000000002220446049250313", "1.00000000000000011102230246251565404", "1.000000000000000111022302462515655" };
  if (chance (35)) { bs (b, pick[rnd (sizeof pick / sizeof *pick)]); return; }
  if (chance (30)) bc (b, '-');
  int n = chance (60) ? 1 + (int) rnd (4) : 1 + (int) rnd (22);
  if (chance (15)) bc (b, '0'); else { bc (b, '1' + (int) rnd (9)); digits (b, n - 1); }
  if (chance (35)) { bc (b, '.'); digits (b, 1 + (int) rnd (chance (80) ? 4 : 20)); }
  if (chance (25)) { bc (b, "eE"[rnd (2)]); if (chance (60)) bc (b, "+-"[rnd (2)]); digits (b, 1 + (int) rnd (chance (85) ? 2 : 3)); }
}
static char keypool[6][400]; static int nkeypool;
static void jkey (buf_t * b)
{
  if (nkeypool && chance (25)) { bs (b, keypool[rnd ((uint32_t) nkeypool)]); return; }
  size_t from = b->n; jstr (b, 6);
  if (nkeypool < 6 && b->n - from < 390) { memcpy (keypool[nkeypool], b->p + from, b->n - from); keypool[nkeypool++][b->n - from] = 0; }
}
static int jbudget;
static void jval (buf_t * b, int depth)
{
  jbudget--;
  uint32_t k = rnd (100);
  if (depth > 0 && jbudget > 0 && k < 45)
  {
    int n = chance (15) ? 0 : (int) rnd (5);
    bool o = chance (55);
    bc (b, o ? '{' : '['); ws (b);
    for (int i = 0; i < n; i++) { if (o) { jkey (b); ws (b); bc (b, ':'); ws (b); } jval (b, depth - 1); ws (b); if (i < n - 1) { bc (b, ','); ws (b); } }
    bc (b, o ? '}' : ']');
  }
  else if (k < 60) jstr (b, 10);
  else if (k < 85) jnum (b);
  else bs (b, k < 90 ? "true" : k < 95 ? "false" : "null");
}
static buf_t jdoc (int slot)
{
  buf_t b = bufn (slot); nkeypool = 0; wsrate = chance (50) ? 0 : (int) rnd (40); jbudget = 4 + (int) rnd (22);
  ws (&b);
  if (chance (4)) { int d = 20 + (int) rnd (60); for (int i = 0; i < d; i++) bs (&b, i % 3 ? "[" : "{\"k\":"); bc (&b, '7'); for (int i = d - 1; i >= 0; i--) bc (&b, i % 3 ? ']' : '}'); }
  else jval (&b, 1 + (int) rnd (5));
  ws (&b); b.p[b.n] = 0; return b;
}
static char * exact (const char * p, size_t n) { char * s = __real_malloc (n + 1); memcpy (s, p, n); s[n] = 0; return s; }   /* a reader beyond it is seen */

static iot_data_t * cache_;
static iot_data_t * parse_any (const char * s, bool * ord)
{
  uint32_t k = rnd (4); *ord = false;
  if (k == 0) return iot_data_from_json (s);
  *ord = chance (60);
  return k == 1 ? iot_data_from_json_with_ordering (s, *ord) : iot_data_from_json_with_cache (s, *ord, k == 2 ? NULL : cache_);
}
static void tokens_of (const buf_t * b)
{
  char * s = __real_malloc (b->n ? b->n : 1); memcpy (s, b->p, b->n);      /* not terminated */
  iot_json_parser p; iot_json_init (&p);
  int cnt = iot_json_parse (&p, s, b->n, NULL, 0);
  if (cnt > 0)
  {
    iot_json_tok_t * t = __real_malloc (sizeof (*t) * (size_t) cnt);
    iot_json_init (&p); int n = iot_json_parse (&p, s, b->n, t, (uint32_t) cnt);
    sq_begin ("tokens"); bytes (b->p, b->n); sq_open ();
    for (int i = 0; i < n; i++) { sq_open (); sq_i (t[i].type); sq_i (t[i].start); sq_i (t[i].end); sq_i (t[i].size); sq_i (t[i].parent); sq_close (); }
    sq_close (); sq_i (n); sq_i (cnt);
    __real_free (t);
    uint32_t few = cnt > 1 ? 1 + rnd ((uint32_t) cnt - 1) : 0; if (few >= (uint32_t) cnt) few = (uint32_t) cnt - 1; if (chance (50)) few = (uint32_t) cnt - 1;
    t = __real_malloc (few ? sizeof (*t) * few : 1);
    iot_json_init (&p); sq_i (few ? iot_json_parse (&p, s, b->n, t, few) : -1);
    __real_free (t); sq_end ();
  }
  __real_free (s);
}
static void sc_jdoc (uint32_t run)
{
  rec = true; cache_ = iot_data_alloc_map (IOT_DATA_STRING);
  for (int i = 0; i < 10; i++)
  {
    buf_t b = jdoc (0); bool ord; char * s = exact (b.p, b.n);
    iot_data_t * d = parse_any (s, &ord);
    sq_begin ("must"); bytes (b.p, b.n); emit_val (d); sq_end ();
    if (ord) { char * o = iot_data_to_json (d); sq_begin ("order"); bytes (b.p, b.n); bytes (o, strlen (o)); sq_end (); free (o); }
    iot_data_free (d); __real_free (s);
    tokens_of (&b);
    if (chance (50))
    {
      int k = b.n < 30 ? (int) b.n : 12;
      for (int j = 0; j < k; j++)
      {
        size_t n = b.n < 30 ? (size_t) j : rnd ((uint32_t) b.n); char * q = exact (b.p, n); bool o2;
        iot_data_t * x = parse_any (q, &o2); sq_begin ("cut"); bytes (b.p, b.n); sq_i ((long long) n); emit_val (x); sq_end (); iot_data_free (x); __real_free (q);
      }
    }
  }
  iot_data_free (cache_); fin_live ();
}
static void sc_jmut (uint32_t run)
{
  rec = true; cache_ = iot_data_alloc_map (IOT_DATA_STRING);
  static const char * bits = "{}[],:\"\\ tfnul0123456789.eE+-u/";
  for (int i = 0; i < 30; i++)
  {
    buf_t b = jdoc (0); bool ord; int m = 1 + (int) rnd (4);
    if (b.n > 160) b.n = rnd (160);
    for (int j = 0; j < m && b.n; j++)
    {
      size_t at = rnd ((uint32_t) b.n); int c = chance (80) ? bits[rnd (31)] : 1 + (int) rnd (255);
      switch (rnd (4))
      {
        case 0: b.p[at] = (char) c; break;
        case 1: memmove (b.p + at, b.p + at + 1, b.n - at - 1); b.n--; break;
        case 2: memmove (b.p + at + 1, b.p + at, b.n - at); b.p[at] = (char) c; b.n++; break;
        default: { size_t w = rnd ((uint32_t) (b.n - at)); if (w > 20) w = 20; memmove (b.p + at + w, b.p + at, b.n - at); b.n += w; break; }
      }
    }
    char * s = exact (b.p, b.n);
    iot_data_t * d = parse_any (s, &ord);
    sq_begin ("doc"); bytes (b.p, strlen (s)); emit_val (d); sq_end ();
    iot_data_free (d);
    b.n = strlen (s); tokens_of (&b); __real_free (s);
  }
  iot_data_free (cache_); fin_live ();
}
/* every text over an alphabet, in blocks */
static const char * alpha = "{}[],:\"1 \\";
static uint32_t jlen = 4;
static void jall (uint32_t run, uint32_t maxlen, const char * a)
{
  rec = true; cache_ = iot_data_alloc_map (IOT_DATA_STRING);
  uint32_t na = (uint32_t) strlen (a);
  uint64_t k = (uint64_t) run * 150;
  for (int i = 0; i < 150; i++, k++)
  {
    char s[16]; uint64_t x = k, span = 1; uint32_t n = 0;
    while (n <= maxlen && x >= span) { x -= span; span *= na; n++; }
    if (n > maxlen) break;
    for (uint32_t j = 0; j < n; j++) { s[j] = a[x % na]; x /= na; }
    char * e = exact (s, n); bool ord;
    iot_data_t * d = parse_any (e, &ord);
    sq_begin ("doc"); bytes (s, n); emit_val (d); sq_end (); iot_data_free (d); __real_free (e);
    buf_t b = { s, n, n }; tokens_of (&b);
  }
  iot_data_free (cache_); fin_live ();
}
static void sc_jall4 (uint32_t run) { jall (run, 4, "{}[],:\"1 \\"); }
static void sc_jall5 (uint32_t run) { jall (run, 5, "{}[],:\"1 \\"); }
static void sc_jall7 (uint32_t run) { jall (run, 7, "{}[],:\""); }

/* ------------------------------------------------------------ random values */
static int vbudget;
static iot_data_t * num_val (int t)
{
  uint64_t x = chance (40) ? rnd (300) : chance (50) ? rnd64 () >> rnd (64) : ((uint64_t) 1 << rnd (64)) - (chance (50) ? 1u : 0u);
  static const uint64_t edge[] = { 0, 23, 24, 255, 256, 65535, 65536, 4294967295u, 4294967296u, INT64_MAX, UINT64_MAX };
  if (chance (20)) x = edge[rnd (11)];
  int64_t y = chance (50) ? (int64_t) x : (int64_t) (0 - x);
  switch (t)
  {
    case 0: return iot_data_alloc_i8 ((int8_t) y); case 1: return iot_data_alloc_ui8 ((uint8_t) x); case 2: return iot_data_alloc_i16 ((int16_t) y); case 3: return iot_data_alloc_ui16 ((uint16_t) x);
    case 4: return iot_data_alloc_i32 ((int32_t) y); case 5: return iot_data_alloc_ui32 ((uint32_t) x); case 6: return iot_data_alloc_i64 (y); case 7: return iot_data_alloc_ui64 (x);
    case 8: { float f = chance (30) ? (float) rnd (50) / 4 : (float) ldexp ((double) (rnd64 () >> 40), (int) rnd (250) - 149); if (chance (5)) f = chance (50) ? FLT_MAX : FLT_TRUE_MIN; if (chance (3)) f = INFINITY; return iot_data_alloc_f32 (chance (30) ? -f : f); }
    default: { double f = chance (30) ? (double) rnd (50) / 4 : ldexp ((double) (rnd64 () >> 11), (int) rnd (2040) - 1074); if (chance (40)) f = (double) rnd64 () / (1.0 + (double) rnd (1000000)); if (chance (5)) f = chance (50) ? DBL_MAX : DBL_TRUE_MIN; if (chance (3)) f = INFINITY; if (isnan (f)) f = 1; return iot_data_alloc_f64 (chance (30) ? -f : f); }
  }
}
static iot_data_t * str_val (int max)
{
  buf_t b = bufn (2); int n = chance (15) ? 0 : (int) rnd ((uint32_t) max); if (chance (3)) n += 60 + (int) rnd (500);
  for (int i = 0; i < n; i++) { if (chance (15)) bc (&b, 1 + (int) rnd (255)); else if (chance (20)) utf8 (&b, code_point ()); else bc (&b, chance (80) ? 'a' + (int) rnd (26) : "\"\\/\b\f\n\r\t\x1f\x7f"[rnd (10)]); }
  b.p[b.n] = 0; return iot_data_alloc_string (b.p, IOT_DATA_COPY);
}
static int noneg;       /* no negative integers */
static bool negative (const iot_data_t * d) { int64_t v; return iot_data_type (d) <= IOT_DATA_UINT64 && (iot_data_type (d) & 1) == 0 && iot_data_cast (d, IOT_DATA_INT64, &v) && v < 0; }
static iot_data_t * num_for (int t) { iot_data_t * d; while (negative (d = num_val (t)) && noneg) iot_data_free (d); return d; }
static bool json_only;
static iot_data_t * val (int depth)
{
  vbudget--; uint32_t k = rnd (100);
  if (depth > 0 && vbudget > 0 && k < 50)
  {
    int n = chance (15) ? 0 : (int) rnd (5); uint32_t w = json_only ? (chance (50) ? 0 : 3) : rnd (6);
    if (w <= 1) { iot_data_t * v = iot_data_alloc_vector ((uint32_t) n); for (int i = 0; i < n; i++) if (json_only || chance (90)) iot_data_vector_add (v, (uint32_t) i, val (depth - 1)); return v; }
    if (w == 2) { iot_data_t * l = iot_data_alloc_list (); for (int i = 0; i < n; i++) { if (chance (50)) iot_data_list_head_push (l, val (depth - 1)); else iot_data_list_tail_push (l, val (depth - 1)); } return l; }
    int kt = json_only || chance (55) ? IOT_DATA_STRING : chance (70) ? (int) rnd (8) : IOT_DATA_BOOL;
    if (chance (2)) n = 30;
    iot_data_t * m = iot_data_alloc_map ((iot_data_type_t) kt);
    for (int i = 0; i < n; i++) iot_data_map_add (m, kt == IOT_DATA_STRING ? str_val (8) : kt == IOT_DATA_BOOL ? iot_data_alloc_bool (chance (50)) : num_for (kt), val (depth - 1));
    return m;
  }
  if (k < 62) return str_val (12);
  if (json_only) { if (k < 75) { iot_data_t * d = num_for (6); return d; } if (k < 85) { for (;;) { iot_data_t * d = num_for (9); if (!isinf (iot_data_f64 (d))) return d; iot_data_free (d); } } }
  else if (k < 82) return num_for ((int) rnd (10));
  else if (k < 88) { uint8_t raw[300]; uint32_t n = chance (10) ? rnd (300) : rnd (12); for (uint32_t i = 0; i < n; i++) raw[i] = (uint8_t) rnd (256); return iot_data_alloc_binary (raw, n, IOT_DATA_COPY); }
  else if (k < 93)
  {
    iot_data_type_t e = (iot_data_type_t) rnd (11); uint32_t n = chance (5) ? 250 + rnd (20) : rnd (6), sz = iot_data_type_size (e); uint8_t * raw = __real_malloc (n * sz + 1);
    for (uint32_t i = 0; i < n; i++) { if (e == IOT_DATA_BOOL) raw[i] = (uint8_t) rnd (2); else { iot_data_t * x = num_for ((int) e); memcpy (raw + i * sz, iot_data_address (x), sz); iot_data_free (x); } }
    iot_data_t * a = iot_data_alloc_array (raw, n, e, IOT_DATA_COPY); __real_free (raw); return a;
  }
  return k < 97 ? iot_data_alloc_bool (chance (50)) : iot_data_alloc_null ();
}
static int other_sizes (const iot_data_t * d, const char * o)
{
  size_t n = strlen (o); int bad = 0;
  for (int i = 0; i < 14; i++)
  {
    uint32_t s = i < 4 ? 1 + (uint32_t) i : chance (50) ? (uint32_t) (n + 8 - rnd (16 < n + 7 ? 16 : (uint32_t) n + 7)) : 1 + rnd ((uint32_t) n + 40); if (s == 0) s = 1;
    char * q;
    if (chance (50)) q = iot_data_to_json_with_size (d, s); else q = iot_data_to_json_with_buffer (d, malloc (s), s);
    if (strcmp (q, o)) bad++;
    free (q);
  }
  return bad;
}
static void sc_jprint (uint32_t run)
{
  rec = true;
  for (int i = 0; i < 9; i++)
  {
    json_only = chance (40); vbudget = 3 + (int) rnd (16);
    iot_data_t * d = val (1 + (int) rnd (4)); char * o = iot_data_to_json (d); int bad = other_sizes (d, o);
    sq_begin ("print"); emit_val (d); bytes (o, strlen (o)); sq_i (bad); sq_end ();
    { /* room enough on the stack: written where it was asked for */
      size_t n = strlen (o) + 33; char * st = __real_malloc (n); char * q = iot_data_to_json_with_buffer (d, st, (uint32_t) n);
      sq_begin ("inplace"); sq_i (q == st); sq_i (strcmp (q, o) == 0); sq_end (); if (q == st) __real_free (st); else free (q);
    }
    char * e = exact (o, strlen (o)); iot_data_t * r = iot_data_from_json (e);
    sq_begin ("back"); emit_val (d); bytes (o, strlen (o)); emit_val (r); sq_i (iot_data_equal (d, r)); sq_end ();
    iot_data_free (r); __real_free (e); free (o); iot_data_free (d);
  }
  json_only = false;
  { /* a map with its order: keys taken away, values replaced */
    int n = 1 + (int) rnd (6); char doc[400] = "{"; static const char * nm[] = { "z", "beta", "a\\\"q", "m", "0", "b" }; static const char * pl[] = { "z", "beta", "a\"q", "m", "0", "b" };
    for (int i = 0; i < n; i++) { char t[40]; snprintf (t, sizeof t, "%s\"%s\":%d", i ? "," : "", nm[i], i); strcat (doc, t); }
    strcat (doc, "}");
    iot_data_t * d = iot_data_from_json_with_ordering (doc, true);
    for (int i = 0; i < 3; i++)
    {
      int k = (int) rnd ((uint32_t) n); iot_data_t * key = iot_data_alloc_string (pl[k], IOT_DATA_COPY);
      if (chance (50)) { iot_data_map_remove (d, key); iot_data_free (key); } else if (iot_data_map_get (d, key)) { vbudget = 4; iot_data_map_add (d, key, val (1)); } else iot_data_free (key);
      char * o = iot_data_to_json (d); int bad = other_sizes (d, o);
      sq_begin ("print"); sq_open (); sq_s ("p"); sq_open (); for (int j = 0; j < n; j++) { sq_open (); sq_s ("s"); bytes (pl[j], strlen (pl[j])); sq_close (); } sq_close ();
      sq_open (); iot_data_map_iter_t it; iot_data_map_iter (d, &it); while (iot_data_map_iter_next (&it)) { sq_open (); emit_val (iot_data_map_iter_key (&it)); emit_val (iot_data_map_iter_value (&it)); sq_close (); } sq_close (); sq_close ();
      bytes (o, strlen (o)); sq_i (bad); sq_end (); free (o);
    }
    iot_data_free (d);
  }
  fin_live ();
}
static void cbor (uint32_t run, int nn, const char * ev)
{
  rec = true; noneg = nn;
  for (int i = 0; i < 12; i++)
  {
    vbudget = 3 + (int) rnd (16); json_only = false;
    iot_data_t * d = val (1 + (int) rnd (4)); if (!nn && i == 0) { iot_data_free (d); d = iot_data_alloc_i64 (-1 - (int64_t) rnd (100)); }
    iot_data_t * o = iot_data_to_cbor (d); int bad = 0; uint32_t n = iot_data_array_size (o);
    for (int j = 0; j < 12; j++)
    {
      uint32_t s = j < 4 ? 1 + (uint32_t) j : 1 + rnd (n + 10); iot_data_t * q = iot_data_to_cbor_with_size (d, s);
      if (iot_data_type (q) != IOT_DATA_BINARY || iot_data_array_size (q) != n || memcmp (iot_data_address (q), iot_data_address (o), n)) bad++;
      iot_data_free (q);
    }
    sq_begin (ev); emit_val (d); bytes (iot_data_address (o), n); sq_i (bad); sq_end ();
    iot_data_free (o); iot_data_free (d);
  }
  fin_live ();
}
static void sc_cbor (uint32_t run) { cbor (run, 1, "cbor"); }
static void sc_cborneg (uint32_t run) { cbor (run, 0, "cborneg"); }
static void sc_cborbig (uint32_t run)
{
  rec = true; noneg = 1;
  static const uint32_t lens[] = { 23, 24, 255, 256, 257, 4090, 65535, 65536 };
  uint32_t n = lens[run % 8]; int kind = (int) (run / 8 % 4);
  iot_data_t * d; sq_begin ("cborlen"); sq_i (kind); sq_i (n);
  if (kind == 0) { char * s = __real_malloc (n + 1); memset (s, 'a', n); s[n] = 0; d = iot_data_alloc_string (s, IOT_DATA_COPY); __real_free (s); }
  else if (kind == 1) { uint8_t * s = __real_malloc (n); memset (s, 'a', n); d = iot_data_alloc_binary (s, n, IOT_DATA_COPY); __real_free (s); }
  else if (kind == 2) { d = iot_data_alloc_vector (n); for (uint32_t i = 0; i < n; i++) iot_data_vector_add (d, i, iot_data_alloc_ui8 (97 - 97 + 5)); }
  else { d = iot_data_alloc_map (IOT_DATA_UINT32); for (uint32_t i = 0; i < n; i++) iot_data_map_add (d, iot_data_alloc_ui32 (i % 20), iot_data_alloc_ui8 (5)); for (uint32_t i = 20; i < n; i++) iot_data_map_add (d, iot_data_alloc_ui32 (i), iot_data_alloc_ui8 (5)); }
  iot_data_t * o = iot_data_to_cbor_with_size (d, 1 + rnd (600));
  uint32_t sz = iot_data_array_size (o); const uint8_t * p = iot_data_address (o);
  sq_i (sz); bytes (p, sz < 5 ? sz : 5);
  /* after the head all bytes alike (but map keys) */
  uint32_t head = n < 24 ? 1 : n < 256 ? 2 : n < 65536 ? 3 : 5; bool same = true; if (kind < 3) for (uint32_t i = head; i < sz; i++) if (p[i] != (kind == 2 ? 5 : 'a')) same = false;
  sq_i (same); sq_end (); iot_data_free (o); iot_data_free (d); fin_live ();
}

/* ------------------------------------------------------------ base64 */
static void b64_enc (const uint8_t * p, size_t n)
{
  size_t es = iot_b64_encodesize (n);
  size_t try_[] = { es, es + 1 + rnd (8), es ? es - 1 : 0, rnd ((uint32_t) es + 1), 0 };
  for (int i = 0; i < 5; i++)
  {
    size_t ol = try_[i]; char * in = __real_malloc (n ? n : 1); memcpy (in, p, n); char * out = __real_malloc (ol ? ol : 1); memset (out, 0x55, ol ? ol : 1);
    bool ok = iot_b64_encode (in, n, out, ol);
    sq_begin ("b64e"); bytes (p, n); sq_i ((long long) es); sq_i ((long long) ol); sq_i (ok); size_t len = ok ? strnlen (out, ol) : 0; bytes (out, len); sq_i (!ok || len < ol); sq_end ();
    __real_free (in); __real_free (out);
  }
}
static void b64_dec (const char * t, size_t n)
{
  char * in = exact (t, n); n = strlen (in); size_t mx = iot_b64_maxdecodesize (in);
  size_t try_[] = { mx, mx + 1 + rnd (6), mx ? mx - 1 : 0, mx > 1 ? mx - 2 : 0, rnd ((uint32_t) mx + 1) };
  for (int i = 0; i < 5; i++)
  {
    size_t ol = try_[i], got = ol; uint8_t * out = __real_malloc (ol ? ol : 1);
    bool ok = iot_b64_decode (in, out, &got);
    sq_begin ("b64d"); bytes (in, n); sq_i ((long long) mx); sq_i ((long long) ol); sq_i (ok); sq_i ((long long) got); bytes (out, ok && got <= ol ? got : 0); sq_end ();
    __real_free (out);
  }
  if (chance (60))
  {
    iot_data_t * a; 
    if (chance (50)) a = iot_data_alloc_array_from_base64 (in);
    else
    {
      iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING), * k = iot_data_alloc_string ("k", IOT_DATA_REF); iot_data_map_add (m, iot_data_add_ref (k), iot_data_alloc_string (in, IOT_DATA_COPY));
      bool r = iot_data_map_base64_to_array (m, k); const iot_data_t * v = iot_data_map_get (m, k); a = NULL;
      if (r) a = iot_data_add_ref (v); else if (!v || iot_data_type (v) != IOT_DATA_STRING || strcmp (iot_data_string (v), in)) { sq_begin ("lost"); sq_end (); }
      iot_data_free (k); iot_data_free (m);
    }
    sq_begin ("b64a"); bytes (in, n); sq_i (a != NULL); sq_i (a ? (int) iot_data_type (a) : 0); sq_i (a ? (int) iot_data_array_type (a) : 0); if (a) bytes (iot_data_address (a), iot_data_array_size (a)); else bytes ("", 0); sq_end ();
    iot_data_free (a);
  }
  __real_free (in);
}
static void sc_b64 (uint32_t run)
{
  rec = true; uint8_t raw[400]; static const char * A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  for (int i = 0; i < 12; i++)
  {
    size_t n = i == 0 ? run % 60 : chance (90) ? rnd (20) : rnd (200); for (size_t j = 0; j < n; j++) raw[j] = (uint8_t) (chance (20) ? (chance (50) ? 0 : 255) : rnd (256));
    if (run < 86 && i < 3) { n = (size_t) (i + 1); raw[0] = (uint8_t) (run * 3 + (uint32_t) i); }
    b64_enc (raw, n);
    char t[500]; size_t es = iot_b64_encodesize (n); iot_b64_encode (raw, n, t, es);
    size_t tn = es - 1;
    b64_dec (t, tn);
    int m = (int) rnd (3);
    for (int j = 0; j < m && tn; j++)
    {
      size_t at = rnd ((uint32_t) tn); int c = chance (40) ? A[rnd (64)] : chance (50) ? 1 + (int) rnd (255) : "\n= \r\t-_"[rnd (7)];
      switch (rnd (3)) { case 0: t[at] = (char) c; break; case 1: memmove (t + at, t + at + 1, tn - at - 1); tn--; break; default: memmove (t + at + 1, t + at, tn - at); t[at] = (char) c; tn++; break; }
    }
    if (m) b64_dec (t, tn);
    if (chance (40)) { tn = rnd (9); for (size_t j = 0; j < tn; j++) t[j] = chance (85) ? A[rnd (64)] : (char) (1 + rnd (255)); b64_dec (t, tn); }
  }
  fin_live ();
}
/* every single byte in every place of a group */
static void sc_b64all (uint32_t run)
{
  rec = true;
  for (uint32_t c = run % 8 * 32; c < run % 8 * 32 + 32; c++)
  {
    if (c == 0) continue;
    for (int at = 0; at < 4; at++) { char t[5] = "QUJD"; t[at] = (char) c; char * in = exact (t, 4); size_t got = 3; uint8_t * out = __real_malloc (3); bool ok = iot_b64_decode (in, out, &got);
      sq_begin ("b64d"); bytes (in, 4); sq_i (3); sq_i (3); sq_i (ok); sq_i ((long long) got); bytes (out, ok && got <= 3 ? got : 0); sq_end (); __real_free (in); __real_free (out); }
    uint8_t raw[3] = { (uint8_t) c, (uint8_t) (c * 7), (uint8_t) (c * 13) }; b64_enc (raw, 1 + c % 3);
  }
  fin_live ();
}

/* ------------------------------------------------------------ XML */
static void xname (buf_t * b) { static const char * n[] = { "a", "b", "item", "ns:x", "_u", "A-b.c", "d9" }; bs (b, n[rnd (7)]); if (chance (5)) for (int i = 0; i < 30; i++) bc (b, 'q'); }
static void xsp (buf_t * b, bool must) { if (must) bc (b, ' '); while (chance (15)) bc (b, " \t\n"[rnd (3)]); }
static void xref (buf_t * b)
{
  uint32_t c; char t[20];
  if (chance (10)) { static const char * w[] = { "&#13;", "&#xD;", "&#32;", "&#9;", "&#10;", "&#xa;" }; bs (b, w[rnd (6)]); return; }
  switch (rnd (3)) { case 0: { static const char * e[] = { "&lt;", "&gt;", "&amp;", "&quot;", "&apos;" }; bs (b, e[rnd (5)]); return; } default: break; }
  do c = code_point (); while (c < 0x20 || c >= 0xfffe);
  if (chance (50)) snprintf (t, sizeof t, "&#%u;", c); else snprintf (t, sizeof t, chance (50) ? "&#x%x;" : "&#x%X;", c);
  bs (b, t);
}
static void xtext (buf_t * b)
{
  int n = 1 + (int) rnd (6); if (chance (2)) n = 600;
  for (int i = 0; i < n; i++)
  {
    uint32_t k = rnd (100);
    if (k < 12) xref (b);
    else if (k < 16) { bs (b, "<![CDATA["); int m = (int) rnd (5); for (int j = 0; j < m; j++) bc (b, "ab<>&] "[rnd (7)]); while (b->p[b->n - 1] == ']') b->n--; bs (b, "]]>"); }
    else if (k < 18) { bs (b, "<!-- no "); if (chance (30)) bs (b, "<x> & -"); bs (b, "w-->"); }
    else if (k < 30) bc (b, " \t\n"[rnd (3)]);
    else if (k < 32) bs (b, chance (50) ? "\r\n" : "\n");
    else if (k < 40) { uint32_t c; do c = code_point (); while (c < 0x80); utf8 (b, c); }
    else bc (b, "abcXYZ019.,;:!?'\"/()=-"[rnd (22)]);
  }
}
static int xbudget;
static void xelem (buf_t * b, int depth)
{
  xbudget--; size_t from = b->n + 1; bc (b, '<'); xname (b); char name[60]; size_t nl = b->n - from; memcpy (name, b->p + from, nl); name[nl] = 0;
  int na = chance (50) ? 0 : (int) rnd (4); static const char * an[] = { "id", "x:y", "class" };
  for (int i = 0; i < na && i < 3; i++)
  {
    xsp (b, true); bs (b, an[i]); xsp (b, false); bc (b, '='); xsp (b, false); int q = "\"'"[rnd (2)]; bc (b, q); int m = (int) rnd (6);
    for (int j = 0; j < m; j++) { if (chance (20)) xref (b); else { int c = "abc 019<>'\"/=]"[rnd (14)]; if (c == '<') c = '>'; if (c == q) c = '-'; bc (b, c); } }
    bc (b, q);
  }
  xsp (b, false);
  if (chance (20)) { bs (b, "/>"); return; }
  bc (b, '>');
  int n = (int) rnd (4); if (chance (4)) for (int i = 8 + (int) rnd (12); i; i--) { bc (b, '<'); xname (b); bs (b, "/>"); }     /* many children */
  for (int i = 0; i < n; i++) { if (depth > 0 && chance (5)) xref (b); if (depth > 0 && xbudget > 0 && chance (55)) xelem (b, depth - 1); else xtext (b); if (chance (30)) bc (b, '\n'); }
  bs (b, "</"); bs (b, name); xsp (b, false); bc (b, '>');
}
static void xmisc (buf_t * b) { while (chance (30)) bs (b, chance (50) ? "\n" : chance (60) ? "<!-- c -->" : "<?pi some?>"); }
static void xparse (const buf_t * b)
{
  char * s = exact (b->p, b->n); iot_data_t * d = iot_data_from_xml (s);
  sq_begin ("xml"); bytes (s, strlen (s)); emit_val (d); sq_end (); iot_data_free (d); __real_free (s);
}
static void sc_xml (uint32_t run)
{
  rec = true;
  for (int i = 0; i < 6; i++)
  {
    buf_t b = bufn (0); xbudget = 8;
    if (chance (40)) bs (&b, chance (50) ? "<?xml version=\"1.0\"?>" : "<?xml version='1.0' encoding='UTF-8'?>\n");
    xmisc (&b); xelem (&b, 3); xmisc (&b);
    xparse (&b);
    if (b.n < 700) for (int j = 0; j < 4; j++)
    {
      buf_t c = bufn (1); memcpy (c.p, b.p, b.n); c.n = b.n; size_t at = rnd ((uint32_t) c.n);
      switch (rnd (6))
      {
        case 0: case 1: c.n = at; break;
        case 2: bs (&c, chance (50) ? "<z/>" : "text"); break;
        case 3: { static const char * ins[] = { "&bogus;", "<", "&", "</zz>", "<w>", "&#0;", "]]>", "&#xd800;", "&#xDFFF;", "&#xFFFE;", "&#x110000;" }; const char * t = ins[rnd (11)]; size_t w = strlen (t); memmove (c.p + at + w, c.p + at, c.n - at); memcpy (c.p + at, t, w); c.n += w; break; }
        case 4: memmove (c.p + at, c.p + at + 1, c.n - at - 1); c.n--; break;
        default: c.p[at] = (char) (chance (50) ? "<>&/='\"x "[rnd (9)] : (int) (1 + rnd (255))); break;
      }
      xparse (&c);
    }
  }
  fin_live ();
}
/* ------------------------------------------------------------ YAML */
static char anchors_[8][8]; static int nanchor, anext, ybudget;
static void yplain (buf_t * b)
{
  static const char * words[] = { "a", "text", "hello world", "x-y", "k.v", "true", "false", "null", "True", "yes", "~x", "a:b", "a#b", "t", "fa" };
  static const char * nums[] = { "0", "1", "-1", "42", "-17", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "0x1F", "0xff", "017", "1.5", "-0.25", "1e3", "2.5e-3", "1E5", "100.0", "0.1", "12345678901234567890123", "00", "08", "1a", "12 34", "-", "1.2.3", "0x" };
  if (chance (50)) { const char * w = words[rnd (15)]; bs (b, w); } else { const char * w = nums[rnd (29)]; if (!strcmp (w, "-")) w = "-x"; bs (b, w); }
}
static void yquoted (buf_t * b)
{
  int n = (int) rnd (7); bool dq = chance (60); bc (b, dq ? '"' : '\'');
  for (int i = 0; i < n; i++)
  {
    if (dq && chance (25)) { static const char * e[] = { "\\n", "\\t", "\\\"", "\\\\", "\\x41", "\\u00e9", "\\u20ac", "\\U0001F600", "\\/", "\\r", "\\b" }; bs (b, e[rnd (11)]); }
    else if (!dq && chance (15)) bs (b, "''");
    else bc (b, "abc 019:#,[]{}&*!|>%@-?x"[rnd (24)]);
  }
  while (b->p[b->n - 1] == ' ' && n) b->p[b->n - 1] = 'z';
  bc (b, dq ? '"' : '\'');
}
static void yscalar (buf_t * b) { if (chance (65)) yplain (b); else yquoted (b); }
static void ykey (buf_t * b) { static const char * k[] = { "a", "b", "key", "k1", "k2", "1", "true", "long key" }; if (chance (85)) bs (b, k[rnd (8)]); else yquoted (b); }
static void ykey (buf_t * b);
/* a key with an anchor (perhaps one used before), or an alias as key */
static void ykeyx (buf_t * b)
{
  if (nanchor && chance (12)) { bc (b, '*'); bs (b, anchors_[rnd ((uint32_t) nanchor)]); bc (b, ' '); return; }
  if (chance (10)) { bool again = nanchor && chance (40); if (again || anext < 8) { bc (b, '&'); if (again) bs (b, anchors_[rnd ((uint32_t) nanchor)]); else { snprintf (anchors_[anext], 8, "n%d", anext); bs (b, anchors_[anext++]); nanchor = anext; } bc (b, ' '); } }
  ykey (b);
}
static bool yanchor (buf_t * b) { if (chance (12) && anext < 8) { snprintf (anchors_[anext], 8, "n%d", anext); bc (b, '&'); bs (b, anchors_[anext]); bc (b, ' '); anext++; return true; } return false; }
static bool yalias (buf_t * b) { if (nanchor && chance (20)) { bc (b, '*'); bs (b, anchors_[rnd ((uint32_t) nanchor)]); return true; } return false; }
static void yflow (buf_t * b, int depth)
{
  ybudget--;
  if (yalias (b)) { bc (b, ' '); return; }
  bool an = yanchor (b);
  if (depth > 0 && ybudget > 0 && chance (40))
  {
    int n = (int) rnd (4); bool o = chance (50); bc (b, o ? '{' : '[');
    for (int i = 0; i < n; i++)
    {
      if (chance (30)) bc (b, ' ');
      if (o) { ykeyx (b); bs (b, ": "); }
      yflow (b, depth - 1); if (i < n - 1) bs (b, ", ");
    }
    bc (b, o ? '}' : ']');
  }
  else { size_t at; if (!an && nanchor && chance (6)) { bc (b, '&'); bs (b, anchors_[rnd ((uint32_t) nanchor)]); bc (b, ' '); } do { at = b->n; yscalar (b); b->p[b->n] = 0; if (b->p[at] == '"' || b->p[at] == '\'') break; if (strchr (b->p + at, ':') == NULL) break; b->n = at; } while (true); }
  if (an) nanchor = anext;
}
static void yind (buf_t * b, int ind) { for (int i = 0; i < ind; i++) bc (b, ' '); }
static void yend (buf_t * b) { if (chance (8)) bs (b, " # note"); bc (b, '\n'); if (chance (4)) bs (b, chance (50) ? "\n" : "# whole line\n"); }
static void yblock (buf_t * b, int ind, int depth)     /* at the start of a line, whole block */
{
  ybudget--;
  int n = 1 + (int) rnd (4); bool o = chance (55); static const char * k[] = { "a", "b", "key", "k1", "c" };
  for (int i = 0; i < n; i++)
  {
    yind (b, ind);
    if (o) { if (chance (70)) bs (b, k[i % 5]); else ykeyx (b); bc (b, ':'); } else bc (b, '-');
    bool nest = depth > 0 && ybudget > 0 && chance (40);
    if (nest)
    {
      if (!o && chance (50)) { int w = 1 + (int) rnd (2); size_t at; yind (b, w); at = b->n; yblock (b, ind + 1 + w, depth - 1); memmove (b->p + at, b->p + at + ind + 1 + w, b->n - at - (size_t) (ind + 1 + w)); b->n -= (size_t) (ind + 1 + w); continue; }   /* compact: first line goes on */
      bool an = false; if (chance (20)) { bc (b, ' '); an = yanchor (b); b->n--; if (b->p[b->n] != ' ') b->n++; }
      yend (b);
      yblock (b, ind + 1 + (int) rnd (3), depth - 1);
      if (an) nanchor = anext;
    }
    else { bc (b, ' '); yflow (b, 2); yend (b); }
  }
}
static void yparse (const buf_t * b)
{
  char * s = exact (b->p, b->n); iot_data_t * ex = (iot_data_t *) 1; iot_data_t * d = iot_data_from_yaml (s, &ex);
  sq_begin ("yaml"); bytes (s, strlen (s)); emit_val (d); sq_i (ex != NULL ? (iot_data_type (ex) == IOT_DATA_STRING && strlen (iot_data_string (ex)) ? 1 : 2) : 0); sq_end ();
  iot_data_free (d); iot_data_free (ex); __real_free (s);
}
static void sc_yaml (uint32_t run)
{
  rec = true;
  for (int i = 0; i < 6; i++)
  {
    buf_t b = bufn (0); nanchor = anext = 0; ybudget = 12;
    if (chance (20)) bs (&b, chance (50) ? "---\n" : "# top\n---\n");
    if (chance (60)) yblock (&b, 0, 3); else { yflow (&b, 3); bc (&b, '\n'); }
    if (chance (10)) bs (&b, "...\n");
    yparse (&b);
    for (int j = 0; j < 3; j++)
    {
      buf_t c = bufn (1); memcpy (c.p, b.p, b.n); c.n = b.n; size_t at = rnd ((uint32_t) c.n);
      switch (rnd (5))
      {
        case 0: c.n = at; break;
        case 1: { static const char * ins[] = { "*nope", "[", "]", "{", "\"", "&", "\t", ": ", "- ", "\n " }; const char * t = ins[rnd (10)]; size_t w = strlen (t); memmove (c.p + at + w, c.p + at, c.n - at); memcpy (c.p + at, t, w); c.n += w; break; }
        case 2: memmove (c.p + at, c.p + at + 1, c.n - at - 1); c.n--; break;
        default: c.p[at] = (char) (chance (60) ? "[]{}:,-&*'\"#\n \t"[rnd (15)] : (int) (1 + rnd (255))); break;
      }
      yparse (&c);
    }
  }
  fin_live ();
}
void seq_child_start (void) { }
const seq_scenario_t seq_scenarios[] = { { "jdoc", sc_jdoc }, { "jmut", sc_jmut }, { "jall4", sc_jall4 }, { "jall5", sc_jall5 }, { "jall7", sc_jall7 }, { "jprint", sc_jprint }, { "cbor", sc_cbor }, { "cborneg", sc_cborneg }, { "cborbig", sc_cborbig },
  { "b64", sc_b64 }, { "b64all", sc_b64all }, { "xml", sc_xml }, { "yaml", sc_yaml }, { NULL, NULL } };
