/* Numbers: casts, transformations, number getters, comparison, hashes and reading from strings, at and around every limit */
#include "seq.h"
#include "num.h"
#include "iot/data.h"
#include <stdio.h>
#include <stdlib.h>
#include <float.h>
#include <unistd.h>
#include <inttypes.h>
#include "numgen.h"
/* the value of a data item, read through its own accessor */
static num_t value_of (const iot_data_t * d)
{
  num_t v; memset (&v, 0, sizeof v);
  switch (iot_data_type (d))
  {
    case 0: v.i8 = iot_data_i8 (d); break; case 1: v.u8 = iot_data_ui8 (d); break; case 2: v.i16 = iot_data_i16 (d); break; case 3: v.u16 = iot_data_ui16 (d); break;
    case 4: v.i32 = iot_data_i32 (d); break; case 5: v.u32 = iot_data_ui32 (d); break; case 6: v.i64 = iot_data_i64 (d); break; case 7: v.u64 = iot_data_ui64 (d); break;
    case 8: v.f = iot_data_f32 (d); break; case 9: v.d = iot_data_f64 (d); break; case 10: v.b = iot_data_bool (d); break; default: break;
  }
  return v;
}
static void data (const iot_data_t * d) { if (!d) { sq_i (-1); sq_open (); sq_close (); } else { num_t v = value_of (d); sq_i (iot_data_type (d)); num ((int) iot_data_type (d), &v); } }
static void sc_cast (uint32_t r)
{
  (void) r; iot_data_static_t st;
  for (int k = 0; k < 40; k++)
  {
    int t = (int) rnd (11), u = chance (6) ? 11 + (int) rnd (8) : (int) rnd (11); num_t v = rand_num (t);
    bool cst = t < 8 && chance (25); iot_data_t * d = alloc (t, &v, cst, &st);
    sq_begin ("made"); sq_i (t); num (t, &v); data (d); sq_i (iot_data_is_nan (d)); sq_end ();
    if (u == 10 && is_nan_of (t, &v)) u = 9;
    switch (rnd (5))
    {
      case 0: { iot_data_t * x = iot_data_transform (d, (iot_data_type_t) u); sq_begin ("trans"); sq_i (t); num (t, &v); sq_i (u); data (x); sq_i (x == d); sq_end (); iot_data_free (x); break; }
      case 1: case 2:
      {
        struct { uint8_t before[8]; num_t n; uint8_t after[8]; } o; memset (&o, 0xA5, sizeof o);
        bool ok = iot_data_cast (d, (iot_data_type_t) u, &o.n), touched = false; size_t sz = ok ? iot_data_type_size ((iot_data_type_t) u) : 0;
        for (size_t i = 0; i < sizeof o; i++) if ((i < 8 || i >= 8 + sz) && ((uint8_t *) &o)[i] != 0xA5) touched = true;
        sq_begin ("cast"); sq_i (t); num (t, &v); sq_i (u); sq_i (ok); if (ok) num (u, &o.n); else { sq_open (); sq_close (); } sq_i (touched); sq_end (); break;
      }
      case 3:
      {
        num_t o; memset (&o, 0, sizeof o); bool own = !cst; (void) own; int f = (int) rnd (3);
        iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); iot_data_string_map_add (m, "k", iot_data_add_ref (d)); iot_data_t * key = iot_data_alloc_string ("k", IOT_DATA_REF);
        if (u > 10) u = 4;
        bool ok = f == 0 ? iot_data_string_map_get_number (m, "k", (iot_data_type_t) u, &o) : f == 1 ? iot_data_map_get_number (m, key, (iot_data_type_t) u, &o) : (u = 4, chance (50) ? iot_data_map_get_int (m, key, &o.i32) : iot_data_string_map_get_int (m, "k", &o.i32));
        sq_begin ("cast"); sq_i (t); num (t, &v); sq_i (u); sq_i (ok); if (ok) num (u, &o); else { sq_open (); sq_close (); } sq_i (0); sq_end ();
        iot_data_free (key); iot_data_free (m); break;
      }
      default:
      {
        if (u > 10 || t == 10) { u = t; }
        int n = 1 + (int) rnd (4); num_t vs[4]; vs[0] = v; for (int i = 1; i < n; i++) { vs[i] = rand_num (t); if (u == 10 && is_nan_of (t, vs + i)) vs[i] = v; }
        uint8_t buf[32]; size_t sz = iot_data_type_size ((iot_data_type_t) t); for (int i = 0; i < n; i++) memcpy (buf + (size_t) i * sz, vs[i].raw, sz);
        iot_data_t * a = iot_data_alloc_array (buf, (uint32_t) n, (iot_data_type_t) t, IOT_DATA_REF), * x = iot_data_array_transform (a, (iot_data_type_t) u);
        sq_begin ("atrans"); sq_i (t); sq_open (); for (int i = 0; i < n; i++) num (t, vs + i); sq_close (); sq_i (u); sq_i (iot_data_array_type (x)); sq_open ();
        for (uint32_t i = 0; i < iot_data_array_length (x); i++) { num_t w; memset (&w, 0, sizeof w); memcpy (w.raw, iot_data_array_get (x, i), iot_data_type_size ((iot_data_type_t) u)); num (u, &w); }
        sq_close (); sq_end (); iot_data_free (a); iot_data_free (x);
      }
    }
    if (!cst) iot_data_free (d);
  }
  sq_begin ("end"); sq_end ();
}
static int sg (int x) { return (x > 0) - (x < 0); }
static void sc_ncmp (uint32_t r)
{
  (void) r;
  for (int k = 0; k < 40; k++)
  {
    int t = (int) rnd (11), u = chance (40) ? t : chance (70) && t < 8 ? (int) rnd (8) : (int) rnd (11); num_t a = rand_num (t), b = rand_num (u);
    if (is_nan_of (t, &a) || is_nan_of (u, &b)) continue;
    if (t < 8 && u < 8 && chance (50)) { memset (&b, 0, sizeof b); if (width[u] <= width[t]) memcpy (b.raw, a.raw, 8); else { int64_t x = t % 2 ? 0 : (t == 0 ? a.i8 : t == 2 ? a.i16 : a.i32); if (t % 2) b = a; else memcpy (b.raw, &x, 8); } if (chance (50)) b.u64 += rnd (3) - 1ull; if (width[u] < 64) b.u64 &= (1ull << width[u]) - 1; }
    if (t >= 8 && u >= 8 && u < 10 && t < 10 && chance (40)) { if (t == 8 && u == 9) b.d = a.f; else if (t == 9 && u == 8) { b.f = (float) a.d; } else b = a; if (isnan (t == 8 ? a.f : a.d)) continue; }
    if ((t == 8 && a.f == 0) || (t == 9 && a.d == 0)) memset (&a, 0, sizeof a);
    if ((u == 8 && b.f == 0) || (u == 9 && b.d == 0)) memset (&b, 0, sizeof b);
    iot_data_t * x = alloc (t, &a, false, NULL), * y = alloc (u, &b, false, NULL);
    sq_begin ("cmp"); sq_i (t); num (t, &a); sq_i (u); num (u, &b); sq_i (sg (iot_data_compare (x, y))); sq_i (sg (iot_data_compare_value (x, y))); sq_i (iot_data_equal (x, y)); sq_i (iot_data_equal_value (x, y)); sq_i (iot_data_hash (x) == iot_data_hash (y)); sq_end ();
    iot_data_free (x); iot_data_free (y);
  }
  sq_begin ("end"); sq_end ();
}
static void sc_parse (uint32_t r)
{
  (void) r;
  for (int k = 0; k < 30; k++)
  {
    int t = chance (90) ? (int) rnd (8) : chance (60) ? 8 + (int) rnd (2) : chance (50) ? 10 : 12; char s[400], n[300]; s[0] = 0; bool neg = chance (35);
    if (t < 8)
    {
      int w = width[chance (70) ? t : (int) rnd (8)];
      if (chance (20)) { int len = 1 + (int) rnd (30); for (int i = 0; i < len; i++) n[i] = (char) ('0' + rnd (10)); n[len] = 0; }
      else
      {
        unsigned __int128 x = (unsigned __int128) 1 << (chance (50) ? w : w - 1); if (chance (85)) x += rnd (7) - (unsigned __int128) 3; if (chance (15)) x = rnd (300); if (chance (8)) x *= 3;
        char z[50]; int q = 0; do { z[q++] = (char) ('0' + (int) (x % 10)); x /= 10; } while (x); for (int i = 0; i < q; i++) n[i] = z[q - 1 - i]; n[q] = 0;
      }
      snprintf (s, sizeof s, "%s%s%s%s", chance (10) ? " " : chance (5) ? "\t\n " : "", neg ? "-" : chance (12) ? "+" : "", chance (10) ? "00" : "", n);
      if (chance (4)) snprintf (s, sizeof s, "%s", chance (30) ? "x" : chance (30) ? "-" : chance (50) ? "+-3" : " ");
    }
    else if (t < 10)
    {   /* numbers of the type, written exactly */
      double x = t == 8 ? (double) (float) ldexp ((double) (rnd64 () >> 40), (int) rnd (40) - 28) : ldexp ((double) (rnd64 () >> 11), (int) rnd (60) - 52); if (chance (20)) x = rnd (20) * 0.25; if (chance (10)) x = t == 8 ? (double) FLT_MAX : ldexp (1, 150);
      if (chance (75)) { snprintf (n, sizeof n, "%.120f", x); char * e = n + strlen (n); while (e[-1] == '0') *--e = 0; if (e[-1] == '.' && chance (80)) *--e = 0; }
      else { snprintf (n, sizeof n, "%.60e", x); }
      snprintf (s, sizeof s, "%s%s%s", chance (10) ? " " : "", neg && x != 0 ? "-" : chance (10) ? "+" : "", n);
    }
    else { static const char * bs[] = { "true", "True", "TRUE", "t", "false", "False", "FALSE", "f", "no", "x y\"" }; strcpy (s, bs[rnd (10)]); }
    iot_data_t * d = chance (75) ? iot_data_alloc_from_string ((iot_data_type_t) t, s) : iot_data_alloc_from_strings (iot_data_type_string ((iot_data_type_t) t), s);
    sq_begin ("parse"); sq_i (t); sq_bytes (s, strlen (s));
    if (d && iot_data_type (d) == IOT_DATA_STRING) { sq_i (12); sq_bytes (iot_data_string (d), strlen (iot_data_string (d))); } else data (d);
    sq_end (); iot_data_free (d);
  }
  sq_begin ("end"); sq_end ();
}
void seq_child_start (void) { }
const seq_scenario_t seq_scenarios[] = { { "cast", sc_cast }, { "ncmp", sc_ncmp }, { "parse", sc_parse }, { NULL, NULL } };
