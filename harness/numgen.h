/* numbers at and around every limit */
#ifndef NUMGEN_H
#define NUMGEN_H
#include "num.h"
#include "iot/data.h"
#include <float.h>
static const int width[] = { 8, 8, 16, 16, 32, 32, 64, 64 };
typedef union { int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64; float f; double d; bool b; uint8_t raw[8]; } num_t;
static bool is_nan_of (int t, const num_t * v) { return (t == 8 && isnan (v->f)) || (t == 9 && isnan (v->d)); }
static void num (int t, const num_t * v) { sq_open (); if (is_nan_of (t, v)) sq_i (9); else emit_num (t, v); sq_close (); }
/* a double at or near a limit of some type, or anything at all */
static double rand_double (void)
{
  double x;
  switch (rnd (8))
  {
    case 0: { union { uint64_t u; double d; } z; z.u = rnd64 (); x = z.d; break; }
    case 1: x = (double) (int) rnd (2000) / 8 - 125; break;
    case 2: return chance (30) ? NAN : chance (50) ? INFINITY : -INFINITY;
    case 3: x = chance (50) ? (double) FLT_MAX : chance (50) ? (double) FLT_MIN : DBL_MAX; break;
    default:
    {
      static const int ps[] = { 0, 7, 8, 15, 16, 24, 31, 32, 52, 53, 54, 63, 64, 65, 127, 128 };
      x = ldexp (1, ps[rnd (16)]);
      static const double ds[] = { 0, 0, 0.5, 1, 2, 0.25, 1.5, 3 };
      if (chance (70)) x += (chance (50) ? 1 : -1) * ds[rnd (8)];
    }
  }
  if (chance (40)) x = nextafter (x, chance (50) ? -INFINITY : INFINITY);
  return chance (40) ? -x : x;
}
static num_t rand_num (int t)
{
  num_t v; memset (&v, 0, sizeof v);
  if (t < 8)
  {
    uint64_t x; int w = width[t];
    switch (rnd (6))
    {
      case 0: x = rnd64 (); break;
      case 1: x = rnd (5) - 2ull; break;
      case 2: x = rnd (300) - 150ull; break;
      default: { static const int ps[] = { 7, 8, 15, 16, 31, 32, 53, 54, 63, 24 }; int p = ps[rnd (10)]; x = (p < 64 ? 1ull << p : 0) + (chance (75) ? rnd (5) - 2ull : 0); if (chance (30)) x = 0 - x; if (p > w) x = (1ull << (w - 1)) + rnd (3) - 1ull; break; }
    }
    if (chance (10)) x = ~0ull; if (chance (10)) x = 1ull << (w - 1); if (chance (10)) x = (1ull << (w - 1)) - 1;
    memcpy (v.raw, &x, (size_t) w / 8);
  }
  else if (t == 8) { double d = rand_double (); v.f = (float) d; }
  else if (t == 9) v.d = rand_double ();
  else v.b = rnd (2);
  return v;
}
static iot_data_t * alloc (int t, const num_t * v, bool cst, iot_data_static_t * st)
{
  switch (t)
  {
    case 0: return cst ? iot_data_alloc_const_i8 (st, v->i8) : iot_data_alloc_i8 (v->i8);
    case 1: return cst ? iot_data_alloc_const_ui8 (st, v->u8) : iot_data_alloc_ui8 (v->u8);
    case 2: return cst ? iot_data_alloc_const_i16 (st, v->i16) : iot_data_alloc_i16 (v->i16);
    case 3: return cst ? iot_data_alloc_const_ui16 (st, v->u16) : iot_data_alloc_ui16 (v->u16);
    case 4: return cst ? iot_data_alloc_const_i32 (st, v->i32) : iot_data_alloc_i32 (v->i32);
    case 5: return cst ? iot_data_alloc_const_ui32 (st, v->u32) : iot_data_alloc_ui32 (v->u32);
    case 6: return cst ? iot_data_alloc_const_i64 (st, v->i64) : iot_data_alloc_i64 (v->i64);
    case 7: return cst ? iot_data_alloc_const_ui64 (st, v->u64) : iot_data_alloc_ui64 (v->u64);
    case 8: return iot_data_alloc_f32 (v->f);
    case 9: return iot_data_alloc_f64 (v->d);
    default: return iot_data_alloc_bool (v->b);
  }
}
#endif
