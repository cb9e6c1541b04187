/* numbers as the specification reads them (see spec/Num.tla) */
#ifndef NUM_H
#define NUM_H
#include "seq.h"
#include <math.h>
#include <string.h>
static void emit_num_d (double x)
{
  int e; if (x == 0) { sq_i (0); sq_i (0); return; }
  sq_i (x < 0 ? -1 : 1); x = fabs (x);
  if (isinf (x)) { sq_i (99999); return; }
  x = frexp (x, &e); sq_i (e - 1);
  while (x != 0) { x *= 2; if (x >= 1) { sq_i (1); x -= 1; } else sq_i (0); }
}
static void emit_num_u (uint64_t m, int sg)
{
  if (!m) { sq_i (0); sq_i (0); return; }
  int e = 63 - __builtin_clzll (m), lo = __builtin_ctzll (m);
  sq_i (sg); sq_i (e);
  for (int i = e; i >= lo; i--) sq_i ((int) (m >> i & 1));
}
static void emit_num (int type, const void * p)
{
  switch (type)
  {
#define S(T,N) case N: { T v; memcpy (&v, p, sizeof v); int64_t w = v; if (w < 0) emit_num_u (0 - (uint64_t) w, -1); else emit_num_u ((uint64_t) w, 1); break; }
#define U(T,N) case N: { T v; memcpy (&v, p, sizeof v); emit_num_u (v, 1); break; }
    S (int8_t, 0) U (uint8_t, 1) S (int16_t, 2) U (uint16_t, 3) S (int32_t, 4) U (uint32_t, 5) S (int64_t, 6) U (uint64_t, 7)
    case 8: { float v; memcpy (&v, p, sizeof v); emit_num_d ((double) v); break; }
    case 9: { double v; memcpy (&v, p, sizeof v); emit_num_d (v); break; }
    case 10: { bool v; memcpy (&v, p, sizeof v); sq_i (v ? 1 : 0); break; }
    default: break;
  }
}
#endif
