/* Configuration: substitution of environment variables, values read from a configuration map */
#include "seq.h"
#include "numgen.h"
#include "iot/iot.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
extern char ** environ;
static bool armed; static int64_t live;
void * __real_malloc (size_t n); void * __real_calloc (size_t a, size_t b); void * __real_realloc (void * p, size_t n); void __real_free (void * p); char * __real_strdup (const char * s); char * __real_strndup (const char * s, size_t n);
void * __wrap_malloc (size_t n) { void * p = __real_malloc (n); if (armed && p) live++; return p; }
void * __wrap_calloc (size_t a, size_t b) { void * p = __real_calloc (a, b); if (armed && p) live++; return p; }
void * __wrap_realloc (void * p, size_t n) { void * q = __real_realloc (p, n); if (armed && !p && q) live++; return q; }
char * __wrap_strdup (const char * s) { char * p = __real_strdup (s); if (armed) live++; return p; }
char * __wrap_strndup (const char * s, size_t n) { char * p = __real_strndup (s, n); if (armed) live++; return p; }
void __wrap_free (void * p) { if (armed && p) live--; __real_free (p); }
static void bytes (const char * s) { sq_bytes (s, strlen (s)); }
static char * exact (const char * s) { size_t n = strlen (s); char * p = __real_malloc (n + 1); memcpy (p, s, n + 1); return p; }

/* what was logged: by a logger of our own, or to the standard output by the default one */
static int errors, others, outfd = -1;
static void sink (iot_logger_t * l, iot_loglevel_t level, uint64_t ts, const char * m, const void * ctx) { (void) l; (void) ts; (void) ctx; if (level == IOT_LOG_ERROR && *m) errors++; else others++; }
static iot_logger_t * mine;
static int logged (bool own)
{
  fflush (stdout); fflush (stderr);
  off_t n = lseek (outfd, 0, SEEK_END); if (ftruncate (outfd, 0)) _exit (76);
  lseek (outfd, 0, SEEK_SET);
  int r = own ? (n == 0 && others == 0 ? errors : 99) : (errors + others == 0 ? (n > 0) : 98);
  errors = others = 0; return r;
}
static void begin (void)
{
  fflush (stdout); outfd = memfd_create ("out", 0); if (outfd < 0 || dup2 (outfd, 1) < 0 || dup2 (outfd, 2) < 0) _exit (76);
  mine = iot_logger_alloc_custom ("mine", IOT_LOG_WARN, true, NULL, sink, NULL, NULL);
  iot_logger_default ();
  logged (true);
}
/* ---- ${NAME} ---- */
static struct { char name[80], value[60]; } env_[6]; static int nenv;
static void put_env (void) { sq_open (); for (int i = 0; i < nenv; i++) { sq_open (); bytes (env_[i].name); bytes (env_[i].value); sq_close (); } sq_close (); }
static void subst (const char * s, bool own)
{
  char * in = exact (s); int64_t l0 = live; armed = true; char * r = iot_config_substitute_env (in, own ? mine : NULL); armed = false;
  sq_begin ("sub"); bytes (s); sq_open (); sq_i (r != NULL); if (r) bytes (r); sq_close (); sq_i (live - l0); sq_i (logged (own)); sq_end ();
  if (r) live--; __real_free (r); __real_free (in);
}
static void make_env (void)
{
  clearenv (); nenv = 0;
  static const char * const nm[] = { "A", "x", "AA", "HOME_DIR", "A{B", "A$", "$", "{", "${A", " " }; static const char * const vl[] = { "", "v", "${A}", "a long value of some length, longer than most", "}", "$" };
  int n = 1 + (int) rnd (4);
  for (int i = 0; i < n; i++)
  {
    char name[80]; if (chance (12)) { memset (name, 'N', 63); name[63] = 0; if (chance (30)) { name[63] = 'N'; name[64 + 0] = 0; } else if (chance (30)) name[62] = 0; } else strcpy (name, nm[rnd (10)]);
    bool dup = false; for (int j = 0; j < nenv; j++) if (!strcmp (env_[j].name, name)) dup = true;
    if (dup) continue;
    strcpy (env_[nenv].name, name); strcpy (env_[nenv].value, vl[rnd (6)]); if (setenv (env_[nenv].name, env_[nenv].value, 1)) continue; nenv++;
  }
}
static void sc_subst (uint32_t run)
{
  (void) run; begin (); make_env (); sq_begin ("env"); put_env (); sq_end ();
  for (int i = 0; i < 60; i++)
  {
    char s[700] = ""; int n = (int) rnd (7);
    for (int j = 0; j < n; j++)
    {
      char t[120];
      switch (rnd (9))
      {
        case 0: strcpy (t, "${"); break; case 1: strcpy (t, "}"); break; case 2: strcpy (t, "$"); break; case 3: strcpy (t, "{"); break; case 4: strcpy (t, "text"); break;
        case 5: sprintf (t, "${%c}", "AxB "[rnd (4)]); break;
        case 6: if (chance (20)) strcpy (t, "${}"); else strcpy (t, "\xc3\xa9\n"); break;
        default: sprintf (t, "${%s}", env_[rnd ((uint32_t) nenv)].name); break;
      }
      strcat (s, t);
    }
    subst (s, chance (50));
  }
  { int64_t l0 = live; armed = true; char * r = iot_config_substitute_env (NULL, mine); armed = false; sq_begin ("subnull"); sq_i (r != NULL); sq_i (live - l0); logged (true); sq_end (); }
  sq_begin ("end"); sq_end ();
}
/* every text of up to five letters out of five */
static void sc_substall (uint32_t run)
{
  begin (); clearenv (); nenv = 2; strcpy (env_[0].name, "A"); strcpy (env_[0].value, run & 1 ? "" : "val}"); strcpy (env_[1].name, "A$"); strcpy (env_[1].value, "${A}"); setenv ("A", env_[0].value, 1); setenv ("A$", env_[1].value, 1);
  sq_begin ("env"); put_env (); sq_end ();
  for (uint32_t k = (run / 2) * 400; k < (run / 2 + 1) * 400 && k < 3906 + 15625; k++)
  {
    uint32_t len = 0, base = 1, x = k; while (x >= base) { x -= base; base *= 5; len++; }
    char s[10]; for (uint32_t i = 0; i < len; i++) { s[i] = "${}Ax"[x % 5]; x /= 5; } s[len] = 0;
    subst (s, true);
  }
  sq_begin ("end"); sq_end ();
}
/* ---- values ---- */
static iot_data_t * other (int t)
{
  switch (t)
  {
    case 12: { static const char * const s[] = { "", "v", "17", "true", "log1", "log2", "nothing", "a string of some length with \xc3\xa9" }; return iot_data_alloc_string (s[rnd (8)], chance (50) ? IOT_DATA_COPY : IOT_DATA_REF); }
    case 13: return iot_data_alloc_null ();
    case 14: return iot_data_alloc_binary ("xyz", 3, IOT_DATA_COPY);
    case 15: return iot_data_alloc_array ("xyz", 3, IOT_DATA_UINT8, IOT_DATA_COPY);
    case 16: return iot_data_alloc_vector (rnd (3));
    case 17: return iot_data_alloc_list ();
    default: return iot_data_alloc_map (IOT_DATA_STRING);
  }
}
static void sc_get (uint32_t run)
{
  (void) run; begin ();
  iot_component_factory_add (iot_logger_factory ());
  iot_container_t * cont = iot_container_alloc ("cont");
  iot_container_add_component (cont, "IOT::Logger", "log1", "{\"Name\":\"l1\",\"Level\":\"Error\"}"); iot_container_add_component (cont, "IOT::Logger", "", "{\"Name\":\"l2\",\"Level\":\"Error\"}");
  logged (true);
  for (int k = 0; k < 50; k++)
  {
    int t = chance (55) ? (int) rnd (11) : 12 + (int) rnd (7); num_t v = rand_num (t < 11 ? t : 0);
    if (t < 11 && is_nan_of (t, &v)) v.d = 0, v.f = 1;
    iot_data_t * d = t < 11 ? alloc (t, &v, false, NULL) : other (t); const iot_data_t * d0 = d;
    iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); iot_data_string_map_add (m, "key", d); iot_data_string_map_add (m, "kex", iot_data_alloc_i8 (3)); iot_data_string_map_add (m, "ke", iot_data_alloc_string ("no", IOT_DATA_REF));
    bool there = chance (85), own = chance (60); char key[8]; strcpy (key, there ? "key" : chance (50) ? "kez" : "");
    iot_logger_t * lg = own ? mine : NULL;
    int f = (int) rnd (12); if (t == 12 && chance (50)) f = 7 + (int) rnd (3);
    if (f < 6)
    {
      static const int rt[] = { 6, 7, 4, 5, 10, 9 };
      struct { uint8_t before[8]; num_t n; uint8_t after[8]; } o; memset (&o, 0xA5, sizeof o); bool ok, touched = false;
      switch (f)
      {
        case 0: ok = iot_config_i64 (m, key, &o.n.i64, lg); break; case 1: ok = iot_config_ui64 (m, key, &o.n.u64, lg); break; case 2: ok = iot_config_i32 (m, key, &o.n.i32, lg); break;
        case 3: ok = iot_config_ui32 (m, key, &o.n.u32, lg); break; case 4: ok = iot_config_bool (m, key, &o.n.b, lg); break; default: ok = iot_config_f64 (m, key, &o.n.d, lg); break;
      }
      size_t sz = ok ? iot_data_type_size ((iot_data_type_t) rt[f]) : 0;
      for (size_t i = 0; i < sizeof o; i++) if ((i < 8 || i >= 8 + sz) && ((uint8_t *) &o)[i] != 0xA5) touched = true;
      sq_begin ("num"); sq_i (there ? t : -1); if (t < 11) num (t, &v); else { sq_open (); sq_close (); } sq_i (rt[f]); sq_i (ok); if (ok) num (rt[f], &o.n); else { sq_open (); sq_close (); } sq_i (touched); sq_i (logged (own)); sq_end ();
    }
    else if (f < 10)
    {
      bool al = chance (50), dfl = f == 8; const char * def = chance (50) ? "dflt" : NULL; int64_t l0 = live; armed = true;
      const char * r = dfl ? iot_config_string_default (m, key, def, al) : iot_config_string (m, key, al, lg); armed = false;
      bool same = r && t == 12 && r == iot_data_string (d0);
      sq_begin ("str"); sq_i (there ? t : -1); bytes (t == 12 ? iot_data_string (d0) : ""); sq_i (dfl); sq_open (); sq_i (def != NULL); if (def) bytes (def); sq_close (); sq_i (al); sq_open (); sq_i (r != NULL); if (r) bytes (r); sq_close (); sq_i (live - l0); sq_i (same || (r && r == def)); sq_i (logged (own)); sq_end ();
      if (r && al) { live--; __real_free ((char *) r); }
    }
    else if (f == 10)
    {
      int w = chance (50) ? 18 : 16; const iot_data_t * r = w == 18 ? iot_config_map (m, key, lg) : iot_config_vector (m, key, lg);
      sq_begin ("coll"); sq_i (there ? t : -1); sq_i (w); sq_i (r == NULL ? 0 : r == d0 ? 1 : 2); sq_i (logged (own)); sq_end ();
    }
    else
    {
      iot_component_t * c = iot_config_component (m, key, cont, lg); int lgd = logged (own); bool ex = there && t == 12 && iot_container_find_component (cont, iot_data_string (d0)) != NULL;
      sq_begin ("comp"); sq_i (there ? t : -1); sq_i (ex); sq_i (c == NULL ? 0 : ex && c == iot_container_find_component (cont, iot_data_string (d0)) ? 1 : 2); sq_i (lgd); sq_end ();
    }
    iot_data_free (m);
  }
  iot_container_free (cont); iot_logger_free (mine);
  sq_begin ("end"); sq_end ();
}
void seq_child_start (void) { }
const seq_scenario_t seq_scenarios[] = { { "subst", sc_subst }, { "substall", sc_substall }, { "get", sc_get }, { NULL, NULL } };
