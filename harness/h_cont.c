/* Container scenarios: generated configurations, components whose factories resolve others, client threads that find,
   list, read, delete, start, stop. Every call and callback is an event: kind, milliseconds, thread, ... */
#include "vsched.h"
#include "iot/container.h"
#include "iot/logger.h"
#include "iot/thread.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

#define MAXN 6
#define MAXC 60
static int N, NC;
static struct { int listed, ty, cfg, lib, ndeps, deps[4], fail, cb, v, lag, lazy; } K[MAXN + 2];
static int ccfg[3], save_on, conf_on;
static iot_container_t * cont[3];
typedef struct { iot_component_t base; int id, n, c, ty, lag, worker; bool live; } comp_t;
static comp_t * C[MAXC + 1]; static int nc;      /* by number; set to NULL when released */
static const void * was[MAXC + 1], * conf_of[MAXC + 1];      /* addresses, which are not used again */
#define URI "scheme://conf"

static int ms (void) { return (int) ((vs_now () - vs_base) / 1000000ull); }
static const char * nm (int n) { static char b[64][8]; static int i; i = (i + 1) % 64; snprintf (b[i], 8, "k%d", n); return b[i]; }
static int num_of (const char * s) { return s && (s[0] == 'k' || s[0] == 'c') ? atoi (s + 1) : -1; }
static int ty_of (const char * s) { return s && s[0] == 'T' ? atoi (s + 1) : -1; }
static int id_of (const void * p) { if (!p) return 0; for (int i = nc; i > 0; i--) if (was[i] == p) return i; return -1; }

static const iot_component_factory_t * factory_of (int ty);
static iot_component_t * find (int c, int n)
{
  vs_ev ("\"inv\",%d,%d,\"find\",[%d,%d]", ms (), vs_self (), c, n);
  iot_component_t * r = iot_container_find_component (cont[c], nm (n));
  vs_ev ("\"ret\",%d,%d,\"find\",%d", ms (), vs_self (), id_of (r));
  return r;
}
static void set_state (comp_t * x, int st)
{
  vs_ev ("\"set\",%d,%d,%d,%d", ms (), vs_self (), x->id, st);
  if (st == 2) iot_component_set_running (&x->base); else iot_component_set_stopped (&x->base);
  vs_ev ("\"setdone\",%d,%d,%d,%d", ms (), vs_self (), x->id, st);
}
static void cb (const char * kind, comp_t * x, int arg) { vs_ev ("\"cb\",%d,%d,\"%s\",%d,%d", ms (), vs_self (), kind, x->id, arg); }
static void cbend (const char * kind, int id) { vs_ev ("\"cbend\",%d,%d,\"%s\",%d", ms (), vs_self (), kind, id); }
static void late (void * a) { comp_t * x = a; vs_sleep ((uint64_t) x->lag * 1000000ull); set_state (x, 2); }
static bool on_start (iot_component_t * b)
{
  comp_t * x = (comp_t *) b; cb ("start", x, 0);
  if (x->lag < 0) ;                       /* never runs */
  else if (x->lag == 0) set_state (x, 2);
  else { if (x->worker) vs_join (x->worker); x->worker = vs_spawn (late, x); }
  if (x->n <= N && K[x->n].lazy) { int d = K[x->n].lazy; find (x->c, d); }
  cbend ("start", x->id); return true;
}
static bool on_stop (iot_component_t * b)
{
  comp_t * x = (comp_t *) b; cb ("stop", x, 0);
  if (x->worker) { vs_join (x->worker); x->worker = 0; }
  if (K[x->n].fail != 2) set_state (x, 1);
  cbend ("stop", x->id); return true;
}
static void on_starting (iot_component_t * b) { comp_t * x = (comp_t *) b; cb ("starting", x, 0); cbend ("starting", x->id); }
static void on_stopping (iot_component_t * b) { comp_t * x = (comp_t *) b; cb ("stopping", x, 0); cbend ("stopping", x->id); }
static void on_running (iot_component_t * b, bool timeout) { comp_t * x = (comp_t *) b; cb ("running", x, timeout); cbend ("running", x->id); }
static iot_component_t * config_of (int ty, iot_container_t * ct, const iot_data_t * map)
{
  int n = num_of (iot_data_string_map_get_string (map, "me")), c = ct == cont[1] ? 1 : ct == cont[2] ? 2 : 0, id = ++nc;
  if (n < 1 || n > N + 1 || nc >= MAXC) { vs_ev ("\"badconfig\",%d,%d", ms (), n); return NULL; }
  vs_ev ("\"cfg\",%d,%d,%d,%d,%d,%d", ms (), vs_self (), id, c, n, ty);
  const iot_data_t * deps = iot_data_string_map_get_vector (map, "deps");
  if (deps) { iot_data_vector_iter_t it; iot_data_vector_iter (deps, &it); while (iot_data_vector_iter_next (&it)) { int d = num_of (iot_data_vector_iter_string (&it)); find (d >= 100 ? 3 - c : c, d % 100); } }
  comp_t * x = NULL; bool ok = K[n].fail != 1;
  if (ok)
  {
    x = calloc (1, sizeof (*x)); x->id = id; x->n = n; x->c = c; x->ty = ty; x->lag = K[n].lag; x->live = true; C[id] = x; was[id] = x; conf_of[id] = map;
    iot_component_init (&x->base, factory_of (ty), on_start, on_stop);
    if (K[n].cb & 1) iot_component_set_starting_callback (&x->base, on_starting);
    if (K[n].cb & 2) iot_component_set_stopping_callback (&x->base, on_stopping);
    if (K[n].cb & 4) iot_component_set_running_callback (&x->base, on_running);
  }
  vs_ev ("\"cfgend\",%d,%d,%d,%d,%d,%d", ms (), vs_self (), id, ok, K[n].cb, (int) iot_data_string_map_get_i64 (map, "v", -9));
  return x ? &x->base : NULL;
}
static void on_free (iot_component_t * b)
{
  comp_t * x = (comp_t *) b; int id = x->id;
  cb ("free", x, 0);
  if (x->worker) vs_join (x->worker);
  C[id] = NULL;
  iot_component_fini (b); free (x);
  cbend ("free", id);
}
static int reconf_ok;
static bool on_reconf (iot_component_t * b, iot_container_t * c, const iot_data_t * m) { comp_t * x = (comp_t *) b; (void) c; (void) m; cb ("reconf", x, reconf_ok); cbend ("reconf", x->id); return reconf_ok; }
#define FAC(i) static iot_component_t * config##i (iot_container_t * c, const iot_data_t * m) { return config_of (i, c, m); }
FAC (1) FAC (2) FAC (3) FAC (4) FAC (5) FAC (11)
static iot_component_factory_t F[] = {
  { .type = "T1", .category = "A", .config_fn = config1, .free_fn = on_free, .reconfig_fn = on_reconf },
  { .type = "T2", .config_fn = config2, .free_fn = on_free },
  { .type = "T3", .category = "B", .config_fn = config3, .free_fn = on_free, .reconfig_fn = on_reconf },
  { .type = "T4", .category = "A", .config_fn = config4, .free_fn = on_free },
  { .type = "T5", .config_fn = config5, .free_fn = on_free, .reconfig_fn = on_reconf },
  { .type = "T1", .category = "B", .config_fn = config11, .free_fn = on_free } };       /* a second one of a type there is */
static const iot_component_factory_t * factory_of (int ty) { return ty == 11 ? &F[5] : &F[ty - 1]; }
const iot_component_factory_t * harness_factory (void);
static int handles;      /* of libraries, not counting those whose factory is in use */
void * __real_dlopen (const char * f, int m); void * __wrap_dlopen (const char * f, int m); int __real_dlclose (void * h); int __wrap_dlclose (void * h);
void * __wrap_dlopen (const char * f, int m) { void * h = __real_dlopen (f, m); if (h) handles++; return h; }
int __wrap_dlclose (void * h) { handles--; return __real_dlclose (h); }
const iot_component_factory_t * harness_factory (void) { handles--; vs_ev ("\"facfn\",%d,%d,4", ms (), vs_self ()); return &F[3]; }

static char * config_text (int n, int kind, int lib)
{
  char * s = malloc (400), * p = s;
  switch (kind)
  {
    case 0: break;
    case 1: free (s); return NULL;
    case 2: strcpy (s, "[1,2]"); return s;
    case 3: sprintf (s, "{\"me\":\"k%d\",\"v\":\"${HARNESS_NOT_SET}\"}", n); return s;
    default: sprintf (s, "{\"me\":\"k%d\"", n); return s;
  }
  p += sprintf (p, "{\"v\":%d,\"deps\":[", K[n].v);
  for (int i = 0; i < K[n].ndeps; i++) p += sprintf (p, "%s\"k%d\"", i ? "," : "", K[n].deps[i]);
  p += sprintf (p, "],\"me\":\"k%s%d\"", n % 2 ? "${HARNESS_NOTHING}" : "", n);
  switch (lib) { case 1: p += sprintf (p, ",\"Library\":\"\",\"Factory\":\"harness_factory\""); break; case 2: p += sprintf (p, ",\"Library\":\"/nonexistent/lib.so\",\"Factory\":\"harness_factory\""); break; case 3: p += sprintf (p, ",\"Library\":\"\",\"Factory\":\"harness_no_factory\""); break; case 4: p += sprintf (p, ",\"Library\":\"\""); break; case 5: p += sprintf (p, ",\"Factory\":\"harness_factory\""); break; }
  sprintf (p, "}");
  return s;
}
static char * load (const char * name, const char * uri)
{
  if (!uri || strcmp (uri, URI)) vs_ev ("\"baduri\",%d,%d", ms (), vs_self ());
  vs_yield ();
  if (name[0] == 'k') { int n = num_of (name); return n >= 1 && n <= N ? config_text (n, K[n].cfg, K[n].lib) : NULL; }
  int c = num_of (name);
  if (c < 1 || c > NC) { vs_ev ("\"badname\",%d,%d", ms (), vs_self ()); return NULL; }
  if (ccfg[c] == 1) return NULL;
  char * s = malloc (400), * p = s; int k = 0;
  if (ccfg[c] == 2) { strcpy (s, "\"text\""); return s; }
  if (ccfg[c] == 3) { strcpy (s, "{\"k1\":\"${HARNESS_NOT_SET}\"}"); return s; }
  p += sprintf (p, "{");
  for (int n = N; n >= 1; n--) if (K[n].listed == c) { if (K[n].ty) p += sprintf (p, "%s\"k%d\":\"T%d\"", k++ ? "," : "", n, K[n].ty); else p += sprintf (p, "%s\"k%d\":7", k++ ? "," : "", n); }
  sprintf (p, "}");
  return s;
}
static int number_at (const char * json, const char * key) { char pat[16]; snprintf (pat, sizeof pat, "\"%s\":", key); const char * p = strstr (json, pat); return p ? atoi (p + strlen (pat)) : -1; }
static bool save (const char * name, const char * uri, const char * json)
{
  if (!uri || strcmp (uri, URI)) vs_ev ("\"baduri\",%d,%d", ms (), vs_self ());
  vs_ev ("\"save\",%d,%d,%d,%d,%d", ms (), vs_self (), num_of (name), number_at (json, "v"), number_at (json, "w"));
  return true;
}
static iot_container_config_t conf = { load, URI, save };

/* ---- scripts */
enum { FIND, INIT, ADD, START, STOP, FREE, DEL, LIST, READ, RECONF, FACADD, FACFIND, NAP };
typedef struct { int n; struct { int op, c, a, b, d; } o[20]; } script_t;
static script_t scr[5];
static void put (int k, int op, int c, int a, int b, int d) { script_t * s = &scr[k]; if (s->n < 20) { s->o[s->n].op = op; s->o[s->n].c = c; s->o[s->n].a = a; s->o[s->n].b = b; s->o[s->n++].d = d; } }
static int entry (char * p, const iot_data_t * m)
{
  static const char * states[] = { "Initial", "Stopped", "Running", "", "Deleted" };
  const iot_data_t * cf = iot_data_string_map_get_map (m, "config");
  const char * name = iot_data_string_map_get_string (m, "name"), * st = iot_data_string_map_get_string (m, "state"), * cat = iot_data_string_map_get_string (m, "category");
  int n = num_of (name), id = 0, sv = -1, v = cf ? (int) iot_data_string_map_get_i64 (cf, "v", -1) : -5;
  for (int i = 0; i < 5; i++) if (st && strcmp (st, states[i]) == 0) sv = i;
  /* which one it is: by its configuration, which belongs to one component only */
  for (int i = 1; i <= nc; i++) if (cf && conf_of[i] == cf) id = i;      /* the latest, should the block have been used before */
  return sprintf (p, "[%d,%d,%d,%d,%d,%d,%d]", id, n, ty_of (iot_data_string_map_get_string (m, "type")), cat ? cat[0] - 'A' + 1 : 0, sv, v, cf ? (int) iot_data_string_map_get_i64 (cf, "w", -1) : -5);
}
static void run_op (int op, int c, int a, int b, int d)
{
  int t = vs_self (); char buf[1000], * p = buf; iot_data_t * r;
  switch (op)
  {
    case NAP: vs_sleep ((uint64_t) a * 1000000ull); break;
    case FIND: find (c, a); break;
    case INIT: vs_ev ("\"inv\",%d,%d,\"init\",[%d]", ms (), t, c); a = iot_container_init (cont[c]); vs_ev ("\"ret\",%d,%d,\"init\",%d", ms (), t, a); break;
    case ADD:
    {
      char * s = config_text (a, d, b == 4 ? K[a].lib : 0); if (!s) break; char ty[4]; snprintf (ty, 4, "T%d", b);
      vs_ev ("\"inv\",%d,%d,\"add\",[%d,%d,%d,%d,%d]", ms (), t, c, a, b, d, b == 4 ? K[a].lib : 0); iot_container_add_component (cont[c], ty, nm (a), s); vs_ev ("\"ret\",%d,%d,\"add\",0", ms (), t); free (s); break;
    }
    case START: vs_ev ("\"inv\",%d,%d,\"start\",[%d]", ms (), t, c); iot_container_start (cont[c]); vs_ev ("\"ret\",%d,%d,\"start\",0", ms (), t); break;
    case STOP: vs_ev ("\"inv\",%d,%d,\"stop\",[%d]", ms (), t, c); iot_container_stop (cont[c]); vs_ev ("\"ret\",%d,%d,\"stop\",0", ms (), t); break;
    case FREE: vs_ev ("\"inv\",%d,%d,\"free\",[%d]", ms (), t, c); iot_container_free (cont[c]); vs_ev ("\"ret\",%d,%d,\"free\",0", ms (), t); break;
    case DEL: vs_ev ("\"inv\",%d,%d,\"delete\",[%d,%d]", ms (), t, c, a); iot_container_delete_component (cont[c], nm (a)); vs_ev ("\"ret\",%d,%d,\"delete\",0", ms (), t); break;
    case LIST:
    {
      static const char * cats[] = { NULL, "A", "B", "C" };
      vs_ev ("\"inv\",%d,%d,\"list\",[%d,%d]", ms (), t, c, a); r = iot_container_list_components (cont[c], cats[a]);
      p += sprintf (p, "["); iot_data_list_iter_t it; iot_data_list_iter (r, &it); bool first = true;
      while (iot_data_list_iter_next (&it)) { if (!first) *p++ = ','; first = false; p += entry (p, iot_data_list_iter_value (&it)); }
      sprintf (p, "]"); iot_data_free (r); vs_ev ("\"ret\",%d,%d,\"list\",%s", ms (), t, buf); break;
    }
    case READ:
      vs_ev ("\"inv\",%d,%d,\"read\",[%d,%d]", ms (), t, c, a); r = iot_container_component_read (cont[c], nm (a));
      p += sprintf (p, "["); if (r) p += entry (p, r); sprintf (p, "]"); iot_data_free (r); vs_ev ("\"ret\",%d,%d,\"read\",%s", ms (), t, buf); break;
    case RECONF:
    {
      int id = 0; for (int i = 1; i <= nc; i++) if (C[i] && C[i]->n == a && C[i]->c == c) id = i;
      if (!id) break;
      iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); int v = b & 1 ? 30 + b : -1, w = b & 2 ? 40 + b : -1;
      if (v >= 0) iot_data_string_map_add (m, "v", iot_data_alloc_i64 (v));
      if (w >= 0) iot_data_string_map_add (m, "w", iot_data_alloc_i64 (w));
      reconf_ok = d; vs_ev ("\"inv\",%d,%d,\"reconf\",[%d,%d,%d]", ms (), t, id, v, w);
      a = iot_component_reconfig (&C[id]->base, cont[c], m); vs_ev ("\"ret\",%d,%d,\"reconf\",%d", ms (), t, a); iot_data_free (m); break;
    }
    case FACADD: vs_ev ("\"inv\",%d,%d,\"facadd\",[%d]", ms (), t, a == 11 ? 1 : a); iot_component_factory_add (factory_of (a)); vs_ev ("\"ret\",%d,%d,\"facadd\",0", ms (), t); break;
    case FACFIND:
    {
      char ty[4]; snprintf (ty, 4, "T%d", a); vs_ev ("\"inv\",%d,%d,\"facfind\",[%d]", ms (), t, a); const iot_component_factory_t * f = iot_component_factory_find (ty);
      vs_ev ("\"ret\",%d,%d,\"facfind\",%d", ms (), t, f == NULL ? 0 : f == factory_of (a) ? 1 : 2); break;
    }
  }
}
static void client (void * a) { script_t * s = a; for (int i = 0; i < s->n; i++) run_op (s->o[i].op, s->o[i].c, s->o[i].a, s->o[i].b, s->o[i].d); }
static uint64_t base_live; static int fac0;
static void setup (int threads)
{
  iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE);
  setenv ("HARNESS_NOTHING", "", 1); unsetenv ("HARNESS_NOT_SET");
  char l[5][200]; char * p[5]; for (int i = 0; i < 5; i++) { p[i] = l[i]; *p[i] = 0; }
  for (int n = 1; n <= N + 1; n++) { const char * q = n > 1 ? "," : ""; p[0] += sprintf (p[0], "%s%d", q, conf_on ? K[n].listed : 0); p[1] += sprintf (p[1], "%s%d", q, K[n].ty); p[2] += sprintf (p[2], "%s%d", q, K[n].cfg); p[3] += sprintf (p[3], "%s%d", q, K[n].lib); }
  for (int i = 1; i <= 3; i++) if (fac0 >> i & 1) p[4] += sprintf (p[4], "%s%d", p[4] != l[4] ? "," : "", i);
  vs_param ("\"threads\":%d,\"listed\":[%s],\"ty\":[%s],\"cfg\":[%s],\"lib\":[%s],\"ccfg\":[%d,%d],\"cat\":[1,0,2,1,0,0,0,0,0,0,0],\"save\":%s,\"fac\":[%s]",
    40, l[0], l[1], l[2], l[3], conf_on ? ccfg[1] : 1, conf_on ? ccfg[2] : 1, save_on ? "true" : "false", l[4]);
  (void) threads;
  for (int i = 1; i <= 3; i++) if (fac0 >> i & 1) iot_component_factory_add (factory_of (i));
  conf.save = save_on ? save : NULL;
  iot_container_config (&conf);
  base_live = vs_live ();
  for (int c = 1; c <= NC; c++) { char b[8]; snprintf (b, 8, "c%d", c); cont[c] = iot_container_alloc (b); }
}
static void clear (void) { memset (scr, 0, sizeof scr); memset (K, 0, sizeof K); N = NC = 1; ccfg[1] = ccfg[2] = 0; save_on = 1; conf_on = 1; fac0 = 14; for (int n = 0; n < MAXN + 2; n++) K[n].ty = 1; }
static void finish (void)
{
  for (int c = 1; c <= NC; c++) run_op (FREE, c, 0, 0, 0);
  vs_ev ("\"live\",%d,%d,%d", ms (), vs_self (), 
    (handles > 0 ? handles : 0) +
#ifdef NDEBUG
    0       /* blocks of released values are kept for reuse */
#else
    (int) (vs_live () - base_live)
#endif
    );
}
static void play (int clients, bool init1)
{
  setup (clients);
  client (&scr[0]);
  if (init1) run_op (INIT, 1, 0, 0, 0);
  int id[5]; for (int k = 1; k <= clients; k++) id[k] = vs_spawn (client, &scr[k]);
  for (int k = 1; k <= clients; k++) vs_join (id[k]);
  finish ();
}
static void graph (int quality)      /* a random configuration; quality: percent of parts that are as they should be */
{
  clear ();
  N = 1 + (int) vs_rand (MAXN - 1); NC = vs_rand (100) < 25 ? 2 : 1;
#define ODD (vs_rand (100) >= (uint32_t) quality)
  for (int n = 1; n <= N + 1; n++)
  {
    K[n].listed = n > N || ODD ? 0 : NC == 2 && vs_rand (3) == 0 ? 2 : 1;
    K[n].ty = ODD ? (int) vs_rand (6) : 1 + (int) vs_rand (3); K[n].cfg = ODD ? 1 + (int) vs_rand (4) : 0; K[n].fail = ODD ? (int) vs_rand (3) : 0;
    K[n].lib = vs_rand (3) == 0 ? (int) vs_rand (6) : 0; if (vs_rand (100) < 10) { K[n].ty = 4; K[n].lib = 1; }
    K[n].cb = (int) vs_rand (8); K[n].v = (int) vs_rand (20); K[n].lag = vs_rand (100) < 85 ? 0 : vs_rand (100) < 70 ? 50 + 200 * (int) vs_rand (27) : -1;
    K[n].ndeps = (int) vs_rand (4); if (K[n].ndeps == 3) K[n].ndeps = 1;
    for (int i = 0; i < K[n].ndeps; i++)
    {
      int d = ODD || vs_rand (6) == 0 ? 1 + (int) vs_rand ((uint32_t) N + 1) : n > 1 ? 1 + (int) vs_rand ((uint32_t) n - 1) : 1;   /* mostly no cycle */
      if (d == n && !ODD) { K[n].ndeps = i; break; }
      K[n].deps[i] = d + (NC == 2 && vs_rand (4) == 0 ? 100 : 0);
    }
  }
  if (vs_rand (4) == 0)    /* upside down: the order of names is not the order of needs */
    for (int n = 1; n <= N; n++) for (int i = 0; i < K[n].ndeps; i++) { int h = K[n].deps[i] / 100 * 100, d = K[n].deps[i] % 100; if (d <= N) K[n].deps[i] = h + 1 + (d + n) % N; }
  if (ODD && vs_rand (3) == 0) ccfg[1 + vs_rand (2)] = 1 + (int) vs_rand (3);
  save_on = vs_rand (3) != 0; if (vs_rand (30) == 0) conf_on = 1;
  if (vs_rand (4) == 0) fac0 = 2 * (int) vs_rand (8);
}
static int some (void) { return 1 + (int) vs_rand ((uint32_t) N + 1); }
static int known (void) { return 1 + (int) vs_rand ((uint32_t) N); }
static void s_graph (uint64_t seed)
{
  (void) seed; graph (60 + 10 * (int) vs_rand (5));
  int ops = 3 + (int) vs_rand (10), added = 0;
  if (vs_rand (2)) put (0, INIT, 1, 0, 0, 0);
  for (int i = 0; i < ops; i++)
  {
    int c = NC == 2 ? 1 + (int) vs_rand (2) : 1;
    switch (vs_rand (20))
    {
      case 0: case 1: case 2: case 3: put (0, FIND, c, some (), 0, 0); break;
      case 4: case 5: put (0, INIT, c, 0, 0, 0); break;
      case 6: case 7: put (0, START, c, 0, 0, 0); break;
      case 8: case 9: put (0, STOP, c, 0, 0, 0); break;
      case 10: case 11: put (0, DEL, c, some (), 0, 0); break;
      case 12: case 13: put (0, LIST, c, (int) vs_rand (4), 0, 0); break;
      case 14: put (0, READ, c, some (), 0, 0); break;
      case 15: case 16: put (0, RECONF, c, known (), (int) vs_rand (4), vs_rand (4) != 0); break;
      case 17: put (0, FACADD, 0, vs_rand (3) == 0 ? 11 : 1 + (int) vs_rand (5), 0, 0); if (scr[0].o[scr[0].n - 1].a == 11 && !(fac0 & 2)) scr[0].o[scr[0].n - 1].a = 3; break;
      case 18: put (0, FACFIND, 0, 1 + (int) vs_rand (5), 0, 0); break;
      default: if (added++ < 3) put (0, ADD, c, some (), vs_rand (4) ? 1 + (int) vs_rand (5) : 4, vs_rand (5) ? 0 : 2 + (int) vs_rand (3)); break;
    }
  }
  play (0, false);
}
/* several threads look components up, none of them loaded yet */
static void s_find (uint64_t seed)
{
  (void) seed; graph (75 + 5 * (int) vs_rand (6)); NC = 1; for (int n = 1; n <= N; n++) { if (K[n].listed == 2) K[n].listed = 1; for (int i = 0; i < 4; i++) K[n].deps[i] %= 100; K[n].lag = 0; }
  int n = 2 + (int) vs_rand (2);
  for (int k = 1; k <= n; k++)
  {
    int ops = 1 + (int) vs_rand (3);
    for (int i = 0; i < ops; i++) switch (vs_rand (8)) { case 0: put (k, LIST, 1, (int) vs_rand (4), 0, 0); break; case 1: put (k, READ, 1, some (), 0, 0); break; default: put (k, FIND, 1, vs_rand (2) ? 1 : some (), 0, 0); }
  }
  play (n, false);
}
/* all loaded: one thread starts and stops, others find, list, read and delete */
static void s_live (uint64_t seed)
{
  (void) seed; graph (100); NC = 1; if (N < 2) N = 2;
  for (int n = 1; n <= N; n++) { K[n].listed = 1; K[n].cfg = 0; K[n].fail = 0; for (int i = 0; i < 4; i++) K[n].deps[i] %= 100; if (K[n].ty > 3 || !K[n].ty) K[n].ty = 1; K[n].lag = vs_rand (3) ? 0 : 50 + 200 * (int) vs_rand (5); }
  fac0 = 14; ccfg[1] = 0;
  /* what is deleted must not be loaded again while others start it: find only what stays */
  int gone = 1 + (int) vs_rand ((uint32_t) N), who = 2 + (int) vs_rand (2);
  put (1, START, 1, 0, 0, 0); if (vs_rand (2)) put (1, STOP, 1, 0, 0, 0); if (vs_rand (3) == 0) put (1, START, 1, 0, 0, 0);
  for (int k = 2; k <= 3; k++)
  {
    int ops = 1 + (int) vs_rand (3);
    for (int i = 0; i < ops; i++) switch (vs_rand (8))
    {
      case 0: case 1: put (k, LIST, 1, (int) vs_rand (4), 0, 0); break;
      case 2: put (k, READ, 1, some (), 0, 0); break;
      case 3: case 4: if (k == who) put (k, DEL, 1, gone, 0, 0); else put (k, READ, 1, gone, 0, 0); break;
      case 5: put (k, NAP, 0, 100 * (int) vs_rand (12), 0, 0); break;
      default: { int n = known (); if (n != gone) put (k, FIND, 1, n, 0, 0); break; }
    }
  }
  play (3, true);
}
static void pair (int what)
{
  clear (); N = 3; for (int n = 1; n <= 3; n++) { K[n].listed = 1; K[n].cb = 7; K[n].v = n; }
  switch (what)
  {
    case 1: put (1, FIND, 1, 1, 0, 0); put (2, FIND, 1, 1, 0, 0); break;
    case 2: K[1].ndeps = 1; K[1].deps[0] = 2; put (1, FIND, 1, 1, 0, 0); put (2, FIND, 1, 2, 0, 0); break;
    case 3: K[1].ndeps = K[2].ndeps = 1; K[1].deps[0] = 2; K[2].deps[0] = 1; put (1, FIND, 1, 1, 0, 0); put (2, FIND, 1, 2, 0, 0); break;
    case 4: K[1].fail = 1; put (1, FIND, 1, 1, 0, 0); put (2, FIND, 1, 1, 0, 0); break;
    case 5: put (0, FIND, 1, 1, 0, 0); put (1, DEL, 1, 1, 0, 0); put (2, READ, 1, 1, 0, 0); put (2, LIST, 1, 0, 0, 0); break;
    case 6: put (0, INIT, 1, 0, 0, 0); put (1, START, 1, 0, 0, 0); put (2, DEL, 1, 2, 0, 0); break;
    case 7: put (0, INIT, 1, 0, 0, 0); put (0, START, 1, 0, 0, 0); put (1, STOP, 1, 0, 0, 0); put (2, DEL, 1, 2, 0, 0); break;
    case 8: put (0, FIND, 1, 1, 0, 0); put (1, DEL, 1, 1, 0, 0); put (2, FIND, 1, 1, 0, 0); break;
  }
  play (2, false);
}
#define PAIR(i) static void p##i (uint64_t s) { (void) s; pair (i); }
PAIR (1) PAIR (2) PAIR (3) PAIR (4) PAIR (5) PAIR (6) PAIR (7) PAIR (8)
const vs_scenario_t vs_scenarios[] = { { "graph", s_graph }, { "find", s_find }, { "live", s_live }, { "p1", p1 }, { "p2", p2 }, { "p3", p3 }, { "p4", p4 }, { "p5", p5 }, { "p6", p6 }, { "p7", p7 }, { "p8", p8 }, { NULL, NULL } };
