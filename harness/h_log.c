/* Loggers: chains of loggers of every kind, levels, start and stop, logging from several threads. The outputs of the
   library are stand-ins that record what they are given; each is a scheduling point. */
#include <errno.h>
#include "vsched.h"
#include "iot/container.h"
#include "iot/logger.h"
#include "iot/thread.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/prctl.h>

#define MAXL 12
static iot_logger_t * L[MAXL + 1]; static int nl, ids[MAXL + 1];
static FILE * fds[MAXL + 1]; static int bcast[MAXL + 1]; static char addr_of[MAXL + 1][20];
static const char * kind_of[MAXL + 1]; static char name_of[MAXL + 1][40];
typedef struct { bool on; int sev; uint64_t t0; char text[4200]; int len; int making; } cur_t;
static cur_t cur[16];
static cur_t * me (void) { int t = vs_self (); return &cur[(t >= 0 && t < 16) ? t : 15]; }
static const char * const lvn[] = { "", "ERROR", "WARN", "Info", "Debug", "Trace" };
static int rel (uint64_t us) { return (int) (us - vs_base / 1000u); }
static int ts_ok (uint64_t us) { return us >= me ()->t0 / 1000u && us <= vs_now () / 1000u; }

static void sink (iot_logger_t * l, iot_loglevel_t level, uint64_t ts, const char * msg, const void * ctx)
{
  int id = ctx ? *(const int *) ctx : 0; cur_t * c = me (); int n = (int) strlen (msg), w = c->len < 1023 ? c->len : 1023;
  vs_ev ("\"sink\",%d,%d,%d,%d,%d,%d,%d", vs_self (), (id && L[id] == l) ? id : 0, (int) level, rel (ts), n, n <= w && strncmp (msg, c->text, (size_t) n) == 0, ts_ok (ts));
}
static void unctx (void * ctx) { vs_ev ("\"gone\",%d,%d", vs_self (), ctx ? *(int *) ctx : 0); }
/* one record written for logger id (0: to be found by its name) */
static void record (int id, const char * stream, const char * b, size_t len, int ok)
{
  cur_t * c = me (); size_t have = len < 1024 ? len : 1023;
  char buf[1100]; memcpy (buf, b, have); buf[have] = 0;
  char tn[17] = { 0 }; prctl (PR_GET_NAME, tn);
  /* "[thread:stamp:name:LEVEL] " */
  int head = 0, well = 0; uint64_t ts = 0; char * p = strstr (buf, "] ");
  if (buf[0] == '[' && p && strncmp (buf + 1, tn, strlen (tn)) == 0 && buf[1 + strlen (tn)] == ':')
  {
    char * e; ts = strtoull (buf + 2 + strlen (tn), &e, 10); head = (int) (p + 2 - buf);
    if (*e == ':')
    {
      char nm[64] = { 0 }, * q = strrchr (e + 1, ':'); 
      *p = 0; q = strrchr (e + 1, ':');
      if (q && q - e - 1 < 63) { memcpy (nm, e + 1, (size_t) (q - e - 1)); well = c->sev > 0 && strcmp (q + 1, lvn[c->sev]) == 0; if (!id) for (int i = 1; i <= nl; i++) if (strcmp (nm, name_of[i]) == 0) id = i; well = well && id && strcmp (nm, name_of[id]) == 0; }
      *p = ']';
    }
  }
  size_t body = (head && have > (size_t) head) ? have - (size_t) head - 1 : 0;
  int same = head && body <= strlen (c->text) && strncmp (buf + head, c->text, body) == 0;
  well = well && ok && have > 0 && buf[have - 1] == '\n';
  vs_ev ("\"rec\",%d,%d,%d,%d,%d,%d,\"%s\",%d,%d,%d", vs_self (), id, c->sev, rel (ts), head, (int) len, stream, well, same, ts_ok (ts));
}
/* ------------ stand-ins ------------ */
static bool real_files;
static int id_of_fd (FILE * f) { for (int i = 1; i <= nl + 1 && i <= MAXL; i++) if (fds[i] == f) return i; return 0; }
extern int __real_fputs (const char * s, FILE * f);
static int put (const char * s, FILE * f)
{
  if (!me ()->on || real_files) return __real_fputs (s, f);
  vs_yield ();
  int id = (f == stdout || f == stderr) ? 0 : id_of_fd (f);
  record (id, f == stdout ? "out" : f == stderr ? "err" : "file", s, strlen (s), f == stdout || f == stderr || id);
  return 1;
}
int __wrap_fputs (const char * s, FILE * f) { return put (s, f); }
int __wrap_fprintf (FILE * f, const char * fmt, ...)
{
  if (me ()->on && !real_files) vs_yield ();
  char b[8192]; va_list a; va_start (a, fmt); int n = vsnprintf (b, sizeof b, fmt, a); va_end (a);
  put (b, f); return n;
}
size_t __real_fwrite (const void * p, size_t s, size_t n, FILE * f);
size_t __wrap_fwrite (const void * p, size_t s, size_t n, FILE * f)
{
  if (!me ()->on || real_files) return __real_fwrite (p, s, n, f);
  char b[8192]; size_t k = s * n < sizeof b - 1 ? s * n : sizeof b - 1; vs_yield (); memcpy (b, p, k); b[k] = 0; put (b, f); return n;
}
static bool from_conf;
extern FILE * __real_fopen (const char * p, const char * m);
FILE * __wrap_fopen (const char * p, const char * m)
{
  int id = me ()->making; if (!id || real_files) return __real_fopen (p, m);
  if (strcmp (p, strcmp (kind_of[id], "nofile") == 0 && from_conf ? "./y.log" : from_conf ? "./x.log" : "/nowhere/log")) vs_ev ("\"badfile\",%d,%d", vs_self (), id);
  if (strcmp (kind_of[id], "nofile") == 0) return NULL;
  return fds[id] = __real_fopen ("/dev/null", m);
}
extern int __real_fclose (FILE * f);
int __wrap_fclose (FILE * f) { int id = real_files ? 0 : id_of_fd (f); if (id) { fds[id] = NULL; vs_ev ("\"gone\",%d,%d", vs_self (), id); } return __real_fclose (f); }
int __wrap_socket (int d, int t, int p) { (void) d; (void) t; (void) p; return 1000 + me ()->making; }
int __wrap_setsockopt (int fd, int l, int o, const void * v, socklen_t n) { if (fd >= 1000 && l == SOL_SOCKET && o == SO_BROADCAST && n == sizeof (int) && *(const int *) v) bcast[fd - 1000] = 1; return 0; }
extern int __real_close (int fd);
int __wrap_close (int fd) { if (fd < 1000) return __real_close (fd); vs_ev ("\"gone\",%d,%d", vs_self (), fd - 1000); return 0; }
ssize_t __wrap_sendto (int fd, const void * b, size_t n, int fl, const struct sockaddr * a, socklen_t al)
{
  const struct sockaddr_in * in = (const struct sockaddr_in *) a; int id = fd - 1000; if (fl & MSG_OOB) { errno = EOPNOTSUPP; return -1; }
  vs_yield ();
  struct in_addr want = { .s_addr = htonl (INADDR_BROADCAST) }; if (addr_of[id][0]) inet_aton (addr_of[id], &want);
  record (id, "udp", b, n, al == sizeof *in && in->sin_port == htons ((uint16_t) (5000 + id)) && in->sin_addr.s_addr == want.s_addr && (addr_of[id][0] || bcast[id]));
  return (ssize_t) n;
}
/* ------------ calls ------------ */
static void inv (const char * op, int id, int arg, int len) { vs_ev ("\"inv\",%d,\"%s\",%d,%d,%d", vs_self (), op, id, arg, len); }
static void ret (int r) { vs_ev ("\"ret\",%d,%d", vs_self (), r); }
static int make (const char * kind, int level, bool start, int next)
{
  int id = ++nl; cur_t * c = me (); ids[id] = id; kind_of[id] = kind;
  snprintf (name_of[id], sizeof name_of[id], "L%d", id); addr_of[id][0] = 0; bcast[id] = 0;
  if (vs_rand (6) == 0) snprintf (name_of[id], sizeof name_of[id], "a-rather-longer-name-%d", id);
  vs_ev ("\"new\",%d,\"%s\",%d,%d,%d", id, kind, level, start, next);
  c->making = id;
  iot_logger_t * nx = next ? L[next] : NULL;
  if (strcmp (kind, "custom") == 0) L[id] = iot_logger_alloc_custom (name_of[id], (iot_loglevel_t) level, start, nx, sink, &ids[id], unctx);
  else if (strcmp (kind, "console") == 0) L[id] = iot_logger_alloc (name_of[id], (iot_loglevel_t) level, start);
  else if (strcmp (kind, "udp") == 0) { if (vs_rand (2)) strcpy (addr_of[id], "127.0.0.1"); L[id] = iot_logger_alloc_udp (name_of[id], (iot_loglevel_t) level, start, nx, addr_of[id][0] ? addr_of[id] : NULL, (uint16_t) (5000 + id)); }
  else if (strcmp (kind, "default") == 0) { L[id] = iot_logger_default (); strcpy (name_of[id], "(null)"); }
  else L[id] = iot_logger_alloc_file (name_of[id], (iot_loglevel_t) level, start, nx, "/nowhere/log");
  c->making = 0;
  return id;
}
static void log_it (int id, int sev, int how, int n, int m)
{
  cur_t * c = me (); iot_logger_t * l = L[id]; char body[4096]; int mode = m % 3;
  for (int i = 0; i < n; i++) body[i] = (char) ('a' + (m + i) % 26);
  body[n] = 0;
  if (mode == 1) c->len = snprintf (c->text, sizeof c->text, "%s-%d-%u|%5.2f", body, -m, (unsigned) n, 0.25);
  else c->len = snprintf (c->text, sizeof c->text, "%s", body);
  c->sev = sev;
  inv (how ? "macro" : "log", id, sev, c->len);
  c->on = true; c->t0 = vs_now ();
#define ARGS mode == 1 ? "%s-%d-%u|%5.2f" : (mode == 2 ? (const char *) body : "%s"), body, -m, (unsigned) n, 0.25
  if (!how) iot_log__log (l, (iot_loglevel_t) sev, ARGS);
  else if (how == 2) { iot_log_log (l, (iot_loglevel_t) sev, ARGS); }
  else switch (sev)
  {
    case 1: iot_log_error (l, ARGS); break; case 2: iot_log_warn (l, ARGS); break; case 3: iot_log_info (l, ARGS); break;
    case 4: iot_log_debug (l, ARGS); break; case 5: iot_log_trace (l, ARGS); break;
  }
  c->on = false; ret (0);
}
static void level (int id, int v) { inv ("level", id, v, 0); iot_logger_set_level (L[id], (iot_loglevel_t) v); ret (0); }
static void start (int id) { inv ("start", id, 0, 0); iot_logger_start (L[id]); ret (0); }
static void stop (int id) { inv ("stop", id, 0, 0); iot_logger_stop (L[id]); ret (0); }
static void addref (int id) { inv ("addref", id, 0, 0); iot_logger_add_ref (L[id]); ret (0); }
static void drop (int id) { inv ("free", id, 0, 0); iot_logger_free (L[id]); ret (0); }
static void chain (int id, int n) { inv ("next", id, n, 0); iot_logger_set_next (L[id], n ? L[n] : NULL); ret (0); }
static void query (int id) { inv ("query", id, 0, 0); ret ((int) L[id]->component.state); }
static int rsev (void) { return 1 + (int) vs_rand (5); }
static int rlev (void) { int a = (int) vs_rand (6), b = (int) vs_rand (6); return a > b ? a : b; }
static int rlen (void) { uint32_t r = vs_rand (12); return r < 8 ? (int) vs_rand (20) : r < 9 ? 960 + (int) vs_rand (30) : r < 11 ? 1000 + (int) vs_rand (50) : (int) vs_rand (3000); }
static const char * rkind (void) { static const char * k[] = { "custom", "custom", "custom", "console", "file", "udp", "nofile" }; return k[vs_rand (7)]; }
static uint64_t base;
static void begin (int threads, int loggers) { vs_param ("\"threads\":%d,\"loggers\":%d", threads, loggers); nl = 0; base = vs_live (); }
static void finish (void) { vs_ev ("\"live\",%d", (int) (vs_live () - base)); }

static int seq_no;
static void s_seq (uint64_t seed)
{
  (void) seed; begin (0, MAXL);
  int refs[MAXL + 1] = { 0 }, next[MAXL + 1] = { 0 }, ops = 10 + (int) vs_rand (50); seq_no = 0;
  iot_log_error ((iot_logger_t *) NULL, "%s", "x"); iot_log_log ((iot_logger_t *) NULL, IOT_LOG_TRACE, "%s", "x");
  for (int i = 0; i < ops; i++)
  {
    int r = (int) vs_rand (100), id = nl ? 1 + (int) vs_rand ((uint32_t) nl) : 0;
    if (r < 18 || !id)
    {
      if (nl >= MAXL) continue;
      int nx = (nl && vs_rand (2)) ? 1 + (int) vs_rand ((uint32_t) nl) : 0; if (nx && !refs[nx]) nx = 0;
      const char * k = rkind (); if (strcmp (k, "console") == 0) nx = 0;
      if (nl == 0 && vs_rand (4) == 0) { make ("default", IOT_LOGLEVEL_DEFAULT, false, 0); refs[1] = 1000; continue; }
      int n = make (k, rlev (), vs_rand (3) != 0, nx); refs[n] = 1; next[n] = nx;
    }
    else if (!refs[id]) continue;
    else if (r < 50) log_it (id, rsev (), (int) vs_rand (3), rlen (), ++seq_no);
    else if (r < 60) level (id, rlev ());
    else if (r < 70) start (id);
    else if (r < 80) stop (id);
    else if (r < 84) query (id);
    else if (r < 88) { addref (id); refs[id]++; }
    else if (r < 94) { drop (id); refs[id]--; }
    else { int nx = (vs_rand (3) && nl > 1) ? 1 + (int) vs_rand ((uint32_t) nl) : 0; if (nx >= id || (nx && !refs[nx])) nx = 0; chain (id, nx); next[id] = nx; }
  }
  for (int i = nl; i > 0; i--) if (refs[i] < 100) while (refs[i]-- > 0) drop (i);
  if (nl && strcmp (kind_of[1], "default") == 0) { drop (1); chain (1, 0); }
  finish ();
}
/* ------------ several threads ------------ */
typedef struct { int n; struct { int op, id, a, b, c; } o[32]; } script_t;
static script_t scr[4];
static void add (int k, int op, int id, int a, int b, int c) { script_t * s = &scr[k]; if (s->n < 31) { s->o[s->n].op = op; s->o[s->n].id = id; s->o[s->n].a = a; s->o[s->n].b = b; s->o[s->n].c = c; s->n++; } }
static void client (void * a)
{
  script_t * s = a; int k = (int) (s - scr);
  for (int i = 0; i < s->n; i++) switch (s->o[i].op)
  {
    case 'l': log_it (s->o[i].id, s->o[i].a, s->o[i].b, s->o[i].c, 100 * k + i); break;
    case 'v': level (s->o[i].id, s->o[i].a); break;
    case 's': start (s->o[i].id); break;
    case 'p': stop (s->o[i].id); break;
    case 'f': drop (s->o[i].id); break;
    case 'd': (void) iot_logger_default (); break;
  }
}
static void s_many (uint64_t seed)
{
  (void) seed;
  int n = 2 + (int) vs_rand (2), k = 1 + (int) vs_rand (4), th[4];
  begin (n, k); memset (scr, 0, sizeof scr);
  for (int i = 0; i < k; i++)
  {
    int nx = (nl && vs_rand (3)) ? 1 + (int) vs_rand ((uint32_t) nl) : 0; const char * kd = rkind (); if (strcmp (kd, "console") == 0) nx = 0;
    make (kd, rlev (), vs_rand (4) != 0, nx);
  }
  for (int t = 0; t < n; t++)
  {
    int held[8] = { 0 };
    for (int i = 1; i <= nl; i++) if (vs_rand (3) || i == nl) { held[i] = 1; addref (i); }
    int ops = 1 + (int) vs_rand (5);
    for (int i = 0; i < ops; i++)
    {
      int id = 1 + (int) vs_rand ((uint32_t) nl), r = (int) vs_rand (10);
      if (!held[id]) continue;
      if (r < 6 || id % n != t) add (t, 'l', id, rsev (), (int) vs_rand (3), vs_rand (4) ? (int) vs_rand (12) : rlen ());
      else if (r < 8) add (t, 'v', id, (int) vs_rand (6), 0, 0);
      else add (t, vs_rand (2) ? 's' : 'p', id, 0, 0, 0);
    }
    for (int i = 1; i <= nl; i++) if (held[i]) add (t, 'f', i, 0, 0, 0);
  }
  for (int t = 0; t < n; t++) th[t] = vs_spawn (client, &scr[t]);
  int early = (int) vs_rand (2);
  if (early) for (int i = nl; i > 0; i--) drop (i);
  for (int t = 0; t < n; t++) vs_join (th[t]);
  if (!early) for (int i = 1; i <= nl; i++) drop (i);
  finish ();
}
static void fixed (const char * k1, const char * k2, int shape)
{
  int th[3], n = 2; begin (n, 2); memset (scr, 0, sizeof scr);
  int a = make (k1, 3, true, 0), b = make (k2, 4, true, strcmp (k2, "console") ? a : 0);
  if (shape == 0) { add (0, 'l', b, 2, 0, 5); add (0, 'l', a, 3, 1, 7); add (1, 'l', a, 1, 1, 9); add (1, 'l', b, 3, 0, 4); }
  if (shape == 1) { add (0, 'l', b, 3, 1, 5); add (0, 'l', b, 3, 0, 5); add (1, 'p', a, 0, 0, 0); add (1, 'v', a, 5, 0, 0); add (1, 's', a, 0, 0, 0); }
  if (shape == 2) { addref (b); addref (b); add (0, 'l', b, 3, 1, 5); add (0, 'f', b, 0, 0, 0); add (1, 'l', b, 2, 0, 3); add (1, 'f', b, 0, 0, 0); }
  for (int t = 0; t < n; t++) th[t] = vs_spawn (client, &scr[t]);
  if (shape == 2) { drop (b); drop (a); }
  for (int t = 0; t < n; t++) vs_join (th[t]);
  if (shape != 2) { drop (a); drop (b); }
  finish ();
}
static void d1 (uint64_t s) { fixed ("custom", "console", 0); }
static void d2 (uint64_t s) { fixed ("file", "udp", 0); }
static void d3 (uint64_t s) { fixed ("custom", "custom", 1); }
static void d4 (uint64_t s) { fixed ("file", "custom", 2); }
static void d5 (uint64_t s) { fixed ("console", "file", 0); }
/* the default logger, asked for by two threads at once: both get the same, ready to be used */
static void dcl (void * a)
{
  int k = *(int *) a; iot_logger_t * l = iot_logger_default ();
  vs_ev ("\"names\",%d,1", l == L[1] || !L[1] ? 1 : 0); L[1] = l;
  log_it (1, 1 + k, 1, 4, k);
}
static void d6 (uint64_t s)
{
  static int no[2] = { 0, 1 }; int th[2];
  begin (2, 1); nl = 1; kind_of[1] = "default"; strcpy (name_of[1], "(null)"); L[1] = NULL;
  vs_ev ("\"new\",1,\"default\",%d,0,0", IOT_LOGLEVEL_DEFAULT);
  for (int t = 0; t < 2; t++) th[t] = vs_spawn (dcl, &no[t]);
  for (int t = 0; t < 2; t++) vs_join (th[t]);
}
/* ------------ from configuration ------------ */
static iot_container_t * cont;
static char * cfg[MAXL + 2]; 
static char * load (const char * name, const char * uri) { (void) uri; if (strcmp (name, "top") == 0) return strdup (cfg[0]); for (int i = 1; i <= nl; i++) if (strcmp (name, name_of[i]) == 0) return strdup (cfg[i]); return NULL; }
static iot_component_t * config (iot_container_t * c, const iot_data_t * map)
{   /* the library's own, with a note of which logger is being made */
  const char * n = iot_data_string_map_get_string (map, "Name"); int was = me ()->making; me ()->making = n ? atoi (n + 1) : 0;
  iot_component_t * r = iot_logger_factory ()->config_fn (c, map); me ()->making = was; return r;
}
static bool never (const char * n, const char * u, const char * s) { (void) n; (void) u; (void) s; return true; }
static int level_text (const char * s) { if (!s) return 2; switch (*s) { case 'e': case 'E': return 1; case 'w': case 'W': return 2; case 'i': case 'I': return 3; case 'd': case 'D': return 4; case 't': case 'T': return 5; case 0: return 0; default: return 2; } }
static void s_conf (uint64_t seed)
{
  (void) seed;
  static const char * lt[] = { "Info", "warn", "ERROR", "debug", "Trace", "trace", "nonsense", "", NULL };
  static iot_container_config_t cc; static char top[1024]; int k = 1 + (int) vs_rand (4), next[MAXL + 1] = { 0 }, lev[MAXL + 1], st[MAXL + 1];
  begin (0, k); nl = k; from_conf = true;
  strcpy (top, "{");
  for (int i = 1; i <= k; i++)
  {
    snprintf (name_of[i], sizeof name_of[i], "L%d", i); addr_of[i][0] = 0; bcast[i] = 0; ids[i] = i;
    const char * l = lt[vs_rand (9)]; char b[512], x[128] = ""; int s = (int) vs_rand (3);
    lev[i] = level_text (l); st[i] = s != 1; next[i] = i > 1 && vs_rand (2) ? 1 + (int) vs_rand ((uint32_t) (i - 1)) : 0;
    switch (vs_rand (7))
    {
      case 0: kind_of[i] = "file"; strcpy (x, ",\"To\":\"file:./x.log\""); break;
      case 1: kind_of[i] = "udp"; snprintf (x, sizeof x, ",\"To\":\"udp:%d\"", 5000 + i); break;
      case 2: kind_of[i] = "udp"; strcpy (addr_of[i], "192.168.100.254"); snprintf (x, sizeof x, ",\"To\":\"udp:192.168.100.254:%d\"", 5000 + i); break;
      case 3: kind_of[i] = "console"; strcpy (x, ",\"To\":\"elsewhere\""); break;
      case 4: kind_of[i] = "nofile"; strcpy (x, ",\"To\":\"file:./y.log\""); break;
      case 5: kind_of[i] = "udp"; strcpy (addr_of[i], "0.0.0.0"); snprintf (x, sizeof x, ",\"To\":\"udp:%.*s:%d\"", 15 + (int) vs_rand (25), "a.host.name.longer.than.the.buffer.for.it", 5000 + i); break;
      default: kind_of[i] = "console"; break;
    }
    snprintf (b, sizeof b, "{\"Name\":\"L%d\"%s%s%s%s%s", i, l ? ",\"Level\":\"" : "", l ? l : "", l ? "\"" : "", x, s == 0 ? ",\"Start\":true" : s == 1 ? ",\"Start\":false" : "");
    if (next[i]) snprintf (b + strlen (b), sizeof b - strlen (b), ",\"Next\":\"L%d\"", next[i]); else if (vs_rand (4) == 0) strcat (b, ",\"Next\":\"none\"");
    strcat (b, "}"); free (cfg[i]); cfg[i] = strdup (b);
  }
  for (int i = k; i > 0; i--) snprintf (top + strlen (top), sizeof top - strlen (top), "%s\"L%d\":\"IOT::Logger\"", i == k ? "" : ",", i);
  strcat (top, "}"); cfg[0] = top;
  cc.uri = "x://y"; cc.load = load; cc.save = never;
  const iot_component_factory_t * of = iot_logger_factory (); iot_component_factory_t now = { of->type, of->category, config, of->free_fn, of->reconfig_fn, NULL }; static char space[sizeof (now)]; memcpy (space, &now, sizeof now);
  iot_component_factory_add ((iot_component_factory_t *) space);
  iot_container_config (&cc);
  cont = iot_container_alloc ("top");
  for (int i = 1; i <= k; i++) vs_ev ("\"new\",%d,\"%s\",%d,%d,%d", i, kind_of[i], lev[i], st[i], next[i]);
  bool ok = iot_container_init (cont);
  vs_ev ("\"names\",%d,1", ok);
  for (int i = 1; i <= k; i++) { L[i] = (iot_logger_t *) iot_container_find_component (cont, name_of[i]); if (!L[i]) { vs_ev ("\"names\",0,%d", i); return; } }
  int ops = 4 + (int) vs_rand (16);
  for (int j = 0; j < ops; j++)
  {
    int id = 1 + (int) vs_rand ((uint32_t) k), r = (int) vs_rand (10);
    if (r < 5) log_it (id, rsev (), (int) vs_rand (3), (int) vs_rand (30), j);
    else if (r == 5) { const char * l = lt[vs_rand (9)]; iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); if (l) iot_data_string_map_add (m, "Level", iot_data_alloc_string (l, IOT_DATA_REF));
      inv ("level", id, level_text (l), 0); bool rr = iot_logger_factory ()->reconfig_fn (&L[id]->component, cont, m); ret (0); vs_ev ("\"names\",%d,1", rr); iot_data_free (m); }
    else if (r == 6) stop (id);
    else if (r == 7) start (id);
    else if (r == 8) { iot_container_start (cont); for (int i = 1; i <= k; i++) { inv ("start", i, 0, 0); ret (0); } }
    else { const char * l = lt[vs_rand (9)]; vs_ev ("\"names\",%d,%d", (int) iot_logger_level_from_string (l), level_text (l)); int v = (int) vs_rand (6); vs_ev ("\"names\",%d,1", strcmp (iot_logger_level_to_string ((iot_loglevel_t) v), lvn[v]) == 0); }
  }
  /* stops and releases every logger */
  inv ("freeall", 1, 0, 0);
  iot_container_free (cont);
  ret (0);
}
/* a real file: what is in it stays, what is logged is added */
static void s_file (uint64_t seed)
{
  (void) seed; begin (0, 1); real_files = true;
  char path[64], want[9000] = "before\n", got[10000]; snprintf (path, sizeof path, "/tmp/vlog-%d", (int) getpid ());
  FILE * f = __real_fopen (path, "w"); __real_fputs (want, f); __real_fclose (f);
  for (int round = 0, rounds = 1 + (int) vs_rand (3); round < rounds; round++)
  {
    iot_logger_t * l = iot_logger_alloc_file ("F", IOT_LOG_INFO, true, NULL, path);
    for (int i = 0, n = (int) vs_rand (6); i < n; i++) { iot_log_info (l, "round %d line %d", round, i); iot_log_debug (l, "not this"); snprintf (want + strlen (want), 100, "] round %d line %d\n", round, i); }
    iot_logger_free (l);
  }
  f = __real_fopen (path, "r"); size_t n = f ? fread (got, 1, sizeof got - 1, f) : 0; got[n] = 0; if (f) __real_fclose (f);
  unlink (path);
  /* drop the heads "[thread:stamp:F:Info" */
  char out[10000]; size_t o = 0; for (size_t i = 0; i < n; i++) { if (got[i] == '[' && strncmp (got + i, "[", 1) == 0) { char * e = strstr (got + i, ":F:Info] "); if (e) i = (size_t) (e + 7 - got); } out[o++] = got[i]; }
  out[o] = 0; vs_ev ("\"names\",%d,1", strcmp (out, want) == 0);
  real_files = false; finish ();
}
const vs_scenario_t vs_scenarios[] = { { "seq", s_seq }, { "many", s_many }, { "conf", s_conf }, { "file", s_file }, { "d1", d1 }, { "d2", d2 }, { "d3", d3 }, { "d4", d4 }, { "d5", d5 }, { "d6", d6 }, { NULL, NULL } };
