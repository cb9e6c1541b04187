#define _GNU_SOURCE
#include "seq.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <errno.h>

typedef struct { size_t n, committed; char ctx[64]; size_t np; char p[4096]; char ev[]; } sh_t;
static sh_t * sh;
static size_t cap;
unsigned seq_timeout = 20;
static uint64_t rs;
uint64_t rnd64 (void) { rs += 0x9e3779b97f4a7c15ull; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
uint32_t rnd (uint32_t n) { return n ? (uint32_t) (rnd64 () % n) : 0; }
bool chance (uint32_t p) { return rnd (100) < p; }
void rnd_seed (uint64_t s) { rs = s * 0x2545f4914f6cdd1dull + 12345; rnd64 (); }

static void put (const char * s, size_t n)
{
  if (sh->n + n + 8 >= cap) { fprintf (stderr, "trace too long\n"); _exit (77); }
  memcpy (sh->ev + sh->n, s, n); sh->n += n;
}
static void comma (void) { char c = sh->n ? sh->ev[sh->n - 1] : '['; if (sh->n && c != '[') put (",", 1); }
void sq_raw (const char * fmt, ...) { char b[4096]; va_list a; va_start (a, fmt); int n = vsnprintf (b, sizeof b, fmt, a); va_end (a); comma (); put (b, (size_t) n); }
void sq_begin (const char * op) { comma (); put ("[\"", 2); put (op, strlen (op)); put ("\"", 1); snprintf (sh->ctx, sizeof sh->ctx, "%s", op); }
void sq_i (long long v) { char b[32]; int n = snprintf (b, sizeof b, "%lld", v); comma (); put (b, (size_t) n); }
void sq_s (const char * s)
{
  comma (); put ("\"", 1);
  for (; *s; s++) { unsigned char c = (unsigned char) *s; char b[8]; if (c < 32 || c == '"' || c == '\\' || c > 126) { int n = snprintf (b, 8, "\\u%04x", c); put (b, (size_t) n); } else put ((char *) &c, 1); }
  put ("\"", 1);
}
void sq_open (void) { comma (); put ("[", 1); }
void sq_close (void) { put ("]", 1); }
void sq_end (void) { put ("]", 1); sh->committed = sh->n; }
void sq_bytes (const void * p, size_t n) { const unsigned char * b = p; sq_open (); for (size_t i = 0; i < n; i++) sq_i (b[i]); sq_close (); }
size_t sq_pos (void) { return sh->n; }
void sq_param (const char * fmt, ...) { va_list a; va_start (a, fmt); if (sh->np) sh->p[sh->np++] = ','; sh->np += (size_t) vsnprintf (sh->p + sh->np, sizeof sh->p - sh->np - 2, fmt, a); va_end (a); }

void sq_take_param (const char * name, size_t from)
{
  size_t n = sh->n - from; if (sh->np + n + 64 > sizeof sh->p) _exit (77);
  if (sh->np) sh->p[sh->np++] = ',';
  sh->np += (size_t) sprintf (sh->p + sh->np, "\"%s\":", name);
  memcpy (sh->p + sh->np, sh->ev + from, n); sh->np += n; sh->n = from;
}

static double now (void) { struct timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec; }
int main (int argc, char ** argv)
{
  if (argc < 6) return 2;
  FILE * out = fopen (argv[1], "w");
  const seq_scenario_t * sc = seq_scenarios;
  while (sc->name && strcmp (sc->name, argv[2])) sc++;
  if (!sc->name || !out) { fprintf (stderr, "no scenario %s\n", argv[2]); return 2; }
  uint64_t seed = strtoull (argv[3], 0, 10);
  unsigned count = (unsigned) atoi (argv[4]); double secs = atof (argv[5]);
  cap = 64u << 20;
  sh = mmap (NULL, sizeof (sh_t) + cap + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  double t0 = now (); unsigned runs = 0;
  unsigned first = argc > 6 ? (unsigned) atoi (argv[6]) : 0;   // development: start at this run, and keep what it wrote to stderr
  for (; runs < count && now () - t0 < secs; runs++)
  {
    sh->n = sh->committed = sh->np = 0; sh->ctx[0] = 0;
    fflush (out);
    pid_t p = fork ();
    if (p == 0)
    {
      char f[512]; snprintf (f, sizeof f, "%s.err", argv[1]);
      if (!freopen (f, "w", stderr)) _exit (76);
      rnd_seed (seed * 1000003u + first + runs);
      seq_child_start ();
      sc->fn (first + runs);
      _exit (0);
    }
    int st = 0; double limit = now () + seq_timeout; bool hung = false;
    while (waitpid (p, &st, WNOHANG) == 0)
    {
      if (now () > limit) { kill (p, SIGKILL); waitpid (p, &st, 0); hung = true; break; }
      struct timespec ts = { 0, 300000 }; nanosleep (&ts, NULL);
    }
    if (WIFEXITED (st) && (WEXITSTATUS (st) == 77 || WEXITSTATUS (st) == 76)) { fprintf (stderr, "harness error\n"); return 3; }
    sh->n = sh->committed; sh->p[sh->np] = 0;
    if (hung || !WIFEXITED (st) || WEXITSTATUS (st) != 0)
    {
      char b[160]; int n = snprintf (b, sizeof b, "%s[\"%s\",\"%s\",%d]", sh->n ? "," : "", hung ? "hang" : "crash", sh->ctx, WIFSIGNALED (st) ? WTERMSIG (st) : WEXITSTATUS (st));
      put (b, (size_t) n);
    }
    sh->ev[sh->n] = 0;
    fprintf (out, "{\"p\":{%s},\"sc\":\"%s\",\"seed\":\"%llu %u\",\"ev\":[%s]}\n", sh->p, sc->name, (unsigned long long) seed, first + runs, sh->ev);
  }
  fclose (out);
  char f[512]; snprintf (f, sizeof f, "%s.err", argv[1]); if (argc <= 6) unlink (f);
  printf ("{\"runs\":%u,\"secs\":%.1f,\"exhausted\":false}\n", runs, now () - t0);
  return 0;
}
