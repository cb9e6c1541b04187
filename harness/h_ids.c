/* Identifier texts, the identifier check, the hash, and where identifiers get their randomness from */
#include "seq.h"
#include "iot/iot.h"
#include "iot/uuid.h"
#include "iot/util.h"
#include "iot/hash.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <sys/wait.h>
static void bytes (const char * s) { sq_bytes (s, strlen (s)); }
/* the random source: scripted. -1: fails, otherwise how many bytes it gives; then everything asked for */
static int script[4], nscript; static uint8_t first[16], then[16]; static int calls;
ssize_t __wrap_getrandom (void * b, size_t n, unsigned f)
{
  (void) f;
  if (calls < nscript) { int k = script[calls++]; if (k < 0) { errno = EINTR; return -1; } if ((size_t) k > n) k = (int) n; memcpy (b, first, (size_t) k < 16 ? (size_t) k : 16); return k; }
  calls++; for (size_t i = 0; i < n; i++) ((uint8_t *) b)[i] = then[i % 16]; return (ssize_t) n;
}
int __wrap_nanosleep (const struct timespec * a, struct timespec * r) { (void) a; (void) r; return 0; }
static void sc_procs (uint32_t run)
{
  (void) run;
  for (int k = 0; k < 6; k++)
  {
    for (int i = 0; i < 16; i++) first[i] = (uint8_t) rnd (256);
    nscript = (int) rnd (4); for (int i = 0; i < nscript; i++) script[i] = chance (40) ? -1 : (int) rnd (16);
    uint8_t base[16]; for (int i = 0; i < 16; i++) base[i] = (uint8_t) rnd (256);
    uint8_t got[6][16]; memset (got, 0, sizeof got);
    for (int p = 0; p < 6; p++)
    {   /* differing in one byte only */
      int fd[2]; if (pipe (fd)) _exit (76);
      memcpy (then, base, 16); if (p) then[p < 3 ? p : 3 * p] ^= (uint8_t) (1 + rnd (255));
      calls = 0; pid_t c = fork ();
      if (c == 0) { uint8_t o[16]; iot_uuid_generate (o); if (write (fd[1], o, 16) != 16) _exit (1); _exit (0); }
      if (read (fd[0], got[p], 16) != 16) memset (got[p], 0, 16);
      close (fd[0]); close (fd[1]); int st; waitpid (c, &st, 0);
    }
    sq_begin ("procs"); sq_open (); for (int p = 0; p < 6; p++) sq_bytes (got[p], 16); sq_close (); sq_end ();
  }
  sq_begin ("end"); sq_end ();
}
static void sc_many (uint32_t run)
{
  (void) run; nscript = 0; for (int i = 0; i < 16; i++) then[i] = (uint8_t) rnd (256);
  sq_begin ("many"); sq_open ();
  for (int i = 0; i < 160; i++)
  {
    if (chance (70)) { uint8_t o[18]; memset (o, 0xA5, 18); iot_uuid_generate (o + 1); if (o[0] != 0xA5 || o[17] != 0xA5) memset (o, 0, 18); sq_bytes (o + 1, 16); }
    else { iot_data_t * d = iot_data_alloc_uuid (); uint32_t n = iot_data_array_size (d); sq_bytes (iot_data_address (d), iot_data_array_type (d) == IOT_DATA_UINT8 ? n : 0); iot_data_free (d); }
  }
  sq_close (); sq_end (); sq_begin ("end"); sq_end ();
}
static void random_uuid (char * s) { static const char h[] = "0123456789abcdefABCDEF"; for (int i = 0; i < 36; i++) s[i] = (i == 8 || i == 13 || i == 18 || i == 23) ? '-' : h[rnd (22)]; s[36] = 0; }
static void is (const char * s) { size_t n = strlen (s); char * e = malloc (n + 1); memcpy (e, s, n + 1); sq_begin ("is"); bytes (s); sq_i (iot_util_string_is_uuid (e)); sq_end (); free (e); }
static void sc_text (uint32_t run)
{
  for (int k = 0; k < 25; k++)
  {
    uint8_t * u = malloc (16); for (int i = 0; i < 16; i++) u[i] = chance (20) ? (uint8_t) (rnd (2) * 255) : (uint8_t) rnd (256);
    char * o = malloc (37 + 8); memset (o, 0x5A, 45); iot_uuid_unparse (u, o);
    sq_begin ("text"); sq_bytes (u, 16); size_t n = 0; while (n < 45 && o[n]) n++; sq_bytes (o, n < 45 ? n : 45); sq_i (n == 36); int clean = 1; for (int i = 37; i < 45; i++) if (o[i] != 0x5A) clean = 0; sq_i (clean); sq_end ();
    free (u); free (o);
  }
  char s[200];
  for (int k = 0; k < 40; k++)
  {
    random_uuid (s); is (s);
    switch (rnd (6))
    {
      case 0: s[rnd (36)] = (char) (1 + rnd (255)); break;
      case 1: s[rnd (36)] = 0; break;
      case 2: strcat (s, rnd (2) ? "0" : "-"); break;
      case 3: { int n = (int) rnd (90); for (int i = 0; i < n; i++) s[i] = "0aF-g"[rnd (5)]; s[n] = 0; break; }
      case 4: { int a = (int) rnd (36), b = (int) rnd (36); char t = s[a]; s[a] = s[b]; s[b] = t; break; }
      default: memmove (s + 1, s, 37); s[0] = '0'; s[36] = 0; break;
    }
    is (s);
  }
  sq_begin ("isnull"); sq_i (iot_util_string_is_uuid (NULL)); sq_end ();
  random_uuid (s); int p = (int) (run % 36); char keep = s[p];
  sq_begin ("place"); bytes (s); sq_i (p + 1); sq_open (); for (int c = 1; c < 256; c++) { s[p] = (char) c; if (iot_util_string_is_uuid (s)) sq_i (c); } s[p] = keep; sq_close (); sq_end ();
  sq_begin ("end"); sq_end ();
}
static void sc_hash (uint32_t run)
{
  (void) run;
  for (int k = 0; k < 60; k++)
  {
    size_t n = chance (20) ? rnd (300) : rnd (20); uint8_t * d = malloc (n + 1);
    for (size_t i = 0; i < n; i++) d[i] = chance (5) ? 0 : chance (30) ? (uint8_t) (128 + rnd (128)) : (uint8_t) (1 + rnd (255));
    bool zero = memchr (d, 0, n) != NULL; d[n] = 0; uint32_t hs = zero ? 0 : iot_hash ((char *) d);
    uint8_t * x = malloc (n ? n : 1); memcpy (x, d, n); uint32_t h = iot_hash_data (n ? x : x, n);
    sq_begin ("hash"); sq_bytes (d, n); sq_open (); sq_i (h >> 16); sq_i (h & 0xffff); sq_close (); sq_open (); sq_i (hs >> 16); sq_i (hs & 0xffff); sq_close (); sq_i (memcmp (x, d, n) == 0); sq_end ();
    free (d); free (x);
  }
  sq_begin ("end"); sq_end ();
}
void seq_child_start (void) { }
const seq_scenario_t seq_scenarios[] = { { "procs", sc_procs }, { "many", sc_many }, { "text", sc_text }, { "hash", sc_hash }, { NULL, NULL } };
