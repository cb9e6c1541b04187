/* Files, store and configuration lists: driven against a scratch directory below the output file, with faults at every call into
   the C library and with a reader that looks at the file before and after each of them. */
#include "seq.h"
#include "iot/iot.h"
#include "iot/file.h"
#include "iot/store.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <signal.h>
#include <limits.h>

static char root[600], dirp[640];
/* ---- contents, known by number ---- */
#define MAXC 48
static struct { unsigned char * p; size_t n; } known[MAXC];
static int nknown = 1;
static int id_of (const unsigned char * p, size_t n)
{
  if (n == 0) return 0;
  for (int i = 1; i < nknown; i++) if (known[i].n == n && memcmp (known[i].p, p, n) == 0) return i;
  return -1;
}
static int fresh (bool text)
{
  static const size_t sizes[] = { 1, 2, 7, 63, 511, 512, 4095, 4096, 4097, 9000, 70000 };
  int i = nknown < MAXC ? nknown++ : 1 + (int) rnd (MAXC - 1);
  if (known[i].p) return i;
  size_t n = chance (50) ? 1 + rnd (40) : sizes[rnd (11)] + (chance (30) ? rnd (3) : 0);
  known[i].p = malloc (n + 1); known[i].n = n;
  for (size_t k = 0; k < n; k++) { unsigned char c = (unsigned char) rnd64 (); known[i].p[k] = text ? (unsigned char) ('a' + c % 26) : c; }
  known[i].p[n] = 0;
  if (n >= 4) memcpy (known[i].p, &i, 1), known[i].p[0] = (unsigned char) (text ? 'A' + i % 26 : i), known[i].p[1] = (unsigned char) (text ? 'A' + i / 26 : 7);
  nknown--; int j = id_of (known[nknown].p, known[nknown].n); nknown++;   // nothing twice
  if (j > 0) { nknown--; free (known[nknown].p); known[nknown].p = NULL; return j; }
  return i;
}
/* ---- looking at the disk, with system calls of our own ---- */
static int look (const char * path)
{
  int fd = (int) syscall (SYS_open, path, O_RDONLY, 0);
  if (fd < 0) return -2;
  static unsigned char b[200000]; size_t n = 0; long r;
  while (n < sizeof b && (r = syscall (SYS_read, fd, b + n, sizeof b - n)) > 0) n += (size_t) r;
  struct stat st; int isdir = fstat (fd, &st) == 0 && S_ISDIR (st.st_mode);
  syscall (SYS_close, fd);
  return isdir ? -2 : id_of (b, n);
}
static int fds (void) { int n = 0; for (int i = 0; i < 256; i++) if (syscall (SYS_fcntl, i, F_GETFD) != -1) n++; return n; }
static bool armed; static int calls, fail_at; static const char * watch; static int seen[400], nseen; static uint64_t live;
static void see (void) { if (watch && nseen < 400) { int c = look (watch); if (nseen == 0 || seen[nseen - 1] != c) seen[nseen++] = c; } }
static bool point (void) { if (!armed) return false; armed = false; see (); armed = true; return ++calls == fail_at; }
static void after (void) { if (armed) { armed = false; see (); armed = true; } }
static void escape (const char * p) { if (armed && strncmp (p, root, strlen (root))) { sq_begin ("escape"); sq_s (p); sq_end (); _exit (0); } }
#define W(ret, name, params, args, failure) extern ret __real_##name params; ret __wrap_##name params { if (point ()) { errno = EIO; return failure; } ret r_ = __real_##name args; after (); return r_; }
FILE * __real_fopen (const char * p, const char * m); FILE * __real_fopen64 (const char * p, const char * m);
FILE * __wrap_fopen (const char * p, const char * m) { escape (p); if (point ()) { errno = EMFILE; return NULL; } FILE * f = __real_fopen (p, m); after (); return f; }
FILE * __wrap_fopen64 (const char * p, const char * m) { return __wrap_fopen (p, m); }
int __real_open (const char * p, int f, ...);
int __wrap_open (const char * p, int f, mode_t m) { escape (p); if (point ()) { errno = EMFILE; return -1; } int r = __real_open (p, f, m); after (); return r; }
int __wrap_open64 (const char * p, int f, mode_t m) { return __wrap_open (p, f, m); }
W (int, mkstemp, (char * t), (t), -1)
W (FILE *, fdopen, (int fd, const char * m), (fd, m), NULL)
W (size_t, fwrite, (const void * p, size_t s, size_t n, FILE * f), (p, s, n, f), 0)
W (int, fputs, (const char * s, FILE * f), (s, f), EOF)
W (int, fputc, (int c, FILE * f), (c, f), EOF)
W (ssize_t, write, (int fd, const void * p, size_t n), (fd, p, n), -1)
W (int, fflush, (FILE * f), (f), EOF)
W (int, fsync, (int f), (f), -1)
W (int, fdatasync, (int f), (f), -1)
int __real_fclose (FILE * f); int __wrap_fclose (FILE * f) { bool bad = point (); int r = __real_fclose (f); after (); if (bad) { errno = EIO; return EOF; } return r; }
int __real_close (int f); int __wrap_close (int f) { bool bad = point (); int r = __real_close (f); after (); if (bad) { errno = EIO; return -1; } return r; }
int __real_rename (const char * a, const char * b);
int __wrap_rename (const char * a, const char * b) { escape (a); escape (b); if (point ()) { errno = EIO; return -1; } int r = __real_rename (a, b); after (); return r; }
int __real_unlink (const char * a); int __wrap_unlink (const char * a) { escape (a); if (point ()) { errno = EIO; return -1; } int r = __real_unlink (a); after (); return r; }
int __real_remove (const char * a); int __wrap_remove (const char * a) { escape (a); if (point ()) { errno = EIO; return -1; } int r = __real_remove (a); after (); return r; }
W (int, ftruncate, (int f, off_t n), (f, n), -1)
W (int, fseek, (FILE * f, long o, int w), (f, o, w), -1)
W (long, ftell, (FILE * f), (f), -1)
size_t __real_fread (void * p, size_t s, size_t n, FILE * f);
size_t __wrap_fread (void * p, size_t s, size_t n, FILE * f)   // fails after half of it
{
  if (point ()) { size_t half = s * n / 2; if (half) half = __real_fread (p, 1, half, f); errno = EIO; return s ? half / s : 0; }
  size_t r = __real_fread (p, s, n, f); after (); return r;
}
W (ssize_t, read, (int f, void * p, size_t n), (f, p, n), -1)
/* heap blocks of the library */
void * __real_malloc (size_t n); void * __real_calloc (size_t a, size_t b); void * __real_realloc (void * p, size_t n); void __real_free (void * p); char * __real_strdup (const char * s); char * __real_strndup (const char * s, size_t n);
void * __wrap_malloc (size_t n) { void * p = __real_malloc (n); if (armed && p) live++; return p; }
void * __wrap_calloc (size_t a, size_t b) { void * p = __real_calloc (a, b); if (armed && p) live++; return p; }
void * __wrap_realloc (void * p, size_t n) { void * q = __real_realloc (p, n); if (armed && !p && q) live++; return q; }
char * __wrap_strdup (const char * s) { char * p = __real_strdup (s); if (armed) live++; return p; }
char * __wrap_strndup (const char * s, size_t n) { char * p = __real_strndup (s, n); if (armed) live++; return p; }
void __wrap_free (void * p) { if (armed && p) live--; __real_free (p); }
static void lib_free (void * p) { if (p) { live--; __real_free (p); } }

static int nfd0;
static void enter (const char * path, int fail) { watch = path; calls = 0; fail_at = fail; nseen = 0; nfd0 = fds (); see (); armed = true; }
static void leave (void) { armed = false; see (); watch = NULL; }
static void put_seen (void) { sq_open (); for (int i = 0; i < nseen; i++) sq_i (seen[i]); sq_close (); }
static void scan (void)
{
  sq_open ();
  DIR * d = opendir (dirp); struct dirent * e;
  while ((e = readdir (d))) if (e->d_type == DT_REG) { char p[1400]; snprintf (p, sizeof p, "%s/%s", dirp, e->d_name); sq_open (); sq_s (e->d_name); sq_i (look (p)); sq_close (); }
  closedir (d);
  sq_close ();
}
static const char * const names[] = { "a", "b.json", "a.json", "ajson", "c.json.bak", ".json", "json", "b.jsonx", "xjson", "d.e.json", "B.json", "a.jso", "A.JSON", "Sob", "sub", "a.json2" };
#define NN 16
static void path_of (char * p, const char * n) { sprintf (p, "%s/%s", dirp, n); }
static bool bad_place;
static void do_write (void)
{
  const char * n = names[rnd (NN)];
  char p[PATH_MAX + 200]; path_of (p, n);
  int must = 1, mustnot = 0, fault = 0, fail = 0, kind = (int) rnd (12); struct rlimit rl, old;
  bool text = chance (50); int c = fresh (text);
  bool viafile = chance (60); bool str = text && chance (60);
  struct stat st;
  if (stat (p, &st) == 0 && S_ISDIR (st.st_mode)) { must = 0; mustnot = 1; }     // a directory is in the way
  getrlimit (RLIMIT_FSIZE, &old); rl = old;
  char q[PATH_MAX + 200]; strcpy (q, p);
  if (kind < 4) { must = 0; fault = 1; fail = 1 + (int) rnd (7); }               // a call fails
  else if (kind < 7) { must = 0; fault = 2; rl.rlim_cur = chance (50) ? rnd (64) : rnd (10000); if (known[c].n > rl.rlim_cur) mustnot = 1; setrlimit (RLIMIT_FSIZE, &rl); }   // the disk is full
  else if (kind == 7) { must = 0; mustnot = 1; fault = 3; sprintf (q, "%s/nowhere/%s", dirp, n); }   // no such directory
  else if (kind == 8)                                                            // a long way of writing the path
  {
    size_t want = 3900 + rnd (220) + (chance (50) ? 80 : 0), have = strlen (dirp) + 1 + strlen (n);
    fault = 4; strcpy (q, dirp); strcat (q, "/"); size_t k = strlen (q);
    while (have + 2 <= want) { q[k++] = '.'; q[k++] = '/'; have += 2; } strcpy (q + k, n);
    if (have >= PATH_MAX) { must = 0; mustnot = 1; } else if (have > PATH_MAX - 8) must = 0;
  }
  else if (kind == 9) { must = 0; fault = 5; fail = 1 + (int) rnd (4); rl.rlim_cur = rnd (9000); setrlimit (RLIMIT_FSIZE, &rl); if (known[c].n > rl.rlim_cur) mustnot = 1; }
  bool r;
  enter (p, fail);
  if (str) r = viafile ? iot_file_write (q, (char *) known[c].p) : iot_store_write (q, (char *) known[c].p);
  else r = viafile ? iot_file_write_binary (q, known[c].p, known[c].n) : iot_store_write_binary (q, known[c].p, known[c].n);
  leave ();
  setrlimit (RLIMIT_FSIZE, &old);
  int f = fds () - nfd0;
  sq_begin ("write"); sq_s (n); sq_i (c); sq_i (must && !mustnot); sq_i (mustnot); sq_i (fault * 10 + fail); sq_i (r); put_seen (); scan (); sq_i (f); sq_end ();
}
static void do_read (void)
{
  const char * n = names[rnd (NN)]; char p[1400]; path_of (p, n);
  int fail = chance (35) ? 1 + (int) rnd (5) : 0; size_t len = 12345; unsigned char * b; int ok = 1, c, how = (int) rnd (4);
  enter (NULL, fail);
  switch (how) { case 0: b = (unsigned char *) iot_file_read (p); break; case 1: b = (unsigned char *) iot_store_read (p); break; case 2: b = iot_file_read_binary (p, &len); break; default: b = iot_store_read_binary (p, &len); }
  leave ();
  int f = fds () - nfd0;
  if (b == NULL) { c = -2; if (how >= 2) ok = len == 0; }
  else if (how >= 2) { c = id_of (b, len); ok = b[len] == 0; }
  else { c = -1; for (int i = 1; i < nknown; i++) if (known[i].p && strnlen ((char *) b, known[i].n + 1) <= known[i].n && memcmp (b, known[i].p, known[i].n < strlen ((char *) b) ? known[i].n : strlen ((char *) b)) == 0)
    { int real = look (p); if (real > 0 && strlen ((char *) b) == strlen ((char *) known[real].p) && memcmp (b, known[real].p, known[real].n + 1) == 0) c = real; } }
  lib_free (b);
  sq_begin ("read"); sq_s (n); sq_i (fail); sq_i (c); sq_i (ok); sq_i (f); sq_end ();
}
static void do_delete (void)
{
  const char * n = names[rnd (NN)]; char p[1400]; path_of (p, n);
  if (strcmp (n, "sub") == 0) return;
  int fail = chance (20) ? 1 : 0;
  enter (NULL, fail);
  bool r = chance (50) ? iot_file_delete (p) : iot_store_delete (p);
  leave ();
  sq_begin ("delete"); sq_s (n); sq_i (fail); sq_i (r); scan (); sq_end ();
}
static void do_put (void)   // someone else changes a file
{
  const char * n = names[rnd (NN)]; char p[1400]; path_of (p, n);
  if (strcmp (n, "sub") == 0) return;
  int c = chance (20) ? 0 : fresh (chance (50));
  FILE * f = __real_fopen (p, "w"); if (!f) return;
  if (c) __real_fwrite (known[c].p, known[c].n, 1, f);
  __real_fclose (f);
  sq_begin ("put"); sq_s (n); sq_i (c); sq_end ();
}
static void put_list (const iot_data_t * l)
{
  if (!l) { sq_open (); sq_i (0); sq_close (); return; }
  iot_data_list_iter_t it; iot_data_list_iter (l, &it);
  sq_open (); sq_i (1); sq_open (); while (iot_data_list_iter_next (&it)) sq_s (iot_data_list_iter_string_value (&it)); sq_close (); sq_close ();
}
static void do_list (void)
{
  static const struct { const char * kind, * text, * re; int ok; } pats[] = { { "all", "", NULL, 1 }, { "suffix", ".json", "\\.json$", 1 }, { "suffix", "json", "json$", 1 }, { "prefix", "a", "^a", 1 }, { "part", "so", "so", 1 },
    { "whole", "json", "^json$", 1 }, { "all", "", "[", 0 }, { "all", "", "\\(", 0 }, { "all", "", "", 1 }, { "prefix", ".", "^\\.", 1 }, { "part", ".", "\\.", 1 } };
  int k = (int) rnd (11); char p[1400]; strcpy (p, dirp); bool there = !chance (10); if (!there) strcat (p, "/nowhere");
  enter (NULL, 0);
  iot_data_t * l = iot_file_list (p, pats[k].re);
  int f = fds () - nfd0;
  armed = false; sq_begin ("list"); sq_open (); sq_s (pats[k].kind); sq_s (pats[k].text); sq_close (); sq_i (there); sq_i (pats[k].ok); put_list (l); sq_i (f); sq_end ();
  armed = true; iot_data_free (l); leave ();
}
static void do_confs (void)
{
  char p[1400]; strcpy (p, dirp); bool there = !chance (15); if (!there) strcat (p, "/nowhere");
  enter (NULL, 0);
  iot_data_t * l = iot_store_config_list (p);
  int f = fds () - nfd0;
  armed = false; sq_begin ("confs"); sq_i (there); put_list (l); sq_i (f); sq_end ();
  armed = true; iot_data_free (l); leave ();
}
/* configurations through the file store: seen as files */
static void do_conf_file (void)
{
  static const char * const cn[] = { "a", "b", "", "c.json", "d.e" };
  const char * n = cn[rnd (5)]; char full[100], p[1400]; sprintf (full, "%s.json", n); path_of (p, full);
  if (chance (50))
  {
    int c = fresh (true);
    enter (p, 0); bool r = iot_store_config_save (n, dirp, (char *) known[c].p); leave ();
    sq_begin ("write"); sq_s (full); sq_i (c); sq_i (1); sq_i (0); sq_i (0); sq_i (r); put_seen (); scan (); sq_i (fds () - nfd0); sq_end ();
  }
  else if (chance (60))
  {
    enter (NULL, 0); char * b = iot_store_config_load (n, dirp); leave ();
    int real = look (p), c = -2; if (b) c = (real > 0 && strcmp (b, (char *) known[real].p) == 0) ? real : -1;
    lib_free (b);
    sq_begin ("read"); sq_s (full); sq_i (0); sq_i (c); sq_i (1); sq_i (fds () - nfd0); sq_end ();
  }
  else
  {
    enter (NULL, 0); bool r = iot_store_config_delete (n, dirp); leave ();
    sq_begin ("delete"); sq_s (full); sq_i (0); sq_i (r); scan (); sq_end ();
  }
}
static void finish (void) { sq_begin ("live"); sq_i ((long long) live); sq_end (); sq_begin ("end"); sq_end (); }
static void wipe (const char * d)
{
  DIR * dd = opendir (d); struct dirent * e; char p[1400];
  if (!dd) return;
  while ((e = readdir (dd))) if (strcmp (e->d_name, ".") && strcmp (e->d_name, ".."))
  { snprintf (p, sizeof p, "%s/%s", d, e->d_name); if (e->d_type == DT_DIR) { wipe (p); rmdir (p); } else unlink (p); }
  closedir (dd);
}
extern char ** environ;
static void start (void)
{
  // the scratch directory lies beside the output file, whose name is the first argument
  char cl[4096]; int f = (int) syscall (SYS_open, "/proc/self/cmdline", O_RDONLY, 0); long n = syscall (SYS_read, f, cl, sizeof cl - 1); syscall (SYS_close, f); cl[n > 0 ? n : 0] = 0;
  snprintf (root, sizeof root, "%s.fs", cl + strlen (cl) + 1);
  wipe (root); mkdir (root, 0777);
  snprintf (dirp, sizeof dirp, "%s/d", root); mkdir (dirp, 0777);
  char p[1400]; path_of (p, "sub"); mkdir (p, 0777); path_of (p, "sub/x"); mkdir (p, 0777);
  path_of (p, "link.json"); if (symlink ("a", p)) _exit (77);
  path_of (p, "dir.json"); mkdir (p, 0777);
  signal (SIGXFSZ, SIG_IGN);
}
static void over (void) { finish (); wipe (root); rmdir (root); }
static void sc_files (uint32_t run)
{
  (void) run; start ();
  int n = 12 + (int) rnd (25);
  for (int i = 0; i < n; i++)
  {
    int k = (int) rnd (100);
    if (k < 38) do_write (); else if (k < 62) do_read (); else if (k < 70) do_delete (); else if (k < 78) do_put (); else if (k < 86) do_list (); else if (k < 92) do_confs (); else do_conf_file ();
  }
  over ();
}
/* every call of a write fails in turn, and the disk becomes full at every byte around the sizes that matter */
static void sc_faults (uint32_t run)
{
  start (); int first = fresh (true), c = fresh (run & 1);
  char p[1400]; path_of (p, "a"); struct rlimit old, rl; getrlimit (RLIMIT_FSIZE, &old);
  for (int mode = 0; mode < 2; mode++)
    for (int i = 1; i <= 10; i++)
    {
      if (i == 1) { if (chance (70)) { FILE * f = __real_fopen (p, "w"); __real_fwrite (known[first].p, known[first].n, 1, f); __real_fclose (f); sq_begin ("put"); sq_s ("a"); sq_i (first); sq_end (); } }
      int mustnot = 0; size_t n = known[c].n;
      if (mode == 1) { size_t at[] = { 0, 1, n / 2, n - 1, n, n + 1, 4095, 4096, 4097, 8192 }; rl = old; rl.rlim_cur = at[i - 1]; mustnot = n > rl.rlim_cur; setrlimit (RLIMIT_FSIZE, &rl); }
      enter (p, mode == 0 ? i : 0);
      bool r = iot_file_write_binary (p, known[c].p, n);
      leave (); setrlimit (RLIMIT_FSIZE, &old);
      int f = fds () - nfd0;
      sq_begin ("write"); sq_s ("a"); sq_i (c); sq_i (0); sq_i (mustnot); sq_i (mode * 100 + i); sq_i (r); put_seen (); scan (); sq_i (f); sq_end ();
      if (r) { int t = first; first = c; c = t; }
    }
  over ();
}
/* ---- the store over functions that were registered ---- */
static struct { char path[256]; int c; } mem[64]; static int nmem; static bool agree; static char log_[16][300]; static int nlog;
static int mem_find (const char * p) { for (int i = 0; i < nmem; i++) if (strcmp (mem[i].path, p) == 0) return i; return -1; }
typedef struct { char op; char path[256]; int c; } call_t; static call_t cl[16]; static int ncl;
static void note (char op, const char * p, int c) { if (ncl < 16) { cl[ncl].op = op; snprintf (cl[ncl].path, 256, "%s", p); cl[ncl].c = c; ncl++; } }
static uint8_t * mem_read (const char * p, size_t * len)
{
  bool a = armed; armed = false;
  note ('r', p, 0); int i = mem_find (p); uint8_t * r = NULL; size_t n = 0;
  if (i >= 0) { n = known[mem[i].c].n; r = __real_malloc (n + 1); memcpy (r, known[mem[i].c].p, n + 1); live++; }
  if (len) *len = n;
  armed = a; return r;
}
static bool mem_write (const char * p, const uint8_t * b, size_t n)
{
  int c = id_of (b, n); note ('w', p, c); if (!agree) return false;
  int i = mem_find (p); if (i < 0) { if (nmem == 64) return false; i = nmem++; strcpy (mem[i].path, p); } mem[i].c = c; return true;
}
static bool mem_delete (const char * p) { note ('d', p, 0); int i = mem_find (p); if (i < 0) return false; mem[i] = mem[--nmem]; return true; }
static void put_calls (void) { sq_open (); for (int i = 0; i < ncl; i++) { char s[2] = { cl[i].op, 0 }; sq_open (); sq_s (s); sq_s (cl[i].path); sq_i (cl[i].c); sq_close (); } sq_close (); ncl = 0; }
static void sc_store (uint32_t run)
{
  (void) run; start ();
  int n = 15 + (int) rnd (40), mode = 2;
  iot_store_config (NULL, NULL, NULL); sq_begin ("backend"); sq_s ("none"); sq_end ();
  for (int i = 0; i < n; i++)
  {
    static const char * const nm[] = { "a", "b", "a.json", "x/y", "", "averyveryverylongnameofaconfigurationthatgoesonandon" };
    static const char * const ur[] = { "u", "", "/u/v", "file:", "store/" };
    const char * name = nm[rnd (6)]; const char * uri = chance (25) ? NULL : ur[rnd (5)]; bool conf = chance (60);
    int k = (int) rnd (100);
    if (k < 8)
    {
      if (chance (75)) { iot_store_config (mem_read, mem_write, mem_delete); mode = 1; } else { iot_store_config (NULL, NULL, NULL); mode = 2; }
      sq_begin ("backend"); sq_s (mode == 1 ? "mem" : "none"); sq_end ();
    }
    else if (k < 45)
    {
      int c = fresh (true); agree = chance (80); if (mode == 1 && nmem > 60) agree = false; bool r;
      live += 0; armed = true;
      if (conf) r = iot_store_config_save (name, uri, (char *) known[c].p); else r = chance (50) ? iot_store_write (name, (char *) known[c].p) : iot_store_write_binary (name, known[c].p, known[c].n);
      armed = false;
      sq_begin ("sw"); sq_s (conf ? "conf" : "raw"); sq_s (name); sq_s (uri ? uri : ""); sq_i (uri != NULL); sq_i (c); sq_i (agree); sq_i (r); put_calls (); sq_end ();
    }
    else if (k < 80)
    {
      char * b; size_t len = 0; int ok = 1; bool bin = chance (50) && !conf;
      armed = true; if (conf) b = iot_store_config_load (name, uri); else b = bin ? (char *) iot_store_read_binary (name, &len) : iot_store_read (name); armed = false;
      if (bin && b) ok = len == strlen (b);
      sq_begin ("sr"); sq_s (conf ? "conf" : "raw"); sq_s (name); sq_s (uri ? uri : ""); sq_i (uri != NULL); sq_i (b ? id_of ((unsigned char *) b, strlen (b)) : -2); sq_i (ok); put_calls (); sq_end ();
      lib_free (b);
    }
    else
    {
      armed = true; bool r = conf ? iot_store_config_delete (name, uri) : iot_store_delete (name); armed = false;
      sq_begin ("sd"); sq_s (conf ? "conf" : "raw"); sq_s (name); sq_s (uri ? uri : ""); sq_i (uri != NULL); sq_i (r); put_calls (); sq_end ();
    }
  }
  over ();
}
void seq_child_start (void) { seq_timeout = 30; }
const seq_scenario_t seq_scenarios[] = { { "files", sc_files }, { "faults", sc_faults }, { "store", sc_store }, { NULL, NULL } };
