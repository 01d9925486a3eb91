#define _GNU_SOURCE
#include "rec.h"
#include <sys/mman.h>
#include <malloc.h>

static char *ob;
static size_t on, oc;
#define CASE_TIMEOUT 20         /* seconds; less once many cases did not end */

/* Endless growth must not take the whole machine down.  */
static void limit_memory(void)
{
  FILE *f = fopen("/proc/self/status", "r");
  char l[256];
  unsigned long kb = 0;
  if (!f) return;
  while (fgets(l, sizeof l, f))
    if (sscanf(l, "VmData: %lu", &kb) == 1) break;
  fclose(f);
  if (kb) {
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = ((rlim_t) kb << 10) + ((rlim_t) 3 << 30);
    setrlimit(RLIMIT_DATA, &rl);
  }
}

static void need(size_t k)
{
  if (on + k + 1 > oc) {
    oc = (on + k + 1) * 2;
    ob = (char *)__real_realloc(ob, oc);
  }
}
void out(const char *fmt, ...)
{
  va_list ap;
  int n;
  va_start(ap, fmt);
  n = vsnprintf(NULL, 0, fmt, ap);
  va_end(ap);
  need((size_t) n + 1);
  va_start(ap, fmt);
  vsnprintf(ob + on, (size_t) n + 1, fmt, ap);
  va_end(ap);
  on += (size_t) n;
}
void out_bytes(const unsigned char *p, size_t n)
{
  size_t k;
  need(4 * n + 4);
  ob[on++] = '[';
  for (k = 0; k < n; k++) {
    if (k) ob[on++] = ',';
    unsigned v = p[k];
    if (v >= 100) ob[on++] = (char)('0' + v / 100);
    if (v >= 10) ob[on++] = (char)('0' + v / 10 % 10);
    ob[on++] = (char)('0' + v % 10);
  }
  ob[on++] = ']';
  ob[on] = 0;
}
void out_str(const char *s)
{
  out("\"");
  for (; s && *s; s++) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') out("\\%c", c);
    else if (c < 32 || c > 126) out("\\u%04x", c);
    else out("%c", c);
  }
  out("\"");
}

/* ---- allocation accounting: open-addressing table of live pointers ---- */
static uintptr_t *tab;
static size_t cap, live, used;
static int tracking;
static long total, badfree;
int mem_fill = -1;
#define TOMB ((uintptr_t)1)

static size_t hash(uintptr_t p) { return (size_t)((p >> 4) * 0x9E3779B97F4A7C15ULL >> 20); }
static void tab_put(uintptr_t p)
{
  size_t k;
  if ((used + 1) * 2 > cap) {
    size_t oc2 = cap, j;
    uintptr_t *o = tab;
    cap = cap ? cap * 2 : 1 << 12;
    if (live * 4 < oc2) cap = oc2;
    tab = (uintptr_t *) __real_calloc(cap, sizeof *tab);
    used = 0; live = 0;
    for (j = 0; j < oc2; j++) if (o[j] > TOMB) {
      k = hash(o[j]) & (cap - 1);
      while (tab[k]) k = (k + 1) & (cap - 1);
      tab[k] = o[j]; used++; live++;
    }
    __real_free(o);
  }
  k = hash(p) & (cap - 1);
  while (tab[k] > TOMB) k = (k + 1) & (cap - 1);
  if (tab[k] == 0) used++;
  tab[k] = p; live++;
}
static int tab_del(uintptr_t p)
{
  size_t k;
  if (!cap) return 0;
  k = hash(p) & (cap - 1);
  while (tab[k]) {
    if (tab[k] == p) { tab[k] = TOMB; live--; return 1; }
    k = (k + 1) & (cap - 1);
  }
  return 0;
}
void mem_start(void)
{
  if (tab) memset(tab, 0, cap * sizeof *tab);
  live = used = 0; total = badfree = 0; tracking = 1;
}
long mem_live(void) { return (long)live; }
long mem_total(void) { return total; }
long mem_badfree(void) { return badfree; }
void mem_stop(void) { tracking = 0; }

void *__wrap_malloc(size_t n)
{
  void *p = __real_malloc(n);
  if (mem_fill >= 0 && p) memset(p, mem_fill, n);
  if (tracking && p) { tab_put((uintptr_t) p); total++; }
  return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
  void *p = __real_calloc(a, b);
  if (tracking && p) { tab_put((uintptr_t) p); total++; }
  return p;
}
void *__wrap_realloc(void *q, size_t n)
{
  size_t old = mem_fill >= 0 && q ? malloc_usable_size(q) : 0;
  void *p = __real_realloc(q, n);
  if (mem_fill >= 0 && p && n > old) memset((char *)p + old, mem_fill, n - old);
  if (tracking) {
    if (q && (p || n == 0)) tab_del((uintptr_t) q);
    if (p) { tab_put((uintptr_t) p); total++; }
  }
  return p;
}
void __wrap_free(void *p)
{
  if (tracking && p) tab_del((uintptr_t) p);
  __real_free(p);
}
char *__wrap_strdup(const char *s)
{
  size_t n = strlen(s) + 1;
  char *p = (char *)__wrap_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}

/* ---- tokens ---- */
char *tok(char **p)
{
  char *s = *p, *e;
  while (*s == ' ') s++;
  if (!*s) return NULL;
  for (e = s; *e && *e != ' '; e++) ;
  if (*e) *e++ = 0;
  *p = e;
  return s;
}
long tokl(char **p) { char *t = tok(p); return t ? strtol(t, NULL, 0) : 0; }
double tokd(char **p) { char *t = tok(p); return t ? strtod(t, NULL) : 0; }
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
unsigned char *tokhex(char **p, size_t *n)
{
  char *t = tok(p);
  size_t k, m;
  unsigned char *r;
  if (!t || !strcmp(t, "-")) { *n = 0; return (unsigned char *)__real_calloc(1, 1); }
  m = strlen(t) / 2;
  r = (unsigned char *)__real_malloc(m + 1);
  for (k = 0; k < m; k++) r[k] = (unsigned char)(hexv(t[2 * k]) * 16 + hexv(t[2 * k + 1]));
  r[m] = 0;
  *n = m;
  return r;
}

int rec_main(int argc, char **argv)
{
  char *line = NULL;
  size_t lc = 0;
  ssize_t n;
  int real_out = dup(1), devnull = open("/dev/null", O_RDWR);
  FILE *ro = fdopen(real_out, "w");
  int hangs = 0;
  (void)argc; (void)argv;
  while ((n = getline(&line, &lc, stdin)) > 0) {
    int fd[2], ef, st;
    pid_t pid;
    char buf[65536], eb[8192];
    size_t got = 0, en = 0;
    char *acc = NULL;
    size_t ac = 0;
    if (line[n - 1] == '\n') line[--n] = 0;
    if (hangs >= 12) {          /* enough is known */
      fprintf(ro, "{\"crash\":\"hang\",\"why\":\"like the cases before\"}\n");
      continue;
    }
    if (pipe(fd) || (ef = memfd_create("err", 0)) < 0) return 2;
    fflush(ro);
    pid = fork();
    if (pid < 0) return 2;
    if (pid == 0) {
      struct rlimit rl = { 0, 0 };
      size_t w = 0;
      setrlimit(RLIMIT_CORE, &rl);
      close(fd[0]);
      dup2(devnull, 0); dup2(devnull, 1);
      dup2(ef, 2);
      limit_memory();
      alarm(hangs >= 3 ? 1 : hangs >= 1 ? 5 : CASE_TIMEOUT);
      run_case(line);
      while (w < on) {
        ssize_t k = write(fd[1], ob + w, on - w);
        if (k <= 0) _exit(3);
        w += (size_t) k;
      }
      { ssize_t k = write(fd[1], "\n", 1); (void)k; }
      _exit(0);
    }
    close(fd[1]);
    {
      ssize_t k;
      for (;;) {
        k = read(fd[0], buf, sizeof buf);
        if (k <= 0) break;
        if (got + (size_t) k > ac) { ac = (got + (size_t) k) * 2; acc = (char *)__real_realloc(acc, ac + 1); }
        memcpy(acc + got, buf, (size_t) k);
        got += (size_t) k;
      }
    }
    close(fd[0]);
    waitpid(pid, &st, 0);
    {
      ssize_t k = pread(ef, eb, sizeof eb - 1, 0);
      en = k > 0 ? (size_t) k : 0;
    }
    close(ef);
    eb[en] = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && got > 0 && acc[got - 1] == '\n') {
      fwrite(acc, 1, got, ro);
    } else {
      char *s = strstr(eb, "ERROR: AddressSanitizer");
      if (!s) s = strstr(eb, "runtime error");
      if (!s) s = strstr(eb, "Assertion");
      if (!s) s = eb;
      { char *e = strchr(s, '\n'); if (e) *e = 0; }
      on = 0;
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && ++hangs) out("{\"crash\":\"hang\",\"why\":\"\"}");
      else {
        out("{\"crash\":\"%s%d\",\"why\":", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        out_str(s);
        out("}");
      }
      fprintf(ro, "%s\n", ob);
      on = 0;
    }
    __real_free(acc);
  }
  fflush(ro);
  return 0;
}
int main(int argc, char **argv) { return rec_main(argc, argv); }
