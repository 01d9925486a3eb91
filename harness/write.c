/* write.c: driver for the writers.
   splines NAME W H DPI CL BG PW FORMAT LISTS    a given tracing result
   traced NAME W H NP PX OPTS DPI FORMAT         the result of tracing a bitmap
   NAME is the name of the document in hex, BG is a colour or -, PW the width weight factor or 0; a list is
   L COLOUR CW OPEN N and N times 1 x y x y or 3 x y x y x y x y (units of 1/1000;
   with PW > 0 each point has a third number). */
#include "rec.h"
#include "autotrace.h"
#include "output.h"
#include "spline.h"
#include "color.h"
#include "bitmap.h"
#include <sys/stat.h>

static int n_fatal, n_warn;
static char *doc_name;
static char last_msg[256];
static void on_msg(const char *m, at_msg_type t, void *d)
{
  (void)d;
  if (t == AT_MSG_FATAL) n_fatal++; else n_warn++;
  snprintf(last_msg, sizeof last_msg, "%s", m ? m : "(null)");
}
static int open_fds(void)
{
  int k, n = 0;
  for (k = 0; k < 128; k++) if (fcntl(k, F_GETFD) >= 0) n++;
  return n;
}
static void __attribute__((noinline)) scribble(int v)
{
  volatile unsigned char a[65536];
  size_t k;
  for (k = 0; k < sizeof a; k++) a[k] = (unsigned char)v;
}
static at_color colour(unsigned long v)
{
  at_color c;
  c.r = (v >> 16) & 255; c.g = (v >> 8) & 255; c.b = v & 255;
  return c;
}
static int colv(at_color c) { return c.r * 65536 + c.g * 256 + c.b; }

static at_splines_type *given(char **pp, int w, int h, int cl, const char *bg, double pw)
{
  char *t;
  at_splines_type *a = calloc(1, sizeof *a);
  at_spline_list_type *data = calloc(5000, sizeof *data);
  a->width = (unsigned short)w; a->height = (unsigned short)h; a->centerline = cl;
  if (strcmp(bg, "-")) { at_color c = colour(strtoul(bg, NULL, 16)); a->background_color = at_color_new(c.r, c.g, c.b); }
  a->preserve_width = pw > 0; a->width_weight_factor = (float)pw;
  while ((t = tok(pp)) && *t) {
    at_spline_list_type *l = &data[a->length++];
    int k, n, j, m;
    if (strcmp(t, "L")) { fprintf(stderr, "bad case %s\n", t); _exit(77); }
    l->color = colour(strtoul(tok(pp), NULL, 16));
    l->clockwise = tokl(pp); l->open = tokl(pp); l->length = n = (int)tokl(pp);
    l->data = malloc(n * sizeof(at_spline_type));
    memset(l->data, 0xCB, n * sizeof(at_spline_type));
    for (k = 0; k < n; k++) {
      at_spline_type *s = &l->data[k];
      s->degree = (int)tokl(pp) == 1 ? AT_LINEARTYPE : AT_CUBICTYPE;
      m = s->degree == AT_LINEARTYPE ? 3 : 1;
      for (j = 0; j < 4; j += m) {
        s->v[j].x = (float)(tokl(pp) / 1000.0); s->v[j].y = (float)(tokl(pp) / 1000.0);
        s->v[j].z = pw > 0 ? (float)(tokl(pp) / 1000.0) : 0;
      }
    }
  }
  a->data = malloc(a->length * sizeof *data + 1);
  memcpy(a->data, data, a->length * sizeof *data);
  free(data);
  return a;
}

static void out_splines(at_splines_type *a)
{
  unsigned i, k, j;
  out("\"w\":%d,\"h\":%d,\"cl\":%s,\"bg\":%d,\"pw\":%ld,\"lists\":[", a->width, a->height, a->centerline ? "true" : "false",
      a->background_color ? colv(*a->background_color) : -1, a->preserve_width ? lround(a->width_weight_factor * 1000) : 0);
  for (i = 0; i < a->length; i++) {
    at_spline_list_type *l = &a->data[i];
    out("%s{\"c\":%d,\"cw\":%s,\"open\":%s,\"s\":[", i ? "," : "", colv(l->color), l->clockwise ? "true" : "false", l->open ? "true" : "false");
    for (k = 0; k < l->length; k++) {
      at_spline_type *s = &l->data[k];
      int m = s->degree == AT_LINEARTYPE ? 3 : 1;
      out("%s[", k ? "," : "");
      for (j = 0; j < 4; j += m)
        out("%s%ld,%ld", j ? "," : "", lround(s->v[j].x * 1000.0), lround(s->v[j].y * 1000.0));
      out("]");
    }
    out("],\"z\":[");
    if (a->preserve_width)
      for (k = 0; k < l->length; k++) {
        at_spline_type *s = &l->data[k];
        int m = s->degree == AT_LINEARTYPE ? 3 : 1;
        out("%s[", k ? "," : "");
        for (j = 0; j < 4; j += m) out("%s%ld", j ? "," : "", lround(s->v[j].z * 1000.0));
        out("]");
      }
    out("]}");
  }
  out("]");
}
/* a digest of everything a writer is given */
static unsigned long digest(at_splines_type *a, at_output_opts_type *o)
{
  unsigned long h = 14695981039346656037ul;
  unsigned i;
  size_t k;
#define EAT(p, n) for (k = 0; k < (n); k++) h = (h ^ ((unsigned char *)(p))[k]) * 1099511628211ul
  EAT(&a->length, sizeof a->length); EAT(&a->width, 2); EAT(&a->height, 2);
  if (a->background_color) EAT(a->background_color, sizeof(at_color));
  h = h * 31 + a->centerline * 2 + a->preserve_width; EAT(&a->width_weight_factor, sizeof(float));
  for (i = 0; i < a->length; i++) {
    at_spline_list_type *l = &a->data[i];
    EAT(&l->color, sizeof(at_color)); EAT(&l->length, sizeof l->length);
    h = h * 31 + l->clockwise * 2 + l->open;
    EAT(l->data, l->length * sizeof(at_spline_type));
  }
  return h * 31 + o->dpi;
}

/* write once; the bytes in *b */
static size_t write_once(const char *fmt, at_splines_type *a, at_output_opts_type *o, unsigned char **b, int *fds)
{
  char name[64];
  FILE *f;
  struct stat st;
  at_spline_writer *wr;
  snprintf(name, sizeof name, "case.%s", fmt);
  unlink(name);
  wr = at_output_get_handler(name);
  if (!wr) { fprintf(stderr, "no writer for %s\n", fmt); _exit(77); }
  *fds = open_fds();
  f = fopen(name, "wb");
  at_splines_write(wr, f, doc_name, o, a, on_msg, NULL);
  fclose(f);
  *fds = open_fds() - *fds;
  f = fopen(name, "rb");
  fstat(fileno(f), &st);
  *b = __real_malloc(st.st_size + 1);
  if (fread(*b, 1, st.st_size, f) != (size_t) st.st_size) _exit(77);
  fclose(f);
  unlink(name);
  return st.st_size;
}

static void write_case(at_splines_type *a, int dpi, const char *f)
{
  at_output_opts_type *o = at_output_opts_new();
  unsigned char *b, *b2;
  size_t n, n2, k;
  long live;
  int fds, fds2, nf;
  unsigned long d0;
  o->dpi = dpi;
  d0 = digest(a, o);
  n_fatal = n_warn = 0;
  mem_fill = 0xA5; scribble(0xA5);
  n = write_once(f, a, o, &b, &fds);
  nf = n_fatal;
  mem_fill = 0x3C; scribble(0x3C);
  mem_start();
  n2 = write_once(f, a, o, &b2, &fds2);
  live = mem_live();
  mem_stop();
  out("{");
  out_splines(a);
  out(",\"dpi\":%d,\"fmt\":\"%s\",\"fatal\":%d,\"live\":%ld,\"fds\":%d,\"kept\":%s,\"same\":%s,\"hex\":\"", dpi, f, nf, live,
      fds + fds2, digest(a, o) == d0 ? "true" : "false", n == n2 && !memcmp(b, b2, n) ? "true" : "false");
  for (k = 0; k < n; k++) out("%02x", b[k]);
  out("\"}");
}

void run_case(char *line)
{
  char *p = line, *m = tok(&p);
  size_t nn;
  unsigned char *nm = tokhex(&p, &nn);
  autotrace_init();
  doc_name = calloc(nn + 1, 1);
  memcpy(doc_name, nm, nn);
  if (m && !strcmp(m, "splines")) {
    int w = (int)tokl(&p), h = (int)tokl(&p), dpi = (int)tokl(&p), cl = (int)tokl(&p);
    char *bg = strdup(tok(&p));
    double pw = tokl(&p) / 1000.0;
    char *formats = strdup(tok(&p));
    write_case(given(&p, w, h, cl, bg, pw), dpi, formats);
    return;
  }
  if (m && !strcmp(m, "traced")) {
    int w = (int)tokl(&p), h = (int)tokl(&p), np = (int)tokl(&p);
    size_t n;
    unsigned char *d = tokhex(&p, &n);
    at_bitmap *b = at_bitmap_new((unsigned short)w, (unsigned short)h, (unsigned)np);
    at_fitting_opts_type *fo = at_fitting_opts_new();
    char *bg = strdup(tok(&p)), *formats;
    int dpi;
    at_splines_type *a;
    memcpy(b->bitmap, d, n);
    if (strcmp(bg, "-")) { at_color c = colour(strtoul(bg, NULL, 16)); fo->background_color = at_color_new(c.r, c.g, c.b); }
    fo->centerline = tokl(&p); fo->preserve_width = tokl(&p); fo->color_count = (unsigned)tokl(&p);
    dpi = (int)tokl(&p);
    formats = strdup(tok(&p));
    a = at_splines_new(b, fo, on_msg, NULL);
    if (!a) { fprintf(stderr, "no tracing result\n"); _exit(77); }
    write_case(a, dpi, formats);
    return;
  }
  fprintf(stderr, "unknown mode\n");
  _exit(77);
}
