/* session.c: a history of calls on bitmaps and tracing results, all in one process.
   Operations separated by " ; " (slots 0..7 for bitmaps and for results):
     n B W H NP            a new bitmap
     p B SEED              paint it (through its pixels)
     c B B2                copy
     r B FMT PATH CODE BG  read (PATH in hex; BG a colour or -1)
     t B S SETS            trace
     w S FMT NAME DPI      write (NAME in hex)
     f B / g S             free a bitmap / a result
     F V                   fill new memory and the stack with V from now on (-1: not)
   After every operation the record has the messages, the digest of every object and the
   number of live allocations. */
#include "rec.h"
#include "src/autotrace.h"
#include "src/input.h"
#include "src/output.h"
#include "src/color.h"
#include "src/bitmap.h"

#define N 8
static at_bitmap *bm[N];
static at_splines_type *sp[N];
static int n_fatal, n_warn, fill;

static void on_msg(const char *m, at_msg_type t, void *d)
{
  (void)m; (void)d;
  if (t == AT_MSG_FATAL) n_fatal++; else n_warn++;
}
static void __attribute__((noinline)) scribble(int v)
{
  volatile unsigned char a[262144];
  size_t k;
  if (v >= 0)
    for (k = 0; k < sizeof a; k++) a[k] = (unsigned char)v;
}
static unsigned long long fnv(unsigned long long h, const void *p, size_t n)
{
  const unsigned char *b = (const unsigned char *)p;
  while (n--) { h ^= *b++; h *= 1099511628211ULL; }
  return h;
}
#define SEED 14695981039346656037ULL
#define ADD(x) h = fnv(h, &(x), sizeof(x))
static unsigned long long opts_digest(at_fitting_opts_type *f)
{
  unsigned long long h = SEED;
  if (f->background_color) { ADD(f->background_color->r); ADD(f->background_color->g); ADD(f->background_color->b); }
  ADD(f->charcode); ADD(f->color_count); ADD(f->corner_always_threshold); ADD(f->corner_surround); ADD(f->corner_threshold);
  ADD(f->error_threshold); ADD(f->filter_iterations); ADD(f->line_reversion_threshold); ADD(f->line_threshold);
  ADD(f->remove_adjacent_corners); ADD(f->remove_knees); ADD(f->tangent_surround); ADD(f->despeckle_level); ADD(f->despeckle_tightness);
  ADD(f->noise_removal); ADD(f->centerline); ADD(f->preserve_width); ADD(f->width_weight_factor);
  return h;
}
static unsigned long long bits_digest(at_bitmap *b)
{
  unsigned long long h = SEED;
  ADD(b->width); ADD(b->height); ADD(b->np);
  if (b->bitmap) h = fnv(h, b->bitmap, (size_t)b->width * b->height * b->np);
  else h ^= 1;
  return h;
}
static unsigned long long splines_digest(at_splines_type *a)
{
  unsigned long long h = SEED;
  unsigned k, j;
  int m;
  ADD(a->width); ADD(a->height); ADD(a->length); ADD(a->centerline); ADD(a->preserve_width); ADD(a->width_weight_factor);
  if (a->background_color) { ADD(a->background_color->r); ADD(a->background_color->g); ADD(a->background_color->b); }
  for (k = 0; k < a->length; k++) {
    at_spline_list_type *l = &a->data[k];
    ADD(l->length); ADD(l->clockwise); ADD(l->open); ADD(l->color.r); ADD(l->color.g); ADD(l->color.b);
    for (j = 0; j < l->length; j++) {
      at_spline_type *s = &l->data[j];
      int d = s->degree;
      ADD(d);
      for (m = 0; m < 4; m++)
        if (d == 3 || m == 0 || m == 3) {
          ADD(s->v[m].x); ADD(s->v[m].y);
          if (a->centerline && a->preserve_width) ADD(s->v[m].z);
        }
    }
  }
  return h;
}
static at_color *colour(long v)
{
  return v < 0 ? NULL : at_color_new((v >> 16) & 255, (v >> 8) & 255, v & 255);
}
static void set(at_fitting_opts_type *f, const char *k, double v)
{
  float r = (float)(v / 1000.0);
  unsigned u = (unsigned)v;
#define O(n, field, val) else if (!strcmp(k, n)) f->field = val
  if (!strcmp(k, "background-color")) { at_color_free(f->background_color); f->background_color = colour((long)v); }
  O("color-count", color_count, u); O("corner-always-threshold", corner_always_threshold, r); O("corner-surround", corner_surround, u);
  O("corner-threshold", corner_threshold, r); O("error-threshold", error_threshold, r); O("filter-iterations", filter_iterations, u);
  O("line-reversion-threshold", line_reversion_threshold, r); O("line-threshold", line_threshold, r);
  O("remove-adjacent-corners", remove_adjacent_corners, u); O("remove-knees", remove_knees, u); O("tangent-surround", tangent_surround, u);
  O("despeckle-level", despeckle_level, u); O("despeckle-tightness", despeckle_tightness, r); O("noise-removal", noise_removal, r);
  O("centerline", centerline, u); O("preserve-width", preserve_width, u); O("width-weight-factor", width_weight_factor, r);
  else { fprintf(stderr, "no option %s\n", k); _exit(77); }
}
static at_fitting_opts_type *options(char *s)
{
  at_fitting_opts_type *f = at_fitting_opts_new();
  if (strcmp(s, "-")) {
    char *save, *e = strtok_r(s, ",", &save);
    for (; e; e = strtok_r(NULL, ",", &save)) {
      char *q = strchr(e, '=');
      *q = 0;
      set(f, e, atof(q + 1));
    }
  }
  return f;
}
static char *name_of(char *h)
{
  size_t n;
  unsigned char *b;
  char *r;
  if (!strcmp(h, "-")) h += 1;
  b = tokhex(&h, &n);
  r = (char *)__real_malloc(n + 1);
  memcpy(r, b, n);
  r[n] = 0;
  return r;
}
static int open_fds(void)
{
  int k, n = 0;
  for (k = 0; k < 128; k++) if (fcntl(k, F_GETFD) >= 0) n++;
  return n;
}
void run_case(char *line)
{
  char *t;
  int first = 1, k, fds;
  autotrace_init();
  mem_fill = fill = -1;
  mem_start();
  fds = open_fds();
  out("{\"steps\":[");
  while ((t = tok(&line)) && *t) {
    int none = 0, same = 1;
    long len = 0;
    unsigned long long res = 0;
    if (!strcmp(t, ";")) continue;
    if (!strcmp(t, "F")) { mem_fill = fill = (int)tokl(&line); continue; }
    n_fatal = n_warn = 0;
    if (*t == 'n') {
      long b = tokl(&line), w = tokl(&line), h = tokl(&line);
      bm[b] = at_bitmap_new(w, h, tokl(&line));
    } else if (*t == 'p') {
      long b = tokl(&line);
      unsigned long x = (unsigned long)tokl(&line);
      size_t i, n = (size_t)at_bitmap_get_width(bm[b]) * at_bitmap_get_height(bm[b]) * at_bitmap_get_planes(bm[b]);
      for (i = 0; i < n; i++) { x = x * 1103515245 + 12345; bm[b]->bitmap[i] = (x >> 16) & 1 ? 255 : 0; }
    } else if (*t == 'c') {
      long b = tokl(&line);
      bm[tokl(&line)] = at_bitmap_copy(bm[b]);
    } else if (*t == 'r') {
      long b = tokl(&line), bg;
      char *fmt = tok(&line), *path = name_of(tok(&line));
      at_input_opts_type *io = at_input_opts_new();
      unsigned code = (unsigned)tokl(&line);
      bg = tokl(&line);
      io->charcode = code;
      io->background_color = colour(bg);
      scribble(fill);
      bm[b] = at_bitmap_read(at_input_get_handler_by_suffix(fmt), path, io, on_msg, NULL);
      none = !bm[b] || !bm[b]->bitmap;
      same = io->charcode == code && (bg < 0) == !io->background_color &&
             (bg < 0 || (io->background_color->r == ((bg >> 16) & 255) && io->background_color->g == ((bg >> 8) & 255) && io->background_color->b == (bg & 255)));
      at_input_opts_free(io);
      __real_free(path);
    } else if (*t == 't') {
      long b = tokl(&line), s = tokl(&line);
      at_fitting_opts_type *f = options(tok(&line));
      unsigned long long kept = opts_digest(f);
      scribble(fill);
      sp[s] = at_splines_new_full(bm[b], f, on_msg, NULL, NULL, NULL, NULL, NULL);
      none = !sp[s];
      same = kept == opts_digest(f);
      at_fitting_opts_free(f);
    } else if (*t == 'w') {
      long s = tokl(&line);
      char *fmt = tok(&line), *name = name_of(tok(&line)), *buf = NULL;
      size_t n = 0;
      at_output_opts_type *o = at_output_opts_new();
      FILE *m = open_memstream(&buf, &n);
      int dpi = (int)tokl(&line);
      o->dpi = dpi;
      scribble(fill);
      at_splines_write(at_output_get_handler_by_suffix(fmt), m, name, o, sp[s], on_msg, NULL);
      fclose(m);
      len = (long)n;
      res = fnv(SEED, buf, n);
      free(buf);
      same = o->dpi == dpi;
      at_output_opts_free(o);
      __real_free(name);
    } else if (*t == 'f') {
      long b = tokl(&line);
      at_bitmap_free(bm[b]);
      bm[b] = NULL;
    } else if (*t == 'g') {
      long s = tokl(&line);
      at_splines_free(sp[s]);
      sp[s] = NULL;
    }
    out("%s{\"fatal\":%d,\"warn\":%d,\"none\":%s,\"same\":%s,\"len\":%ld,\"res\":\"%016llx\",\"live\":%ld,\"fds\":%d,\"objs\":{", first ? "" : ",",
        n_fatal, n_warn, none ? "true" : "false", same ? "true" : "false", len, res, mem_live(), open_fds() - fds);
    first = 0;
    {
      const char *sep = "";
      for (k = 0; k < N; k++) {
        if (bm[k]) { out("%s\"b%d\":\"%016llx\"", sep, k, bits_digest(bm[k])); sep = ","; }
        if (sp[k]) { out("%s\"s%d\":\"%016llx\"", sep, k, splines_digest(sp[k])); sep = ","; }
      }
    }
    out("}}");
  }
  out("]}");
  mem_stop();
}
