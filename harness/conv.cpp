/* conv.cpp: whole conversions, several in one process.
   Operations separated by " ; ":
     C IN READER NAME WRITER SETS    through the C interface (IN, NAME in hex)
     O HOW TIMES IN OUT SETS         through the C++ objects; HOW the options are made: b builders,
                                     j JSON, c options of the C interface
     L N                             files cannot grow over N bytes in the next O
     F V                             fill new memory and the stack with V from now on (-1: not)
   SETS: name=value,... or -; decimals in thousandths, colours as numbers or -1 for none. */
#include "rec.h"
#include <string>
#include <vector>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include "src/autotrace.h"
#include "src/input.h"
#include "src/output.h"
#include "src/color.h"
#include "src/bitmap.h"
#include "src/wrapper/Autotrace.h"
#include "src/wrapper/FittingOptionsBuidler.h"
#include "src/wrapper/InputOptionsBuilder.h"
#include "src/wrapper/OutputOptionsBuilder.h"

static int n_fatal, n_warn, fill = -1;
static long limit = -1;
static void on_msg(const char *m, at_msg_type t, void *d)
{
  (void)m; (void)d;
  if (t == AT_MSG_FATAL) n_fatal++; else n_warn++;
}
static void __attribute__((noinline)) scribble(int v)
{
  volatile unsigned char a[262144];
  size_t k;
  for (k = 0; k < sizeof a; k++) a[k] = (unsigned char)v;
}
static unsigned long long fnv(unsigned long long h, const void *p, size_t n)
{
  const unsigned char *b = (const unsigned char *)p;
  while (n--) { h ^= *b++; h *= 1099511628211ULL; }
  return h;
}
#define SEED 14695981039346656037ULL
static int open_fds(void)
{
  int k, n = 0;
  for (k = 0; k < 128; k++) if (fcntl(k, F_GETFD) >= 0) n++;
  return n;
}
struct kv { std::string k; double v; };
static std::vector<kv> sets(const char *s)
{
  std::vector<kv> r;
  if (!strcmp(s, "-")) return r;
  std::string t = s;
  size_t i = 0;
  while (i < t.size()) {
    size_t j = t.find(',', i);
    if (j == std::string::npos) j = t.size();
    std::string e = t.substr(i, j - i);
    size_t q = e.find('=');
    r.push_back({ e.substr(0, q), atof(e.c_str() + q + 1) });
    i = j + 1;
  }
  return r;
}
static std::string hexname(const char *h)
{
  std::string r;
  if (strcmp(h, "-"))
    for (; h[0] && h[1]; h += 2) { unsigned v; sscanf(h, "%2x", &v); r += (char)v; }
  return r;
}
static at_color col(double v)
{
  at_color c;
  long n = (long)v;
  c.r = (n >> 16) & 255; c.g = (n >> 8) & 255; c.b = n & 255;
  return c;
}
static at_color *colp(double v)
{
  at_color c = col(v);
  return v < 0 ? NULL : at_color_new(c.r, c.g, c.b);
}
static void apply(const std::vector<kv> &s, at_fitting_opts_type *f, at_input_opts_type *i, at_output_opts_type *o)
{
  for (const kv &e : s) {
    const std::string &k = e.k;
    float r = (float)(e.v / 1000.0);
    unsigned u = (unsigned)e.v;
    if (k == "background-color") {
      at_color_free(f->background_color); f->background_color = colp(e.v);
      at_color_free(i->background_color); i->background_color = colp(e.v);
    } else if (k == "charcode") f->charcode = i->charcode = u;
    else if (k == "color-count") f->color_count = u;
    else if (k == "corner-always-threshold") f->corner_always_threshold = r;
    else if (k == "corner-surround") f->corner_surround = u;
    else if (k == "corner-threshold") f->corner_threshold = r;
    else if (k == "error-threshold") f->error_threshold = r;
    else if (k == "filter-iterations") f->filter_iterations = u;
    else if (k == "line-reversion-threshold") f->line_reversion_threshold = r;
    else if (k == "line-threshold") f->line_threshold = r;
    else if (k == "remove-adjacent-corners") f->remove_adjacent_corners = u;
    else if (k == "remove-knees") f->remove_knees = u;
    else if (k == "tangent-surround") f->tangent_surround = u;
    else if (k == "despeckle-level") f->despeckle_level = u;
    else if (k == "despeckle-tightness") f->despeckle_tightness = r;
    else if (k == "noise-removal") f->noise_removal = r;
    else if (k == "centerline") f->centerline = u;
    else if (k == "preserve-width") f->preserve_width = u;
    else if (k == "width-weight-factor") f->width_weight_factor = r;
    else if (k == "dpi") o->dpi = (int)e.v;
    else { fprintf(stderr, "no option %s\n", k.c_str()); _exit(77); }
  }
}
static unsigned long long fit_digest(at_fitting_opts_type *f, at_input_opts_type *i, at_output_opts_type *o)
{
  unsigned long long h = SEED;
#define ADD(x) h = fnv(h, &(x), sizeof(x))
  if (f->background_color) ADD(f->background_color->r), ADD(f->background_color->g), ADD(f->background_color->b);
  ADD(f->charcode); ADD(f->color_count); ADD(f->corner_always_threshold); ADD(f->corner_surround); ADD(f->corner_threshold);
  ADD(f->error_threshold); ADD(f->filter_iterations); ADD(f->line_reversion_threshold); ADD(f->line_threshold);
  ADD(f->remove_adjacent_corners); ADD(f->remove_knees); ADD(f->tangent_surround); ADD(f->despeckle_level); ADD(f->despeckle_tightness);
  ADD(f->noise_removal); ADD(f->centerline); ADD(f->preserve_width); ADD(f->width_weight_factor);
  if (i->background_color) ADD(i->background_color->r), ADD(i->background_color->g), ADD(i->background_color->b);
  ADD(i->charcode); ADD(o->dpi);
  return h;
}
static unsigned long long spline_digest(at_splines_type *a)
{
  unsigned long long h = SEED;
  ADD(a->width); ADD(a->height); ADD(a->length); ADD(a->centerline); ADD(a->preserve_width); ADD(a->width_weight_factor);
  if (a->background_color) ADD(a->background_color->r), ADD(a->background_color->g), ADD(a->background_color->b);
  for (unsigned k = 0; k < a->length; k++) {
    at_spline_list_type *l = &a->data[k];
    ADD(l->length); ADD(l->clockwise); ADD(l->open); ADD(l->color.r); ADD(l->color.g); ADD(l->color.b);
    for (unsigned j = 0; j < l->length; j++) {
      at_spline_type *s = &l->data[j];
      int d = s->degree;
      ADD(d);
      for (int m = 0; m < 4; m++)
        if (d == 3 || m == 0 || m == 3) {
          ADD(s->v[m].x); ADD(s->v[m].y);
          if (a->centerline && a->preserve_width) ADD(s->v[m].z);
        }
    }
  }
  return h;
}
static unsigned long long file_digest(const char *path, long *len)
{
  unsigned long long h = SEED;
  unsigned char b[4096];
  size_t n;
  FILE *f = fopen(path, "rb");
  *len = -1;
  if (!f) return 0;
  *len = 0;
  while ((n = fread(b, 1, sizeof b, f)) > 0) { h = fnv(h, b, n); *len += (long)n; }
  fclose(f);
  return h;
}
static void c_conv(char *in, char *reader, char *name, char *writer, char *set)
{
  std::string fn = hexname(in), nm = hexname(name);
  std::vector<kv> s = sets(set);
  at_fitting_opts_type *f = at_fitting_opts_new();
  at_input_opts_type *i = at_input_opts_new();
  at_output_opts_type *o = at_output_opts_new();
  apply(s, f, i, o);
  unsigned long long kept = fit_digest(f, i, o), px = SEED, after = SEED, sp = SEED, res = SEED;
  int w = -1, h = -1, np = 0, fr = 0, ft = 0, fw = 0;
  long len = -1;
  at_splines_type *sl = NULL;
  bool same = true;
  n_fatal = n_warn = 0;
  if (fill >= 0) scribble(fill);
  at_bitmap *b = at_bitmap_read(at_input_get_handler_by_suffix(reader), (char *)fn.c_str(), i, on_msg, NULL);
  fr = n_fatal;
  if (b && (b->bitmap || !fr)) {        /* a blank character has no pixels */
    w = b->width; h = b->height; np = b->np;
    px = fnv(px, b->bitmap, (size_t)w * h * np);
    if (fill >= 0) scribble(fill);
    sl = at_splines_new_full(b, f, on_msg, NULL, NULL, NULL, NULL, NULL);
    ft = n_fatal - fr;
    char head[100];
    snprintf(head, sizeof head, "P%d\n# Created by AutoTrace\n%d %d\n255\n", np == 1 ? 5 : 6, w, h);
    after = fnv(fnv(after, head, strlen(head)), b->bitmap, (size_t)w * h * np);
  }
  if (sl) {
    char *buf = NULL;
    size_t n = 0;
    sp = spline_digest(sl);
    FILE *m = open_memstream(&buf, &n);
    if (fill >= 0) scribble(fill);
    at_splines_write(at_output_get_handler_by_suffix(writer), m, (char *)nm.c_str(), o, sl, on_msg, NULL);
    fw = n_fatal - fr - ft;
    fclose(m);
    len = (long)n;
    res = fnv(res, buf, n);
    free(buf);
    same = sp == spline_digest(sl);
    at_splines_free(sl);
  }
  if (b) at_bitmap_free(b);
  same = same && kept == fit_digest(f, i, o);
  out("\"w\":%d,\"h\":%d,\"np\":%d,\"px\":\"%016llx\",\"dump\":\"%016llx\",\"spl\":\"%016llx\",\"len\":%ld,\"res\":\"%016llx\","
      "\"fr\":%d,\"ft\":%d,\"fw\":%d,\"warn\":%d,\"bits\":%s,\"traced\":%s,\"same\":%s,\"ok\":%s",
      w, h, np, px, after, sp, len, res, fr, ft, fw, n_warn, w >= 0 ? "true" : "false", sl ? "true" : "false", same ? "true" : "false",
      sl && !n_fatal ? "true" : "false");
  at_fitting_opts_free(f); at_input_opts_free(i); at_output_opts_free(o);
}
static FittingOptions fitting(const std::vector<kv> &s)
{
  FittingOptionsBuilder b = FittingOptionsBuilder::builder();
  for (const kv &e : s) {
    const std::string &k = e.k;
    float r = (float)(e.v / 1000.0);
    unsigned u = (unsigned)e.v;
    if (k == "background-color") { if (e.v >= 0) b.setBackgroudColor(col(e.v)); }
    else if (k == "charcode") b.setCharCode(u);
    else if (k == "color-count") b.setColorCount(u);
    else if (k == "corner-always-threshold") b.setCornerAlwaysThreshold(r);
    else if (k == "corner-surround") b.setCornerSurround(u);
    else if (k == "corner-threshold") b.setCornerThreshold(r);
    else if (k == "error-threshold") b.setErrorThreshold(r);
    else if (k == "filter-iterations") b.setFilterIterations(u);
    else if (k == "line-reversion-threshold") b.setLineReversionThreshold(r);
    else if (k == "line-threshold") b.setLineThreshold(r);
    else if (k == "remove-adjacent-corners") b.setRemoveAdjacentCorners(u);
    else if (k == "tangent-surround") b.setTangentSurround(u);
    else if (k == "despeckle-level") b.setDespeckleLevel(u);
    else if (k == "despeckle-tightness") b.setDespeckleTightness(r);
    else if (k == "noise-removal") b.setNoiseRemoval(r);
    else if (k == "centerline") b.setCenterline(u);
    else if (k == "preserve-width") b.setPreserveWidth(u);
    else if (k == "width-weight-factor") b.setWidthWeightFactor(r);
  }
  return b.build();
}

static InputOptions input(const std::vector<kv> &s)
{
  InputOptionsBuilder b = InputOptionsBuilder::builder();
  for (const kv &e : s) {
    if (e.k == "background-color") { if (e.v >= 0) b.setBackgroudColor(col(e.v)); }
    else if (e.k == "charcode") b.setCharCode((unsigned)e.v);
  }
  return b.build();
}
static OutputOptions output(const std::vector<kv> &s)
{
  OutputOptionsBuilder b = OutputOptionsBuilder::builder();
  for (const kv &e : s) if (e.k == "dpi") b.setDpi((unsigned)e.v);
  return b.build();
}
static const char *DECIMAL[] = { "corner-always-threshold", "corner-threshold", "error-threshold", "line-reversion-threshold", "line-threshold",
  "despeckle-tightness", "noise-removal", "width-weight-factor" };
static const char *SWITCH[] = { "remove-adjacent-corners", "remove-knees", "centerline", "preserve-width" };
static json11::Json json(const std::vector<kv> &s)
{
  std::string t = "{", err;
  for (const kv &e : s) {
    char v[200];
    std::string k = e.k;
    snprintf(v, sizeof v, "%ld", (long)e.v);
    for (const char *d : DECIMAL) if (k == d) snprintf(v, sizeof v, "%.3f", e.v / 1000);
    for (const char *d : SWITCH) if (k == d) snprintf(v, sizeof v, "%s", e.v != 0 ? "true" : "false");
    if (k == "background-color") {
      at_color c = col(e.v);
      if (e.v < 0) continue;
      snprintf(v, sizeof v, "{\"red\":%d,\"green\":%d,\"blue\":%d}", c.r, c.g, c.b);
    }
    for (char &x : k) if (x == '-') x = '_';
    t += (t.size() > 1 ? ",\"" : "\"") + k + "\":" + v;
  }
  json11::Json j = json11::Json::parse(t + "}", err, json11::STANDARD);
  if (!err.empty()) { fprintf(stderr, "bad json %s\n", t.c_str()); _exit(77); }
  return j;
}
static void o_conv(const char *how, long times, char *in, char *name, char *set)
{
  std::string fn = hexname(in), nm = hexname(name);
  std::vector<kv> s = sets(set);
  long l0, l1;
  unsigned long long d0 = file_digest(nm.c_str(), &l0), d1;
  bool ok = true;
  std::string msg;
  if (fill >= 0) scribble(fill);
  auto go = [&](const Options &o) {
    Autotrace a{ fn, nm, o };
    for (long k = 0; k < times; k++) {
      struct rlimit was, now;
      getrlimit(RLIMIT_FSIZE, &was);
      now = was;
      if (limit >= 0) { signal(SIGXFSZ, SIG_IGN); now.rlim_cur = (rlim_t)limit; setrlimit(RLIMIT_FSIZE, &now); }
      const auto r = a.produceOutput();
      setrlimit(RLIMIT_FSIZE, &was);
      ok = r.has_value();
      msg = ok ? "" : r.error();
    }
  };
  if (*how == 'c') {
    at_fitting_opts_type *f = at_fitting_opts_new();
    at_input_opts_type *i = at_input_opts_new();
    at_output_opts_type *o = at_output_opts_new();
    apply(s, f, i, o);
    { Options p{ *f, *i, *o }; go(p); }
    at_fitting_opts_free(f); at_input_opts_free(i); at_output_opts_free(o);
  } else if (*how == 'j') {
    json11::Json j = json(s);
    FittingOptions f{ j };
    InputOptions i{ j };
    OutputOptions o{ j };
    Options p{ f, i, o };
    go(p);
  } else {
    FittingOptions f = fitting(s);
    InputOptions i = input(s);
    OutputOptions o = output(s);
    Options p{ f, i, o };
    go(p);
  }
  d1 = file_digest(nm.c_str(), &l1);
  out("\"ok\":%s,\"msg\":%d,\"len0\":%ld,\"res0\":\"%016llx\",\"len\":%ld,\"res\":\"%016llx\"", ok ? "true" : "false", (int)msg.size(), l0, d0, l1, d1);
}
extern "C" void run_case(char *line)
{
  char *t;
  int first = 1;
  autotrace_init();
  mem_fill = fill = -1;
  limit = -1;
  mem_start();
  out("{\"ops\":[");
  while ((t = tok(&line)) && *t) {
    if (!strcmp(t, ";")) continue;
    if (!strcmp(t, "F")) { mem_fill = fill = (int)tokl(&line); continue; }
    if (!strcmp(t, "L")) { limit = tokl(&line); continue; }
    int fds = open_fds();
    long live = mem_live();
    out("%s{\"k\":\"%s\",", first ? "" : ",", t);
    first = 0;
    if (!strcmp(t, "C")) {
      char *in = tok(&line), *reader = tok(&line), *name = tok(&line), *writer = tok(&line);
      c_conv(in, reader, name, writer, tok(&line));
    } else {
      char *how = tok(&line);
      long times = tokl(&line);
      char *in = tok(&line), *name = tok(&line);
      o_conv(how, times, in, name, tok(&line));
    }
    out(",\"live\":%ld,\"fds\":%d}", mem_live() - live, open_fds() - fds);
  }
  out("]}");
  mem_stop();
}
