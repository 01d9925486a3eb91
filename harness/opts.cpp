// Histories of operations on option objects of the C interface and of the
// wrapper.  opts OP...; slots are 0..7; every operation is followed by a dump
// of all objects that exist.
//   new S K          K: cf ci co (C), F I O (wrapper)
//   copy S T         T becomes a copy of S
//   asg S T          T = S
//   set S field v    directly
//   bld S K n (field v)*n   through a builder
//   json S T m       T becomes what reading back the JSON of S gives (m: 0 object, 1 text)
//   from S K hex     S becomes what reading the JSON text gives
//   pack S f i o     S becomes the Options of three objects
//   free S
#include "rec.h"
#include "autotrace.h"
#include "fit.h"
#include "FittingOptions.h"
#include "FittingOptionsBuidler.h"
#include "InputOptions.h"
#include "InputOptionsBuilder.h"
#include "OutputOptions.h"
#include "OutputOptionsBuilder.h"
#include "Options.h"
#include <memory>
#include <string>
#include <new>

#ifdef COUNT_NEW
void *operator new(size_t n) { return malloc(n ? n : 1); }
void *operator new[](size_t n) { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif

struct slot { std::string k; at_fitting_opts_type *cf; at_input_opts_type *ci; at_output_opts_type *co; FittingOptions *F; InputOptions *I; OutputOptions *O; Options *P; };
static slot sl[8];

static const char *NAMES[] = {"background_color", "charcode", "color_count", "corner_always_threshold", "corner_surround", "corner_threshold", "error_threshold",
  "filter_iterations", "line_reversion_threshold", "line_threshold", "remove_adjacent_corners", "remove_knees", "tangent_surround", "despeckle_level",
  "despeckle_tightness", "noise_removal", "centerline", "preserve_width", "width_weight_factor"};

static unsigned *uns(at_fitting_opts_type *o, const std::string &f)
{
  if (f == "charcode") return &o->charcode;
  if (f == "color_count") return &o->color_count;
  if (f == "corner_surround") return &o->corner_surround;
  if (f == "filter_iterations") return &o->filter_iterations;
  if (f == "tangent_surround") return &o->tangent_surround;
  if (f == "despeckle_level") return &o->despeckle_level;
  return NULL;
}
static float *flt(at_fitting_opts_type *o, const std::string &f)
{
  if (f == "corner_always_threshold") return &o->corner_always_threshold;
  if (f == "corner_threshold") return &o->corner_threshold;
  if (f == "error_threshold") return &o->error_threshold;
  if (f == "line_reversion_threshold") return &o->line_reversion_threshold;
  if (f == "line_threshold") return &o->line_threshold;
  if (f == "despeckle_tightness") return &o->despeckle_tightness;
  if (f == "noise_removal") return &o->noise_removal;
  if (f == "width_weight_factor") return &o->width_weight_factor;
  return NULL;
}
static bool *boo(at_fitting_opts_type *o, const std::string &f)
{
  if (f == "remove_adjacent_corners") return &o->remove_adjacent_corners;
  if (f == "remove_knees") return &o->remove_knees;
  if (f == "centerline") return &o->centerline;
  if (f == "preserve_width") return &o->preserve_width;
  return NULL;
}
static at_color colour(const char *v)
{
  at_color c;
  int r, g, b;
  sscanf(v, "%d,%d,%d", &r, &g, &b);
  c.r = (unsigned char)r; c.g = (unsigned char)g; c.b = (unsigned char)b;
  return c;
}
static void out_colour(const at_color *c)
{
  if (c) out("\"%d,%d,%d\"", c->r, c->g, c->b);
  else out("\"none\"");
}
static void dump_f(at_fitting_opts_type *o, const char *pre)
{
  int first = 1;
  for (const char *n : NAMES) {
    out("%s\"%s%s\":", first ? "" : ",", pre, n);
    first = 0;
    if (!strcmp(n, "background_color")) out_colour(o->background_color);
    else if (uns(o, n)) out("\"%u\"", *uns(o, n));
    else if (flt(o, n)) out("\"%.9g\"", *flt(o, n));
    else out("\"%d\"", *(unsigned char *)boo(o, n));
  }
}
static void dump_i(at_input_opts_type *o, const char *pre)
{
  out("\"%sbackground_color\":", pre);
  out_colour(o->background_color);
  out(",\"%scharcode\":\"%u\"", pre, o->charcode);
}
static void dump_o(at_output_opts_type *o, const char *pre) { out("\"%sdpi\":\"%d\"", pre, o->dpi); }
static void dump(void)
{
  int first = 1;
  out("[");
  for (int k = 0; k < 8; k++) {
    slot &s = sl[k];
    if (s.k.empty()) continue;
    out("%s{\"slot\":%d,\"kind\":\"%s\",\"val\":{", first ? "" : ",", k, s.k.c_str());
    first = 0;
    if (s.cf) dump_f(s.cf, "");
    if (s.ci) dump_i(s.ci, "");
    if (s.co) dump_o(s.co, "");
    if (s.F) dump_f(s.F, "");
    if (s.I) dump_i(s.I, "");
    if (s.O) dump_o(s.O, "");
    if (s.P) {
      dump_f(const_cast<at_fitting_opts_type *>(&s.P->fittingOptions), "f_");
      out(",");
      dump_i(const_cast<at_input_opts_type *>(&s.P->inputOptions), "i_");
      out(",");
      dump_o(const_cast<at_output_opts_type *>(&s.P->outputOptions), "o_");
    }
    out("}}");
  }
  out("]");
}
static void drop(slot &s)
{
  if (s.cf) at_fitting_opts_free(s.cf);
  if (s.ci) at_input_opts_free(s.ci);
  if (s.co) at_output_opts_free(s.co);
  delete s.F; delete s.I; delete s.O; delete s.P;
  s = slot();
}
static void make(slot &s, const std::string &k)
{
  s.k = k;
  if (k == "cf") s.cf = at_fitting_opts_new();
  if (k == "ci") s.ci = at_input_opts_new();
  if (k == "co") s.co = at_output_opts_new();
  if (k == "F") s.F = new FittingOptions();
  if (k == "I") s.I = new InputOptions();
  if (k == "O") s.O = new OutputOptions();
}
static void set(slot &s, const std::string &f, const char *v)
{
  at_fitting_opts_type *o = s.cf ? s.cf : s.F;
  at_input_opts_type *i = s.ci ? s.ci : s.I;
  at_output_opts_type *q = s.co ? s.co : s.O;
  if (f == "background_color") {
    at_color **p = o ? &o->background_color : &i->background_color, c;
    if (!strcmp(v, "none")) { at_color_free(*p); *p = NULL; return; }
    c = colour(v);
    if (s.F || s.I) **p = c;
    else if (*p) at_color_set(*p, c.r, c.g, c.b);
    else *p = at_color_new(c.r, c.g, c.b);
  }
  else if (i) i->charcode = (unsigned)strtoul(v, NULL, 10);
  else if (q) q->dpi = atoi(v);
  else if (uns(o, f)) *uns(o, f) = (unsigned)strtoul(v, NULL, 10);
  else if (flt(o, f)) *flt(o, f) = strtof(v, NULL);
  else *boo(o, f) = *v == '1';
}
static void bset(FittingOptionsBuilder &b, const std::string &f, const char *v)
{
  unsigned u = (unsigned)strtoul(v, NULL, 10);
  float x = strtof(v, NULL);
  bool t = *v == '1';
  if (f == "background_color") b.setBackgroudColor(colour(v));
  else if (f == "charcode") b.setCharCode(u);
  else if (f == "color_count") b.setColorCount(u);
  else if (f == "corner_always_threshold") b.setCornerAlwaysThreshold(x);
  else if (f == "corner_surround") b.setCornerSurround(u);
  else if (f == "corner_threshold") b.setCornerThreshold(x);
  else if (f == "error_threshold") b.setErrorThreshold(x);
  else if (f == "filter_iterations") b.setFilterIterations(u);
  else if (f == "line_reversion_threshold") b.setLineReversionThreshold(x);
  else if (f == "line_threshold") b.setLineThreshold(x);
  else if (f == "remove_adjacent_corners") b.setRemoveAdjacentCorners(t);
  else if (f == "tangent_surround") b.setTangentSurround(u);
  else if (f == "despeckle_level") b.setDespeckleLevel(u);
  else if (f == "despeckle_tightness") b.setDespeckleTightness(x);
  else if (f == "noise_removal") b.setNoiseRemoval(x);
  else if (f == "centerline") b.setCenterline(t);
  else if (f == "preserve_width") b.setPreserveWidth(t);
  else if (f == "width_weight_factor") b.setWidthWeightFactor(x);
}
static json11::Json parse(const std::string &text)
{
  std::string err;
  json11::Json j = json11::Json::parse(text, err, json11::STANDARD);
  if (!err.empty()) { fprintf(stderr, "bad json: %s\n", text.c_str()); _exit(77); }
  return j;
}
static void out_json(const json11::Json &j)
{
  int first = 1;
  at_fitting_opts_type probe;
  out(",\"json\":{");
  for (const auto &kv : j.object_items()) {
    out("%s\"%s\":", first ? "" : ",", kv.first.c_str());
    first = 0;
    if (kv.second.is_bool()) out("\"%d\"", (int)kv.second.bool_value());
    else if (kv.second.is_object() && kv.second["red"].is_number() && kv.second["green"].is_number() && kv.second["blue"].is_number() && kv.second.object_items().size() == 3)
      out("\"%d,%d,%d\"", kv.second["red"].int_value(), kv.second["green"].int_value(), kv.second["blue"].int_value());
    else if (kv.second.is_number() && flt(&probe, kv.first)) out("\"%.9g\"", (float)kv.second.number_value());
    else if (kv.second.is_number() && kv.first == "dpi") out("\"%d\"", kv.second.int_value());
    else if (kv.second.is_number()) out("\"%u\"", (unsigned)kv.second.int_value());
    else out("\"?\"");
  }
  out("}");
}
template<class T> static void make_json(slot &t, T *&p, const std::string &k, const json11::Json &j)
{
  p = new T(j);
  t.k = k;
}
static void from(slot &t, const std::string &k, const json11::Json &j)
{
  if (k == "F") make_json(t, t.F, k, j);
  if (k == "I") make_json(t, t.I, k, j);
  if (k == "O") make_json(t, t.O, k, j);
}
extern "C" void run_case(char *line)
{
  char *t;
  int first = 1;
  tok(&line);
  parse("{\"a\":[1,2.5,\"x\",true,null]}");
  for (slot &s : sl) s = slot();
  mem_start();
  out("{\"got\":[");
  while ((t = tok(&line)) && *t) {
    std::string op = t;
    slot &s = sl[tokl(&line)];
    out("%s{\"op\":\"%s\"", first ? "" : ",", op.c_str());
    first = 0;
    if (op == "new") make(s, tok(&line));
    else if (op == "copy") {
      slot &q = sl[tokl(&line)];
      q.k = s.k;
      if (s.cf) q.cf = at_fitting_opts_copy(s.cf);
      if (s.ci) q.ci = at_input_opts_copy(s.ci);
      if (s.co) q.co = at_output_opts_copy(s.co);
      if (s.F) q.F = new FittingOptions(*s.F);
      if (s.I) q.I = new InputOptions(*s.I);
      if (s.O) q.O = new OutputOptions(*s.O);
      if (s.P) q.P = new Options(*s.P);
    } else if (op == "asg") {
      slot &q = sl[tokl(&line)];
      if (s.F) *q.F = *s.F;
      if (s.I) *q.I = *s.I;
    } else if (op == "set") {
      std::string f = tok(&line);
      set(s, f, tok(&line));
    } else if (op == "bld") {
      std::string k = tok(&line);
      long n = tokl(&line);
      s.k = k;
      if (k == "F") {
        FittingOptionsBuilder b = FittingOptionsBuilder::builder();
        while (n-- > 0) { std::string f = tok(&line); bset(b, f, tok(&line)); }
        s.F = new FittingOptions(b.build());
      } else if (k == "I") {
        InputOptionsBuilder b = InputOptionsBuilder::builder();
        while (n-- > 0) {
          std::string f = tok(&line);
          char *v = tok(&line);
          if (f == "background_color") b.setBackgroudColor(colour(v));
          else b.setCharCode((unsigned)strtoul(v, NULL, 10));
        }
        s.I = new InputOptions(b.build());
      } else {
        OutputOptionsBuilder b = OutputOptionsBuilder::builder();
        while (n-- > 0) { tok(&line); b.setDpi((unsigned)atoi(tok(&line))); }
        s.O = new OutputOptions(b.build());
      }
    } else if (op == "json") {
      slot &q = sl[tokl(&line)];
      long m = tokl(&line);
      json11::Json j = s.F ? s.F->toJson() : s.I ? s.I->toJson() : s.O->toJson();
      out_json(j);
      from(q, s.k, m ? parse(j.dump()) : j);
    } else if (op == "from") {
      std::string k = tok(&line);
      size_t n;
      unsigned char *b = tokhex(&line, &n);
      bool thrown = false;
      try { from(s, k, parse(std::string((char *)b, n))); } catch (const std::exception &) { thrown = true; }
      __real_free(b);
      out(",\"thrown\":%s", thrown ? "true" : "false");
    } else if (op == "pack") {
      slot &f = sl[tokl(&line)], &i = sl[tokl(&line)], &o = sl[tokl(&line)];
      s.k = "P";
      s.P = new Options(f.cf ? *f.cf : *f.F, i.ci ? *i.ci : *i.I, o.co ? *o.co : *o.O);
    } else if (op == "free") drop(s);
    out(",\"objs\":");
    dump();
    out("}");
  }
  for (slot &s : sl) drop(s);
  out("],\"live\":%ld}", mem_live());
  mem_stop();
}
