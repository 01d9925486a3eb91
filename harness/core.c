/* core.c: driver for the tracing core. */
#include "rec.h"
#include "autotrace.h"
#include "bitmap.h"
#include "color.h"
#include "exception.h"
#include "pxl-outline.h"
#include "thin-image.h"
#include "despeckle.h"
#include "quantize.h"
#include "image-proc.h"
#include "spline.h"

/* ---- messages ---- */
static int n_fatal, n_warn;
static char last_msg[256];
static long msg_cookie_bad;
static char cookie;
static void on_msg(const char *m, at_msg_type t, void *d)
{
  if (d != &cookie) msg_cookie_bad++;
  if (t == AT_MSG_FATAL) n_fatal++; else n_warn++;
  snprintf(last_msg, sizeof last_msg, "%s", m ? m : "(null)");
}

static int st_axis, st_c, st_n = 1;           /* see stretched() */
static at_bitmap *tokbm(char **p)
{
  long w, h, np;
  while (**p == ' ') ++*p;
  if (**p == '+') {
    char *t = tok(p);
    st_axis = t[1];
    sscanf(t + 3, "%d:%d", &st_c, &st_n);
  }
  w = tokl(p), h = tokl(p), np = tokl(p);
  size_t n;
  unsigned char *d = tokhex(p, &n);
  at_bitmap *b = at_bitmap_new((unsigned short)w, (unsigned short)h, (unsigned)np);
  if (n != (size_t) w * h * np) { fprintf(stderr, "bad case\n"); _exit(77); }
  memcpy(b->bitmap, d, n);
  return b;
}
/* "+X:C:N" or "+Y:C:N" in front of the size repeats column (row) C so that it
   occurs N times; the records describe the bitmap as if it occurred once */
static at_bitmap *stretched(at_bitmap *b)
{
  int w = b->width + (st_axis == 'X' ? st_n - 1 : 0), h = b->height + (st_axis == 'Y' ? st_n - 1 : 0), x, y;
  at_bitmap *s;
  if (!st_axis) return b;
  s = at_bitmap_new((unsigned short)w, (unsigned short)h, b->np);
  for (y = 0; y < h; y++)
    for (x = 0; x < w; x++) {
      int u = st_axis != 'X' || x <= st_c ? x : x < st_c + st_n ? st_c : x - st_n + 1;
      int v = st_axis != 'Y' || y <= st_c ? y : y < st_c + st_n ? st_c : y - st_n + 1;
      memcpy(s->bitmap + ((size_t) y * w + x) * b->np, b->bitmap + ((size_t) v * b->width + u) * b->np, b->np);
    }
  return s;
}
/* the reverse; copies that differ are reported by the value 0x800080 */
static at_bitmap *unstretched(at_bitmap *s, int w, int h)
{
  at_bitmap *b;
  int x, y;
  if (!st_axis) return s;
  b = at_bitmap_new((unsigned short)w, (unsigned short)h, s->np);
  for (y = 0; y < s->height; y++)
    for (x = 0; x < s->width; x++) {
      int u = st_axis != 'X' || x <= st_c ? x : x < st_c + st_n ? st_c : x - st_n + 1;
      int v = st_axis != 'Y' || y <= st_c ? y : y < st_c + st_n ? st_c : y - st_n + 1;
      unsigned char *d = b->bitmap + ((size_t) v * w + u) * s->np, *q = s->bitmap + ((size_t) y * s->width + x) * s->np;
      if (u == x && v == y) memcpy(d, q, s->np);
      else if ((st_axis == 'X' ? u == st_c : v == st_c) && memcmp(d, q, s->np)) { unsigned k; for (k = 0; k < s->np; k++) d[k] = k == 1 ? 0 : 128; }
      else if ((st_axis == 'X' ? u : v) > st_c) memcpy(d, q, s->np);
    }
  return b;
}

static int tokcolor(char **p, at_color *c)
{
  char *t = tok(p);
  unsigned long v;
  if (!t || !strcmp(t, "-")) return 0;
  v = strtoul(t, NULL, 16);
  c->r = (v >> 16) & 255; c->g = (v >> 8) & 255; c->b = v & 255;
  return 1;
}
static int colv(at_color c) { return c.r * 65536 + c.g * 256 + c.b; }
static void out_px(const at_bitmap *b)
{
  long k, n = (long)b->width * b->height;
  out("[");
  for (k = 0; k < n; k++) {
    const unsigned char *q = b->bitmap + k * b->np;
    int v = b->np >= 3 ? q[0] * 65536 + q[1] * 256 + q[2] : q[0] * 65793;
    out("%s%d", k ? "," : "", v);
  }
  out("]");
}
static int st_pixels, st_height;
static void out_outlines(pixel_outline_list_type *l)
{
  unsigned i, j, k;
  out("[");
  for (i = 0; i < l->length; i++) {
    pixel_outline_type *o = &l->data[i];
    out("%s{\"color\":%d,\"cw\":%s,\"open\":%s,\"pts\":[", i ? "," : "", colv(o->color), o->clockwise ? "true" : "false", o->open ? "true" : "false");
    for (j = 0, k = 0; j < o->length; j++) {
      int x = (int)o->data[j].x, y = (int)o->data[j].y;
      if (st_axis == 'X') {
        if (x > st_c && x < st_c + st_n) continue;
        if (x > st_c) x -= st_n - 1;
      } else if (st_axis == 'Y') {
        int r = st_height - y - st_pixels;           /* from the top */
        if (r > st_c && r < st_c + st_n) continue;
        if (r > st_c) r -= st_n - 1;
        y = st_height - (st_n - 1) - r - st_pixels;
      }
      out("%s[%d,%d]", k++ ? "," : "", x, y);
    }
    out("]}");
  }
  out("]");
}

/* ---- progress / cancel ---- */
static long n_prog, n_test, cancel_at, n_after;
static int cancelled, sticky;
static long prog[20000];
static long prog_bad;
static void on_progress(float p, void *d)
{
  if (d != &cookie) prog_bad++;
  if (!(p >= 0.0f && p <= 1.0f)) prog_bad++;
  if (n_prog < 20000) prog[n_prog] = lrintf(p * 1000000);
  n_prog++;
  if (cancelled) n_after++;
}
static bool on_cancel(void *d)
{
  if (d != &cookie) prog_bad++;
  n_test++;
  if (cancelled) { n_after++; return sticky; }
  if (cancel_at > 0 && n_test == cancel_at) { cancelled = 1; return true; }
  return false;
}

/* ---- options ---- */
static void setopt(at_fitting_opts_type *o, char *s)
{
  char *kv, *sv = NULL;
  for (kv = strtok_r(s, ",", &sv); kv; kv = strtok_r(NULL, ",", &sv)) {
    char *v = strchr(kv, '=');
    if (!v) continue;
    *v++ = 0;
#define U(n) else if (!strcmp(kv, #n)) o->n = (unsigned)strtoul(v, NULL, 10)
#define F(n) else if (!strcmp(kv, #n)) o->n = (float)strtod(v, NULL)
#define B(n) else if (!strcmp(kv, #n)) o->n = atoi(v) != 0
    if (!strcmp(kv, "background_color")) { unsigned long x = strtoul(v, NULL, 16); o->background_color = at_color_new(x >> 16 & 255, x >> 8 & 255, x & 255); }
    U(charcode); U(color_count); F(corner_always_threshold); U(corner_surround); F(corner_threshold); F(error_threshold);
    U(filter_iterations); F(line_reversion_threshold); F(line_threshold); B(remove_adjacent_corners); B(remove_knees);
    U(tangent_surround); U(despeckle_level); F(despeckle_tightness); F(noise_removal); B(centerline); B(preserve_width);
    F(width_weight_factor);
    else { fprintf(stderr, "bad option %s\n", kv); _exit(77); }
  }
}

static int bits(float f) { int v; memcpy(&v, &f, 4); return v; }
static int fin(float f) { return isfinite(f) && fabsf(f) < 1000000.0f; }
static void out_splines(at_splines_type *s)
{
  unsigned i, j;
  int k;
  out("{\"w\":%d,\"h\":%d,\"bg\":%d,\"centerline\":%s,\"pw\":%s,\"wwf\":%d,\"lists\":[", s->width, s->height,
      s->background_color ? colv(*s->background_color) : -1, s->centerline ? "true" : "false", s->preserve_width ? "true" : "false", bits(s->width_weight_factor));
  for (i = 0; i < s->length; i++) {
    at_spline_list_type *l = &s->data[i];
    out("%s{\"color\":%d,\"cw\":%s,\"open\":%s,\"s\":[", i ? "," : "", colv(l->color), l->clockwise ? "true" : "false", l->open ? "true" : "false");
    for (j = 0; j < l->length; j++) {
      at_spline_type *q = &l->data[j];
      int ok = 1, cub = q->degree == AT_CUBICTYPE;
      for (k = 0; k < 4; k++) if (cub || k == 0 || k == 3) ok = ok && fin(q->v[k].x) && fin(q->v[k].y);
      out("%s{\"d\":%d,\"ok\":%s,\"f\":[", j ? "," : "", (int)q->degree, ok ? "true" : "false");
      for (k = 0; k < 4; k++) {
        at_real_coord c = cub || k == 0 || k == 3 ? q->v[k] : q->v[k == 1 ? 0 : 3];
        if (ok) out("%s[%ld,%ld]", k ? "," : "", lrintf(c.x * 256), lrintf(c.y * 256));
        else out("%s[0,0]", k ? "," : "");
      }
      out("],\"b\":[[%d,%d,%d],[%d,%d,%d]],\"z\":[%ld,%ld]}", bits(q->v[0].x), bits(q->v[0].y), bits(q->v[0].z), bits(q->v[3].x), bits(q->v[3].y), bits(q->v[3].z),
          fin(q->v[0].z) ? lrintf(q->v[0].z * 256) : -1, fin(q->v[3].z) ? lrintf(q->v[3].z * 256) : -1);
    }
    out("]}");
  }
  out("]}");
}

static uint64_t fnv(uint64_t h, const void *p, size_t n)
{
  const unsigned char *q = (const unsigned char *)p;
  while (n--) { h ^= *q++; h *= 1099511628211ULL; }
  return h;
}
/* a fingerprint of everything a caller can see in a spline array */
static uint64_t splines_hash(at_splines_type *s)
{
  uint64_t h = 1469598103934665603ULL;
  unsigned i, j;
  int k;
  if (!s) return 1;
#define HV(x) do { long v_ = (long)(x); h = fnv(h, &v_, sizeof v_); } while (0)
  HV(s->width); HV(s->height); HV(s->length); HV(s->centerline); HV(s->preserve_width); HV(bits(s->width_weight_factor));
  HV(s->background_color ? colv(*s->background_color) : -1);
  for (i = 0; i < s->length; i++) {
    at_spline_list_type *l = &s->data[i];
    HV(l->length); HV(l->clockwise); HV(l->open); HV(colv(l->color));
    for (j = 0; j < l->length; j++) {
      at_spline_type *q = &l->data[j];
      HV(q->degree);
      for (k = 0; k < 4; k++) if (q->degree == AT_CUBICTYPE || k == 0 || k == 3) { HV(bits(q->v[k].x)); HV(bits(q->v[k].y)); if (s->preserve_width) HV(bits(q->v[k].z)); }
    }
  }
  return h;
}
static void out_hash(uint64_t h) { out("[%ld,%ld,%ld]", (long)(h >> 43), (long)(h >> 22 & 0x1fffff), (long)(h & 0x3fffff)); }

#include "modes.inc"

void run_case(char *line)
{
  char *p = line, *m = tok(&p);
  unsigned k;
  if (!m) { out("{}"); return; }
  for (k = 0; k < sizeof modes / sizeof *modes; k++)
    if (!strcmp(m, modes[k].name)) { modes[k].fn(p); return; }
  fprintf(stderr, "unknown mode %s\n", m);
  _exit(77);
}
