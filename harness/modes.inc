/* outline W H NP PX BG: the raw outlines of a bitmap */
static void m_outline(char *p)
{
  at_bitmap *b = tokbm(&p), *s;
  at_color bg;
  int has = tokcolor(&p, &bg);
  at_exception_type exp = at_exception_new(on_msg, &cookie);
  pixel_outline_list_type l;
  out("{\"w\":%d,\"h\":%d,\"px\":", b->width, b->height);
  out_px(b);
  out(",\"bg\":%d,\"loops\":", has ? colv(bg) : -1);
  s = stretched(b);
  st_height = s->height;
  l = find_outline_pixels(s, has ? &bg : NULL, NULL, NULL, NULL, NULL, &exp);
  out_outlines(&l);
  out(",\"after\":");
  out_px(unstretched(s, b->width, b->height));
  out(",\"msgs\":%d}", n_fatal + n_warn);
}


/* centerline W H NP PX BG THIN: raw centre lines, optionally after thinning */
static void m_centerline(char *p)
{
  at_bitmap *b = tokbm(&p), *s;
  at_color bg = { 255, 255, 255 };
  int has = tokcolor(&p, &bg), thin = (int)tokl(&p);
  at_exception_type exp = at_exception_new(on_msg, &cookie);
  pixel_outline_list_type l;
  if (thin) thin_image(b, has ? &bg : NULL, &exp);
  out("{\"w\":%d,\"h\":%d,\"px\":", b->width, b->height);
  out_px(b);
  out(",\"bg\":%d,\"loops\":", colv(bg));
  s = stretched(b);
  st_height = s->height;
  st_pixels = 1;
  l = find_centerline_pixels(s, bg, NULL, NULL, NULL, NULL, &exp);
  out_outlines(&l);
  out(",\"after\":");
  out_px(unstretched(s, b->width, b->height));
  out(",\"msgs\":%d}", n_fatal + n_warn);
}

/* thin W H NP PX BG: result, and result of thinning again */
static void m_thin(char *p)
{
  at_bitmap *b = tokbm(&p);
  at_color bg;
  int has = tokcolor(&p, &bg);
  at_exception_type exp = at_exception_new(on_msg, &cookie);
  out("{\"w\":%d,\"h\":%d,\"np\":%d,\"px\":", b->width, b->height, b->np);
  out_px(b);
  out(",\"bg\":%d,\"out\":", has ? colv(bg) : 0xffffff);
  thin_image(b, has ? &bg : NULL, &exp);
  out_px(b);
  out(",\"again\":");
  thin_image(b, has ? &bg : NULL, &exp);
  out_px(b);
  out(",\"size\":[%d,%d,%d],\"msgs\":%d}", b->width, b->height, b->np, n_fatal + n_warn);
}

/* despeckle W H NP PX LEVEL TIGHTNESS NOISE */
static void m_despeckle(char *p)
{
  at_bitmap *b = tokbm(&p), *s;
  long level = tokl(&p), t = tokl(&p), n = tokl(&p);   /* hundredths */
  at_exception_type exp = at_exception_new(on_msg, &cookie);
  out("{\"w\":%d,\"h\":%d,\"np\":%d,\"px\":", b->width, b->height, b->np);
  out_px(b);
  s = stretched(b);
  despeckle(s, (int)level, (float)(t / 100.0), (float)(n / 100.0), &exp);
  b = unstretched(s, b->width, b->height);
  out(",\"level\":%ld,\"tight\":%ld,\"noise\":%ld,\"out\":", level, t, n);
  out_px(b);
  out(",\"size\":[%d,%d,%d],\"msgs\":%d}", b->width, b->height, b->np, n_fatal + n_warn);
}

/* winding W H NP LEVEL: one line that winds through the whole bitmap, despeckled */
static void m_winding(char *p)
{
  long w = tokl(&p), h = tokl(&p), np = tokl(&p), level = tokl(&p), x, y, changed = 0;
  at_bitmap *b = at_bitmap_new(w, h, np), *c;
  at_exception_type exp = at_exception_new(on_msg, &cookie);
  memset(b->bitmap, 200, w * h * np);
  for (x = 0; x < w; x++)
    for (y = 0; y < h; y++)
      if (x % 2 == 0 || y == (x % 4 == 1 ? h - 1 : 0)) memset(b->bitmap + (y * w + x) * np, 10, np);
  c = at_bitmap_copy(b);
  despeckle(b, (int)level, 0, 1, &exp);
  for (x = 0; x < w * h * np; x++) changed += b->bitmap[x] != c->bitmap[x];
  out("{\"w\":%ld,\"h\":%ld,\"np\":%ld,\"level\":%ld,\"changed\":%ld,\"msgs\":%d}", w, h, np, level, changed, n_fatal + n_warn);
}

/* quantize W H NP PX N BG */
static void m_quantize(char *p)
{
  at_bitmap *b = tokbm(&p);
  long n = tokl(&p);
  at_color bg;
  int has = tokcolor(&p, &bg);
  QuantizeObj *q = NULL;
  at_exception_type exp = at_exception_new(on_msg, &cookie);
  out("{\"w\":%d,\"h\":%d,\"np\":%d,\"px\":", b->width, b->height, b->np);
  out_px(b);
  mem_start();
  quantize(b, n, has ? &bg : NULL, &q, &exp);
  out(",\"n\":%ld,\"bg\":%d,\"out\":", n, has ? colv(bg) : -1);
  out_px(b);
  if (q) quantize_object_free(q);
  out(",\"live\":%ld,\"size\":[%d,%d,%d],\"msgs\":%d}", mem_live(), b->width, b->height, b->np, n_fatal + n_warn);
}

/* dist W H NP PX PADDED: distance to white, in 1/(255*1000) */
static void m_dist(char *p)
{
  at_bitmap *b = tokbm(&p);
  long pad = tokl(&p);
  unsigned x, y;
  at_exception_type exp = at_exception_new(on_msg, &cookie);
  at_distance_map d;
  out("{\"w\":%d,\"h\":%d,\"np\":%d,\"px\":", b->width, b->height, b->np);
  out_px(b);
  mem_start();
  d = new_distance_map(b, 255, pad != 0, &exp);
  out(",\"pad\":%s,\"dw\":%u,\"dh\":%u,\"d\":[", pad ? "true" : "false", d.width, d.height);
  for (y = 0; y < d.height; y++)
    for (x = 0; x < d.width; x++)
      out("%s%ld", x + y ? "," : "", d.d[y][x] > 8000 ? 2000000000L : lrint((double)d.d[y][x] * 255000.0));
  free_distance_map(&d);
  out("],\"live\":%ld,\"after\":", mem_live());
  out_px(b);
  out("}");
}

/* trace W H NP PX OPTS CANCEL STICKY LOOPS: everything a caller of the tracer sees.
   CANCEL: 0 no callbacks, -1 callbacks that never cancel, k>0 cancel at the k-th question.
   LOOPS: also extract the raw outlines of an equally preprocessed copy */
static void m_trace(char *p)
{
  at_bitmap *b = tokbm(&p), *c = at_bitmap_copy(b);
  char *o = tok(&p);
  long can = tokl(&p), k;
  at_fitting_opts_type *opts, before;
  at_splines_type *s;
  at_color obg;
  int loops, has;
  sticky = (int)tokl(&p);
  loops = (int)tokl(&p);
  opts = at_fitting_opts_new();
  if (strcmp(o, "-")) setopt(opts, o);
  before = *opts;
  has = opts->background_color != NULL;
  if (has) obg = *opts->background_color;
  cancel_at = can;
  out("{\"w\":%d,\"h\":%d,\"np\":%d,\"px\":", b->width, b->height, b->np);
  out_px(b);
  out(",\"bg\":%d,\"cl\":%s,\"pw\":%s,\"et\":%ld,\"cancel\":%ld", has ? colv(obg) : -1, opts->centerline ? "true" : "false",
      opts->preserve_width ? "true" : "false", lrintf(opts->error_threshold * 256), can);
  if (loops) {
    at_exception_type exp = at_exception_new(NULL, NULL);
    pixel_outline_list_type l;
    at_color white = { 255, 255, 255 };
    QuantizeObj *q = NULL;
    if (opts->despeckle_level > 0) despeckle(c, (int)opts->despeckle_level, opts->despeckle_tightness, opts->noise_removal, &exp);
    if (opts->color_count > 0) { quantize(c, opts->color_count, opts->background_color, &q, &exp); if (q) quantize_object_free(q); }
    if (opts->centerline) {
      thin_image(c, opts->background_color, &exp);
      l = find_centerline_pixels(c, has ? obg : white, NULL, NULL, NULL, NULL, &exp);
    } else
      l = find_outline_pixels(c, opts->background_color, NULL, NULL, NULL, NULL, &exp);
    out(",\"loops\":");
    out_outlines(&l);
    free_pixel_outline_list(&l);
  }
  mem_start();
  s = at_splines_new_full(b, opts, on_msg, &cookie, can ? on_progress : NULL, can ? &cookie : NULL, can ? on_cancel : NULL, can ? &cookie : NULL);
  out(",\"null\":%s", s ? "false" : "true");
  out(",\"optsame\":%s", before.background_color == opts->background_color && (!has || at_color_equal(&obg, opts->background_color)) && !memcmp(&before.charcode, &opts->charcode, sizeof before - ((char *)&before.charcode - (char *)&before)) ? "true" : "false");
  if (s) { out(",\"res\":"); out_splines(s); out(",\"hash\":"); out_hash(splines_hash(s)); at_splines_free(s); }
  out(",\"live\":%ld,\"total\":%ld", mem_live(), mem_total());
  mem_stop();
  out(",\"fatal\":%d,\"warn\":%d,\"badargs\":%ld,\"nprog\":%ld,\"ntest\":%ld,\"after\":%ld,\"cancelled\":%s,\"prog\":[", n_fatal, n_warn, prog_bad + msg_cookie_bad, n_prog, n_test, n_after, cancelled ? "true" : "false");
  for (k = 0; k < n_prog && k < 20000; k++) out("%s%ld", k ? "," : "", prog[k]);
  out("]}");
}

/* stages W H NP PX OPTS IDLE: OPTS with despeckle settings in hundredths last */
static at_splines_type *staged(at_bitmap *b, at_fitting_opts_type *o, int upto)
{
  at_fitting_opts_type q = *o;
  if (upto < 3) q.centerline = q.preserve_width = false;
  if (upto < 2) q.color_count = 0;
  return at_splines_new_full(b, &q, on_msg, &cookie, NULL, NULL, NULL, NULL);
}
static void m_stages(char *p)
{
  at_bitmap *b = tokbm(&p), *c[3], *d;
  char *a = tok(&p), *idle = tok(&p);
  at_fitting_opts_type *opts = at_fitting_opts_new(), *o2 = at_fitting_opts_new();
  at_splines_type *s;
  int k, null = 0;
  uint64_t h[3], g;
  char *a2 = strdup(a);
  setopt(opts, a);
  setopt(o2, a2);
  if (strcmp(idle, "-")) setopt(o2, idle);
  out("{\"w\":%d,\"h\":%d,\"np\":%d,\"px\":", b->width, b->height, b->np);
  out_px(b);
  out(",\"bg\":%d,\"cl\":%s,\"level\":%u,\"n\":%u,\"tight\":%ld,\"noise\":%ld", opts->background_color ? colv(*opts->background_color) : -1,
      opts->centerline ? "true" : "false", opts->despeckle_level, opts->color_count, lrintf(opts->despeckle_tightness * 100), lrintf(opts->noise_removal * 100));
  for (k = 0; k < 3; k++) {
    c[k] = at_bitmap_copy(b);
    s = staged(c[k], opts, k + 1);
    null += !s;
    h[k] = splines_hash(s);
    out(",\"%s\":", k == 0 ? "spk" : k == 1 ? "red" : "fin");
    out_px(c[k]);
  }
  out(",\"hash\":");
  out_hash(h[2]);
  for (k = 0; k < 2; k++) {
    at_fitting_opts_type q = *opts;
    q.despeckle_level = 0;
    if (k) q.color_count = 0;
    d = at_bitmap_copy(c[k]);
    s = staged(d, &q, 3);
    out(k ? ",\"hred\":" : ",\"hspk\":");
    out_hash(splines_hash(s));
  }
  s = staged(b, o2, 3);
  g = splines_hash(s);
  out(",\"idle\":");
  out_hash(g);
  out(",\"null\":%s,\"msgs\":%d}", null ? "true" : "false", n_fatal + n_warn);
}

/* cancel W H NP PX OPTS STEP: trace without callbacks, with callbacks that never
   cancel, then cancelling at every STEP-th question (once, and for good), then without again */
static void m_cancel(char *p)
{
  at_bitmap *b = tokbm(&p), *c;
  char *o = tok(&p);
  long step = tokl(&p), k, questions = 0, from, run;
  at_fitting_opts_type *opts = at_fitting_opts_new();
  at_splines_type *s;
  if (strcmp(o, "-")) setopt(opts, o);
  out("{\"w\":%d,\"h\":%d,\"np\":%d,\"cl\":%s,\"runs\":[", b->width, b->height, b->np, opts->centerline ? "true" : "false");
  for (run = 0, k = -1, from = 1; ; run++) {
    long i, drops = 0, ones = 0;
    n_prog = n_test = n_after = prog_bad = 0;
    n_fatal = n_warn = 0;
    cancelled = 0;
    sticky = run & 1;
    c = at_bitmap_copy(b);
    cancel_at = run == 0 ? 0 : run == 1 ? -1 : k;
    mem_start();
    s = at_splines_new_full(c, opts, on_msg, &cookie, cancel_at ? on_progress : NULL, cancel_at ? &cookie : NULL, cancel_at ? on_cancel : NULL, cancel_at ? &cookie : NULL);
    out("%s{\"at\":%ld,\"null\":%s,\"lists\":%ld,\"hash\":", run ? "," : "", cancel_at, s ? "false" : "true", s ? (long)s->length : -1L);
    out_hash(splines_hash(s));
    if (s) at_splines_free(s);
    for (i = 0; i < n_prog && i < 20000; i++) {
      drops += i && prog[i] < prog[i - 1];
      ones += prog[i] == 1000000;
    }
    out(",\"live\":%ld,\"yes\":%s,\"asked\":%ld,\"drops\":%ld,\"ones\":%ld,\"last\":%ld,\"nprog\":%ld,\"bad\":%ld,\"fatal\":%d,\"warn\":%d}", mem_live(),
        cancelled ? "true" : "false", n_test, drops, ones, n_prog ? prog[(n_prog < 20000 ? n_prog : 20000) - 1] : -1L, n_prog, prog_bad + msg_cookie_bad, n_fatal, n_warn);
    mem_stop();
    at_bitmap_free(c);
    if (run == 1) questions = n_test, k = from;
    else if (run > 1) { if (cancel_at == 0) break; if (sticky) k += step; }
    if (run >= 1 && k > questions) { k = 0; }
    if (run > 1 && k == 0 && cancel_at == 0) break;
  }
  out("]}");
}

static const struct { const char *name; void (*fn)(char *); } modes[] = {
  { "outline", m_outline },
  { "centerline", m_centerline },
  { "thin", m_thin },
  { "despeckle", m_despeckle },
  { "quantize", m_quantize },
  { "dist", m_dist },
  { "trace", m_trace },
  { "cancel", m_cancel },
  { "winding", m_winding },
  { "stages", m_stages },
};
