/* io.c: driver for the readers.
   read FMT HEX|!missing|!dir CODE [RAWHEX]
   any  the same, without the bytes and the pixels in the record */
#include "rec.h"
#include "autotrace.h"
#include "bitmap.h"
#include "input.h"
#include <sys/stat.h>

static int n_fatal, n_warn;
static char last_msg[256];
static void on_msg(const char *m, at_msg_type t, void *d)
{
  (void)d;
  if (t == AT_MSG_FATAL) n_fatal++; else n_warn++;
  snprintf(last_msg, sizeof last_msg, "%s", m ? m : "(null)");
}
static int open_fds(void)
{
  int k, n = 0;
  for (k = 0; k < 128; k++) if (fcntl(k, F_GETFD) >= 0) n++;
  return n;
}
/* leave a known value in the stack frames the reader is going to use */
static void __attribute__((noinline)) scribble(int v)
{
  volatile unsigned char a[65536];
  size_t k;
  for (k = 0; k < sizeof a; k++) a[k] = (unsigned char)v;
}

static void read_case(char *p, int full)
{
  char *fmt = tok(&p), *src = tok(&p), *raw, name[64];
  unsigned char *b = NULL, *r;
  size_t n = 0, rn, k, np, size;
  unsigned code;
  at_bitmap_reader *rd;
  at_bitmap *bm, *bm2;
  at_input_opts_type *o;
  int f0, w0, fds, same, live;
  snprintf(name, sizeof name, "case.%s", fmt);
  unlink(name); rmdir(name);
  if (!strcmp(src, "!dir")) mkdir(name, 0700);
  else if (strcmp(src, "!missing")) {
    FILE *f;
    b = tokhex(&src, &n);
    f = fopen(name, "wb");
    if (!f || fwrite(b, 1, n, f) != n || fclose(f)) { fprintf(stderr, "cannot write case file\n"); _exit(77); }
  }
  code = (unsigned)tokl(&p);
  r = tokhex(&p, &rn);
  autotrace_init();
  rd = at_input_get_handler(name);
  if (!rd) { fprintf(stderr, "no reader for %s\n", fmt); _exit(77); }
  fds = open_fds();
  o = at_input_opts_new();
  o->charcode = code;
  n_fatal = n_warn = 0;
  mem_fill = 0xA5; scribble(0xA5);
  mem_start();
  bm = at_bitmap_read(rd, name, o, on_msg, NULL);
  mem_stop();
  f0 = n_fatal; w0 = n_warn;
  out("{\"fmt\":\"%s\",\"code\":%u,\"bytes\":", fmt, code);
  out_bytes(b, full ? n : 0);
  out(",\"raw\":");
  out_bytes(r, full ? rn : 0);
  np = bm->np;
  size = bm->bitmap ? (size_t) bm->width * bm->height : 0;
  out(",\"w\":%d,\"h\":%d,\"np\":%d,\"fatal\":%d,\"warn\":%d,\"null\":%s,\"px\":[", bm->width, bm->height, (int)np, f0, w0, bm->bitmap ? "false" : "true");
  if (full && (size <= 200000 || !f0))
    for (k = 0; k < size; k++) {
      unsigned char *q = bm->bitmap + k * np;
      out(np == 3 ? "%s%d" : "%s%d", k ? "," : "", np == 3 ? q[0] * 65536 + q[1] * 256 + q[2] : q[0] * 65793);
    }
  out("],\"opts\":%s", o->charcode == code && o->background_color == NULL ? "true" : "false");
  /* read again with other garbage around */
  n_fatal = n_warn = 0;
  mem_fill = 0x3C; scribble(0x3C);
  bm2 = at_bitmap_read(rd, name, o, on_msg, NULL);
  same = bm->width == bm2->width && bm->height == bm2->height && bm->np == bm2->np && f0 == n_fatal && w0 == n_warn && !bm->bitmap == !bm2->bitmap
    && (!bm->bitmap || !memcmp(bm->bitmap, bm2->bitmap, size * np));
  at_bitmap_free(bm2);
  /* what one call leaves behind */
  at_bitmap_free(bm);
  mem_start();
  bm = at_bitmap_read(rd, name, o, on_msg, NULL);
  at_bitmap_free(bm);
  live = (int)mem_live();
  mem_stop();
  out(",\"stable\":%s,\"live\":%d,\"fds\":%d,\"msg\":", same ? "true" : "false", live, open_fds() - fds);
  out_str(last_msg);
  out("}");
  unlink(name); rmdir(name);
}

void run_case(char *line)
{
  char *p = line, *m = tok(&p);
  if (m && !strcmp(m, "read")) { read_case(p, 1); return; }
  if (m && !strcmp(m, "any")) { read_case(p, 0); return; }
  fprintf(stderr, "unknown mode\n");
  _exit(77);
}
