/* Histories of format registrations and lookups.
   reg OP...   OP = a|n|s|l (add, by name, by suffix, list)  i|o  [hex text] [k] */
#include "rec.h"
#include "autotrace.h"
#include "private.h"
#include "input.h"
#include "output.h"

typedef void (*fp)(void);
extern at_bitmap input_png_reader(), input_tga_reader(), input_bmp_reader(), input_pnm_reader(), input_gf_reader();
extern int output_eps_writer(), output_p2e_writer(), output_sk_writer(), output_svg_writer(), output_ugs_writer(), output_fig_writer(),
  output_emf_writer(), output_mif_writer(), output_er_writer(), output_dxf12_writer(), output_epd_writer(), output_pdf_writer(), output_cgm_writer(),
  output_dr2d_writer(), output_pov_writer(), output_plt_writer(), output_ild_writer();

#define DUM(k) static at_bitmap din##k(char *f, at_input_opts_type *o, at_msg_func m, void *d, void *u) { return at_bitmap_init(NULL, k, 1, 1); } \
  static int dout##k(FILE *f, char *n, int a, int b, int c, int d, at_output_opts_type *o, at_spline_list_array_type s, at_msg_func m, void *e, void *u) { return k; }
DUM(1) DUM(2) DUM(3) DUM(4)

static struct { const char *name; fp f; } known[] = {
  {"png", (fp) input_png_reader}, {"tga", (fp) input_tga_reader}, {"bmp", (fp) input_bmp_reader}, {"pnm", (fp) input_pnm_reader}, {"gf", (fp) input_gf_reader},
  {"eps", (fp) output_eps_writer}, {"p2e", (fp) output_p2e_writer}, {"sk", (fp) output_sk_writer}, {"svg", (fp) output_svg_writer}, {"ugs", (fp) output_ugs_writer},
  {"fig", (fp) output_fig_writer}, {"emf", (fp) output_emf_writer}, {"mif", (fp) output_mif_writer}, {"er", (fp) output_er_writer}, {"dxf", (fp) output_dxf12_writer},
  {"epd", (fp) output_epd_writer}, {"pdf", (fp) output_pdf_writer}, {"cgm", (fp) output_cgm_writer}, {"dr2d", (fp) output_dr2d_writer}, {"pov", (fp) output_pov_writer},
  {"plt", (fp) output_plt_writer}, {"ild", (fp) output_ild_writer},
  {"d1", (fp) din1}, {"d2", (fp) din2}, {"d3", (fp) din3}, {"d4", (fp) din4}, {"d1", (fp) dout1}, {"d2", (fp) dout2}, {"d3", (fp) dout3}, {"d4", (fp) dout4}, {NULL, NULL}};
static at_input_func dins[] = {din1, din2, din3, din4};
static at_output_func douts[] = {dout1, dout2, dout3, dout4};

static const char *which(fp f)
{
  int k;
  for (k = 0; known[k].name; k++)
    if (known[k].f == f) return known[k].name;
  return "unknown";
}
static char *text(char **p)
{
  size_t n;
  unsigned char *b = tokhex(p, &n);
  char *s = malloc(n + 1);
  memcpy(s, b, n);
  s[n] = 0;
  return s;
}
static void codes(const char *s)
{
  out_bytes((const unsigned char *)s, strlen(s));
}
static void list(int in)
{
  char *buf = NULL, *l;
  size_t n = 0;
  int first = 1;
  FILE *f = open_memstream(&buf, &n);
  if (in) printInputFormatInfo(f);
  else printOutputFormatInfo(f);
  fclose(f);
  out(",\"rows\":[");
  for (l = strtok(buf, "\n"); l; l = strtok(NULL, "\n")) {
    char *sp;
    while (*l == ' ') l++;
    sp = strchr(l, ' ');
    if (sp) *sp++ = 0;
    else sp = "";
    out("%s{\"s\":", first ? "" : ",");
    codes(l);
    out(",\"about\":");
    out_str(sp);
    out("}");
    first = 0;
  }
  out("],\"got\":\"\"");
}
void run_case(char *line)
{
  char *t;
  int first = 1;
  tok(&line);
  autotrace_init();
  out("{\"ops\":[");
  while ((t = tok(&line)) && *t) {
    char op = t[0];
    int in = t[1] == 'i', k, r;
    char *s = op == 'l' ? "" : text(&line), about[40];
    out("%s{\"dir\":\"%s\",\"s\":", first ? "" : ",", in ? "in" : "out");
    first = 0;
    codes(s);
    if (op == 'a') {
      k = (int)tokl(&line);
      sprintf(about, "format %d", k);
      r = in ? (k & 1 ? at_input_add_handler(s, about, dins[k % 4]) : at_input_add_handler_full(s, about, dins[k % 4]))
             : at_output_add_handler(s, about, douts[k % 4]);
      out(",\"op\":\"add\",\"fn\":\"d%d\",\"about\":\"%s\",\"got\":\"%d\"", k % 4 + 1, about, r);
    } else if (op == 'n' || op == 's') {
      fp f = NULL;
      if (in) {
        at_bitmap_reader *r = op == 'n' ? at_input_get_handler(s) : at_input_get_handler_by_suffix(s);
        if (r) f = (fp) r->func;
      } else {
        at_spline_writer *r = op == 'n' ? at_output_get_handler(s) : at_output_get_handler_by_suffix(s);
        if (r) f = (fp) r->func;
      }
      out(",\"op\":\"%s\",\"got\":\"%s\"", op == 'n' ? "name" : "suffix", f ? which(f) : "none");
    } else {
      out(",\"op\":\"list\"");
      list(in);
    }
    out("}");
  }
  out("]}");
}
