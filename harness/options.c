/* Options, names and descriptions of the optimizers, and the utility
   functions on strings, statuses and constants. */
#include "hcommon.h"
#include "optimpack.h"
#include "hstatus.h"
static char* cur;
static long tl(void) { return strtol(cur, &cur, 10); }
static double td(void) { return strtod(cur, &cur); }
static char* tw(void)
{
  char* w;
  while (*cur == ' ') ++cur;
  w = cur;
  while (*cur && *cur != ' ' && *cur != '\n') ++cur;
  if (*cur) *cur++ = 0;
  return w;
}
static void jd(const char* name, double x) { printf(",\"%s\":", name); jnum(stdout, x); }
static void jl(const char* name, long b) { printf(",\"%s\":%ld", name, b); }
static void js(const char* name, const char* s) { printf(",\"%s\":", name); jstr(stdout, s); }
static const char* eno(int e) { return e == 0 ? "" : e == EINVAL ? "EINVAL" : e == EFAULT ? "EFAULT" : e == ENOMEM ? "ENOMEM" : "?"; }

/* ---- writing into a buffer of the client ------------------------------------ */
#define PAD 32
#define BIG 400
static unsigned char area[PAD + BIG + PAD];
static size_t describe(int what, int size, char* buf, void* opt);
static long nent;
/* Announces `size' bytes; logs what was returned, the text (up to its end or
   the size) and whether the rest of the memory was left alone. */
static void probe(int what, int size, int null, void* opt)
{
  size_t r; int i, len, ok = 1, term = 0;
  memset(area, 0xEE, sizeof area);
  r = describe(what, size, null ? NULL : (char*)area + PAD, opt);
  for (len = 0; len < size; ++len) if (area[PAD + len] == 0) { term = 1; break; }
  for (i = 0; i < PAD; ++i) if (area[i] != 0xEE) ok = 0;
  for (i = PAD + (null ? 0 : size); i < (int)sizeof area; ++i) if (area[i] != 0xEE) ok = 0;
  printf("%s{\"size\":%d,\"null\":%s,\"ret\":%ld,\"term\":%s,\"guard\":%s,\"buf\":", nent++ ? "," : "",
         size, null ? "true" : "false", (long)r, term ? "true" : "false", ok ? "true" : "false");
  if (term && !null) { char tmp[BIG + 1]; memcpy(tmp, area + PAD, len + 1); jstr(stdout, tmp); } else printf("\"\"");
  printf("}");
}
static const char* src;
enum { COPY, NLCG_NAME, NLCG_DESC, VMLMB_DESC, DRV_NAME, DRV_DESC };
static size_t describe(int what, int size, char* buf, void* opt)
{
  switch (what) {
  case COPY: return opk_copy_string(buf, size, src);
  case NLCG_NAME: return opk_get_nlcg_name(buf, size, opt);
  case NLCG_DESC: return opk_get_nlcg_description(buf, size, opt);
  case VMLMB_DESC: return opk_get_vmlmb_description(buf, size, opt);
  case DRV_NAME: return opk_get_name(buf, size, opt);
  default: return opk_get_description(buf, size, opt);
  }
}
static void probes(const char* name, int what, void* opt)
{
  int s; long full = (long)describe(what, 0, NULL, opt);
  printf(",\"%s\":[", name); nent = 0;
  if (full < 0 || full > BIG - 8) full = BIG - 8;
  for (s = 0; s <= full + 3; ++s) probe(what, s, 0, opt);
  probe(what, 0, 1, opt);
  printf("]");
}

/* ---- two optimizers side by side ---------------------------------------------- */
#define N 3
static int same(const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; }
static int samed(double a, double b) { return a == b || (a != a && b != b); }
typedef struct { int alg; opk_nlcg* cg; opk_vmlmb* vm; } any;
static any mk(int alg, const void* opts, opk_vspace* sp, opk_convexset* box)
{
  any a; memset(&a, 0, sizeof a); a.alg = alg;
  if (alg) a.vm = opk_new_vmlmb_optimizer(opts, sp, NULL, box); else a.cg = opk_new_nlcg_optimizer(opts, sp, NULL);
  return a;
}
static void twin(int alg, int isfloat, int bounded, int kind, unsigned long seed)
{
  opk_vspace* sp = isfloat ? opk_new_simple_float_vector_space(N) : opk_new_simple_double_vector_space(N);
  opk_vector *x1 = opk_vcreate(sp), *x2 = opk_vcreate(sp), *g1 = opk_vcreate(sp), *g2 = opk_vcreate(sp);
  double lo = -1, up = .75, x0[N], x[N], y[N], w[N], c[N];
  opk_convexset* box = bounded ? opk_new_boxset(sp, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_SCALAR_DOUBLE, &up) : NULL;
  opk_nlcg_options no; opk_vmlmb_options vo; any a, b; int i, calls = 0, ok = 1, ended = 0;
  opk_get_nlcg_default_options(&no); opk_get_vmlmb_default_options(&vo);
  if (kind == 1) no.flags = 0;          /* the default rule */
  a = mk(alg, alg ? (void*)&vo : (void*)&no, sp, box);
  b = mk(alg, NULL, sp, box);
  hseed(seed);
  for (i = 0; i < N; ++i) { w[i] = hunif(.1, 10); c[i] = hunif(-2, 2); x0[i] = hunif(-2, 2); }
  opk_vimport(x1, x0, OPK_DOUBLE, N); opk_vimport(x2, x0, OPK_DOUBLE, N);
  if ((alg ? a.vm == NULL || b.vm == NULL : a.cg == NULL || b.cg == NULL)) ok = 0;
  else {
    int t1 = alg ? opk_start_vmlmb(a.vm, x1) : opk_start_nlcg(a.cg, x1);
    int t2 = alg ? opk_start_vmlmb(b.vm, x2) : opk_start_nlcg(b.cg, x2);
    while (ok) {
      double f = 0, g[N];
      opk_vexport(x, OPK_DOUBLE, N, x1); opk_vexport(y, OPK_DOUBLE, N, x2);
      if (t1 != t2 || !same(x, y, sizeof x)) ok = 0;
      if (alg) { if (opk_get_vmlmb_evaluations(a.vm) != opk_get_vmlmb_evaluations(b.vm) || opk_get_vmlmb_iterations(a.vm) != opk_get_vmlmb_iterations(b.vm) ||
                     opk_get_vmlmb_restarts(a.vm) != opk_get_vmlmb_restarts(b.vm) || opk_get_vmlmb_status(a.vm) != opk_get_vmlmb_status(b.vm) ||
                     opk_get_vmlmb_mp(a.vm) != opk_get_vmlmb_mp(b.vm) || !samed(opk_get_vmlmb_step(a.vm), opk_get_vmlmb_step(b.vm))) ok = 0; }
      else { if (opk_get_nlcg_evaluations(a.cg) != opk_get_nlcg_evaluations(b.cg) || opk_get_nlcg_iterations(a.cg) != opk_get_nlcg_iterations(b.cg) ||
                 opk_get_nlcg_restarts(a.cg) != opk_get_nlcg_restarts(b.cg) || opk_get_nlcg_status(a.cg) != opk_get_nlcg_status(b.cg) ||
                 !samed(opk_get_nlcg_beta(a.cg), opk_get_nlcg_beta(b.cg)) || !samed(opk_get_nlcg_step(a.cg), opk_get_nlcg_step(b.cg))) ok = 0; }
      if (t1 == OPK_TASK_FINAL_X) ended = 1;
      if (calls >= 150 || (t1 != OPK_TASK_COMPUTE_FG && t1 != OPK_TASK_NEW_X)) break;
      for (i = 0; i < N; ++i) { double t = x[i] - c[i]; f += .5*w[i]*t*t + .1*t*t*t*t; g[i] = w[i]*t + .4*t*t*t; }
      { double t = x[0] - x[N-1]; f += t*t; g[0] += 2*t; g[N-1] -= 2*t; }
      opk_vimport(g1, g, OPK_DOUBLE, N); opk_vimport(g2, g, OPK_DOUBLE, N);
      t1 = alg ? opk_iterate_vmlmb(a.vm, x1, f, g1) : opk_iterate_nlcg(a.cg, x1, f, g1);
      t2 = alg ? opk_iterate_vmlmb(b.vm, x2, f, g2) : opk_iterate_nlcg(b.cg, x2, f, g2);
      ++calls;
    }
  }
  printf("{\"ev\":\"twin\",\"alg\":\"%s\",\"same\":%s,\"calls\":%d,\"ended\":%s}\n", alg ? "vmlmb" : "nlcg", ok ? "true" : "false", calls, ended ? "true" : "false");
  OPK_DROP(a.cg); OPK_DROP(a.vm); OPK_DROP(b.cg); OPK_DROP(b.vm); OPK_DROP(box);
  OPK_DROP(x1); OPK_DROP(x2); OPK_DROP(g1); OPK_DROP(g2); OPK_DROP(sp);
}
static void common(double d, double e, double ga, double gr, double mn, double mx)
{ jd("delta", d); jd("eps", e); jd("gatol", ga); jd("grtol", gr); jd("stpmin", mn); jd("stpmax", mx); }

int main(void)
{
  static char line[4096]; char* cmd;
  setvbuf(stdout, NULL, _IOFBF, 1 << 20);
  while (fgets(line, sizeof line, stdin)) {
    cur = line; cmd = tw();
    if (!*cmd) continue;
    if (!strcmp(cmd, "reset")) printf("{\"ev\":\"reset\"}\n");
    else if (!strcmp(cmd, "defaults")) {
      opk_nlcg_options n; opk_vmlmb_options v;
      opk_get_nlcg_default_options(NULL); opk_get_vmlmb_default_options(NULL);
      memset(&n, 0xA5, sizeof n); memset(&v, 0xA5, sizeof v);
      opk_get_nlcg_default_options(&n); opk_get_vmlmb_default_options(&v);
      printf("{\"ev\":\"defaults\",\"nlcg\":{\"z\":0"); common(n.delta, n.epsilon, n.gatol, n.grtol, n.stpmin, n.stpmax);
      jl("flags", n.flags); jl("fg", n.fmin_given); jd("fmin", n.fmin);
      printf("},\"vmlmb\":{\"z\":0"); common(v.delta, v.epsilon, v.gatol, v.grtol, v.stpmin, v.stpmax);
      jl("mem", v.mem > 1000 ? 1000 : v.mem); jl("blmvm", v.blmvm); jl("save", v.save_memory);
      printf("},\"cn\":\"%s\",\"cv\":\"%s\",\"nn\":\"%s\",\"nv\":\"%s\"}\n", h_status(opk_check_nlcg_options(&n)), h_status(opk_check_vmlmb_options(&v)),
             h_status(opk_check_nlcg_options(NULL)), h_status(opk_check_vmlmb_options(NULL)));
    }
    else if (!strcmp(cmd, "nlcg") || !strcmp(cmd, "vmlmb")) {
      /* nlcg  n driver delta eps gatol grtol stpmin stpmax flags fg fmin
         vmlmb n driver delta eps gatol grtol stpmin stpmax mem blmvm save box(0 none, 1 here, 2 elsewhere)
         n = 0: no space */
      int alg = cmd[0] == 'v', n = tl(), drv = tl(), e; long i; void* made = NULL;
      double d = td(), ep = td(), ga = td(), gr = td(), mn = td(), mx = td();
      opk_nlcg_options no; opk_vmlmb_options vo; int boxk = 0; opk_status st;
      opk_vspace *sp = NULL, *sp2 = NULL; opk_convexset* box = NULL; double lo = -1, up = 1;
      printf("{\"ev\":\"%s\"", cmd); jl("n", n); jl("driver", drv); common(d, ep, ga, gr, mn, mx);
      if (alg) {
        vo.delta = d; vo.epsilon = ep; vo.gatol = ga; vo.grtol = gr; vo.stpmin = mn; vo.stpmax = mx;
        vo.mem = tl(); vo.blmvm = tl(); vo.save_memory = tl(); boxk = tl();
        jl("mem", vo.mem); jl("blmvm", vo.blmvm); jl("box", boxk);
        st = opk_check_vmlmb_options(&vo);
      } else {
        no.delta = d; no.epsilon = ep; no.gatol = ga; no.grtol = gr; no.stpmin = mn; no.stpmax = mx;
        no.flags = tl(); no.fmin_given = tl(); no.fmin = td();
        jl("flags", no.flags); jl("fg", no.fmin_given); jd("fmin", no.fmin);
        st = opk_check_nlcg_options(&no);
      }
      printf(",\"check\":\"%s\"", h_status(st));
      if (drv) {
        errno = 0;
        made = opk_new_optimizer(alg ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, alg ? (void*)&vo : (void*)&no, OPK_DOUBLE, n,
                                 boxk ? OPK_BOUND_SCALAR_DOUBLE : OPK_BOUND_NONE, boxk ? &lo : NULL, boxk ? OPK_BOUND_SCALAR_DOUBLE : OPK_BOUND_NONE, boxk ? &up : NULL, NULL);
        e = errno;
      } else {
        if (n > 0) { sp = opk_new_simple_double_vector_space(n); sp2 = opk_new_simple_double_vector_space(n); }
        if (boxk) box = opk_new_boxset(boxk == 1 ? sp : sp2, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_SCALAR_DOUBLE, &up);
        errno = 0;
        made = alg ? (void*)opk_new_vmlmb_optimizer(&vo, sp, NULL, box) : (void*)opk_new_nlcg_optimizer(&no, sp, NULL);
        e = errno;
      }
      printf(",\"ok\":%s,\"errno\":\"%s\"", made ? "true" : "false", made ? "" : eno(e));
      if (made) {
        if (drv) { probes("name", DRV_NAME, made); probes("desc", DRV_DESC, made); }
        else if (alg) {
          printf(",\"mname\":"); jstr(stdout, opk_get_vmlmb_method_name(made));
          jl("method", opk_get_vmlmb_method(made));
          probes("desc", VMLMB_DESC, made);
        } else { probes("name", NLCG_NAME, made); probes("desc", NLCG_DESC, made); }
      }
      printf("}\n");
      if (drv) { if (made) opk_destroy_optimizer(made); } else { OPK_DROP(made); OPK_DROP(box); OPK_DROP(sp); OPK_DROP(sp2); }
      (void)i;
    }
    else if (!strcmp(cmd, "twin")) { int a = tl(), fl = tl(), b = tl(), k = tl(); twin(a, fl, b, k, tl()); }
    else if (!strcmp(cmd, "copy")) {
      /* copy size dstnull text|- (NULL) */
      int size = tl(), null = tl(); char* t = tw(); size_t n = strlen(t); char* own = NULL;
      if (!strcmp(t, "-")) src = NULL; else { own = malloc(n + 1); memcpy(own, t, n + 1); if (own[0] == '~') own[0] = 0; src = own; }
      printf("{\"ev\":\"copy\""); js("src", src ? src : ""); printf(",\"res\":["); nent = 0;
      probe(COPY, size, null, NULL);
      printf("]");
      if (own) printf(",\"kept\":%s", own[n] == 0 && (t[0] == '~' || !strcmp(own, t)) ? "true" : "false"); else printf(",\"kept\":true");
      printf("}\n"); free(own);
    }
    else if (!strcmp(cmd, "null")) {
      /* queries about no optimizer */
      printf("{\"ev\":\"null\""); probes("name", DRV_NAME, NULL); probes("desc", DRV_DESC, NULL);
      probes("nname", NLCG_NAME, NULL);
      printf("}\n");
    }
    else if (!strcmp(cmd, "reason")) { int k = tl(); printf("{\"ev\":\"reason\",\"code\":%d,\"text\":", k); jstr(stdout, opk_get_reason(k)); printf("}\n"); }
    else if (!strcmp(cmd, "guess")) {
      int k = tl(); int r = opk_guess_status(k);
      printf("{\"ev\":\"guess\",\"code\":\"%s\",\"num\":%d,\"st\":\"%s\",\"ret\":%d}\n", k == 0 ? "0" : eno(k), k, h_status(r), r);
    }
    else if (!strcmp(cmd, "const")) {
      char* w = tw(); long v = -12345; int r;
      if (!strcmp(w, "-")) r = opk_get_integer_constant(NULL, &v);
      else if (!strcmp(w, "~")) r = opk_get_integer_constant("", &v);
      else { r = opk_get_integer_constant(w, &v); if (opk_get_integer_constant(w, NULL) != r) r = -1; }
      printf("{\"ev\":\"const\""); js("name", w); printf(",\"st\":\"%s\",\"val\":%ld}\n", h_status(r), v);
    }
    else return 3;
    fflush(stdout);
  }
  return 0;
}
