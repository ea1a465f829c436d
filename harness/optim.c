/* Drives the multivariate optimizers (NLCG and VMLMB) by reverse communication
   on computed, random or scripted answers and logs every call. */
#include "hcommon.h"
#include "optimpack.h"
#include "hstatus.h"
#define MAXN 16
static char* cur;
static long tl(void) { return strtol(cur, &cur, 10); }
static double td(void) { return strtod(cur, &cur); }
static char* tw(void)
{
  char* w;
  while (*cur == ' ') ++cur;
  w = cur;
  while (*cur && *cur != ' ' && *cur != '\n') ++cur;
  if (*cur) *cur++ = 0;
  return w;
}
static void jd(const char* name, double x) { printf(",\"%s\":", name); jnum(stdout, x); }
static void jb(const char* name, int b) { printf(",\"%s\":%s", name, b ? "true" : "false"); }
static void jl(const char* name, long b) { printf(",\"%s\":%ld", name, b); }

static int alg, isfloat, n;          /* alg: 0 NLCG, 1 VMLMB */
static opk_vspace* space;
static opk_vector *vx, *vg, *vlo, *vup;
static opk_lnsrch* ls;
static opk_convexset* box;
static opk_nlcg* cg;
static opk_vmlmb* vm;
typedef struct { double d[MAXN]; float f[MAXN]; } block;
static block bx, bg, blo, bup;
static double f, x[MAXN], g[MAXN], tmp[MAXN], lo[MAXN], up[MAXN];
static int lokind, upkind;

static void get(block* b, double* out) { int i; for (i = 0; i < n; ++i) out[i] = isfloat ? b->f[i] : b->d[i]; }
static void put(block* b, const double* in) { int i; for (i = 0; i < n; ++i) if (isfloat) b->f[i] = in[i]; else b->d[i] = in[i]; }
static opk_vector* wrap(block* b)
{ return isfloat ? opk_wrap_simple_float_vector(space, b->f, NULL, NULL) : opk_wrap_simple_double_vector(space, b->d, NULL, NULL); }
static void jvecb(const char* name, block* b) { get(b, tmp); printf(",\"%s\":", name); jvec(stdout, tmp, n); }
static void jv(const char* name, const double* v) { printf(",\"%s\":", name); jvec(stdout, v, n); }
static void jopk(opk_vector* v)
{
  long i;
  for (i = 0; i < n; ++i) opk_vpeek(v, i, &tmp[i]);
  jvec(stdout, tmp, n);
}
static opk_task task(void) { return alg ? opk_get_vmlmb_task(vm) : opk_get_nlcg_task(cg); }
static void obs(void)
{
  if (alg == 0) {
    printf(",\"task\":\"%s\",\"status\":\"%s\"", h_task(opk_get_nlcg_task(cg)), h_status(opk_get_nlcg_status(cg)));
    jd("alpha", opk_get_nlcg_step(cg)); jd("gnorm", opk_get_nlcg_gnorm(cg)); jd("beta", opk_get_nlcg_beta(cg));
    jl("evs", opk_get_nlcg_evaluations(cg)); jl("its", opk_get_nlcg_iterations(cg)); jl("rss", opk_get_nlcg_restarts(cg));
  } else {
    long j, mp = opk_get_vmlmb_mp(vm);
    printf(",\"task\":\"%s\",\"status\":\"%s\"", h_task(opk_get_vmlmb_task(vm)), h_status(opk_get_vmlmb_status(vm)));
    jd("alpha", opk_get_vmlmb_step(vm)); jd("gnorm", opk_get_vmlmb_gnorm(vm));
    jl("evs", opk_get_vmlmb_evaluations(vm)); jl("its", opk_get_vmlmb_iterations(vm)); jl("rss", opk_get_vmlmb_restarts(vm));
    jl("mp", mp);
    printf(",\"s\":[");
    for (j = 1; j <= mp && j <= MAXN; ++j) { opk_vector* v = opk_get_vmlmb_s(vm, j); if (j > 1) putchar(','); if (v) jopk(v); else printf("[]"); }
    printf("],\"y\":[");
    for (j = 1; j <= mp && j <= MAXN; ++j) { opk_vector* v = opk_get_vmlmb_y(vm, j); if (j > 1) putchar(','); if (v) jopk(v); else printf("[]"); }
    printf("]");
    jb("more", opk_get_vmlmb_s(vm, mp + 1) != NULL || opk_get_vmlmb_y(vm, mp + 1) != NULL || opk_get_vmlmb_s(vm, -1) != NULL
       || opk_get_vmlmb_y(vm, -1) != NULL || opk_get_vmlmb_s(vm, 0) == NULL || opk_get_vmlmb_y(vm, 0) == NULL);
  }
}
/* one call with the current f and g */
static void iterate(void)
{
  int ret;
  put(&bg, g); get(&bg, g);
  get(&bx, x);
  printf("{\"ev\":\"iter\""); jv("x", x); jd("f", f); jv("g", g);
  ret = alg ? opk_iterate_vmlmb(vm, vx, f, vg) : opk_iterate_nlcg(cg, vx, f, vg);
  jvecb("x2", &bx);
  get(&bg, tmp); jb("gsame", memcmp(tmp, g, n*sizeof(double)) == 0);
  printf(",\"ret\":\"%s\"", h_task(ret)); obs(); printf("}\n");
}
/* ---- objective functions -------------------------------------------------- */
static double par[2*MAXN + 2];
static void setup_problem(int id, unsigned long seed)
{
  int i;
  hseed(seed);
  for (i = 0; i < n; ++i) { par[i] = pow(10, hunif(-1.5, 1.5)); par[MAXN + i] = hunif(-2, 2); }
  par[2*MAXN] = id == 0 ? 0 : hint(0, 2) == 0 ? 0 : hunif(-3, 3);
}
static void compute(int id)
{
  int i; double s = par[2*MAXN];
  get(&bx, x);
  for (i = 0; i < n; ++i) g[i] = 0;
  switch (id) {
  case 0: /* quadratic, separable, with scaling */
  case 1: /* and another one with coupling and an offset */
    for (i = 0; i < n; ++i) { double t = x[i] - par[MAXN + i]; s += .5*par[i]*t*t; g[i] += par[i]*t; }
    if (id == 1) for (i = 0; i + 1 < n; ++i) { double t = x[i] + x[i+1]; s += .5*t*t; g[i] += t; g[i+1] += t; }
    break;
  case 2: /* Rosenbrock */
    for (i = 0; i + 1 < n; ++i) {
      double a = x[i+1] - x[i]*x[i], b = 1 - x[i];
      s += 100*a*a + b*b; g[i] += -400*a*x[i] - 2*b; g[i+1] += 200*a;
    }
    break;
  case 3: /* log cosh: long straight slopes */
    for (i = 0; i < n; ++i) { double t = x[i] - par[MAXN + i]; s += par[i]*log(cosh(t)); g[i] += par[i]*tanh(t); }
    break;
  case 4: /* quartic with couplings, non convex */
    for (i = 0; i < n; ++i) { double t = x[i]; s += t*t*t*t/4 - t*t/2*par[i] + par[MAXN + i]*t; g[i] += t*t*t - t*par[i] + par[MAXN + i]; }
    for (i = 0; i + 1 < n; ++i) { s += .3*x[i]*x[i+1]; g[i] += .3*x[i+1]; g[i+1] += .3*x[i]; }
    break;
  case 5: /* wavy */
    for (i = 0; i < n; ++i) { double t = x[i] - par[MAXN + i]; s += .05*t*t + 1 - cos(par[i]*t/4); g[i] += .1*t + par[i]/4*sin(par[i]*t/4); }
    break;
  case 6: /* linear */
    for (i = 0; i < n; ++i) { s += par[MAXN + i]*x[i]; g[i] += par[MAXN + i]; }
    break;
  case 7: /* flat direction */
    for (i = 0; i < n; i += 2) { double t = x[i] - par[MAXN + i]; s += .5*par[i]*t*t; g[i] += par[i]*t; }
    break;
  }
  f = s;
}
/* an adversary: arbitrary answers around the thresholds */
static double af0, ag0[MAXN], ax0[MAXN];
static int toofar(void)
{
  int i;
  get(&bx, x);
  for (i = 0; i < n; ++i) if (!(fabs(x[i]) <= (isfloat ? 1e9 : 1e20))) return 1;
  return 0;
}
static void adversary(int kind)
{
  int i; double w = 0, slope = 0;
  get(&bx, x);
  if ((alg ? opk_get_vmlmb_evaluations(vm) : opk_get_nlcg_evaluations(cg)) == 0) {
    af0 = hunif(-2, 2); memcpy(ax0, x, sizeof x);
    for (i = 0; i < n; ++i) ag0[i] = hunif(-2, 2);
  }
  if (task() == OPK_TASK_COMPUTE_FG) {
    for (i = 0; i < n; ++i) { slope += (x[i] - ax0[i])*ag0[i]; }
    w = fabs(slope) + 1e-3;
    switch ((int)hint(0, kind)) {
    case 0: f = af0 + 1e-4*slope - hunif(0, 1)*w; break;
    case 1: f = af0 + hunif(0, 2)*w; break;
    case 2: f = af0 + slope*hunif(.3, .7); break;
    default: f = hunif(-3, 3); break;
    }
    if (hint(0, 7) == 0) f = 0;
    for (i = 0; i < n; ++i) g[i] = hint(0, 3) ? hunif(-2, 2) : ag0[i]*hunif(-.9, .9);
    if (hint(0, 9) == 0) for (i = 0; i < n; ++i) g[i] = -ag0[i]*hunif(.5, 1.5);
    if (hint(0, 19) == 0) for (i = 0; i < n; ++i) g[i] = ag0[i];  /* y = 0 */
  }
}
static void finish(void)
{
  if (cg) OPK_DROP(cg); if (vm) OPK_DROP(vm); cg = NULL; vm = NULL;
  if (ls) OPK_DROP(ls); ls = NULL;
  if (box) OPK_DROP(box); box = NULL;
  if (vx) OPK_DROP(vx); if (vg) OPK_DROP(vg); if (vlo) OPK_DROP(vlo); if (vup) OPK_DROP(vup); vx = vg = vlo = vup = NULL;
  if (space) OPK_DROP(space); space = NULL;
}
static int bound(int upper, block* b, opk_vector** v, double* val, opk_bound_type* type, void** p, double* scal)
{
  int k = tl(), i;
  for (i = 0; i < n; ++i) val[i] = upper ? INFINITY : -INFINITY;
  *type = OPK_BOUND_NONE; *p = NULL;
  if (k == 1) { *scal = td(); *type = OPK_BOUND_SCALAR_DOUBLE; *p = scal; for (i = 0; i < n; ++i) val[i] = isfloat ? (float)*scal : *scal; }
  else if (k == 2) { for (i = 0; i < n; ++i) val[i] = td(); put(b, val); get(b, val); *v = wrap(b); *type = OPK_BOUND_VECTOR; *p = *v; }
  return k;
}
int main(void)
{
  static char line[8192]; char* cmd; int i, k;
  setvbuf(stdout, NULL, _IOFBF, 1 << 20);
  while (fgets(line, sizeof line, stdin)) {
    cur = line; cmd = tw();
    if (!*cmd) continue;
    if (!strcmp(cmd, "reset")) { finish(); printf("{\"ev\":\"reset\"}\n"); }
    else if (!strcmp(cmd, "new")) {
      char* w; int e = 0;
      finish();
      alg = !strcmp(tw(), "vmlmb"); isfloat = !strcmp(tw(), "float"); n = tl();
      printf("{\"ev\":\"new\",\"alg\":\"%s\",\"float\":%s,\"n\":%d", alg ? "vmlmb" : "nlcg", isfloat ? "true" : "false", n);
      space = isfloat ? opk_new_simple_float_vector_space(n) : opk_new_simple_double_vector_space(n);
      vx = wrap(&bx); vg = wrap(&bg);
      w = tw();
      printf(",\"ls\":{\"kind\":\"%s\",\"p\":[", w);
      if (!strcmp(w, "backtrack")) { double a = td(), b = td(); ls = opk_lnsrch_new_backtrack(a, b); jnum(stdout, a); printf(","); jnum(stdout, b); }
      else if (!strcmp(w, "nonmonotone")) { long m = tl(); double a = td(), b = td(), c = td(); ls = opk_lnsrch_new_nonmonotone(m, a, b, c);
        printf("%ld,", m); jnum(stdout, a); printf(","); jnum(stdout, b); printf(","); jnum(stdout, c); }
      else if (!strcmp(w, "csrch")) { double a = td(), b = td(), c = td(); ls = opk_lnsrch_new_csrch(a, b, c);
        jnum(stdout, a); printf(","); jnum(stdout, b); printf(","); jnum(stdout, c); }
      printf("]}");
      if (alg == 0) {
        opk_nlcg_options o; int rule = tl(), pow = tl(), phua = tl();
        opk_get_nlcg_default_options(&o);
        o.flags = rule | (pow ? OPK_NLCG_POWELL : 0) | (phua ? OPK_NLCG_SHANNO_PHUA : 0);
        o.delta = td(); o.epsilon = td(); o.gatol = td(); o.grtol = td(); o.stpmin = td(); o.stpmax = td();
        o.fmin_given = tl(); o.fmin = td();
        errno = 0; cg = opk_new_nlcg_optimizer(&o, space, ls); e = errno;
        jl("rule", rule); jb("powell", pow); jb("phua", phua); jb("fg", o.fmin_given); jd("fmin", o.fmin);
        jd("delta", o.delta); jd("eps", o.epsilon); jd("gatol", o.gatol); jd("grtol", o.grtol); jd("stpmin", o.stpmin); jd("stpmax", o.stpmax);
      } else {
        opk_vmlmb_options o; opk_bound_type lt, ut; void *lp, *upp; double ls_, us_;
        opk_get_vmlmb_default_options(&o);
        o.mem = tl(); o.blmvm = tl(); o.save_memory = tl();
        o.delta = td(); o.epsilon = td(); o.gatol = td(); o.grtol = td(); o.stpmin = td(); o.stpmax = td();
        k = tl();
        for (i = 0; i < n; ++i) { lo[i] = -INFINITY; up[i] = INFINITY; }
        if (k) {
          lokind = bound(0, &blo, &vlo, lo, &lt, &lp, &ls_); upkind = bound(1, &bup, &vup, up, &ut, &upp, &us_);
          box = opk_new_boxset(space, lt, lp, ut, upp);
        }
        errno = 0; vm = opk_new_vmlmb_optimizer(&o, space, ls, box); e = errno;
        jl("mem", o.mem); jb("blmvm", o.blmvm); jb("save", o.save_memory); jb("bounded", k); jb("open", k && lokind == 0 && upkind == 0); jv("lo", lo); jv("up", up);
        jd("delta", o.delta); jd("eps", o.epsilon); jd("gatol", o.gatol); jd("grtol", o.grtol); jd("stpmin", o.stpmin); jd("stpmax", o.stpmax);
      }
      jb("ok", alg ? vm != NULL : cg != NULL);
      printf(",\"errno\":\"%s\"", (alg ? vm != NULL : cg != NULL) ? "" : e == EINVAL ? "EINVAL" : e == EFAULT ? "EFAULT" : "?");
      if (alg ? vm != NULL : cg != NULL) {
        obs();
        if (alg) printf(",\"method\":\"%s\"", opk_get_vmlmb_method(vm) == OPK_LBFGS ? "LBFGS" : opk_get_vmlmb_method(vm) == OPK_VMLMB ? "VMLMB" : opk_get_vmlmb_method(vm) == OPK_BLMVM ? "BLMVM" : "?");
      }
      printf("}\n");
    } else if (!strcmp(cmd, "start")) {
      int ret;
      for (i = 0; i < n; ++i) x[i] = td();
      put(&bx, x); get(&bx, x);
      printf("{\"ev\":\"start\""); jv("x", x);
      ret = alg ? opk_start_vmlmb(vm, vx) : opk_start_nlcg(cg, vx);
      jvecb("x2", &bx);
      printf(",\"ret\":\"%s\"", h_task(ret)); obs(); printf("}\n");
    } else if (!strcmp(cmd, "ans")) {
      /* the client answers when it has been asked for, or out of turn */
      if (task() == OPK_TASK_COMPUTE_FG || task() == OPK_TASK_ERROR) { f = td(); for (i = 0; i < n; ++i) g[i] = td(); }
      iterate();
    } else if (!strcmp(cmd, "again")) { iterate(); }
    else if (!strcmp(cmd, "run")) {
      /* run problem seed maxcalls maxfinal */
      int id = tl(); unsigned long seed = tl(); int calls = tl(), finals = tl();
      setup_problem(id, seed);
      while (calls-- > 0) {
        opk_task t = task();
        if (toofar()) break;
        if (t == OPK_TASK_COMPUTE_FG) compute(id);
        else if (t == OPK_TASK_FINAL_X) { if (finals-- <= 0) break; }
        else if (t != OPK_TASK_NEW_X) break;
        iterate();
      }
    } else if (!strcmp(cmd, "adv")) {
      /* adv kind seed maxcalls */
      int kind = tl(); unsigned long seed = tl(); int calls = tl();
      hseed(seed);
      while (calls-- > 0) {
        opk_task t = task();
        if (t == OPK_TASK_ERROR || toofar()) break;
        if (t == OPK_TASK_COMPUTE_FG) adversary(kind);
        else { af0 = f; memcpy(ag0, g, sizeof g); get(&bx, ax0); }
        iterate();
      }
    } else return 3;
    fflush(stdout);
  }
  finish();
  return 0;
}
