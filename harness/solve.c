/* Runs the high level driver on problems with a known solution until it ends. */
#include "hcommon.h"
#include "optimpack.h"
#include "hstatus.h"
#define MAXN 32
static char* cur;
static long tl(void) { return strtol(cur, &cur, 10); }
static double td(void) { return strtod(cur, &cur); }
static void jd(const char* name, double x) { printf(",\"%s\":", name); jnum(stdout, x); }
static void jv(const char* name, const double* v, int n) { printf(",\"%s\":", name); jvec(stdout, v, n); }
/* f(x) = sum_i lam_i x_i + a_i t_i^2/2 + coup (t_i + t_{i+1})^2/2 + quart t_i^4/4 with t = x - c */
static int n; static double a[MAXN], c[MAXN], lam[MAXN], coup, quart, g[MAXN];
static double fg(const double* x)
{
  int i; double s = 0, t[MAXN];
  for (i = 0; i < n; ++i) t[i] = x[i] - c[i];
  for (i = 0; i < n; ++i) {
    s += lam[i]*t[i] + .5*a[i]*t[i]*t[i] + .25*quart*t[i]*t[i]*t[i]*t[i];
    g[i] = lam[i] + a[i]*t[i] + quart*t[i]*t[i]*t[i];
  }
  for (i = 0; i + 1 < n; ++i) { double u = coup*(t[i] + t[i+1]); s += .5*u*(t[i] + t[i+1]); g[i] += u; g[i+1] += u; }
  return s;
}
int main(void)
{
  static char line[16384];
  setvbuf(stdout, NULL, _IOFBF, 1 << 20);
  while (fgets(line, sizeof line, stdin)) {
    int i, alg, isfloat, lsk, lok, upk, lt, ut; long budget, evs = 0, k; double p1, p2, p3, f = 0, x[MAXN], lo[MAXN], up[MAXN], x0[MAXN];
    float xf[MAXN], gf[MAXN], lof[MAXN], upf[MAXN]; opk_nlcg_options on; opk_vmlmb_options ov; opk_lnsrch* ls = NULL; opk_optimizer* opt; opk_task task; int feasible = 1;
    long m; void *lp, *upp; double fs[4096]; int nfs = 0, ncalls = 0; long itmax = 0;
    if (strncmp(line, "solve ", 6)) { printf("{\"ev\":\"reset\"}\n"); continue; }
    cur = line + 6;
    alg = tl(); isfloat = tl(); n = tl(); budget = tl();
    opk_get_nlcg_default_options(&on); opk_get_vmlmb_default_options(&ov);
    on.flags = tl(); ov.mem = tl(); ov.blmvm = tl(); ov.save_memory = tl();
    on.epsilon = ov.epsilon = td(); on.gatol = ov.gatol = td(); on.grtol = ov.grtol = td(); on.delta = ov.delta = td();
    lsk = tl(); m = tl(); p1 = td(); p2 = td(); p3 = td();
    if (lsk == 1) ls = opk_lnsrch_new_backtrack(p1, p2);
    else if (lsk == 2) ls = opk_lnsrch_new_nonmonotone(m, p1, p2, p3);
    else if (lsk == 3) ls = opk_lnsrch_new_csrch(p1, p2, p3);
    coup = td(); quart = td(); lok = tl(); upk = tl();
    for (i = 0; i < n; ++i) x0[i] = td();
    for (i = 0; i < n; ++i) c[i] = td();
    for (i = 0; i < n; ++i) a[i] = td();
    for (i = 0; i < n; ++i) lam[i] = td();
    for (i = 0; i < n; ++i) { lo[i] = td(); lof[i] = lo[i]; }
    for (i = 0; i < n; ++i) { up[i] = td(); upf[i] = up[i]; }
    lt = lok == 0 ? OPK_BOUND_NONE : isfloat ? OPK_BOUND_STATIC_FLOAT : OPK_BOUND_STATIC_DOUBLE; lp = lok == 0 ? NULL : isfloat ? (void*)lof : (void*)lo;
    ut = upk == 0 ? OPK_BOUND_NONE : isfloat ? OPK_BOUND_STATIC_FLOAT : OPK_BOUND_STATIC_DOUBLE; upp = upk == 0 ? NULL : isfloat ? (void*)upf : (void*)up;
    opt = opk_new_optimizer(alg ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, alg ? (void*)&ov : (void*)&on, isfloat ? OPK_FLOAT : OPK_DOUBLE, n, lt, lp, ut, upp, ls);
    for (i = 0; i < n; ++i) { x[i] = x0[i]; xf[i] = x0[i]; }
    if (opt == NULL) { printf("{\"ev\":\"solve\",\"ok\":false}\n"); if (ls) OPK_DROP(ls); continue; }
    task = opk_start(opt, isfloat ? (void*)xf : (void*)x);
    while (task == OPK_TASK_COMPUTE_FG || task == OPK_TASK_NEW_X) {
      if (isfloat) for (i = 0; i < n; ++i) x[i] = xf[i];
      if (task == OPK_TASK_COMPUTE_FG) {
        if (evs >= budget) break;
        for (i = 0; i < n; ++i) if (!(x[i] >= lo[i] && x[i] <= up[i])) feasible = 0;
        f = fg(x); ++evs;
        if (isfloat) for (i = 0; i < n; ++i) gf[i] = g[i];
      } else if (nfs < 4096) fs[nfs++] = f;
      if (++ncalls > 4*budget + 10) break;
      task = opk_iterate(opt, isfloat ? (void*)xf : (void*)x, f, isfloat ? (void*)gf : (void*)g);
    }
    if (isfloat) for (i = 0; i < n; ++i) x[i] = xf[i];
    if (task == OPK_TASK_FINAL_X) fs[nfs++] = f;
    k = opk_get_iterations(opt);
    printf("{\"ev\":\"solve\",\"ok\":true,\"alg\":\"%s\",\"float\":%s,\"n\":%d,\"ls\":%d,\"m\":%ld", alg ? "vmlmb" : "nlcg", isfloat ? "true" : "false", n, lsk, m);
    jd("gatol", on.gatol); jd("grtol", on.grtol); jd("coup", coup); jd("quart", quart);
    jv("x0", x0, n); jv("c", c, n); jv("a", a, n); jv("lam", lam, n); jv("lo", lo, n); jv("up", up, n);
    printf(",\"task\":\"%s\",\"status\":\"%s\",\"evs\":%ld,\"its\":%ld,\"nev\":%ld,\"feasible\":%s,\"bounded\":%s,\"budget\":%ld", h_task(task), h_status(opk_get_status(opt)), evs, k, (long)opk_get_evaluations(opt), feasible ? "true" : "false", lok || upk ? "true" : "false", budget);
    jv("x", x, n); jv("fs", fs, nfs);
    printf("}\n");
    opk_destroy_optimizer(opt);
    if (ls) OPK_DROP(ls);
    (void)itmax;
    fflush(stdout);
  }
  return 0;
}
