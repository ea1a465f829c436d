/* Replays line searches against scripted or computed functions. */
#include "hcommon.h"
#include "optimpack.h"
#include "hstatus.h"
static char* cur;
static long tl(void) { return strtol(cur, &cur, 10); }
static double td(void) { return strtod(cur, &cur); }
static char* tw(void)
{
  char* w;
  while (*cur == ' ') ++cur;
  w = cur;
  while (*cur && *cur != ' ' && *cur != '\n') ++cur;
  if (*cur) *cur++ = 0;
  return w;
}
static void jd(const char* name, double x) { printf(",\"%s\":", name); jnum(stdout, x); }
static void jb(const char* name, int b) { printf(",\"%s\":%s", name, b ? "true" : "false"); }
static opk_lnsrch* ls = NULL;
static double step, F0, G0, ftol;
static void obs(void)
{
  printf(",\"task\":\"%s\",\"status\":\"%s\"", h_lstask(opk_lnsrch_get_task(ls)), h_status(opk_lnsrch_get_status(ls)));
  jd("step", opk_lnsrch_get_step(ls));
  jb("err", opk_lnsrch_has_errors(ls)); jb("warn", opk_lnsrch_has_warnings(ls));
  jb("conv", opk_lnsrch_converged(ls)); jb("fin", opk_lnsrch_finished(ls));
}
static void iterate(double stp, double f, double g)
{
  int ret; double out = stp;
  ret = opk_lnsrch_iterate(ls, &out, f, g);
  printf("{\"ev\":\"iter\""); jd("stp", stp); jd("f", f); jd("g", g); jd("out", out);
  printf(",\"ret\":\"%s\"", h_lstask(ret)); obs(); printf("}\n");
  step = out;
}
/* functions of the step with value F0 and slope G0 at 0 */
static double par[4];
static void func(int id, double t, double* f, double* g)
{
  double a = par[0], b = par[1], c = par[2];
  switch (id) {
  case 0: /* quadratic of minimizer a */
    *f = F0 + G0*(t - t*t/(2*a)); *g = G0*(1 - t/a); return;
  case 1: /* quartic-like */
    *f = F0 + G0*(t - t*t*t*t/(4*a*a*a)); *g = G0*(1 - t*t*t/(a*a*a)); return;
  case 2: /* rational, Moré & Thuente 1: -t/(t^2+b) scaled */
    *f = F0 + G0*t/(1 + t*t/(a*a)); *g = G0*(1 - t*t/(a*a))/((1 + t*t/(a*a))*(1 + t*t/(a*a))); return;
  case 3: /* oscillating */
    *f = F0 + G0*(t - t*t/(2*a)) + c*(1 - cos(b*t)); *g = G0*(1 - t/a) + c*b*sin(b*t); return;
  case 4: /* decreasing for ever */
    *f = F0 + G0*a*log(1 + t/a); *g = G0/(1 + t/a); return;
  case 5: /* absolute value like */
    *f = F0 + G0*(t < a ? t : 2*a - t - (t - a)*b); *g = t < a ? G0 : -G0*(1 + b); return;
  case 6: /* increasing although the slope is negative */
    *f = F0 + a*t; *g = G0*b; return;
  case 7: /* exponential decay with wiggles */
    *f = F0 + G0*a*(1 - exp(-t/a)) + c*(1 - cos(b*t)); *g = G0*exp(-t/a) + c*b*sin(b*t); return;
  }
  *f = *g = 0;
}
int main(void)
{
  static char line[4096]; char* cmd; double f, g;
  setvbuf(stdout, NULL, _IOFBF, 1 << 20);
  while (fgets(line, sizeof line, stdin)) {
    cur = line; cmd = tw();
    if (!*cmd) continue;
    if (!strcmp(cmd, "reset")) { if (ls) OPK_DROP(ls); ls = NULL; printf("{\"ev\":\"reset\"}\n"); }
    else if (!strcmp(cmd, "new")) {
      char* kind = tw(); int e;
      if (ls) OPK_DROP(ls);
      printf("{\"ev\":\"new\",\"kind\":\"%s\",\"p\":[", kind);
      errno = 0;
      if (!strcmp(kind, "backtrack")) { double a = td(), b = td(); ls = opk_lnsrch_new_backtrack(a, b); e = errno; jnum(stdout, a); printf(","); jnum(stdout, b); ftol = a; }
      else if (!strcmp(kind, "nonmonotone")) {
        long m = tl(); double a = td(), b = td(), c = td(); ls = opk_lnsrch_new_nonmonotone(m, a, b, c); e = errno;
        printf("%ld,", m); jnum(stdout, a); printf(","); jnum(stdout, b); printf(","); jnum(stdout, c); ftol = a; }
      else { double a = td(), b = td(), c = td(); ls = opk_lnsrch_new_csrch(a, b, c); e = errno;
        jnum(stdout, a); printf(","); jnum(stdout, b); printf(","); jnum(stdout, c); ftol = a; }
      printf("]"); jb("ok", ls != NULL);
      printf(",\"errno\":\"%s\"", ls ? "" : e == EINVAL ? "EINVAL" : "?");
      if (ls) { jb("deriv", opk_lnsrch_use_deriv(ls)); obs(); }
      printf("}\n");
    } else if (!strcmp(cmd, "start")) {
      double stp, lo, hi; int ret;
      F0 = td(); G0 = td(); stp = td(); lo = td(); hi = td();
      ret = opk_lnsrch_start(ls, F0, G0, stp, lo, hi); step = stp;
      printf("{\"ev\":\"start\""); jd("f0", F0); jd("g0", G0); jd("stp", stp); jd("lo", lo); jd("hi", hi);
      printf(",\"ret\":\"%s\"", h_lstask(ret)); obs(); printf("}\n");
    } else if (!strcmp(cmd, "iter")) { f = td(); g = td(); iterate(step, f, g); }
    else if (!strcmp(cmd, "iterx")) { double s = td(); f = td(); g = td(); iterate(s, f, g); }
    else if (!strcmp(cmd, "func")) {
      /* func id a b c maxiter: until the end of the search */
      int id = tl(), i, k; par[0] = td(); par[1] = td(); par[2] = td(); k = tl();
      for (i = 0; i < k && opk_lnsrch_get_task(ls) == OPK_LNSRCH_SEARCH; ++i) { func(id, step, &f, &g); iterate(step, f, g); }
      if (k >= 1000) { printf("{\"ev\":\"end\""); jb("finished", opk_lnsrch_get_task(ls) != OPK_LNSRCH_SEARCH); printf("}\n"); }
    } else if (!strcmp(cmd, "adv")) {
      /* adversary: seed kind maxiter; random values around the thresholds */
      unsigned long seed = tl(); int kind = tl(), k = tl(), i; double best = F0;
      hseed(seed);
      for (i = 0; i < k && opk_lnsrch_get_task(ls) == OPK_LNSRCH_SEARCH; ++i) {
        double ft = F0 + ftol*step*G0, w = fabs(G0)*(step > 0 ? step : 1);
        switch ((int)hint(0, kind)) {
        case 0: f = ft + w*hunif(0, 2); break;
        case 1: f = best + w*hunif(-.1, .1); break;
        case 2: f = ft - w*hunif(0, .5); break;
        case 3: f = F0 + w*hunif(-1, 1); break;
        default: f = ft + w*hunif(0, 1e-3); break;
        }
        switch ((int)hint(0, 4)) {
        case 0: g = G0*hunif(.9, 3); break;
        case 1: g = -G0*hunif(0.91, 3); break;
        case 2: g = -G0*hunif(.5, .99); break;
        case 3: g = G0*hunif(.3, .99); break;
        default: g = G0*hunif(-4, 4); break;
        }
        if (f < best) best = f;
        iterate(step, f, g);
      }
      if (k >= 1000) { printf("{\"ev\":\"end\""); jb("finished", opk_lnsrch_get_task(ls) != OPK_LNSRCH_SEARCH); printf("}\n"); }
    } else if (!strcmp(cmd, "null")) {
      double s = 1; opk_lnsrch* sv = ls; int a, b, c = -1;
      if (ls) c = opk_lnsrch_iterate(ls, NULL, 0, 0);
      ls = NULL; a = opk_lnsrch_start(NULL, 1, -1, 1, 0, 2); b = opk_lnsrch_iterate(NULL, &s, 1, 1);
      printf("{\"ev\":\"null\",\"start\":%d,\"iter\":%d,\"iter2\":%d", a, b, c); obs(); printf("}\n");
      ls = sv;
    } else if (!strcmp(cmd, "cstep")) {
      double a[7], b[7], lo, hi; int i, br = tl(); opk_bool brk = br; opk_status st;
      for (i = 0; i < 7; ++i) b[i] = a[i] = td();
      f = td(); g = td(); lo = td(); hi = td();
      st = opk_cstep(&b[0], &b[1], &b[2], &b[3], &b[4], &b[5], &b[6], f, g, &brk, lo, hi);
      printf("{\"ev\":\"cstep\",\"a\":"); jvec(stdout, a, 7); printf(",\"b\":"); jvec(stdout, b, 7);
      jd("f", f); jd("g", g); jd("lo", lo); jd("hi", hi); jb("brackt", br); jb("brackt2", brk);
      printf(",\"st\":\"%s\"}\n", h_status(st));
    } else return 3;
    fflush(stdout);
  }
  return 0;
}
