/* Runs of NEWUOA, evaluation by evaluation.
   run MODE N NPT RHOBEG RHOEND MAXFUN X... kind SEED
   run MODE N NPT RHOBEG RHOEND MAXFUN X... table K F*K      (answers, the last one being repeated)
   MODE: 0 reverse communication, 1 newuoa, 2 newuoa_optimize minimizing, 3 newuoa_optimize maximizing the opposite */
#include <math.h>
#include "hcommon.h"
#include "newuoa.h"
static FILE* J;
#define MAXN 4
static unsigned long long R;
static double ru(double lo, double hi) { R ^= R << 13; R ^= R >> 7; R ^= R << 17; return lo + (hi - lo)*((double)((R*0x2545F4914F6CDD1DULL) >> 24)/(double)(1ULL << 40)); }
static int n, kind, mode; static double P[64], tab[400]; static int ntab, calls; static double rho;
static double fn(const double* x)
{
  int i; double f = 0;
  if (kind < 0) return tab[calls < ntab ? calls : ntab - 1];
  switch (kind % 8) {
  case 0: for (i = 0; i < n; ++i) f += (.2 + P[i+8]*P[i+8])*(x[i] - P[i])*(x[i] - P[i]); for (i = 1; i < n; ++i) f += .3*P[i+16]*(x[i] - P[i])*(x[i-1] - P[i-1]); break;
  case 1: for (i = 0; i < n; ++i) f += (1 + fabs(P[i+8]))*fabs(x[i] - P[i]); break;
  case 2: for (i = 0; i + 1 < n; ++i) { double a = x[i+1] - x[i]*x[i], b = 1 - x[i]; f += 10*a*a + b*b; } break;
  case 3: for (i = 0; i < n; ++i) f += sin(3*x[i] + P[i]) + .1*x[i]*x[i]; break;
  case 4: for (i = 0; i < n; ++i) f += P[i]*x[i]; f = exp(.3*f) + .1*x[0]*x[0] + .2*x[n-1]*x[n-1]*x[n-1]*x[n-1]; for (i = 0; i < n; ++i) f += .03*x[i]*x[i]; break;
  case 5: for (i = 0; i < n; ++i) f += (x[i] - P[i])*(x[i] - P[i])*(x[i] - P[i])*(x[i] - P[i]) + .3*P[i+8]*x[i]; for (i = 1; i < n; ++i) f += .5*P[i+16]*sin(x[i]*x[i-1]); break;
  case 6: f = 10*(x[0] - P[0])*(x[0] - P[0]); for (i = 1; i < n; ++i) f += .05*x[i] + .01*x[i]*x[i] + .1*cos(4*x[i]); break;
  default: for (i = 0; i < n; ++i) f += floor(4*fabs(x[i] - P[i]))/4 + .01*x[i]*x[i]; break;
  }
  return f;
}
static void num(const char* s, double x) { fprintf(J, ",\"%s\":", s); jnum(J, x); }
static void vec(const char* s, const double* x) { fprintf(J, ",\"%s\":", s); jvec(J, x, n); }
static double ask(const double* x)
{
  double f = fn(x); ++calls;
  if (calls > 5000) { fprintf(J, "{\"ev\":\"runaway\"}\n"); fflush(J); exit(3); }
  fprintf(J, "{\"ev\":\"eval\""); if (rho > 0) num("rho", rho); else fprintf(J, ",\"rho\":\"\""); vec("x", x); num("f", f); fprintf(J, "}\n");
  return mode == 3 ? -f : f;
}
static double obj(const opk_index k, const double* x, void* data) { (void)k; (void)data; return ask(x); }
static const char* st(int s) { return s == NEWUOA_SUCCESS ? "SUCCESS" : s == NEWUOA_TOO_MANY_EVALUATIONS ? "TOO_MANY_EVALUATIONS" : s == NEWUOA_STEP_FAILED ? "STEP_FAILED" : s == NEWUOA_ROUNDING_ERRORS ? "ROUNDING_ERRORS" : "other"; }
int main(void)
{
  char w[64]; static char buf[1<<16]; setvbuf(stdout, buf, _IOFBF, sizeof buf);
  J = stdout;
  while (scanf("%60s", w) == 1) {
    double x[MAXN], f, rb, re; int npt, maxfun, i, s; static double work[4000];
    if (strcmp(w, "run") || scanf("%d %d %d %lf %lf %d", &mode, &n, &npt, &rb, &re, &maxfun) != 6 || n > MAXN) return 4;
    for (i = 0; i < n; ++i) if (scanf("%lf", &x[i]) != 1) return 4;
    if (scanf("%60s", w) != 1) return 4;
    calls = 0; rho = 0;
    if (!strcmp(w, "table")) {
      kind = -1; if (scanf("%d", &ntab) != 1 || ntab > 400 || ntab < 1) return 4;
      for (i = 0; i < ntab; ++i) if (scanf("%lf", &tab[i]) != 1) return 4;
    } else {
      unsigned long seed; kind = atoi(w); if (scanf("%lu", &seed) != 1) return 4;
      R = seed*2654435761ULL + 88172645463325252ULL; for (i = 0; i < 20; ++i) ru(0, 1);
      for (i = 0; i < 64; ++i) P[i] = ru(-1, 1);
    }
    fprintf(J, "{\"ev\":\"start\",\"n\":%d,\"npt\":%d,\"maxfun\":%d", n, npt, maxfun); num("rhobeg", rb); num("rhoend", re); vec("x", x); fprintf(J, "}\n");
    if (mode == 0) {
      newuoa_context* ctx = newuoa_create(n, npt, rb, re, 0, maxfun);
      if (ctx == NULL) { fprintf(J, "{\"ev\":\"refused\"}\n"); continue; }
      s = newuoa_get_status(ctx);
      while (s == NEWUOA_ITERATE) { f = ask(x); s = newuoa_iterate(ctx, f, x); rho = newuoa_get_rho(ctx); }
      newuoa_delete(ctx);
    } else if (mode == 1) s = newuoa(n, npt, obj, NULL, x, rb, re, 0, maxfun, work);
    else s = newuoa_optimize(n, npt, mode == 3, obj, NULL, x, NULL, rb, re, 0, maxfun, work);
    fprintf(J, "{\"ev\":\"end\",\"status\":\"%s\"", st(s)); vec("x", x); if (rho > 0) num("rho", rho); else fprintf(J, ",\"rho\":\"\""); fprintf(J, "}\n"); fflush(J);
  }
  return 0;
}
