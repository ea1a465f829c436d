/* Runs of COBYLA, evaluation by evaluation.
   run N M RHOBEG RHOEND MAXFUN X... kind SEED
   run N M RHOBEG RHOEND MAXFUN X... table K (C... F)*K      (answers, the last ones being repeated) */
#include <math.h>
#include "hcommon.h"
#include "cobyla.h"
static FILE* J;
#define MAXN 4
#define MAXM 6
static unsigned long long R;
static double ru(double lo, double hi) { R ^= R << 13; R ^= R >> 7; R ^= R << 17; return lo + (hi - lo)*((double)((R*0x2545F4914F6CDD1DULL) >> 24)/(double)(1ULL << 40)); }
static int n, m, kind; static double P[64], Q[MAXM][16]; static double tab[400][MAXM + 1]; static int ntab, calls;
static double fc(const double* x, double* c)
{
  int i, k; double f = 0;
  if (kind < 0) { int q = calls < ntab ? calls : ntab - 1; for (k = 0; k < m; ++k) c[k] = tab[q][k]; return tab[q][m]; }
  switch (kind % 8) {
  case 0: for (i = 0; i < n; ++i) f += P[i]*x[i]; break;
  case 1: for (i = 0; i < n; ++i) f += (.2 + P[i+8]*P[i+8])*(x[i] - P[i])*(x[i] - P[i]); for (i = 1; i < n; ++i) f += .3*P[i+16]*(x[i] - P[i])*(x[i-1] - P[i-1]); break;
  case 2: f = 1; break;
  case 3: for (i = 0; i < n; ++i) f += (1 + fabs(P[i+8]))*fabs(x[i] - P[i]); break;
  case 4: for (i = 0; i + 1 < n; ++i) { double a = x[i+1] - x[i]*x[i], b = 1 - x[i]; f += 10*a*a + b*b; } if (n == 1) f = x[0]*x[0]; break;
  case 5: for (i = 0; i < n; ++i) f += sin(3*x[i] + P[i]) + .1*x[i]*x[i]; break;
  case 6: f = 10*(x[0] - P[0])*(x[0] - P[0]); for (i = 1; i < n; ++i) f += .05*x[i]; break;
  default: for (i = 0; i < n; ++i) f += P[i]*x[i]; f = exp(.3*f) + P[9]*x[0]; break;
  }
  for (k = 0; k < m; ++k) {
    const double* q = Q[k]; double v = q[0]; int t = (int)q[1];
    for (i = 0; i < n; ++i) v += q[2 + i]*x[i];
    if (t == 1) for (i = 0; i < n; ++i) v -= .5*(x[i] - q[8 + i])*(x[i] - q[8 + i]);
    if (t == 2) v -= .4*x[0]*x[n-1];
    if (t == 3) v = v*v*v + .1*v;
    c[k] = v;
  }
  return f;
}
static void vec(const char* s, const double* x, int k) { fprintf(J, ",\"%s\":", s); jvec(J, x, k); }
static void num(const char* s, double x) { fprintf(J, ",\"%s\":", s); jnum(J, x); }
static const char* st(int s) { return s == COBYLA_SUCCESS ? "SUCCESS" : s == COBYLA_ITERATE ? "ITERATE" : s == COBYLA_TOO_MANY_EVALUATIONS ? "TOO_MANY_EVALUATIONS" : s == COBYLA_ROUNDING_ERRORS ? "ROUNDING_ERRORS" : "other"; }
int main(void)
{
  char w[64]; static char buf[1<<16]; setvbuf(stdout, buf, _IOFBF, sizeof buf);
  J = stdout;
  while (scanf("%60s", w) == 1) {
    double x[MAXN], c[MAXM], f, rb, re; int maxfun, i, k, s; cobyla_context* ctx; double answer_rho;
    if (strcmp(w, "run") || scanf("%d %d %lf %lf %d", &n, &m, &rb, &re, &maxfun) != 5 || n > MAXN || m > MAXM) return 4;
    for (i = 0; i < n; ++i) if (scanf("%lf", &x[i]) != 1) return 4;
    if (scanf("%60s", w) != 1) return 4;
    calls = 0;
    if (!strcmp(w, "table")) {
      kind = -1; if (scanf("%d", &ntab) != 1 || ntab > 400 || ntab < 1) return 4;
      for (i = 0; i < ntab; ++i) for (k = 0; k <= m; ++k) if (scanf("%lf", &tab[i][k]) != 1) return 4;
    } else {
      unsigned long seed; kind = atoi(w); if (scanf("%lu", &seed) != 1) return 4;
      R = seed*2654435761ULL + 88172645463325252ULL; for (i = 0; i < 20; ++i) ru(0, 1);
      for (i = 0; i < 64; ++i) P[i] = ru(-1, 1);
      for (k = 0; k < m; ++k) { for (i = 0; i < 16; ++i) Q[k][i] = ru(-1, 1); Q[k][0] = ru(-1, 1.5); Q[k][1] = floor(ru(0, kind >= 8 ? 4 : 1)); }
    }
    ctx = cobyla_create(n, m, rb, re, 0, maxfun);
    if (ctx == NULL) { fprintf(J, "{\"ev\":\"refused\"}\n"); continue; }
    fprintf(J, "{\"ev\":\"start\",\"n\":%d,\"m\":%d,\"maxfun\":%d", n, m, maxfun); num("rhobeg", rb); num("rhoend", re); vec("x", x, n); fprintf(J, "}\n");
    s = cobyla_get_status(ctx);
    answer_rho = rb; /* the radius is known once the run has begun */
    while (s == COBYLA_ITERATE) {
      if (calls > 5000) { fprintf(J, "{\"ev\":\"runaway\"}\n"); fflush(J); return 3; }
      f = fc(x, c); ++calls;
      fprintf(J, "{\"ev\":\"eval\""); num("rho", answer_rho); vec("x", x, n); vec("c", c, m); num("f", f); fprintf(J, "}\n");
      s = cobyla_iterate(ctx, f, x, c);
      answer_rho = cobyla_get_rho(ctx);
    }
    fprintf(J, "{\"ev\":\"end\",\"status\":\"%s\"", st(s)); vec("x", x, n); num("rho", answer_rho); fprintf(J, "}\n"); fflush(J);
    cobyla_delete(ctx);
  }
  return 0;
}
