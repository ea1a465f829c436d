/* The trust region subproblem (gqtpar.c). */
#define _GNU_SOURCE 1
#include "hcommon.h"
#include "optimpack.h"
#include "optimpack-linalg.h"
#define MAXN 10
#define LDA 13
#define PAD 777.25
static int n, lda, single;
static double A[MAXN][MAXN], b[MAXN], xs[MAXN], pars, lmin, delta, Q[MAXN][MAXN], lam[MAXN];
static double rnd(double v) { return single ? (double)(float)v : v; }
static double nrm(const double* x) { double s = 0; int i; for (i = 0; i < n; ++i) s += x[i]*x[i]; return sqrt(s); }
static void jm(const char* name, double a[MAXN][MAXN])
{
  int i;
  printf(",\"%s\":[", name);
  for (i = 0; i < n; ++i) { if (i) putchar(','); jvec(stdout, a[i], n); }
  putchar(']');
}
/* A = Q.diag(lam).Q' */
static void build(int dyadic)
{
  int i, j, k;
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) Q[i][j] = i == j;
  if (!dyadic) for (k = 0; k < 3*n && n > 1; ++k) {
    int u = (int)hint(0, n - 1), v = (int)hint(0, n - 1); double t = hunif(0, 6.28), c = cos(t), s = sin(t);
    if (u == v) continue;
    for (i = 0; i < n; ++i) { double p = Q[i][u], q = Q[i][v]; Q[i][u] = c*p - s*q; Q[i][v] = s*p + c*q; }
  }
  for (i = 0; i < n; ++i) for (j = 0; j <= i; ++j) {
    double s = 0; for (k = 0; k < n; ++k) s += Q[i][k]*lam[k]*Q[j][k];
    A[i][j] = A[j][i] = rnd(s);
  }
}
static void problem(int kind, double scale)
{
  double y[MAXN]; int i, j, k0 = 0, dyadic = hint(0, 4) == 0;
  for (i = 0; i < n; ++i) { lam[i] = hunif(.2, 4)*(hint(0, 3) ? 1 : .1); y[i] = hunif(-1, 1); }
  switch (kind) {
  case 2: case 3: case 4: case 8: for (i = 0; i < n; ++i) if (i == 0 || hint(0, 1)) lam[i] = -lam[i]; break;
  case 6: for (i = 0; i < n; ++i) lam[i] = 0; break;
  case 7: lam[0] = 0; if (n > 2 && hint(0, 1)) lam[1] = 0; break;
  case 9: for (i = 0; i < n; ++i) lam[i] *= pow(10, hunif(-5, 0)); break;
  }
  if (dyadic) for (i = 0; i < n; ++i) { lam[i] = rint(lam[i]*4)/4; y[i] = rint(y[i]*8)/8; }
  for (i = 0; i < n; ++i) { lam[i] *= scale; if (lam[i] < lam[k0]) k0 = i; }
  lmin = lam[k0];
  pars = 0;
  if (kind == 1 || kind == 7 || kind == 9) pars = hunif(.01, 3)*scale;
  if (kind == 6) pars = scale;
  if (kind == 2) pars = -lmin + hunif(.01, 3)*scale;
  if (kind == 8) pars = -lmin + pow(10, -hunif(1, single ? 3 : 8))*scale;
  if (kind == 3 || kind == 4) pars = lmin < 0 ? -lmin : 0;
  if (pars < -lmin) pars = -lmin;
  build(dyadic);
  for (i = 0; i < n; ++i) { xs[i] = 0; for (j = 0; j < n; ++j) xs[i] += Q[i][j]*(kind == 4 ? (j == k0 ? 1.0 : 0.0) : y[j]); }
  if (kind == 5) for (i = 0; i < n; ++i) xs[i] = 0;
  /* b = -(A + par).xs, in the basis of the eigenvectors (singular directions are exact) */
  for (i = 0; i < n; ++i) {
    double s = 0; for (j = 0; j < n; ++j) s -= Q[i][j]*(lam[j] + pars)*(kind == 5 ? 0 : kind == 4 ? (j == k0 ? 1.0 : 0.0) : y[j]);
    b[i] = rnd(kind == 4 ? 0 : s);
  }
  delta = nrm(xs);
  if (kind == 0 || kind == 5 || delta == 0) delta = hunif(1.01, 4)*(delta == 0 ? 1 : delta);
  delta = rnd(delta);
}
static void run(double rtol, double atol, long itmax, double par0, int nulls)
{
  static double a[LDA*MAXN + 8], x[MAXN + 4], z[MAXN + 4], w1[MAXN + 4], w2[MAXN + 4], bb[MAXN + 4];
  static float fa[LDA*MAXN + 8], fx[MAXN + 4], fz[MAXN + 4], fw1[MAXN + 4], fw2[MAXN + 4], fb[MAXN + 4];
  double par = par0, f = PAD, ao[MAXN][MAXN], xo[MAXN]; float fpar = (float)par0, ff = (float)PAD; opk_index iter = -77; int i, j, info, intact = 1;
  for (i = 0; i < LDA*MAXN + 8; ++i) { a[i] = PAD; fa[i] = (float)PAD; }
  for (i = 0; i < MAXN + 4; ++i) { x[i] = z[i] = w1[i] = w2[i] = bb[i] = PAD; fx[i] = fz[i] = fw1[i] = fw2[i] = fb[i] = (float)PAD; }
  for (i = 0; i < n; ++i) { bb[i] = b[i]; fb[i] = (float)b[i]; for (j = i; j < n; ++j) { a[i + lda*j] = A[i][j]; fa[i + lda*j] = (float)A[i][j]; } }
  if (single) {
    info = opk_sgqt(n, fa, lda, fb, (float)delta, (float)rtol, (float)atol, itmax, nulls & 1 ? NULL : &fpar, nulls & 2 ? NULL : &ff, fx, nulls & 4 ? NULL : &iter, fz, fw1, fw2);
    par = fpar; f = ff;
    for (i = 0; i < n; ++i) { bb[i] = fb[i]; xo[i] = fx[i]; for (j = 0; j < n; ++j) ao[i][j] = fa[i + lda*j]; }
  } else {
    info = opk_dgqt(n, a, lda, bb, delta, rtol, atol, itmax, nulls & 1 ? NULL : &par, nulls & 2 ? NULL : &f, x, nulls & 4 ? NULL : &iter, z, w1, w2);
    for (i = 0; i < n; ++i) { xo[i] = x[i]; for (j = 0; j < n; ++j) ao[i][j] = a[i + lda*j]; }
  }
  for (j = 0; j < MAXN; ++j) for (i = j < n ? n : 0; i < lda; ++i) if (i + lda*j < LDA*MAXN && (single ? fa[i + lda*j] != (float)PAD : a[i + lda*j] != PAD)) intact = 0;
  for (i = n; i < MAXN + 4; ++i) if (x[i] != PAD || z[i] != PAD || w1[i] != PAD || w2[i] != PAD || bb[i] != PAD || fx[i] != (float)PAD || fz[i] != (float)PAD || fw1[i] != (float)PAD || fw2[i] != (float)PAD || fb[i] != (float)PAD) intact = 0;
  printf("{\"ev\":\"gqt\",\"single\":%s,\"n\":%d,\"itmax\":%ld", single ? "true" : "false", n, itmax);
  jm("A", A); printf(",\"b\":"); jvec(stdout, b, n);
  printf(",\"delta\":"); jnum(stdout, delta); printf(",\"rtol\":"); jnum(stdout, rnd(rtol)); printf(",\"atol\":"); jnum(stdout, rnd(atol));
  printf(",\"xs\":"); jvec(stdout, xs, n); printf(",\"pars\":"); jnum(stdout, pars); printf(",\"lmin\":"); jnum(stdout, lmin);
  printf(",\"info\":%d,\"iter\":%ld,\"x\":", info, (long)(nulls & 4 ? -1 : iter)); jvec(stdout, xo, n);
  if (nulls & 1) printf(",\"par\":\"none\""); else { printf(",\"par\":"); jnum(stdout, par); }
  if (nulls & 2) printf(",\"f\":\"none\""); else { printf(",\"f\":"); jnum(stdout, f); }
  jm("Aout", ao); printf(",\"bout\":"); jvec(stdout, bb, n); printf(",\"intact\":%s}\n", intact ? "true" : "false");
}
/* smallest singular value of upper triangular matrices */
static void estsv(int kind)
{
  static double r[LDA*MAXN], z[MAXN + 2]; static float fr[LDA*MAXN], fz[MAXN + 2]; double R[MAXN][MAXN], zo[MAXN], s; int i, j, intact = 1;
  for (i = 0; i < LDA*MAXN; ++i) { r[i] = PAD; fr[i] = (float)PAD; }
  for (i = 0; i < MAXN + 2; ++i) { z[i] = PAD; fz[i] = (float)PAD; }
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) R[i][j] = 0;
  for (i = 0; i < n; ++i) for (j = i; j < n; ++j) {
    double v = kind == 2 ? (double)hint(-2, 2) : i == j ? hunif(.1, 2)*(hint(0, 1) ? 1 : -1) : hunif(-1, 1);
    if (kind == 1 && i == j && hint(0, n - 1) == 0) v = hint(0, 1) ? 0 : 1e-6;
    if (kind == 3 && i != j) v = 0;
    R[i][j] = rnd(v); r[i + lda*j] = v; fr[i + lda*j] = (float)v;
  }
  if (single) { s = opk_sestsv(n, fr, lda, fz); for (i = 0; i < n; ++i) zo[i] = fz[i]; }
  else { s = opk_destsv(n, r, lda, z); for (i = 0; i < n; ++i) zo[i] = z[i]; }
  for (i = 0; i < n; ++i) for (j = i; j < n; ++j) if (single ? fr[i + lda*j] != (float)R[i][j] : r[i + lda*j] != R[i][j]) intact = 0;
  for (j = 0; j < n; ++j) for (i = j + 1; i < lda; ++i) if (single ? fr[i + lda*j] != (float)PAD : r[i + lda*j] != PAD) intact = 0;
  for (i = n; i < MAXN + 2; ++i) if (z[i] != PAD || fz[i] != (float)PAD) intact = 0;
  printf("{\"ev\":\"estsv\",\"single\":%s,\"n\":%d", single ? "true" : "false", n); jm("R", R);
  printf(",\"z\":"); jvec(stdout, zo, n); printf(",\"sv\":"); jnum(stdout, s); printf(",\"intact\":%s}\n", intact ? "true" : "false");
}
int main(void)
{
  static char line[4000], w[32];
  while (fgets(line, sizeof(line), stdin)) {
    int kind, dl, nulls, i, j, m, k; double rtol, atol, par0, scale; long itmax, seed;
    if (sscanf(line, "%31s%n", w, &m) != 1) continue;
    if (!strcmp(w, "reset")) { printf("{\"ev\":\"reset\"}\n"); continue; }
    if (!strcmp(w, "gqt")) {
      if (sscanf(line + m, "%d %d %d %d %lf %lf %lf %ld %lf %d %ld", &single, &n, &dl, &kind, &scale, &rtol, &atol, &itmax, &par0, &nulls, &seed) != 11) return 9;
      lda = n + dl; hseed(seed); problem(kind, scale); run(rtol, atol, itmax, par0*scale, nulls);
    } else if (!strcmp(w, "two")) { /* 2x2: a c d b1 b2 delta x1 x2 par lmin */
      double v[10]; char* p = line + m;
      single = (int)strtol(p, &p, 10); for (k = 0; k < 10; ++k) v[k] = strtod(p, &p);
      rtol = strtod(p, &p); itmax = strtol(p, &p, 10); n = 2; lda = 2;
      A[0][0] = v[0]; A[0][1] = A[1][0] = v[1]; A[1][1] = v[2]; b[0] = v[3]; b[1] = v[4]; delta = v[5]; xs[0] = v[6]; xs[1] = v[7]; pars = v[8]; lmin = v[9];
      run(rtol, 0, itmax, 0, 0);
    } else if (!strcmp(w, "estsv")) {
      if (sscanf(line + m, "%d %d %d %d %ld", &single, &n, &dl, &kind, &seed) != 5) return 9;
      lda = n + dl; hseed(seed); estsv(kind);
    } else return 9;
    (void)i; (void)j; fflush(stdout);
  }
  return 0;
}
