/* Linear conjugate gradients with reverse communication: the client. */
#define _GNU_SOURCE 1
#include "hcommon.h"
#include "optimpack-linalg.h"
#define MAXN 12
#define G 4
typedef struct { double v[MAXN + 2*G]; } dbuf_t;
typedef struct { float v[MAXN + 2*G]; } sbuf_t;
static int algo, single, pre, alias, n;
static double A[MAXN][MAXN], M[MAXN][MAXN], b[MAXN], x0[MAXN], delta;
static dbuf_t dp, dq, dr, dx, dz; static sbuf_t sp, sq, sr, sx, sz;
static double drho[5 + 2]; static float srho[5 + 2];
static opk_cg_state state;
static const double GUARD = 1234.5;
static void guard(void)
{
  dbuf_t* D[5] = {&dp,&dq,&dr,&dx,&dz}; sbuf_t* S[5] = {&sp,&sq,&sr,&sx,&sz}; int i, k;
  for (k = 0; k < 5; ++k) for (i = 0; i < MAXN + 2*G; ++i) { D[k]->v[i] = GUARD; S[k]->v[i] = (float)GUARD; }
  for (i = 0; i < 7; ++i) { drho[i] = GUARD; srho[i] = (float)GUARD; }
}
static int intact(void)
{
  dbuf_t* D[5] = {&dp,&dq,&dr,&dx,&dz}; sbuf_t* S[5] = {&sp,&sq,&sr,&sx,&sz}; int i, k, m = algo == 2 ? 5 : 4;
  for (k = 0; k < 5; ++k) for (i = 0; i < MAXN + 2*G; ++i) if (i < G || i >= G + n)
    if (D[k]->v[i] != GUARD || S[k]->v[i] != (float)GUARD) return 0;
  for (i = m; i < 7; ++i) if (drho[i] != GUARD || srho[i] != (float)GUARD) return 0;
  return 1;
}
static double get(const dbuf_t* d, const sbuf_t* s, int i) { return single ? (double)s->v[G + i] : d->v[G + i]; }
static void put(dbuf_t* d, sbuf_t* s, int i, double v) { if (single) s->v[G + i] = (float)v; else d->v[G + i] = v; }
static double rnd(double v) { return single ? (double)(float)v : v; }
static void out(const char* name, const dbuf_t* d, const sbuf_t* s)
{
  double t[MAXN]; int i;
  for (i = 0; i < n; ++i) t[i] = get(d, s, i);
  printf(",\"%s\":", name); jvec(stdout, t, n);
}
static void outm(const char* name, double a[MAXN][MAXN])
{
  int i;
  printf(",\"%s\":[", name);
  for (i = 0; i < n; ++i) { if (i) putchar(','); jvec(stdout, a[i], n); }
  putchar(']');
}
static void all(void)
{
  double t[5]; int i, m = algo == 2 ? 5 : 4;
  out("p", &dp, &sp); out("q", &dq, &sq); out("r", &dr, &sr); out("x", &dx, &sx);
  if (pre) { if (alias) out("z", &dq, &sq); else out("z", &dz, &sz); } else printf(",\"z\":[]");
  for (i = 0; i < m; ++i) t[i] = single ? (double)srho[i] : drho[i];
  printf(",\"rho\":"); jvec(stdout, t, m);
  printf(",\"st\":%d,\"intact\":%s", (int)state, intact() ? "true" : "false");
}
/* symmetric matrices of a kind, condition number less than about 30 */
static void matrix(double a[MAXN][MAXN], int kind, double scale)
{
  int i, j, k; double Q[MAXN][MAXN], lam[MAXN];
  for (i = 0; i < n; ++i) {
    double l = kind == 5 ? 1 : ldexp(1, (int)hint(-2, 2));
    switch (kind) {
    case 1: if (i == 0 || hint(0, 2) == 0) l = -l; break;       /* indefinite */
    case 2: l = -l; break;                                     /* negative */
    case 3: if (i == 0 || hint(0, 2) == 0) l = 0; break;        /* semi-definite */
    case 4: l = 0; break;                                      /* null */
    case 6: l = pow(10, hunif(-4, 4)); break;                   /* ill-conditioned */
    case 7: l = hint(1, 4)*(hint(0, 3) ? 1 : -1); break;        /* small integers */
    }
    lam[i] = l*scale;
  }
  if (kind == 7 || kind == 5) { /* dyadic */
    for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) a[i][j] = i == j ? lam[i] : 0;
    return;
  }
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) Q[i][j] = i == j;
  for (k = 0; k < 2*n && n > 1; ++k) { /* rotations */
    int u = (int)hint(0, n - 1), v = (int)hint(0, n - 1); double t = hunif(0, 6.28), c = cos(t), s = sin(t);
    if (u == v) continue;
    for (i = 0; i < n; ++i) { double p = Q[i][u], q = Q[i][v]; Q[i][u] = c*p - s*q; Q[i][v] = s*p + c*q; }
  }
  for (i = 0; i < n; ++i) for (j = 0; j <= i; ++j) {
    double s = 0; for (k = 0; k < n; ++k) s += Q[i][k]*lam[k]*Q[j][k];
    a[i][j] = a[j][i] = rnd(s);
  }
}
static void call(void)
{
  if (single) {
    float* z = pre ? (alias ? sq.v + G : sz.v + G) : NULL;
    if (algo == 0) opk_slcg(n, sp.v + G, sq.v + G, sr.v + G, sx.v + G, srho, &state);
    else if (algo == 1) opk_splcg(n, sp.v + G, sq.v + G, sr.v + G, sx.v + G, z, srho, &state);
    else opk_strcg(n, sp.v + G, sq.v + G, sr.v + G, sx.v + G, z, (float)delta, srho, &state);
  } else {
    double* z = pre ? (alias ? dq.v + G : dz.v + G) : NULL;
    if (algo == 0) opk_dlcg(n, dp.v + G, dq.v + G, dr.v + G, dx.v + G, drho, &state);
    else if (algo == 1) opk_dplcg(n, dp.v + G, dq.v + G, dr.v + G, dx.v + G, z, drho, &state);
    else opk_dtrcg(n, dp.v + G, dq.v + G, dr.v + G, dx.v + G, z, delta, drho, &state);
  }
}
static void product(double a[MAXN][MAXN], const dbuf_t* du, const sbuf_t* su, dbuf_t* dv, sbuf_t* sv)
{
  double t[MAXN]; int i, j;
  for (i = 0; i < n; ++i) { t[i] = 0; for (j = 0; j < n; ++j) t[i] += a[i][j]*get(du, su, j); }
  for (i = 0; i < n; ++i) put(dv, sv, i, t[i]);
}
static void duties(void)
{
  if (state == OPK_CG_AP) product(A, &dp, &sp, &dq, &sq);
  else if (state == OPK_CG_PRECOND && pre) product(M, &dr, &sr, alias ? &dq : &dz, alias ? &sq : &sz);
}
int main(void)
{
  static char line[1000], w[32]; int i;
  while (fgets(line, sizeof(line), stdin)) {
    char* c = line;
    if (sscanf(c, "%31s", w) != 1) continue;
    if (!strcmp(w, "reset")) { printf("{\"ev\":\"reset\"}\n"); continue; }
    if (!strcmp(w, "problem")) {
      int ka, km, kb; double sa, sb, dl; long seed;
      if (sscanf(c, "%*s %d %d %d %d %d %d %d %d %lf %lf %lf %ld", &algo, &single, &n, &pre, &alias, &ka, &km, &kb, &sa, &sb, &dl, &seed) != 12) return 9;
      hseed(seed); guard();
      matrix(A, ka, sa); matrix(M, km, 1);
      for (i = 0; i < n; ++i) { b[i] = rnd(sb*(ka == 7 || ka == 5 ? (double)hint(-3, 3) : hunif(-1, 1))); x0[i] = rnd(ka == 7 || ka == 5 ? (double)hint(-2, 2) : hunif(-2, 2)); }
      if (kb == 1) for (i = 0; i < n; ++i) b[i] = 0;
      if (kb == 2) for (i = 0; i < n; ++i) x0[i] = 0;
      if (kb == 3) for (i = 0; i < n; ++i) { int j; b[i] = 0; for (j = 0; j < n; ++j) b[i] += A[i][j]*x0[j]; b[i] = rnd(b[i]); }
      delta = rnd(dl);
      if (kb == 4) { double s = 0; for (i = 0; i < n; ++i) s += x0[i]*x0[i]; if (s > 0) delta = rnd(sqrt(s)); }
      state = 99;
      printf("{\"ev\":\"problem\",\"algo\":%d,\"single\":%s,\"n\":%d,\"pre\":%s,\"alias\":%s,\"spd\":%s", algo, single ? "true" : "false", n, pre ? "true" : "false", alias ? "true" : "false",
             (ka == 0 || ka == 5) && (km == 0 || km == 5 || !pre) ? "true" : "false");
      printf(",\"delta\":"); jnum(stdout, delta); outm("A", A); outm("M", M);
      printf(",\"b\":"); jvec(stdout, b, n);
    } else if (!strcmp(w, "begin")) {
      int how; sscanf(c, "%*s %d", &how);
      for (i = 0; i < n; ++i) { put(&dr, &sr, i, b[i]); put(&dx, &sx, i, x0[i]); }
      state = how;
      printf("{\"ev\":\"begin\"");
    } else if (!strcmp(w, "again")) {
      for (i = 0; i < n; ++i) put(&dr, &sr, i, b[i]);
      state = OPK_CG_RESTART;
      printf("{\"ev\":\"begin\"");
    } else if (!strcmp(w, "stage")) {
      int s; sscanf(c, "%*s %d", &s); state = s;
      printf("{\"ev\":\"stage\"");
    } else if (!strcmp(w, "radius")) { /* a call with a wrong radius */
      double d, save = delta; sscanf(c, "%*s %lf", &d); delta = rnd(d); call(); delta = save;
      printf("{\"ev\":\"radius\"");
    } else if (!strcmp(w, "scale")) { /* another radius (before a restart) */
      double s; sscanf(c, "%*s %lf", &s); delta = rnd(delta*s);
      printf("{\"ev\":\"newradius\",\"delta\":"); jnum(stdout, delta);
    } else if (!strcmp(w, "call")) {
      int k, m; sscanf(c, "%*s %d", &m);
      for (k = 0; k < m; ++k) {
        int st0 = state;
        if (st0 == OPK_CG_NEWX || st0 == OPK_CG_PRECOND) { /* solved: squares would underflow */
          double s = 0; for (i = 0; i < n; ++i) s += get(&dr, &sr, i)*get(&dr, &sr, i);
          if (s > 0 && s < (single ? 1e-26 : 1e-200)) { k = m; break; }
        }
        duties();
        printf("{\"ev\":\"duties\""); all(); printf("}\n");
        call();
        if (k < m - 1) {
          printf("{\"ev\":\"call\",\"st0\":%d", st0); all(); printf("}\n");
          if (st0 == (int)state) break;
        } else { printf("{\"ev\":\"call\",\"st0\":%d", st0); break; }
      }
      if (k < m - 1) continue;
    } else return 9;
    all(); printf("}\n"); fflush(stdout);
  }
  return 0;
}
