/* Powell's derivative-free optimizers: direct calls and reverse-communication
   workspaces, several at the same time, under the command of a script. */
#define _GNU_SOURCE 1
#define H_TRACK_ALLOC 1
#include "hcommon.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include "cobyla.h"
#include "newuoa.h"
#include "bobyqa.h"
#define MAXN 12
#define MAXM 16
#define SLOTS 6
#define GUARD 8
static FILE* J; /* the trace (the standard output belongs to the library) */
static int sink = -1;
static char* cur;
static long tl(void) { return strtol(cur, &cur, 10); }
static double td(void) { return strtod(cur, &cur); }
static char* tw(void)
{
  char* w;
  while (*cur == ' ') ++cur;
  w = cur;
  while (*cur && *cur != ' ' && *cur != '\n') ++cur;
  if (*cur) *cur++ = 0;
  return w;
}
static void jd(const char* name, double x) { fprintf(J, ",\"%s\":", name); jnum(J, x); }
static void jl(const char* name, long b) { fprintf(J, ",\"%s\":%ld", name, b); }
static void jb(const char* name, int b) { fprintf(J, ",\"%s\":%s", name, b ? "true" : "false"); }
static void ja(const char* name, const double* x, long n) { fprintf(J, ",\"%s\":", name); jvec(J, x, n); }
static void js(const char* name, const char* s) { fprintf(J, ",\"%s\":", name); jstr(J, s); }

/* ---- what the library prints ------------------------------------------- */
static void out_reset(void) { fflush(stdout); if (ftruncate(sink, 0)) {} lseek(sink, 0, SEEK_SET); }
static long out_size(void) { fflush(stdout); return (long)lseek(sink, 0, SEEK_END); }
/* the numbers following "RHO" in the output */
static void out_rhos(void)
{
  long n = out_size(), k, first = 1;
  char* b = (char*)malloc(n + 1);
  lseek(sink, 0, SEEK_SET);
  n = read(sink, b, n); b[n < 0 ? 0 : n] = 0;
  fprintf(J, ",\"rhos\":[");
  for (k = 0; k + 3 < n; ++k) if (!strncmp(b + k, "RHO", 3)) {
    char* p = b + k + 3;
    while (*p && *p != '\n' && !(*p >= '0' && *p <= '9')) ++p;
    if (*p >= '0' && *p <= '9') { if (!first) fputc(',', J); first = 0; jnum(J, strtod(p, &p)); k = p - b; }
  }
  fputc(']', J);
  free(b);
}

/* ---- problems ------------------------------------------------------------ */
typedef struct { /* everything the run is about */
  int solver; long n, m, npt, maxfun, iprint; int maximize, scaling;
  double rhobeg, rhoend, x0[MAXN], scl[MAXN], xl[MAXN], xu[MAXN];
  int kind; long seed; double unit[MAXN];
  /* the problem: f = (x - xs)' H (x - xs)/2 + g'(x - xs) + f0 */
  double xs[MAXN], H[MAXN][MAXN], g[MAXN], A[MAXM][MAXN], b[MAXM], lam[MAXM], f0; long na;
  /* the workspace */
  void* ctx; double x[MAXN], c[MAXM + 1];
  long calls; /* made by the last direct run */
  long of; char rel[16]; /* the run this one repeats */
} slot_t;
static slot_t S[SLOTS];

static double noise(const double* u, long n, long seed)
{
  unsigned long long h = 1469598103934665603ULL ^ (unsigned long long)seed; long i;
  for (i = 0; i < n; ++i) { unsigned long long v; double d = u[i] == 0 ? 0 : u[i]; memcpy(&v, &d, 8); h = (h ^ v)*1099511628211ULL; h ^= h >> 29; }
  return (double)(h % 2000003ULL)/2000003.0;
}
static double quad(const slot_t* s, const double* u)
{
  double f = s->f0; long i, j;
  for (i = 0; i < s->n; ++i) {
    f += s->g[i]*(u[i] - s->xs[i]);
    for (j = 0; j < s->n; ++j) f += .5*(u[i] - s->xs[i])*s->H[i][j]*(u[j] - s->xs[j]);
  }
  return f;
}
/* u: variables in the units of the problem */
static double value(const slot_t* s, const double* u)
{
  double f = 0; long i, n = s->n;
  switch (s->kind) {
  case 0: return quad(s, u);
  case 1: for (i = 0; i + 1 < n; ++i) f += 4*(u[i+1] - u[i]*u[i])*(u[i+1] - u[i]*u[i]) + (1 - u[i])*(1 - u[i]); return n == 1 ? u[0]*u[0] : f;
  case 2: for (i = 0; i < n; ++i) f += (1 + .25*i)*fabs(u[i] - s->xs[i]); return f;
  case 3: for (i = 0; i < n; ++i) f += sin(3*u[i] + s->g[i]) + .1*u[i]*u[i]; return f;
  case 4: return s->f0;
  case 5: return quad(s, u) + .05*noise(u, n, s->seed);
  case 6: return floor(4*quad(s, u));
  case 7: return noise(u, n, s->seed);
  case 8: return 1e120*quad(s, u);
  case 9: return exp(fmin(60, .5*quad(s, u)));
  /* without a minimum, unless bounded */
  case 11: for (i = 0; i < n; ++i) f += ((s->seed >> i) & 1 ? 1 + i : -.5*i - .25)*u[i]; return f;
  case 12: return -quad(s, u);
  /* values which are not numbers, infinite or huge here and there */
  case 13: f = quad(s, u);
    switch (s->seed % 4) {
    case 0: if (noise(u, n, s->seed) > .1) return f; break;
    case 1: if (u[0] < s->xs[0] + .25) return f; break;
    case 2: if (f > s->f0 + .5) return f; break;
    default: if (noise(u, n, s->seed) < .9 && u[0] < s->xs[0]) return f; break; }
    switch (s->seed/4 % 7) { case 0: return NAN; case 1: return HUGE_VAL; case 2: return -HUGE_VAL; case 3: return 1e308; case 4: return -1e308; case 5: return 1e200; default: return -1e155; }
  case 15: return s->f0; /* any point which satisfies the constraints will do */
  case 14: for (i = 0; i + 1 < n; ++i) { double p = 10*u[i], q = 10*u[i+1]; f += 100*(q - p*p)*(q - p*p) + (1 - p)*(1 - p); } return n == 1 ? u[0]*u[0] : f;
  default: for (i = 0; i < n; ++i) f += s->g[i]*u[i]; return f;
  }
}
static void constraints(const slot_t* s, const double* u, double* c)
{
  long i, k;
  for (k = 0; k < s->m; ++k) {
    double r = s->b[k];
    for (i = 0; i < s->n; ++i) r += s->A[k][i]*(u[i] - s->xs[i]);
    if (s->kind != 0 && s->kind != 10 && s->kind != 15 && k%3 == 2) { r = 1; for (i = 0; i < s->n; ++i) r -= (u[i] - s->xs[i])*(u[i] - s->xs[i]); }
    c[k] = r;
  }
}
/* Convex quadratic (or linear) problem whose solution is xs: the first na
   constraints (or bounds) are active there with positive multipliers. */
static void make(slot_t* s, int linear, int slack)
{
  long i, j, k, n = s->n; double L[MAXN][MAXN];
  hseed(s->seed);
  memset(s->H, 0, sizeof s->H); memset(s->g, 0, sizeof s->g); memset(s->lam, 0, sizeof s->lam);
  for (i = 0; i < n; ++i) s->xs[i] = hint(-16, 16)/8.0;
  s->f0 = hint(-20, 20)/4.0;
  if (!linear) {
    for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) L[i][j] = i == j ? 1 + hint(0, 4)/4.0 : (j < i ? hint(-2, 2)/8.0 : 0);
    for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) for (k = 0; k < n; ++k) s->H[i][j] += L[i][k]*L[j][k];
  }
  s->na = 0;
  if (s->solver == 0) {
    long na = linear ? n : (s->m > 0 ? hint(0, s->m < n ? s->m : n) : 0);
    if (slack) na = 0;
    for (k = 0; k < s->m; ++k) {
      for (i = 0; i < n; ++i) s->A[k][i] = k < n ? (i == k ? (hint(0, 1) ? 1 : -1) : hint(-2, 2)/8.0) : hint(-8, 8)/8.0;
      s->b[k] = k < na ? 0 : .5 + hint(0, 8)/8.0;
      if (k < na) { s->lam[k] = .5 + hint(0, 8)/8.0; for (i = 0; i < n; ++i) s->g[i] += s->lam[k]*s->A[k][i]; }
    }
    s->na = na;
  } else if (s->solver == 2) {
    for (i = 0; i < n; ++i) { /* the unit of the bounds is that of the problem */
      int w = hint(0, 3);
      double lo = 1 + hint(0, 16)/8.0, up = 1 + hint(0, 16)/8.0;
      if (w == 0) { s->xl[i] = s->xs[i]; s->xu[i] = s->xs[i] + lo + up; s->g[i] = hint(1, 8)/4.0; ++s->na; }
      else if (w == 1) { s->xu[i] = s->xs[i]; s->xl[i] = s->xs[i] - lo - up; s->g[i] = -hint(1, 8)/4.0; ++s->na; }
      else if (w == 2 && linear) { s->xl[i] = s->xs[i]; s->xu[i] = s->xs[i] + 4; s->g[i] = 1; ++s->na; }
      else { s->xl[i] = s->xs[i] - lo; s->xu[i] = s->xs[i] + up; if (linear) { s->xl[i] = s->xs[i]; s->g[i] = .5; } }
    }
  }
}

/* ---- evaluations ----------------------------------------------------------- */
static slot_t* act; static long nev; static int ev_on = 1;
static long ev_cap;
static double evaluate(slot_t* s, const double* x, double* c)
{
  double u[MAXN], f; long i;
  for (i = 0; i < s->n; ++i) u[i] = x[i]*s->unit[i];
  f = value(s, u);
  if (c) constraints(s, u, c);
  return s->maximize ? -f : f;
}
static double cviol(const slot_t* s, const double* c)
{ double r = 0; long k; for (k = 0; k < s->m; ++k) if (r < -c[k]) r = -c[k]; return r; }
static void runaway(long k) { fprintf(J, "{\"ev\":\"runaway\",\"k\":%ld}\n", k); fflush(J); _exit(3); }
static double cb_cobyla(opk_index n, opk_index m, const double x[], double con[], void* data)
{
  double f, cv, keep[MAXN];
  if (data != act || n != act->n || m != act->m) { fprintf(J, "{\"ev\":\"badcall\"}\n"); fflush(J); _exit(2); }
  if (++nev > ev_cap) runaway(act - S);
  memcpy(keep, x, n*sizeof(double));
  f = evaluate(act, x, con); cv = cviol(act, con);
  if (ev_on) { fprintf(J, "{\"ev\":\"eval\",\"k\":%ld", (long)(act - S)); ja("x", keep, n); jd("f", f); jd("cv", cv); fprintf(J, "}\n"); }
  return f;
}
static double cb_plain(const opk_index n, const double* x, void* data)
{
  double f;
  if (data != act || n != act->n) { fprintf(J, "{\"ev\":\"badcall\"}\n"); fflush(J); _exit(2); }
  if (++nev > ev_cap) runaway(act - S);
  f = evaluate(act, x, NULL);
  if (ev_on) { fprintf(J, "{\"ev\":\"eval\",\"k\":%ld", (long)(act - S)); ja("x", x, n); jd("f", f); jd("cv", 0); fprintf(J, "}\n"); }
  return f;
}
static const char* stname(int solver, int st)
{
  if (solver == 0) switch (st) {
    case COBYLA_ITERATE: return "ITERATE"; case COBYLA_SUCCESS: return "SUCCESS"; case COBYLA_BAD_NVARS: return "BAD_NVARS";
    case COBYLA_BAD_NCONS: return "BAD_NCONS"; case COBYLA_BAD_RHO_RANGE: return "BAD_RHO_RANGE"; case COBYLA_BAD_SCALING: return "BAD_SCALING";
    case COBYLA_ROUNDING_ERRORS: return "ROUNDING_ERRORS"; case COBYLA_TOO_MANY_EVALUATIONS: return "TOO_MANY_EVALUATIONS";
    case COBYLA_BAD_ADDRESS: return "BAD_ADDRESS"; case COBYLA_CORRUPTED: return "CORRUPTED"; default: return "?"; }
  if (solver == 1) switch (st) {
    case NEWUOA_ITERATE: return "ITERATE"; case NEWUOA_SUCCESS: return "SUCCESS"; case NEWUOA_BAD_NVARS: return "BAD_NVARS";
    case NEWUOA_BAD_NPT: return "BAD_NPT"; case NEWUOA_BAD_RHO_RANGE: return "BAD_RHO_RANGE"; case NEWUOA_BAD_SCALING: return "BAD_SCALING";
    case NEWUOA_ROUNDING_ERRORS: return "ROUNDING_ERRORS"; case NEWUOA_TOO_MANY_EVALUATIONS: return "TOO_MANY_EVALUATIONS";
    case NEWUOA_STEP_FAILED: return "STEP_FAILED"; case NEWUOA_BAD_ADDRESS: return "BAD_ADDRESS"; case NEWUOA_CORRUPTED: return "CORRUPTED"; default: return "?"; }
  switch (st) {
    case BOBYQA_SUCCESS: return "SUCCESS"; case BOBYQA_BAD_NVARS: return "BAD_NVARS"; case BOBYQA_BAD_NPT: return "BAD_NPT";
    case BOBYQA_BAD_RHO_RANGE: return "BAD_RHO_RANGE"; case BOBYQA_BAD_SCALING: return "BAD_SCALING"; case BOBYQA_TOO_CLOSE: return "TOO_CLOSE";
    case BOBYQA_ROUNDING_ERRORS: return "ROUNDING_ERRORS"; case BOBYQA_TOO_MANY_EVALUATIONS: return "TOO_MANY_EVALUATIONS";
    case BOBYQA_STEP_FAILED: return "STEP_FAILED"; default: return "?"; }
}
static const char* en(int e) { return e == 0 ? "0" : e == EINVAL ? "EINVAL" : e == ENOMEM ? "ENOMEM" : e == EFAULT ? "EFAULT" : "other"; }

/* ---- commands ---------------------------------------------------------------- */
static const char* SOLVER[] = {"cobyla", "newuoa", "bobyqa"};
static void j_cfg(const slot_t* s)
{
  js("solver", SOLVER[s->solver]); jl("n", s->n); jl("m", s->m); jl("npt", s->npt); jb("maximize", s->maximize);
  ja("scl", s->scl, s->scaling && s->n > 0 ? s->n : 0); jd("rhobeg", s->rhobeg); jd("rhoend", s->rhoend); jl("maxfun", s->maxfun); jl("iprint", s->iprint);
  ja("x0", s->x0, s->n > 0 ? s->n : 0);
  ja("xl", s->xl, s->solver == 2 && s->n > 0 ? s->n : 0); ja("xu", s->xu, s->solver == 2 && s->n > 0 ? s->n : 0);
  jl("of", s->of); js("rel", *s->rel ? s->rel : "none");
  jb("feas", s->kind == 15);
  ja("sol", s->xs, s->kind == 0 || s->kind == 10 ? (s->n > 0 ? s->n : 0) : 0);
}
static int intact(const double* w, long n, const double* p) /* guard zones on both sides */
{
  long i;
  for (i = 0; i < GUARD; ++i) if (w[i] != 12345 || w[GUARD + n + i] != 12345) return 0;
  (void)p;
  return 1;
}
static void direct(long k, int quiet, int plain)
{
  slot_t* s = &S[k]; int st = -99; long i, lw = 0, n = s->n, npt = s->npt, m = s->m, nr = -1;
  double *w, *wg, *xg, *x, sx[MAXN], sl[MAXN], su[MAXN]; opk_index *ig, *iact;
  const double* scl = s->scaling ? s->scl : NULL;
  long an = n < 1 ? 1 : n, am = m < 0 ? 0 : m, ap = npt < 1 ? 1 : npt;
  if (s->solver == 0) lw = an*(3*an + 2*am + 11) + 4*am + 6;
  else if (s->solver == 1) lw = (ap + 13)*(ap + an) + 3*an*(an + 3)/2;
  else lw = (ap + 5)*(ap + an) + 3*an*(an + 5)/2;
  if (scl) lw += s->solver == 2 ? 3*an : an;
  wg = (double*)malloc((lw + 2*GUARD)*sizeof(double)); w = wg + GUARD;
  xg = (double*)malloc((an + 2*GUARD)*sizeof(double)); x = xg + GUARD;
  ig = (opk_index*)malloc((am + 1 + 2*GUARD)*sizeof(opk_index)); iact = ig + GUARD;
  for (i = 0; i < lw + 2*GUARD; ++i) wg[i] = i < GUARD || i >= lw + GUARD ? 12345 : hunif(-1e3, 1e3);
  for (i = 0; i < an + 2*GUARD; ++i) xg[i] = 12345;
  for (i = 0; i < am + 1 + 2*GUARD; ++i) ig[i] = 777;
  for (i = 0; i < n; ++i) x[i] = s->x0[i];
  memcpy(sx, s->scl, sizeof sx); memcpy(sl, s->xl, sizeof sl); memcpy(su, s->xu, sizeof su);
  act = s; nev = 0; ev_on = !quiet; ev_cap = (s->maxfun > 0 ? s->maxfun : 1) + 20;
  fprintf(J, "{\"ev\":\"begin\",\"k\":%ld", k); js("how", "direct"); j_cfg(s); fprintf(J, "}\n");
  out_reset();
  H_ENTER;
  if (s->solver == 0) st = plain ? cobyla(n, m, cb_cobyla, s, x, s->rhobeg, s->rhoend, s->iprint, s->maxfun, w, iact)
                        : cobyla_optimize(n, m, s->maximize, cb_cobyla, s, x, scl, s->rhobeg, s->rhoend, s->iprint, s->maxfun, w, iact);
  else if (s->solver == 1) st = plain ? newuoa(n, npt, cb_plain, s, x, s->rhobeg, s->rhoend, s->iprint, s->maxfun, w)
                        : newuoa_optimize(n, npt, s->maximize, cb_plain, s, x, scl, s->rhobeg, s->rhoend, s->iprint, s->maxfun, w);
  else st = plain ? bobyqa(n, npt, cb_plain, s, x, s->xl, s->xu, s->rhobeg, s->rhoend, s->iprint, s->maxfun, w)
                  : bobyqa_optimize(n, npt, s->maximize, cb_plain, s, x, s->xl, s->xu, scl, s->rhobeg, s->rhoend, s->iprint, s->maxfun, w);
  H_LEAVE;
  s->calls = nev;
  if (s->solver == 0) nr = iact[0];
  fprintf(J, "{\"ev\":\"end\",\"k\":%ld", k); js("status", stname(s->solver, st)); ja("x", x, n > 0 ? n : 0);
  jd("f", w[0]); jd("cv", s->solver == 0 ? w[1] : 0); jl("nevals", nr); jl("calls", nev); jl("out", out_size());
  jb("intact", intact(wg, lw, w) && intact(xg, n > 0 ? n : an, x) && ig[GUARD-1] == 777 && ig[GUARD+am+1] == 777
     && !memcmp(sx, s->scl, sizeof sx) && !memcmp(sl, s->xl, sizeof sl) && !memcmp(su, s->xu, sizeof su));
  jl("live", h_live);
  out_rhos(); fprintf(J, "}\n");
  ev_on = 1;
  free(wg); free(xg); free(ig);
}
/* How much a run costs and what it brings, in a few words: the number of
   evaluations and, in hundredths, the decimal logarithm of the distance to the
   solution in units of the last radius or, if there is none, the opposite of
   the binary logarithm of the distance covered. */
static void effort(long k)
{
  slot_t* s = &S[k]; int st; long i, n = s->n; double d = 0, score = 0;
  double *w, x[MAXN]; opk_index iact[MAXM + 1];
  w = (double*)calloc(20000, sizeof(double));
  for (i = 0; i < n; ++i) x[i] = s->x0[i];
  act = s; nev = 0; ev_on = 0; ev_cap = s->maxfun + 20;
  H_ENTER;
  if (s->solver == 0) st = cobyla(n, s->m, cb_cobyla, s, x, s->rhobeg, s->rhoend, 0, s->maxfun, w, iact);
  else if (s->solver == 1) st = newuoa(n, s->npt, cb_plain, s, x, s->rhobeg, s->rhoend, 0, s->maxfun, w);
  else st = bobyqa(n, s->npt, cb_plain, s, x, s->xl, s->xu, s->rhobeg, s->rhoend, 0, s->maxfun, w);
  H_LEAVE;
  ev_on = 1; free(w);
  for (i = 0; i < n; ++i) {
    double t = s->kind == 11 ? s->x0[i] : s->kind == 1 ? 1 : s->kind == 14 ? .1 : s->xs[i];
    d += (x[i] - t)*(x[i] - t);
  }
  if (s->kind == 11) score = -log2(1 + sqrt(d));
  else if (s->kind <= 2 || s->kind == 10 || s->kind == 14) score = log10(sqrt(d)/s->rhoend + 1e-3);
  if (!(score < 99)) score = 99;
  fprintf(J, "{\"ev\":\"effort\""); js("solver", SOLVER[s->solver]); jl("n", n); jl("calls", nev); jl("miss", lround(100*score)); js("status", stname(s->solver, st)); fprintf(J, "}\n");
}
static void j_ctx(slot_t* s, int stx)
{
  opk_index nv; double rho; int st;
  if (s->solver == 0) { st = cobyla_get_status((cobyla_context*)s->ctx); nv = cobyla_get_nevals((cobyla_context*)s->ctx); rho = cobyla_get_rho((cobyla_context*)s->ctx); jd("lastf", cobyla_get_last_f((cobyla_context*)s->ctx)); }
  else { st = newuoa_get_status((newuoa_context*)s->ctx); nv = newuoa_get_nevals((newuoa_context*)s->ctx); rho = newuoa_get_rho((newuoa_context*)s->ctx); }
  js("ret", stname(s->solver, stx)); js("status", stname(s->solver, st)); jl("nevals", nv); jd("rho", rho);
}
static void create(long k, int fail)
{
  slot_t* s = &S[k]; int e;
  h_nfailed = 0; h_fail_at = fail ? h_count : -1;
  errno = 0; out_reset();
  H_ENTER;
  if (s->solver == 0) s->ctx = cobyla_create(s->n, s->m, s->rhobeg, s->rhoend, s->iprint, s->maxfun);
  else s->ctx = newuoa_create(s->n, s->npt, s->rhobeg, s->rhoend, s->iprint, s->maxfun);
  H_LEAVE;
  e = errno;
  fprintf(J, "{\"ev\":\"create\",\"k\":%ld", k); j_cfg(s); jb("ok", s->ctx != NULL); js("errno", en(e)); jb("failed", h_nfailed > 0); jl("out", out_size());
  h_fail_at = -1;
  if (s->ctx) { j_ctx(s, s->solver == 0 ? COBYLA_ITERATE : NEWUOA_ITERATE); if (s->n > 0) memcpy(s->x, s->x0, s->n*sizeof(double)); }
  fprintf(J, "}\n");
}
/* one turn: 0 regular, 1 no variables, 2 no constraints */
static void iterate(long k, int wrong)
{
  slot_t* s = &S[k]; double before[MAXN], f; int st, e; double* x = wrong == 1 ? NULL : s->x;
  memcpy(before, s->x, sizeof before);
  f = evaluate(s, s->x, s->c);
  fprintf(J, "{\"ev\":\"%s\",\"k\":%ld", wrong ? "wrong" : "iterate", k);
  if (wrong) jl("what", wrong);
  ja("x", before, s->n); jd("f", f); jd("cv", cviol(s, s->c));
  errno = 0; out_reset();
  H_ENTER;
  if (s->solver == 0) st = cobyla_iterate((cobyla_context*)s->ctx, f, x, wrong == 2 ? NULL : s->c);
  else st = newuoa_iterate((newuoa_context*)s->ctx, f, x);
  H_LEAVE;
  e = errno;
  j_ctx(s, st); js("errno", en(e)); ja("next", s->x, s->n); jl("out", out_size()); fprintf(J, "}\n");
}
static void restart(long k)
{
  slot_t* s = &S[k]; int st;
  if (s->solver == 0) st = cobyla_restart((cobyla_context*)s->ctx); else st = newuoa_restart((newuoa_context*)s->ctx);
  memcpy(s->x, s->x0, s->n*sizeof(double));
  fprintf(J, "{\"ev\":\"restart\",\"k\":%ld", k); j_ctx(s, st); fprintf(J, "}\n");
}
static void delete(long k)
{
  slot_t* s = &S[k];
  if (s->solver == 0) cobyla_delete((cobyla_context*)s->ctx); else newuoa_delete((newuoa_context*)s->ctx);
  s->ctx = NULL;
  fprintf(J, "{\"ev\":\"delete\",\"k\":%ld,\"badfree\":%ld}\n", k, h_badfree);
}
static void null_queries(int solver)
{
  double x[2] = {1, 2}, c[2] = {0, 0}; int e[6], r[3]; long nv; double rho, lf = -1;
  errno = 0;
  if (solver == 0) {
    r[0] = cobyla_get_status(NULL); e[0] = errno; errno = 0; nv = cobyla_get_nevals(NULL); e[1] = errno; errno = 0; rho = cobyla_get_rho(NULL); e[2] = errno;
    errno = 0; lf = cobyla_get_last_f(NULL); e[3] = errno; errno = 0; r[1] = cobyla_restart(NULL); e[4] = errno; errno = 0; r[2] = cobyla_iterate(NULL, 1.0, x, c); e[5] = errno; cobyla_delete(NULL);
  } else {
    r[0] = newuoa_get_status(NULL); e[0] = errno; errno = 0; nv = newuoa_get_nevals(NULL); e[1] = errno; errno = 0; rho = newuoa_get_rho(NULL); e[2] = errno;
    e[3] = EFAULT; errno = 0; r[1] = newuoa_restart(NULL); e[4] = errno; errno = 0; r[2] = newuoa_iterate(NULL, 1.0, x); e[5] = errno; newuoa_delete(NULL);
  }
  fprintf(J, "{\"ev\":\"null\""); js("solver", SOLVER[solver]); fprintf(J, ",\"ret\":[\"%s\",\"%s\",\"%s\"]", stname(solver, r[0]), stname(solver, r[1]), stname(solver, r[2]));
  fprintf(J, ",\"errno\":[\"%s\",\"%s\",\"%s\",\"%s\",\"%s\",\"%s\"]", en(e[0]), en(e[1]), en(e[2]), en(e[3]), en(e[4]), en(e[5]));
  jl("nevals", nv); jd("rho", rho); jd("lastf", lf); jb("same", x[0] == 1 && x[1] == 2); fprintf(J, "}\n");
}
static void reasons(int solver)
{
  int i; const char* p;
  fprintf(J, "{\"ev\":\"reasons\""); js("solver", SOLVER[solver]); fprintf(J, ",\"list\":[");
  for (i = -12; i <= 3; ++i) {
    p = solver == 0 ? cobyla_reason((cobyla_status)i) : solver == 1 ? newuoa_reason((newuoa_status)i) : bobyqa_reason((bobyqa_status)i);
    fprintf(J, "%s[\"%s\",", i > -12 ? "," : "", stname(solver, i)); jstr(J, p ? p : "(null)"); fprintf(J, "]");
  }
  fprintf(J, "]}\n");
}
static void cmd_set(void)
{
  long k = tl(), i; slot_t* s = &S[k]; char* w; long seed; double spread; int linear, slack; const slot_t* twin;
  if (s->ctx) { if (s->solver == 0) cobyla_delete((cobyla_context*)s->ctx); else newuoa_delete((newuoa_context*)s->ctx); }
  memset(s, 0, sizeof *s);
  w = tw(); s->solver = w[0] == 'c' ? 0 : w[0] == 'n' ? 1 : 2;
  s->n = tl(); s->m = tl(); s->npt = tl(); s->maximize = tl(); s->scaling = tl(); s->rhobeg = td(); s->rhoend = td(); s->maxfun = tl(); s->iprint = tl();
  s->kind = tl(); s->seed = seed = tl(); spread = td(); linear = s->kind == 10; slack = tl();
  for (i = 0; i < MAXN; ++i) s->unit[i] = 1;
  if (s->n < 1) { (void)twin; return; }
  make(s, linear, slack);
  hseed(seed + 7777);
  for (i = 0; i < s->n; ++i) {
    s->x0[i] = s->xs[i] + spread*hint(-16, 16)/16;
    /* some variables have no bounds, or only the active one */
    if (s->solver == 2 && s->kind == 10 && (seed & 4) && s->g[i] != 0 && ((seed >> (i + 8)) & 1)) { if (s->xl[i] == s->xs[i]) s->xu[i] = 1e20; else if (s->xu[i] == s->xs[i]) s->xl[i] = -1e20; }
    if (s->solver == 2 && (s->kind == 11 || s->kind == 12 || s->kind == 14)) { if ((seed >> (2*i + 8)) & 1) s->xl[i] = -1e20; if ((seed >> (2*i + 9)) & 1) s->xu[i] = 1e20; }
    s->scl[i] = s->scaling == 1 ? ldexp(1.0, hint(-3, 3)) : s->scaling == 2 ? hunif(.1, 8) : s->scaling == 3 ? 1 : 1;
  }
  /* the caller's variables are those of the problem times the factors */
  if (s->scaling) for (i = 0; i < s->n; ++i) { s->unit[i] = 1/s->scl[i]; s->x0[i] *= s->scl[i]; s->xl[i] *= s->scl[i]; s->xu[i] *= s->scl[i]; }
}
/* edits of a slot: fields given by name */
static void cmd_edit(void)
{
  long k = tl(), i; slot_t* s = &S[k]; char* w;
  while (*(w = tw())) {
    if (!strcmp(w, "x0")) { i = tl(); s->x0[i] = td(); }
    else if (!strcmp(w, "xl")) { i = tl(); s->xl[i] = td(); }
    else if (!strcmp(w, "xu")) { i = tl(); s->xu[i] = td(); }
    else if (!strcmp(w, "scl")) { i = tl(); s->scl[i] = td(); s->scaling = 4; }
    else if (!strcmp(w, "maxfun")) s->maxfun = tl();
    else if (!strcmp(w, "ends")) { s->maxfun = S[s->of].calls + tl(); if (s->maxfun < 1) s->maxfun = 1; if (s->maxfun > S[s->of].maxfun) s->maxfun = S[s->of].maxfun; }
    else if (!strcmp(w, "iprint")) s->iprint = tl();
    else if (!strcmp(w, "n")) s->n = tl();
    else if (!strcmp(w, "m")) s->m = tl();
    else if (!strcmp(w, "npt")) s->npt = tl();
    else if (!strcmp(w, "rhobeg")) s->rhobeg = td();
    else if (!strcmp(w, "rhoend")) s->rhoend = td();
    else if (!strcmp(w, "kind")) s->kind = tl();
    else if (!strcmp(w, "neg")) s->maximize = !s->maximize; /* the caller's function changes sign too */
    /* starting points near the bounds: offset in units of rhobeg, from the lower (0) or upper (1) bound */
    else if (!strcmp(w, "near")) { int up; double off; i = tl(); up = tl(); off = td(); if (fabs(up ? s->xu[i] : s->xl[i]) < 1e18) s->x0[i] = up ? s->xu[i] - off*s->rhobeg*(s->scaling ? s->scl[i] : 1) : s->xl[i] + off*s->rhobeg*(s->scaling ? s->scl[i] : 1); }
    /* width of a box in units of rhobeg */
    else if (!strcmp(w, "width")) { double off; i = tl(); off = td(); s->xu[i] = s->xl[i] + off*s->rhobeg*(s->scaling ? s->scl[i] : 1); }
    else { fprintf(stderr, "edit? %s\n", w); _exit(4); }
  }
}
/* slot j becomes the rescaled (factors undone) or opposite twin of slot k */
static void cmd_twin(void)
{
  long j = tl(), k = tl(), i; char* w = tw(); slot_t* s = &S[j];
  if (s->ctx) { if (s->solver == 0) cobyla_delete((cobyla_context*)s->ctx); else newuoa_delete((newuoa_context*)s->ctx); }
  *s = S[k]; s->ctx = NULL; s->of = k;
  if (strchr(w, 's')) {
    for (i = 0; i < s->n; ++i) { s->x0[i] /= s->scl[i]; s->xl[i] /= s->scl[i]; s->xu[i] /= s->scl[i]; s->unit[i] *= s->scl[i]; s->scl[i] = 1; }
    s->scaling = strchr(w, 'u') ? 3 : 0;
  }
  if (strchr(w, 'm')) s->maximize = !s->maximize;
  strcpy(s->rel, strchr(w, 's') ? (strchr(w, 'm') ? "scaledopposite" : "scaled") : strchr(w, 'm') ? "opposite" : strchr(w, 'b') ? "budget" : strchr(w, 'f') ? "none" : "same");
}
int main(void)
{
  static char line[8192]; int k; struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  J = fdopen(dup(1), "w");
  sink = memfd_create("sink", 0);
  dup2(sink, 1); dup2(sink, 2);
  setvbuf(stderr, NULL, _IONBF, 0);
  while (fgets(line, sizeof line, stdin)) {
    char* c;
    cur = line; c = tw();
    if (!strcmp(c, "reset")) {
      for (k = 0; k < SLOTS; ++k) if (S[k].ctx) { if (S[k].solver == 0) cobyla_delete((cobyla_context*)S[k].ctx); else newuoa_delete((newuoa_context*)S[k].ctx); S[k].ctx = NULL; }
      h_reset(); fprintf(J, "{\"ev\":\"reset\"}\n"); fflush(J);
    }
    else if (!strcmp(c, "set")) cmd_set();
    else if (!strcmp(c, "edit")) cmd_edit();
    else if (!strcmp(c, "twin")) cmd_twin();
    else if (!strcmp(c, "direct")) direct(tl(), 0, 0);
    else if (!strcmp(c, "plain")) direct(tl(), 0, 1);
    else if (!strcmp(c, "quiet")) direct(tl(), 1, 0);
    else if (!strcmp(c, "effort")) effort(tl());
    else if (!strcmp(c, "create")) { long i = tl(); create(i, 0); }
    else if (!strcmp(c, "createfail")) { long i = tl(); create(i, 1); }
    else if (!strcmp(c, "iterate")) { long i = tl(), r = tl(); if (r < 1) r = 1; while (r-- > 0 && S[i].ctx) { iterate(i, 0); if ((S[i].solver == 0 ? cobyla_get_status((cobyla_context*)S[i].ctx) == COBYLA_ITERATE : newuoa_get_status((newuoa_context*)S[i].ctx) == NEWUOA_ITERATE) == 0) break; } }
    else if (!strcmp(c, "wrong")) { long i = tl(); int a = (int)tl(); if (S[i].ctx) iterate(i, a); }
    else if (!strcmp(c, "restart")) { long i = tl(); if (S[i].ctx) restart(i); }
    else if (!strcmp(c, "delete")) { long i = tl(); if (S[i].ctx) delete(i); }
    else if (!strcmp(c, "null")) null_queries((int)tl());
    else if (!strcmp(c, "reasons")) reasons((int)tl());
    else if (!strcmp(c, "leaks")) fprintf(J, "{\"ev\":\"leaks\",\"live\":%ld,\"badfree\":%ld}\n", h_live, h_badfree);
    else if (*c) { fprintf(J, "{\"ev\":\"unknown\"}\n"); }
  }
  fflush(J);
  return 0;
}
