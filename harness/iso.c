/* Sessions of every service of the library, driven step by step in any order,
   alone or at the same time in several threads.  Each step makes one call (or
   a few) and returns a digest of everything the client can see. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <errno.h>
#include <pthread.h>
#include "optimpack.h"
#include "optimpack-linalg.h"
#include "cobyla.h"
#include "newuoa.h"
#include "bobyqa.h"
typedef struct opk_fmin_context_ opk_fmin_context;
extern opk_fmin_context* opk_fmin_new(int method);
extern void opk_fmin_destroy(opk_fmin_context*);
extern opk_fmin_task opk_fmin_get_status(opk_fmin_context*);
extern opk_status opk_fmin_start(opk_fmin_context*, double, double, unsigned int);
extern opk_status opk_fmin_get_final(opk_fmin_context*, double*, double*, double*, double*, double*, double*, long*);
extern opk_fmin_task opk_fmin_next(opk_fmin_context*, double*, double);
#define MAXN 8
#define SESSIONS 16
typedef unsigned long long u64;
typedef struct {
  int live, kind; long seed; int n, single, over, alg, bounded, rule; u64 rng, rng0, h;
  double par[2*MAXN], x0[MAXN], xa[MAXN], lo[MAXN], up[MAXN];
  /* working data of the client */
  double x[MAXN], g[MAXN], c[MAXN], f; float xf[MAXN], gf[MAXN]; float flo[MAXN], fup[MAXN];
  double stp, a[MAXN][MAXN], p[MAXN], q[MAXN], r[MAXN], z[MAXN], rho[5]; float sp[MAXN], sq[MAXN], sr[MAXN], sz[MAXN], srho[5]; opk_cg_state st; double delta;
  long calls, maxfun, npt, m; double rhobeg, rhoend;
  /* objects of the library */
  opk_lnsrch* ls; opk_vspace* space; opk_vector *vx, *vg, *v[4]; opk_convexset* box; opk_nlcg* cg; opk_vmlmb* vm; opk_optimizer* drv;
  void* ctx;
} ses_t;
static ses_t S[SESSIONS];
/* ---- random numbers and digests, private to a session ---------------------- */
static u64 rnd(ses_t* s) { u64 x = s->rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; s->rng = x; return (x*0x2545F4914F6CDD1DULL) >> 11; }
static long ri(ses_t* s, long lo, long hi) { return lo + (long)(rnd(s) % (u64)(hi - lo + 1)); }
static double ru(ses_t* s, double lo, double hi) { return lo + (hi - lo)*((double)(rnd(s) & ((1ULL << 40) - 1))/(double)(1ULL << 40)); }
static void mix(ses_t* s, const void* p, size_t n) { const unsigned char* b = (const unsigned char*)p; while (n--) s->h = (s->h ^ *b++)*1099511628211ULL; }
static void mi(ses_t* s, long v) { mix(s, &v, sizeof v); }
static void md(ses_t* s, double v) { if (v == 0) v = 0; if (v != v) { mi(s, 777); return; } mix(s, &v, sizeof v); }
static void mv(ses_t* s, const double* v, long n) { long i; for (i = 0; i < n; ++i) md(s, v[i]); }
/* ---- objective functions ---------------------------------------------------- */
static double fgrad(const ses_t* s, const double* x, double* g)
{
  int i; double f = 0;
  if (g) for (i = 0; i < s->n; ++i) g[i] = 0;
  switch (s->rule % 4) {
  case 0: for (i = 0; i < s->n; ++i) { double t = x[i] - s->par[MAXN+i]; f += .5*s->par[i]*t*t; if (g) g[i] += s->par[i]*t; } break;
  case 1: for (i = 0; i + 1 < s->n; ++i) { double a = x[i+1] - x[i]*x[i], b = 1 - x[i]; f += 10*a*a + b*b; if (g) { g[i] += -40*a*x[i] - 2*b; g[i+1] += 20*a; } }
    if (s->n == 1) { f = x[0]*x[0]; if (g) g[0] = 2*x[0]; } break;
  case 2: for (i = 0; i < s->n; ++i) { double t = x[i] - s->par[MAXN+i]; f += s->par[i]*log(cosh(t)) + .1*t*t; if (g) g[i] += s->par[i]*tanh(t) + .2*t; } break;
  default: for (i = 0; i < s->n; ++i) { double t = x[i]; f += t*t*t*t/4 - t*t/2*s->par[i] + s->par[MAXN+i]*t; if (g) g[i] += t*t*t - t*s->par[i] + s->par[MAXN+i]; } break;
  }
  return f;
}
static double cbn(const opk_index n, const double* x, void* d) { ses_t* s = (ses_t*)d; double f = fgrad(s, x, NULL); ++s->calls; mv(s, x, n); md(s, f); return f; }
static double cbc(opk_index n, opk_index m, const double x[], double c[], void* d)
{ ses_t* s = (ses_t*)d; long k, i; for (k = 0; k < m; ++k) { c[k] = 1 + .1*k; for (i = 0; i < n; ++i) c[k] -= s->par[(i + k)%MAXN]*x[i]*.3; } mv(s, c, m); return cbn(n, x, d); }
static double cb1(void* d, double x) { ses_t* s = (ses_t*)d; double f = fgrad(s, &x, NULL); ++s->calls; md(s, x); return f; }
/* ---- creation ---------------------------------------------------------------- */
enum { K_BACKTRACK, K_NONMONOTONE, K_CSRCH, K_NLCG, K_VMLMB, K_DRV_NLCG, K_DRV_VMLMB, K_FMIN, K_PLCG, K_TRCG, K_GQT, K_COBYLA, K_NEWUOA,
  K_BOBYQA_RUN, K_COBYLA_RUN, K_NEWUOA_RUN, K_VECTORS, K_FMIN_RUN, K_TEXT, KINDS };
static opk_lnsrch* search(ses_t* s, int k)
{
  switch (k) {
  case 1: return opk_lnsrch_new_backtrack(ru(s, 1e-4, .1), ru(s, .1, .5));
  case 2: return opk_lnsrch_new_nonmonotone(ri(s, 1, 5), ru(s, 1e-4, .1), ru(s, .05, .3), ru(s, .5, .9));
  case 3: return opk_lnsrch_new_csrch(ru(s, 1e-4, .1), ru(s, .1, .9), 1e-10);
  }
  return NULL;
}
static void setx(ses_t* s) { int i; for (i = 0; i < s->n; ++i) { s->x[i] = s->x0[i]; s->xf[i] = (float)s->x0[i]; if (s->vx) opk_vpoke(s->vx, i, s->x0[i]); } }
static void getx(ses_t* s) { int i; for (i = 0; i < s->n; ++i) { if (s->vx) opk_vpeek(s->vx, i, &s->x[i]); else if (s->single) s->x[i] = s->xf[i]; } mv(s, s->x, s->n); }
static void seen(ses_t* s, int task) /* what the optimizers tell; the step means nothing before the first search, nor the gradient before the first evaluation */
{
  char b[200]; int i;
  mi(s, task); getx(s);
  if (s->cg) { mi(s, opk_get_nlcg_task(s->cg)); mi(s, opk_get_nlcg_status(s->cg)); mi(s, opk_get_nlcg_evaluations(s->cg)); mi(s, opk_get_nlcg_iterations(s->cg)); mi(s, opk_get_nlcg_restarts(s->cg));
    if (opk_get_nlcg_evaluations(s->cg) > 1) md(s, opk_get_nlcg_step(s->cg)); if (opk_get_nlcg_evaluations(s->cg) > 0) md(s, opk_get_nlcg_gnorm(s->cg)); mi(s, opk_get_nlcg_description(b, sizeof b, s->cg)); mix(s, b, strlen(b)); }
  if (s->vm) { mi(s, opk_get_vmlmb_task(s->vm)); mi(s, opk_get_vmlmb_status(s->vm)); mi(s, opk_get_vmlmb_evaluations(s->vm)); mi(s, opk_get_vmlmb_iterations(s->vm)); mi(s, opk_get_vmlmb_restarts(s->vm));
    if (opk_get_vmlmb_evaluations(s->vm) > 1) md(s, opk_get_vmlmb_step(s->vm)); if (opk_get_vmlmb_evaluations(s->vm) > 0) md(s, opk_get_vmlmb_gnorm(s->vm)); mi(s, opk_get_vmlmb_mp(s->vm)); mi(s, opk_get_vmlmb_description(b, sizeof b, s->vm)); mix(s, b, strlen(b));
    for (i = 1; i <= opk_get_vmlmb_mp(s->vm); ++i) { opk_vector* v = opk_get_vmlmb_s(s->vm, i); double t; int j; if (v) for (j = 0; j < s->n; ++j) { opk_vpeek(v, j, &t); md(s, t); } } }
  if (s->drv) { mi(s, opk_get_task(s->drv)); mi(s, opk_get_status(s->drv)); mi(s, opk_get_evaluations(s->drv)); mi(s, opk_get_iterations(s->drv)); mi(s, opk_get_restarts(s->drv));
    if (opk_get_evaluations(s->drv) > 1) md(s, opk_get_step(s->drv)); if (opk_get_evaluations(s->drv) > 0) md(s, opk_get_gnorm(s->drv)); mi(s, opk_get_description(b, sizeof b, s->drv)); mix(s, b, strlen(b)); }
  s->over = task != OPK_TASK_COMPUTE_FG && task != OPK_TASK_NEW_X;
}
/* v: which starting point */
static void start(ses_t* s, int v)
{
  int i, n = s->n;
  s->h = 14695981039346656037ULL; s->rng = s->rng0; s->over = 0; s->calls = 0; s->f = 0;
  for (i = 0; i < MAXN; ++i) s->x0[i] = v == 0 ? s->xa[i] : v == 1 ? 3*s->xa[i] + 1 : .25*s->xa[(i + 1)%MAXN];
  setx(s);
  switch (s->kind) {
  case K_BACKTRACK: case K_NONMONOTONE: case K_CSRCH: s->stp = 0; s->over = -1; break; /* to be started */
  case K_NLCG: seen(s, opk_start_nlcg(s->cg, s->vx)); break;
  case K_VMLMB: seen(s, opk_start_vmlmb(s->vm, s->vx)); break;
  case K_DRV_NLCG: case K_DRV_VMLMB: seen(s, opk_start(s->drv, s->single ? (void*)s->xf : (void*)s->x)); break;
  case K_FMIN: mi(s, opk_fmin_start((opk_fmin_context*)s->ctx, s->lo[0], s->up[0], s->rule/4%4)); mi(s, opk_fmin_get_status((opk_fmin_context*)s->ctx)); break;
  case K_PLCG: case K_TRCG:
    for (i = 0; i < n; ++i) { s->r[i] = s->par[MAXN+i]; s->sr[i] = (float)s->r[i]; s->p[i] = s->q[i] = s->z[i] = 0; s->sp[i] = s->sq[i] = s->sz[i] = 0; }
    s->st = s->alg ? OPK_CG_START : OPK_CG_RESTART; break;
  case K_COBYLA: mi(s, cobyla_get_status((cobyla_context*)s->ctx)); mi(s, cobyla_get_nevals((cobyla_context*)s->ctx)); break;
  case K_NEWUOA: mi(s, newuoa_get_status((newuoa_context*)s->ctx)); mi(s, newuoa_get_nevals((newuoa_context*)s->ctx)); break;
  case K_VECTORS: for (i = 0; i < 4; ++i) opk_vfill(s->v[i], s->par[i]); break;
  }
}
static void create(ses_t* s, int kind, long seed, int v)
{
  int i, lsk; void *lp = NULL, *upp = NULL; int lt = OPK_BOUND_NONE, ut = OPK_BOUND_NONE; opk_nlcg_options on; opk_vmlmb_options ov; static const unsigned rules[] = { 1, 2, 3, 4, 5, 6, 7, 8 };
  memset(s, 0, sizeof *s);
  s->live = 1; s->kind = kind; s->seed = seed; s->rng = (u64)seed*0x9E3779B97F4A7C15ULL + 88172645463325252ULL; for (i = 0; i < 5; ++i) rnd(s);
  s->n = kind == K_FMIN || kind == K_FMIN_RUN || kind <= K_CSRCH ? 1 : (int)ri(s, 2, 6); s->single = (int)ri(s, 0, 1); s->rule = (int)ri(s, 0, 63); s->alg = (int)ri(s, 0, 1);
  for (i = 0; i < MAXN; ++i) { s->par[i] = ru(s, .3, 3); s->par[MAXN+i] = ru(s, -2, 2); s->xa[i] = ru(s, -2, 2); s->lo[i] = ru(s, -2.5, -.2); s->up[i] = ru(s, .2, 2.5); s->flo[i] = (float)s->lo[i]; s->fup[i] = (float)s->up[i]; s->lo[i] = s->flo[i]; s->up[i] = s->fup[i]; }
  s->bounded = (int)ri(s, 0, 1); lsk = (int)ri(s, 0, 3); if (lsk == 3 && s->bounded) lsk = 1;
  opk_get_nlcg_default_options(&on); opk_get_vmlmb_default_options(&ov);
  on.flags = rules[ri(s, 0, 7)] | (ri(s, 0, 1) ? OPK_NLCG_POWELL : 0) | (ri(s, 0, 1) ? OPK_NLCG_SHANNO_PHUA : 0);
  on.fmin_given = 0; ov.mem = ri(s, 1, 5); ov.blmvm = ri(s, 0, 1); ov.save_memory = ri(s, 0, 1); on.gatol = ov.gatol = 0; on.grtol = ov.grtol = ru(s, 1e-4, 1e-2);
  if (s->bounded && (kind == K_VMLMB || kind == K_DRV_VMLMB)) { lt = s->single ? OPK_BOUND_STATIC_FLOAT : OPK_BOUND_STATIC_DOUBLE; lp = s->single ? (void*)s->flo : (void*)s->lo; ut = ri(s, 0, 1) ? OPK_BOUND_NONE : lt; upp = ut == lt ? (s->single ? (void*)s->fup : (void*)s->up) : NULL; }
  s->rhobeg = .5; s->rhoend = ru(s, 1e-4, 1e-2); s->maxfun = ri(s, 20, 80); s->npt = ri(s, s->n + 2, 2*s->n + 1); s->m = ri(s, 0, 4); s->delta = ru(s, .3, 3);
  if (kind == K_BOBYQA_RUN) for (i = 0; i < MAXN; ++i) s->up[i] = s->lo[i] + 5;
  s->rng0 = s->rng;
  switch (kind) {
  case K_BACKTRACK: case K_NONMONOTONE: case K_CSRCH: s->ls = search(s, kind - K_BACKTRACK + 1); s->rng0 = s->rng; break;
  case K_NLCG: case K_VMLMB:
    s->space = s->single ? opk_new_simple_float_vector_space(s->n) : opk_new_simple_double_vector_space(s->n);
    s->vx = opk_vcreate(s->space); s->vg = opk_vcreate(s->space); s->ls = search(s, lsk);
    if (lt != OPK_BOUND_NONE) s->box = opk_new_boxset(s->space, lt, lp, ut, upp);
    if (kind == K_NLCG) s->cg = opk_new_nlcg_optimizer(&on, s->space, s->ls); else s->vm = opk_new_vmlmb_optimizer(&ov, s->space, s->ls, s->box);
    s->rng0 = s->rng; break;
  case K_DRV_NLCG: case K_DRV_VMLMB:
    s->ls = search(s, lsk);
    s->drv = opk_new_optimizer(kind == K_DRV_NLCG ? OPK_ALGORITHM_NLCG : OPK_ALGORITHM_VMLMB, kind == K_DRV_NLCG ? (void*)&on : (void*)&ov, s->single ? OPK_FLOAT : OPK_DOUBLE, s->n, lt, lp, ut, upp, s->ls);
    s->rng0 = s->rng; break;
  case K_FMIN: s->ctx = opk_fmin_new(0); break;
  case K_PLCG: case K_TRCG: { int j; for (i = 0; i < s->n; ++i) for (j = 0; j < s->n; ++j) s->a[i][j] = i == j ? s->par[i] + 1 : .2; } break;
  case K_COBYLA: s->ctx = cobyla_create(s->n, s->m, s->rhobeg, s->rhoend, 0, s->maxfun); break;
  case K_NEWUOA: s->ctx = newuoa_create(s->n, s->npt, s->rhobeg, s->rhoend, 0, s->maxfun); break;
  case K_VECTORS: s->space = s->single ? opk_new_simple_float_vector_space(s->n) : opk_new_simple_double_vector_space(s->n); for (i = 0; i < 4; ++i) s->v[i] = opk_vcreate(s->space); break;
  }
  start(s, v);
}
static void again(ses_t* s, int v)
{
  if (s->kind == K_COBYLA) cobyla_restart((cobyla_context*)s->ctx);
  if (s->kind == K_NEWUOA) newuoa_restart((newuoa_context*)s->ctx);
  start(s, v);
}
static void destroy(ses_t* s)
{
  int i;
  OPK_DROP(s->cg); OPK_DROP(s->vm); if (s->drv) opk_destroy_optimizer(s->drv);
  OPK_DROP(s->ls); OPK_DROP(s->box); OPK_DROP(s->vx); OPK_DROP(s->vg); for (i = 0; i < 4; ++i) OPK_DROP(s->v[i]); OPK_DROP(s->space);
  if (s->kind == K_FMIN) opk_fmin_destroy((opk_fmin_context*)s->ctx);
  if (s->kind == K_COBYLA) cobyla_delete((cobyla_context*)s->ctx);
  if (s->kind == K_NEWUOA) newuoa_delete((newuoa_context*)s->ctx);
  s->live = 0;
}
/* ---- one step ------------------------------------------------------------------ */
static void step_search(ses_t* s)
{
  double x[1], g[1];
  if (s->over) { /* a new search, down from a new point */
    s->x[0] = ru(s, -2, 2); s->f = fgrad(s, s->x, s->g); s->c[0] = s->g[0] > 0 ? -1 : 1; /* direction */
    s->stp = ru(s, .1, 2);
    if (s->g[0] == 0) return;
    s->over = opk_lnsrch_start(s->ls, s->f, s->g[0]*s->c[0], s->stp, 0, s->stp*ru(s, 1, 30)) != OPK_LNSRCH_SEARCH;
  } else {
    x[0] = s->x[0] + s->stp*s->c[0]; s->f = fgrad(s, x, g);
    s->over = opk_lnsrch_iterate(s->ls, &s->stp, s->f, g[0]*s->c[0]) != OPK_LNSRCH_SEARCH;
  }
  mi(s, opk_lnsrch_get_task(s->ls)); mi(s, opk_lnsrch_get_status(s->ls)); md(s, s->stp); md(s, opk_lnsrch_get_step(s->ls)); mi(s, opk_lnsrch_has_errors(s->ls)); mi(s, opk_lnsrch_has_warnings(s->ls));
}
static void step_opt(ses_t* s)
{
  int i, task = s->cg ? opk_get_nlcg_task(s->cg) : s->vm ? opk_get_vmlmb_task(s->vm) : opk_get_task(s->drv);
  if (s->over) return;
  if (task == OPK_TASK_COMPUTE_FG) {
    for (i = 0; i < s->n; ++i) { if (s->vx) opk_vpeek(s->vx, i, &s->x[i]); else if (s->single) s->x[i] = s->xf[i]; }
    s->f = fgrad(s, s->x, s->g);
    for (i = 0; i < s->n; ++i) { s->gf[i] = (float)s->g[i]; if (s->vg) opk_vpoke(s->vg, i, s->g[i]); }
  }
  if (s->cg) task = opk_iterate_nlcg(s->cg, s->vx, s->f, s->vg);
  else if (s->vm) task = opk_iterate_vmlmb(s->vm, s->vx, s->f, s->vg);
  else task = opk_iterate(s->drv, s->single ? (void*)s->xf : (void*)s->x, s->f, s->single ? (void*)s->gf : (void*)s->g);
  seen(s, task);
}
static void step_cg(ses_t* s)
{
  int i, j, n = s->n;
  if (s->over) return;
  if (s->st == OPK_CG_AP) for (i = 0; i < n; ++i) { double t = 0; for (j = 0; j < n; ++j) t += s->a[i][j]*(s->single ? s->sp[j] : s->p[j]); s->q[i] = t; s->sq[i] = (float)t; }
  if (s->st == OPK_CG_PRECOND) for (i = 0; i < n; ++i) { double t = (s->single ? s->sr[i] : s->r[i])/s->a[i][i]; s->z[i] = t; s->sz[i] = (float)t; }
  if (s->single) {
    float* z = s->bounded ? s->sz : NULL;
    if (s->kind == K_PLCG) opk_splcg(n, s->sp, s->sq, s->sr, s->xf, z, s->srho, &s->st); else opk_strcg(n, s->sp, s->sq, s->sr, s->xf, z, (float)s->delta, s->srho, &s->st);
    for (i = 0; i < n; ++i) { md(s, s->sp[i]); md(s, s->sr[i]); md(s, s->xf[i]); }
  } else {
    double* z = s->bounded ? s->z : NULL;
    if (s->kind == K_PLCG) opk_dplcg(n, s->p, s->q, s->r, s->x, z, s->rho, &s->st); else opk_dtrcg(n, s->p, s->q, s->r, s->x, z, s->delta, s->rho, &s->st);
    mv(s, s->p, n); mv(s, s->r, n); mv(s, s->x, n);
  }
  mi(s, s->st);
  if (s->st == OPK_CG_NEWX && ++s->calls > 2*n) s->over = 1;
  if (s->st != OPK_CG_NEWX && s->st != OPK_CG_AP && s->st != OPK_CG_PRECOND && s->st != OPK_CG_START && s->st != OPK_CG_RESTART) s->over = 1;
}
static void step(ses_t* s)
{
  int i, j, n = s->n;
  s->h = 14695981039346656037ULL;
  switch (s->kind) {
  case K_BACKTRACK: case K_NONMONOTONE: case K_CSRCH: step_search(s); break;
  case K_NLCG: case K_VMLMB: case K_DRV_NLCG: case K_DRV_VMLMB: step_opt(s); break;
  case K_FMIN: { double o[6]; long nev = 0; opk_fmin_task t;
    t = opk_fmin_next((opk_fmin_context*)s->ctx, &s->x[0], s->f);
    if (t == OPK_FMIN_FX) s->f = fgrad(s, s->x, NULL);
    mi(s, t); md(s, s->x[0]); if (opk_fmin_get_final((opk_fmin_context*)s->ctx, o, o+1, o+2, o+3, o+4, o+5, &nev) == OPK_SUCCESS && s->calls++ > 5) { mv(s, o, 6); mi(s, nev); } } break;
  case K_PLCG: case K_TRCG: step_cg(s); break;
  case K_GQT: { double a[MAXN*MAXN], b[MAXN], x[MAXN], z[MAXN], w1[MAXN], w2[MAXN], par = 0, f = 0; opk_index it = 0; int info;
    for (i = 0; i < n; ++i) { b[i] = ru(s, -1, 1); for (j = i; j < n; ++j) a[i*n + j] = a[j*n + i] = ru(s, -1, 1); }
    info = opk_dgqt(n, a, n, b, ru(s, .1, 2), 1e-2, 0, 50, &par, &f, x, &it, z, w1, w2);
    mi(s, info); mi(s, it); md(s, par); md(s, f); mv(s, x, n); } break;
  case K_COBYLA: if (!s->over) { cobyla_context* c = (cobyla_context*)s->ctx; long k; cobyla_status st; double t[MAXN];
    for (k = 0; k < s->m; ++k) { s->c[k] = 1 + .1*k; for (i = 0; i < n; ++i) s->c[k] -= s->par[(i + k)%MAXN]*s->x[i]*.3; }
    memcpy(t, s->c, sizeof t); s->f = fgrad(s, s->x, NULL); st = cobyla_iterate(c, s->f, s->x, t);
    mi(s, st); mv(s, s->x, n); md(s, cobyla_get_rho(c)); mi(s, cobyla_get_nevals(c)); md(s, cobyla_get_last_f(c)); s->over = st != COBYLA_ITERATE; } break;
  case K_NEWUOA: if (!s->over) { newuoa_context* c = (newuoa_context*)s->ctx; newuoa_status st;
    s->f = fgrad(s, s->x, NULL); st = newuoa_iterate(c, s->f, s->x);
    mi(s, st); mv(s, s->x, n); md(s, newuoa_get_rho(c)); mi(s, newuoa_get_nevals(c)); s->over = st != NEWUOA_ITERATE; } break;
  case K_BOBYQA_RUN: case K_COBYLA_RUN: case K_NEWUOA_RUN: { double x[MAXN], scl[MAXN], *w = (double*)malloc(20000*sizeof(double)); opk_index ia[20]; int st, sc = s->alg;
    for (i = 0; i < 20000; ++i) w[i] = .5; /* fixed: the digest holds w */
    for (i = 0; i < n; ++i) { x[i] = ru(s, -1, 1); scl[i] = sc ? ru(s, 1, 2) : 1; if (x[i] < s->lo[i]) x[i] = s->lo[i]; if (x[i] > s->up[i]) x[i] = s->up[i]; }
    if (s->kind == K_BOBYQA_RUN) st = bobyqa_optimize(n, s->npt, s->rule/4%2, cbn, s, x, s->lo, s->up, sc ? scl : NULL, s->rhobeg, s->rhoend, 0, s->maxfun, w);
    else if (s->kind == K_COBYLA_RUN) st = cobyla_optimize(n, s->m, s->rule/4%2, cbc, s, x, sc ? scl : NULL, s->rhobeg, s->rhoend, 0, s->maxfun, w, ia);
    else st = newuoa_optimize(n, s->npt, s->rule/4%2, cbn, s, x, sc ? scl : NULL, s->rhobeg, s->rhoend, 0, s->maxfun, w);
    mi(s, st); mv(s, x, n); md(s, w[0]); free(w); } break;
  case K_VECTORS: { double t, al = ru(s, -2, 2), be = ru(s, -1, 1), ga = ru(s, -1, 1); int d = (int)ri(s, 0, 3), a = (int)ri(s, 0, 3), b = (int)ri(s, 0, 3), c = (int)ri(s, 0, 3);
    switch (ri(s, 0, 9)) {
    case 0: opk_vaxpby(s->v[d], al, s->v[a], be, s->v[b]); break;
    case 1: opk_vaxpbypcz(s->v[d], al, s->v[a], be, s->v[b], ga, s->v[c]); break;
    case 2: opk_vscale(s->v[d], be, s->v[a]); break;
    case 3: opk_vswap(s->v[d], s->v[a]); break;
    case 4: opk_vcopy(s->v[d], s->v[a]); break;
    case 5: opk_vproduct(s->v[d], s->v[a], s->v[b]); break;
    case 6: opk_vfill(s->v[d], al); break;
    case 7: opk_vpoke(s->v[d], ri(s, 0, n - 1), al); break;
    default: md(s, opk_vdot(s->v[a], s->v[b])); md(s, opk_vnorm2(s->v[a])); md(s, opk_vnorm1(s->v[b])); md(s, opk_vnorminf(s->v[c])); }
    for (i = 0; i < 4; ++i) for (j = 0; j < n; ++j) { opk_vpeek(s->v[i], j, &t); if (fabs(t) > 1e6) opk_vpoke(s->v[i], j, 1.5); md(s, t); } } break;
  case K_FMIN_RUN: { double o[7]; int st = opk_fmin_with_context(cb1, ru(s, -3, 0), ru(s, .1, 3), s->rule/4%4, ri(s, 4, 60), ru(s, 1e-6, 1e-2), o, s); mi(s, st); mv(s, o, 7); } break;
  case K_TEXT: { char b[64]; long k = ri(s, 0, 30); const char* t = opk_get_reason((opk_status)k); long v = 0; int ok;
    if (t) mix(s, t, strlen(t)); mi(s, opk_copy_string(b, (size_t)ri(s, 1, 20), t)); mix(s, b, strlen(b)); ok = opk_get_integer_constant(k%2 ? "OPK_SUCCESS" : "OPK_NLCG_POWELL", &v); mi(s, ok); mi(s, v);
    t = cobyla_reason((cobyla_status)-k); if (t) mix(s, t, strlen(t)); t = newuoa_reason((newuoa_status)-k); if (t) mix(s, t, strlen(t)); mi(s, opk_guess_status(k%2 ? ENOMEM : EINVAL)); } break;
  }
}
static void show(FILE* o, const char* ev, int k) { fprintf(o, "{\"ev\":\"%s\",\"s\":%d,\"d\":\"%016llx\"}\n", ev, k, S[k].h); }
/* ---- threads ------------------------------------------------------------------- */
typedef struct { int k, kind; long seed; int steps, rounds; u64* d; int nd; pthread_barrier_t* go; } job_t;
static void* work(void* a)
{
  job_t* j = (job_t*)a; int i, r;
  for (r = 0; r < j->rounds; ++r) {
    pthread_barrier_wait(j->go);
    create(&S[j->k], j->kind, j->seed, 0); j->d[j->nd++] = S[j->k].h;
    for (i = 0; i < j->steps; ++i) { step(&S[j->k]); j->d[j->nd++] = S[j->k].h; }
    destroy(&S[j->k]);
  }
  return NULL;
}
int main(void)
{
  static char line[4000]; char w[20]; int k, kind, n, v; long seed;
  { double o[7]; S[0].n = 1; S[0].par[0] = 1; opk_fmin_with_context(cb1, -1, 1, 0, 9, -1.0, o, &S[0]); } /* computes its default precision once */
  while (fgets(line, sizeof line, stdin)) {
    int off = 0;
    if (sscanf(line, "%19s%n", w, &off) != 1) continue;
    if (!strcmp(w, "begin")) { sscanf(line + off, "%d %d %ld %d", &k, &kind, &seed, &v); create(&S[k], kind, seed, v); show(stdout, "begin", k); }
    else if (!strcmp(w, "step")) { sscanf(line + off, "%d %d", &k, &n); while (n-- > 0) { step(&S[k]); show(stdout, "step", k); } }
    else if (!strcmp(w, "again")) { sscanf(line + off, "%d %d", &k, &v); again(&S[k], v); show(stdout, "again", k); }
    else if (!strcmp(w, "end")) { sscanf(line + off, "%d", &k); destroy(&S[k]); printf("{\"ev\":\"end\",\"s\":%d}\n", k); }
    else if (!strcmp(w, "threads")) { /* rounds, steps, then (kind, seed) for each thread */
      job_t job[SESSIONS]; pthread_t th[SESSIONS]; pthread_barrier_t go; int nt = 0, rounds, steps, m = 0, r, i; char* c = line + off;
      rounds = (int)strtol(c, &c, 10); steps = (int)strtol(c, &c, 10);
      while (nt < SESSIONS) { char* e; kind = (int)strtol(c, &e, 10); if (e == c) break; seed = strtol(e, &c, 10);
        job[nt].k = nt; job[nt].kind = kind; job[nt].seed = seed; job[nt].steps = steps; job[nt].rounds = rounds; job[nt].nd = 0; job[nt].d = (u64*)malloc(sizeof(u64)*rounds*(steps + 1)); job[nt].go = &go; ++nt; }
      pthread_barrier_init(&go, NULL, nt);
      for (i = 0; i < nt; ++i) pthread_create(&th[i], NULL, work, &job[i]);
      for (i = 0; i < nt; ++i) pthread_join(th[i], NULL);
      for (r = 0; r < rounds; ++r) for (i = 0; i < nt; ++i) for (m = 0; m <= steps; ++m) {
        printf("{\"ev\":\"%s\",\"s\":%d,\"d\":\"%016llx\"}\n", m ? "step" : "begin", i, job[i].d[r*(steps + 1) + m]);
        if (m == steps) printf("{\"ev\":\"end\",\"s\":%d}\n", i); }
    }
  }
  return 0;
}
