/* The simple driver and the low level optimizer it wraps, side by side on the
   same problem. The arrays given to the driver live in slots surrounded by
   guard zones and change from call to call. */
#define H_TRACK_ALLOC 1
#include "hcommon.h"
#include "optimpack.h"
#include "hstatus.h"
#define MAXN 12
#define PAD 4
#define SLOTS 4
static char* cur;
static long tl(void) { return strtol(cur, &cur, 10); }
static double td(void) { return strtod(cur, &cur); }
static char* tw(void)
{
  char* w;
  while (*cur == ' ') ++cur;
  w = cur;
  while (*cur && *cur != ' ' && *cur != '\n') ++cur;
  if (*cur) *cur++ = 0;
  return w;
}
static void jd(const char* name, double x) { printf(",\"%s\":", name); jnum(stdout, x); }
static void jl(const char* name, long b) { printf(",\"%s\":%ld", name, b); }
static void jb(const char* name, int b) { printf(",\"%s\":%s", name, b ? "true" : "false"); }

static int alg, single, n;
static opk_optimizer* drv;
static opk_vspace* space; static opk_vector *vx, *vg, *vlo, *vup; static opk_convexset* box; static opk_lnsrch *ls1, *ls2;
static opk_nlcg* cg; static opk_vmlmb* vm;
static double f, x[MAXN], g[MAXN];
/* slots: [role][slot] */
static float fs[2][SLOTS][MAXN + 2*PAD], fk[2][SLOTS][MAXN + 2*PAD];
static double ds[2][SLOTS][MAXN + 2*PAD], dk[2][SLOTS][MAXN + 2*PAD];
static float flo[MAXN], fup[MAXN]; static double dlo[MAXN], dup[MAXN];
static void* slot(int role, int s) { return single ? (void*)(fs[role][s] + PAD) : (void*)(ds[role][s] + PAD); }
static void put(int role, int s, const double* v)
{ int i; for (i = 0; i < n; ++i) if (single) fs[role][s][PAD+i] = v[i]; else ds[role][s][PAD+i] = v[i]; }
static void get(int role, int s, double* v)
{ int i; for (i = 0; i < n; ++i) v[i] = single ? fs[role][s][PAD+i] : ds[role][s][PAD+i]; }
static void scramble(void)
{
  int r, s, i;
  for (r = 0; r < 2; ++r) for (s = 0; s < SLOTS; ++s) for (i = 0; i < MAXN + 2*PAD; ++i) fs[r][s][i] = ds[r][s][i] = 1000*(r + 1) + 100*s + i;
}
static void keep(void) { memcpy(fk, fs, sizeof fs); memcpy(dk, ds, sizeof ds); }
/* Everything as kept but the variables of slot s (none if s < 0)? */
static int intact(int s)
{
  if (s >= 0) { memcpy(fk[0][s] + PAD, fs[0][s] + PAD, n*sizeof(float)); memcpy(dk[0][s] + PAD, ds[0][s] + PAD, n*sizeof(double)); }
  return !memcmp(fk, fs, sizeof fs) && !memcmp(dk, ds, sizeof ds);
}
static void side_low(void)
{
  double v[MAXN]; int i;
  for (i = 0; i < n; ++i) opk_vpeek(vx, i, &v[i]);
  if (alg) {
    printf(",\"low\":{\"task\":\"%s\",\"status\":\"%s\"", h_task(opk_get_vmlmb_task(vm)), h_status(opk_get_vmlmb_status(vm)));
    jl("evs", opk_get_vmlmb_evaluations(vm)); jl("its", opk_get_vmlmb_iterations(vm)); jl("rss", opk_get_vmlmb_restarts(vm));
    jd("step", opk_get_vmlmb_step(vm)); jd("gnorm", opk_get_vmlmb_gnorm(vm));
  } else {
    printf(",\"low\":{\"task\":\"%s\",\"status\":\"%s\"", h_task(opk_get_nlcg_task(cg)), h_status(opk_get_nlcg_status(cg)));
    jl("evs", opk_get_nlcg_evaluations(cg)); jl("its", opk_get_nlcg_iterations(cg)); jl("rss", opk_get_nlcg_restarts(cg));
    jd("step", opk_get_nlcg_step(cg)); jd("gnorm", opk_get_nlcg_gnorm(cg));
  }
  printf(",\"x\":"); jvec(stdout, v, n); printf("}");
}
static void side_drv(opk_optimizer* d, const double* v)
{
  printf(",\"drv\":{\"task\":\"%s\",\"status\":\"%s\"", h_task(opk_get_task(d)), h_status(opk_get_status(d)));
  jl("evs", opk_get_evaluations(d)); jl("its", opk_get_iterations(d)); jl("rss", opk_get_restarts(d));
  jd("step", opk_get_step(d)); jd("gnorm", opk_get_gnorm(d));
  if (v) { printf(",\"x\":"); jvec(stdout, v, n); }
  printf("}");
}
/* ---- answers ------------------------------------------------------------ */
static int prob; static double par[2*MAXN];
static void setup(int id, unsigned long seed)
{ int i; hseed(seed); prob = id; for (i = 0; i < MAXN; ++i) { par[i] = pow(10, hunif(-1, 1)); par[MAXN+i] = hunif(-2, 2); } }
static void compute(void)
{
  int i; double s = 0;
  for (i = 0; i < n; ++i) { g[i] = 0; }
  switch (prob) {
  case 0: for (i = 0; i < n; ++i) { double t = x[i] - par[MAXN+i]; s += .5*par[i]*t*t; g[i] = par[i]*t; } break;
  case 1: for (i = 0; i + 1 < n; ++i) { double a = x[i+1] - x[i]*x[i], b = 1 - x[i]; s += 100*a*a + b*b; g[i] += -400*a*x[i] - 2*b; g[i+1] += 200*a; }
    if (n == 1) { s = (x[0] - 1)*(x[0] - 1); g[0] = 2*(x[0] - 1); } break;
  case 2: for (i = 0; i < n; ++i) { double t = x[i] - par[MAXN+i]; s += log(cosh(t)) + .1*t*t; g[i] = tanh(t) + .2*t; } break;
  default: s = hunif(-3, 3); for (i = 0; i < n; ++i) g[i] = hunif(-2, 2); break;
  }
  f = s;
}
static opk_lnsrch* search(int k)
{
  switch (k) {
  case 1: return opk_lnsrch_new_backtrack(1e-4, .3);
  case 2: return opk_lnsrch_new_nonmonotone(3, 1e-4, .1, .9);
  case 3: return opk_lnsrch_new_csrch(1e-3, .5, 1e-10);
  }
  return NULL;
}
static void finish(void)
{
  H_ENTER;
  if (drv) opk_destroy_optimizer(drv); drv = NULL;
  OPK_DROP(ls1); ls1 = NULL;
  H_LEAVE;
  OPK_DROP(cg); OPK_DROP(vm); cg = NULL; vm = NULL;
  OPK_DROP(ls2); OPK_DROP(box); OPK_DROP(vx); OPK_DROP(vg); OPK_DROP(vlo); OPK_DROP(vup); OPK_DROP(space);
  ls2 = NULL; box = NULL; vx = vg = vlo = vup = NULL; space = NULL;
}
static int btype(const char* t)
{
  static const char* names[] = { "NONE", "SCALAR_FLOAT", "SCALAR_DOUBLE", "STATIC_FLOAT", "STATIC_DOUBLE", "VOLATILE_FLOAT", "VOLATILE_DOUBLE", "VECTOR" };
  static const int vals[] = { OPK_BOUND_NONE, OPK_BOUND_SCALAR_FLOAT, OPK_BOUND_SCALAR_DOUBLE, OPK_BOUND_STATIC_FLOAT, OPK_BOUND_STATIC_DOUBLE, OPK_BOUND_VOLATILE_FLOAT, OPK_BOUND_VOLATILE_DOUBLE, OPK_BOUND_VECTOR };
  int k;
  for (k = 0; k < 8; ++k) if (!strcmp(t, names[k])) return vals[k];
  return atoi(t);
}
/* type addr(0/1) v1 ... vm: the address of what describes the bound */
static void* bound(char* t, int* type, int m, float* fb, double* db, opk_vector** vec, int* here)
{
  int a, i;
  *type = btype(t); a = tl(); *here = 0;
  for (i = 0; i < m; ++i) { db[i] = td(); fb[i] = db[i]; }
  if (!a) return NULL;
  if (!strcmp(t, "VECTOR")) {
    opk_vspace* sp = single ? opk_new_simple_float_vector_space(m) : opk_new_simple_double_vector_space(m);
    *vec = opk_vcreate(sp); OPK_DROP(sp);
    return *vec;
  }
  if (strstr(t, "FLOAT")) { for (i = 0; i < m; ++i) db[i] = fb[i]; *here = 1; return fb; }
  *here = 1;
  return db;
}
int main(void)
{
  static char line[8192]; char* cmd; int i;
  setvbuf(stdout, NULL, _IOFBF, 1 << 20);
  while (fgets(line, sizeof line, stdin)) {
    cur = line; cmd = tw();
    if (!*cmd) continue;
    if (!strcmp(cmd, "reset")) { finish(); h_reset(); printf("{\"ev\":\"reset\"}\n"); }
    else if (!strcmp(cmd, "new")) {
      /* new alg etype n ls opts(0 NULL, 1 given, 2 invalid) flags mem blmvm grtol stpmax  ltype laddr lo*  utype uaddr up* */
      static float fl[MAXN], fu[MAXN]; static double dl[MAXN], du[MAXN];
      int a, et, nn, k, m, o, lt, ut, lh, uh, e; void *la, *ua; char *lname, *uname; opk_nlcg_options no; opk_vmlmb_options vo; void* opts;
      opk_vector *fv1 = NULL, *fv2 = NULL; const char *an, *en; long r0 = 0;
      finish(); h_reset();
      an = tw(); en = tw();
      a = !strcmp(an, "nlcg") ? OPK_ALGORITHM_NLCG : !strcmp(an, "vmlmb") ? OPK_ALGORITHM_VMLMB : atoi(an);
      et = !strcmp(en, "float") ? OPK_FLOAT : !strcmp(en, "double") ? OPK_DOUBLE : atoi(en);
      nn = tl(); k = tl(); o = tl();
      alg = a == OPK_ALGORITHM_VMLMB; single = et == OPK_FLOAT; m = nn < 1 ? 1 : nn; n = nn;
      opk_get_nlcg_default_options(&no); opk_get_vmlmb_default_options(&vo);
      no.flags = tl(); vo.mem = tl(); vo.blmvm = tl(); no.grtol = vo.grtol = td(); no.stpmax = vo.stpmax = td();
      if (o == 2) { no.delta = vo.delta = -1; }
      opts = o == 0 ? NULL : a == OPK_ALGORITHM_VMLMB ? (void*)&vo : (void*)&no;
      ls1 = NULL;
      H_ENTER; ls1 = search(k); H_LEAVE;
      lname = tw(); la = bound(lname, &lt, m, fl, dl, &fv1, &lh); uname = tw(); ua = bound(uname, &ut, m, fu, du, &fv2, &uh);
      r0 = ls1 ? opk_get_object_references((opk_object*)ls1) : 0;
      H_ENTER; errno = 0;
      drv = opk_new_optimizer(a, opts, et, nn, lt, la, ut, ua, ls1);
      e = errno; H_LEAVE;
      printf("{\"ev\":\"new\",\"alg\":\"%s\",\"type\":\"%s\",\"n\":%d,\"opts\":%d,\"lt\":\"%s\",\"ut\":\"%s\",\"la\":%s,\"ua\":%s", an, en, nn, o, lname, uname, la ? "true" : "false", ua ? "true" : "false");
      printf(",\"ok\":%s,\"errno\":\"%s\"", drv ? "true" : "false", drv ? "" : e == EINVAL ? "EINVAL" : e == EFAULT ? "EFAULT" : e == ENOMEM ? "ENOMEM" : "?");
      jl("live", drv ? 0 : h_live - (ls1 ? 1 : 0)); jl("lsrefs", ls1 ? opk_get_object_references((opk_object*)ls1) - r0 : drv ? 1 : 0);
      OPK_DROP(fv1); OPK_DROP(fv2);
      if (drv) {
        space = single ? opk_new_simple_float_vector_space(n) : opk_new_simple_double_vector_space(n);
        vx = opk_vcreate(space); vg = opk_vcreate(space); opk_vzero(vx);
        ls2 = search(k);
        if (lt != OPK_BOUND_NONE || ut != OPK_BOUND_NONE) {
          int sl = !strncmp(lname, "SCALAR", 6), su = !strncmp(uname, "SCALAR", 6);
          vlo = opk_vcreate(space); vup = opk_vcreate(space);
          for (i = 0; i < n; ++i) { opk_vpoke(vlo, i, dl[sl ? 0 : i]); opk_vpoke(vup, i, du[su ? 0 : i]); }
          box = opk_new_boxset(space, lt == OPK_BOUND_NONE ? OPK_BOUND_NONE : OPK_BOUND_VECTOR, lt == OPK_BOUND_NONE ? NULL : vlo,
                               ut == OPK_BOUND_NONE ? OPK_BOUND_NONE : OPK_BOUND_VECTOR, ut == OPK_BOUND_NONE ? NULL : vup);
        }
        /* volatile and scalar bounds may be forgotten by the client */
        if (strncmp(lname, "STATIC", 6)) for (i = 0; i < MAXN; ++i) fl[i] = dl[i] = 77;
        if (strncmp(uname, "STATIC", 6)) for (i = 0; i < MAXN; ++i) fu[i] = du[i] = -77;
        if (alg) vm = opk_new_vmlmb_optimizer(opts, space, ls2, box); else cg = opk_new_nlcg_optimizer(opts, space, ls2);
        side_drv(drv, NULL); side_low();
        { char b1[200], b2[200]; size_t r1, r2;
          memset(b1, 0, sizeof b1); memset(b2, 0, sizeof b2);
          r1 = opk_get_name(b1, sizeof b1, drv);
          r2 = alg ? opk_copy_string(b2, sizeof b2, opk_get_vmlmb_method_name(vm)) : opk_get_nlcg_name(b2, sizeof b2, cg);
          jb("name", r1 == r2 && !strcmp(b1, b2));
          r1 = opk_get_description(b1, sizeof b1, drv);
          r2 = alg ? opk_get_vmlmb_description(b2, sizeof b2, vm) : opk_get_nlcg_description(b2, sizeof b2, cg);
          jb("desc", r1 == r2 && !strcmp(b1, b2)); }
        memset(x, 0, sizeof x); memset(g, 0, sizeof g);
        scramble();
      }
      printf("}\n");
    }
    else if (!strcmp(cmd, "end")) {
      finish();
      printf("{\"ev\":\"end\",\"live\":%ld,\"badfree\":%ld}\n", h_live, h_badfree);
    }
    else if (!strcmp(cmd, "nothing")) {
      /* calls without any optimizer */
      double v[1] = { 7 }, w[1] = { 8 }; int t1, t2;
      t1 = opk_start(NULL, v); t2 = opk_iterate(NULL, v, 0, w);
      opk_destroy_optimizer(NULL);
      printf("{\"ev\":\"nothing\",\"start\":\"%s\",\"iter\":\"%s\",\"same\":%s", h_task(t1), h_task(t2), v[0] == 7 && w[0] == 8 ? "true" : "false");
      side_drv(NULL, NULL); printf("}\n");
    }
    else if (drv == NULL) continue;
    else if (!strcmp(cmd, "start")) {
      int s = tl(), ret;
      for (i = 0; i < n; ++i) { x[i] = hunif(-2, 2); }
      if (tl()) { hseed(tl()); for (i = 0; i < n; ++i) x[i] = hint(-8, 8)/4.0; }
      put(0, s, x); get(0, s, x);
      for (i = 0; i < n; ++i) opk_vpoke(vx, i, x[i]);
      keep();
      H_ENTER; ret = opk_start(drv, slot(0, s)); H_LEAVE;
      if (alg) opk_start_vmlmb(vm, vx); else opk_start_nlcg(cg, vx);
      get(0, s, x);
      printf("{\"ev\":\"start\",\"ret\":\"%s\"", h_task(ret)); jb("intact", intact(s)); side_drv(drv, x); side_low(); printf("}\n");
    }
    else if (!strcmp(cmd, "problem")) { int id = tl(); setup(id, tl()); }
    else if (!strcmp(cmd, "iter")) {
      /* iter xslot gslot count: the arrays are moved to these slots, or the next ones */
      int s = tl(), t = tl(), count = tl();
      while (count-- > 0) {
        int ret, dead = opk_get_task(drv) == OPK_TASK_ERROR; double b[MAXN], b2[MAXN];
        if (opk_get_task(drv) == OPK_TASK_COMPUTE_FG || dead) { compute(); put(1, t, g); get(1, t, g); }
        for (i = 0; i < n; ++i) if (!(fabs(x[i]) < 1e15)) break;
        if (i < n) break;
        scramble(); put(0, s, x); put(1, t, g); get(1, t, g); keep(); memcpy(b, x, sizeof b);
        H_ENTER; ret = opk_iterate(drv, slot(0, s), f, slot(1, t)); H_LEAVE;
        printf("{\"ev\":\"iter\",\"ret\":\"%s\"", h_task(ret)); jb("intact", intact(s));
        get(0, s, b2); jb("xsame", !memcmp(b, b2, n*sizeof(double)));
        side_drv(drv, b2);
        for (i = 0; i < n; ++i) opk_vpoke(vg, i, g[i]);
        if (alg) opk_iterate_vmlmb(vm, vx, f, vg); else opk_iterate_nlcg(cg, vx, f, vg);
        side_low();
        printf("}\n");
        memcpy(x, b2, sizeof x);
        if (dead) break;
        s = (s + 1) % SLOTS; t = (t + 2) % SLOTS;
      }
    }
    else if (!strcmp(cmd, "poisoned") || !strcmp(cmd, "null")) {
      /* null what(0 start, 1 x, 2 g, 3 both): a missing array
         poisoned: a call with good arrays after that; the low level optimizer is not called */
      int k = cmd[0] == 'n' ? tl() : 4, ret; double b2[MAXN];
      put(0, 1, x); put(1, 2, g); keep();
      H_ENTER;
      ret = k == 0 ? opk_start(drv, NULL) : opk_iterate(drv, k & 1 ? NULL : slot(0, 1), f, k & 2 ? NULL : slot(1, 2));
      H_LEAVE;
      printf("{\"ev\":\"%s\",\"ret\":\"%s\"", cmd, h_task(ret)); jb("intact", intact(-1)); get(0, 1, b2); side_drv(drv, b2); side_low(); printf("}\n");
    }
    else return 3;
    fflush(stdout);
  }
  finish();
  return 0;
}
