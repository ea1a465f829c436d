/* Replays vector operations; logs the contents of all vectors after each. */
#include "hcommon.h"
#include "optimpack.h"
#include "optimpack-private.h"
#include "hstatus.h"
#include <unistd.h>
#include <sys/wait.h>

#define NV 5
#define MAXN 64
#define PAD 4
static opk_vspace* space[3];
static int isfloat[3], size[3];
static opk_vector* vect[NV + 1];
static const int owner[NV + 1] = {0, 1, 1, 1, 2, 2};
static union { double d[MAXN + 2*PAD]; float f[MAXN + 2*PAD]; } mem[NV + 1];
static int wrapped[NV + 1];
static int exact;
static const char* RT; static const char* ST;

static long calls[2];
static char lastmsg[256];
static void handler1(const char* m) { ++calls[0]; strncpy(lastmsg, m, 255); }
static void handler2(const char* m) { ++calls[1]; strncpy(lastmsg, m, 255); }
static opk_error_handler* dflt;
static const char* hname(opk_error_handler* h)
{ return h == handler1 ? "h1" : h == handler2 ? "h2" : h == dflt ? "default" : "?"; }

static void get(int v, double* out)
{
  int i, s = owner[v];
  if (isfloat[s]) { float* p = opk_get_simple_float_vector_data(vect[v]); for (i = 0; i < size[s]; ++i) out[i] = p[i]; }
  else { double* p = opk_get_simple_double_vector_data(vect[v]); for (i = 0; i < size[s]; ++i) out[i] = p[i]; }
}
static void put(int v, const double* in)
{
  int i, s = owner[v];
  if (isfloat[s]) { float* p = opk_get_simple_float_vector_data(vect[v]); for (i = 0; i < size[s]; ++i) p[i] = in[i]; }
  else { double* p = opk_get_simple_double_vector_data(vect[v]); for (i = 0; i < size[s]; ++i) p[i] = in[i]; }
}
static int guards(void)
{
  int v, i, s, ok = 1;
  for (v = 1; v <= NV; ++v) if (wrapped[v]) {
    s = owner[v];
    for (i = 0; i < PAD; ++i)
      if (isfloat[s]) { if (mem[v].f[i] != -12345.f || mem[v].f[PAD + size[s] + i] != -12345.f) ok = 0; }
      else { if (mem[v].d[i] != -12345. || mem[v].d[PAD + size[s] + i] != -12345.) ok = 0; }
  }
  return ok;
}
static void tail(void)
{
  int v; double b[MAXN];
  printf(",\"h1\":%ld,\"h2\":%ld,\"guard\":%d,\"rtol\":\"%s\",\"stol\":\"%s\",\"vecs\":[", calls[0], calls[1], guards(), RT, ST);
  for (v = 1; v <= NV; ++v) { if (v > 1) putchar(','); get(v, b); jvec(stdout, b, size[owner[v]]); }
  printf("]}\n");
}
static void setup(int t1, int n1, int t2, int n2, int variant)
{
  int v, i, s;
  for (v = 1; v <= NV; ++v) { if (vect[v]) opk_drop_object((opk_object*)vect[v]); vect[v] = NULL; }
  for (s = 1; s <= 2; ++s) { if (space[s]) opk_drop_object((opk_object*)space[s]); }
  isfloat[1] = t1; isfloat[2] = t2; size[1] = n1; size[2] = n2;
  for (s = 1; s <= 2; ++s) space[s] = isfloat[s] ? opk_new_simple_float_vector_space(size[s]) : opk_new_simple_double_vector_space(size[s]);
  for (v = 1; v <= NV; ++v) {
    s = owner[v];
    wrapped[v] = (variant >> v) & 1;
    for (i = 0; i < MAXN + 2*PAD; ++i) { if (isfloat[s]) mem[v].f[i] = -12345.f; else mem[v].d[i] = -12345.; }
    if (!wrapped[v]) vect[v] = opk_vcreate(space[s]);
    else if (isfloat[s]) vect[v] = opk_wrap_simple_float_vector(space[s], mem[v].f + PAD, NULL, NULL);
    else vect[v] = opk_wrap_simple_double_vector(space[s], mem[v].d + PAD, NULL, NULL);
  }
}
static const char* mode; static int ran[8], nran;
static opk_status mst = OPK_SUCCESS; static double mval;
static opk_status m_direct(opk_operator* op, opk_vector* dst, const opk_vector* src) { ran[nran++] = 0; if (mst == OPK_SUCCESS) opk_vfill(dst, mval); return mst; }
static opk_status m_adjoint(opk_operator* op, opk_vector* dst, const opk_vector* src) { ran[nran++] = 1; if (mst == OPK_SUCCESS) opk_vfill(dst, mval); return mst; }
static opk_status m_inverse(opk_operator* op, opk_vector* dst, const opk_vector* src) { ran[nran++] = 2; if (mst == OPK_SUCCESS) opk_vfill(dst, mval); return mst; }
static const char* mnames[3] = {"direct", "adjoint", "inverse"};

static double value(void)
{ return exact ? hint(-32, 32)/4.0 : hunif(-3, 3)*(hint(0,3) ? 1 : 1e3); }

static void jd(const char* name, double x) { printf(",\"%s\":", name); jnum(stdout, x); }
int main(void)
{
  char line[512], cmd[32]; double b[MAXN];
  setvbuf(stdout, NULL, _IOFBF, 1 << 20);
  dflt = opk_get_error_handler();
  int i, v;
  RT = ST = "0";
  while (fgets(line, sizeof line, stdin)) {
    char* p = line; int off;
    if (sscanf(p, "%31s%n", cmd, &off) != 1) continue;
    p += off;
    if (!strcmp(cmd, "reset")) {
      int t1, n1, t2, n2, var; unsigned long seed;
      sscanf(p, "%d %d %d %d %d %lu", &t1, &n1, &t2, &n2, &var, &seed);
      setup(t1, n1, t2, n2, var); hseed(seed);
      opk_set_error_handler(NULL); calls[0] = calls[1] = 0;
      printf("{\"ev\":\"reset\"}\n");
      continue;
    }
    if (!strcmp(cmd, "load")) {
      int nan_at = 0;
      sscanf(p, "%d %d", &exact, &nan_at);
      RT = exact ? "0" : (isfloat[1] || isfloat[2]) ? "2e-6" : "4e-15";
      ST = (isfloat[1] || isfloat[2]) ? "1e-6" : "4e-15";
      for (v = 1; v <= NV; ++v) { for (i = 0; i < size[owner[v]]; ++i) b[i] = (v == nan_at) ? NAN : value(); put(v, b); }
      printf("{\"ev\":\"load\",\"own\":[1,1,1,2,2]"); tail();
      continue;
    }
    if (cmd[0] == 'v' && strcmp(cmd, "vpeek") && strcmp(cmd, "vpoke") && strcmp(cmd, "vimport") && strcmp(cmd, "vexport")) {
      int d = 0, x = 0, y = 0, z = 0; double a = 0, bb = 0, c = 0, ret = 0; int hasret = 0;
      if (!strcmp(cmd, "vzero")) { sscanf(p, "%d", &d); opk_vzero(vect[d]); }
      else if (!strcmp(cmd, "vfill")) { sscanf(p, "%d %lf", &d, &a); opk_vfill(vect[d], a); }
      else if (!strcmp(cmd, "vcopy")) { sscanf(p, "%d %d", &d, &x); opk_vcopy(vect[d], vect[x]); }
      else if (!strcmp(cmd, "vswap")) { sscanf(p, "%d %d", &d, &x); opk_vswap(vect[d], vect[x]); }
      else if (!strcmp(cmd, "vscale")) { sscanf(p, "%d %lf %d", &d, &a, &x); opk_vscale(vect[d], a, vect[x]); }
      else if (!strcmp(cmd, "vproduct")) { sscanf(p, "%d %d %d", &d, &x, &y); opk_vproduct(vect[d], vect[x], vect[y]); }
      else if (!strcmp(cmd, "vaxpby")) { sscanf(p, "%d %lf %d %lf %d", &d, &a, &x, &bb, &y); opk_vaxpby(vect[d], a, vect[x], bb, vect[y]); }
      else if (!strcmp(cmd, "vaxpbypcz")) { sscanf(p, "%d %lf %d %lf %d %lf %d", &d, &a, &x, &bb, &y, &c, &z); opk_vaxpbypcz(vect[d], a, vect[x], bb, vect[y], c, vect[z]); }
      else if (!strcmp(cmd, "vdot")) { sscanf(p, "%d %d", &d, &x); ret = opk_vdot(vect[d], vect[x]); }
      else if (!strcmp(cmd, "vdot3")) { sscanf(p, "%d %d %d", &d, &x, &y); ret = opk_vdot3(vect[d], vect[x], vect[y]); }
      else if (!strcmp(cmd, "vnorm1")) { sscanf(p, "%d", &d); ret = opk_vnorm1(vect[d]); }
      else if (!strcmp(cmd, "vnorm2")) { sscanf(p, "%d", &d); ret = opk_vnorm2(vect[d]); }
      else if (!strcmp(cmd, "vnorminf")) { sscanf(p, "%d", &d); ret = opk_vnorminf(vect[d]); }
      else return 3;
      printf("{\"ev\":\"%s\",\"d\":%d,\"x\":%d,\"y\":%d,\"z\":%d", cmd, d, x, y, z);
      jd("a", a); jd("b", bb); jd("c", c); jd("ret", ret);
      tail();
      continue;
    }
    if (!strcmp(cmd, "vpeek")) {
      int d; long k; int nn; double r = 4321, r0 = 4321; opk_status st;
      sscanf(p, "%d %ld %d", &d, &k, &nn);
      st = opk_vpeek(nn == 2 ? NULL : vect[d], k, nn == 0 ? NULL : &r);
      if (k > 1000000) k = 1000000;
      printf("{\"ev\":\"vpeek\",\"d\":%d,\"k\":%ld,\"nn\":%s,\"st\":\"%s\"", d, k, nn == 1 ? "true" : "false", h_status(st));
      jd("ret", r); jd("ret0", r0); tail();
      continue;
    }
    if (!strcmp(cmd, "vpoke")) {
      int d; long k; int nn; double a; opk_status st;
      sscanf(p, "%d %ld %d %lf", &d, &k, &nn, &a);
      st = opk_vpoke(nn != 1 ? NULL : vect[d], k, a);
      if (k > 1000000) k = 1000000;
      printf("{\"ev\":\"vpoke\",\"d\":%d,\"k\":%ld,\"nn\":%s,\"st\":\"%s\"", d, k, nn == 1 ? "true" : "false", h_status(st));
      jd("a", a); tail();
      continue;
    }
    if (!strcmp(cmd, "vimport") || !strcmp(cmd, "vexport")) {
      int d, nn, n; char type[16]; opk_status st; int imp = cmd[1] == 'i';
      double db[MAXN]; float fb[MAXN]; double b0[MAXN];
      opk_eltype et;
      sscanf(p, "%d %15s %d %d", &d, type, &n, &nn);
      int m = size[owner[d]];
      et = !strcmp(type, "float") ? OPK_FLOAT : !strcmp(type, "double") ? OPK_DOUBLE : (opk_eltype)atoi(type);
      for (i = 0; i < m; ++i) { b0[i] = value(); db[i] = b0[i]; fb[i] = b0[i]; b0[i] = et == OPK_FLOAT ? fb[i] : db[i]; }
      void* buf = nn == 0 ? NULL : et == OPK_FLOAT ? (void*)fb : (void*)db;
      if (imp) st = opk_vimport(nn == 2 ? NULL : vect[d], buf, et, n);
      else st = opk_vexport(buf, et, n, nn == 2 ? NULL : vect[d]);
      printf("{\"ev\":\"%s\",\"d\":%d,\"type\":\"%s\",\"n\":%d,\"nn\":%s,\"st\":\"%s\",\"buf0\":", cmd, d, type, n, nn == 1 ? "true" : "false", h_status(st));
      jvec(stdout, b0, m); printf(",\"buf\":");
      for (i = 0; i < m; ++i) b[i] = et == OPK_FLOAT ? fb[i] : db[i];
      jvec(stdout, b, m); tail();
      continue;
    }
    if (!strcmp(cmd, "sethandler")) {
      char h[16]; opk_error_handler *hh, *f;
      sscanf(p, "%15s", h);
      hh = !strcmp(h, "h1") ? handler1 : !strcmp(h, "h2") ? handler2 : NULL;
      f = opk_set_error_handler(hh);
      printf("{\"ev\":\"sethandler\",\"h\":\"%s\",\"former\":\"%s\",\"now\":\"%s\"", h, hname(f), hname(opk_get_error_handler()));
      tail();
      continue;
    }
    if (!strcmp(cmd, "throw")) {
      char m[64]; sscanf(p, "%63s", m);
      lastmsg[0] = 0;
      opk_error(m);
      printf("{\"ev\":\"throw\",\"msg\":"); jstr(stdout, m); printf(",\"got\":"); jstr(stdout, lastmsg); tail();
      continue;
    }
    if (!strcmp(cmd, "throwdefault")) {
      int fd[2], st; pid_t pid; char buf[512]; int k, tot = 0;
      fflush(stdout);
      if (pipe(fd)) return 4;
      pid = fork();
      if (pid == 0) { close(fd[0]); dup2(fd[1], 2); opk_error("some-misuse"); _exit(0); }
      close(fd[1]);
      while ((k = read(fd[0], buf + tot, sizeof buf - 1 - tot)) > 0) tot += k;
      buf[tot] = 0; close(fd[0]);
      waitpid(pid, &st, 0);
      printf("{\"ev\":\"throwdefault\",\"ended\":%d,\"printed\":%d", WIFEXITED(st) ? WEXITSTATUS(st) : 256, strstr(buf, "some-misuse") != NULL);
      tail();
      continue;
    }
    if (!strcmp(cmd, "apply")) {
      /* apply mode methods inp out d x fail opnull */
      int m, methods, inp, out, d, x, fl, opnull, k; opk_status st;
      opk_operator_operations ops; opk_operator* op;
      sscanf(p, "%d %d %d %d %d %d %d %d", &m, &methods, &inp, &out, &d, &x, &fl, &opnull);
      memset(&ops, 0, sizeof ops);
      if (methods & 1) ops.apply_direct = m_direct;
      if (methods & 2) ops.apply_adjoint = m_adjoint;
      if (methods & 4) ops.apply_inverse = m_inverse;
      op = opk_allocate_operator(&ops, space[inp], space[out], 0);
      nran = 0; mst = fl ? OPK_NOT_POSITIVE_DEFINITE : OPK_SUCCESS; mval = m + 17;
      st = (m == 0 ? opk_apply_direct : m == 1 ? opk_apply_adjoint : opk_apply_inverse)
        (opnull ? NULL : op, d ? vect[d] : NULL, x ? vect[x] : NULL);
      opk_drop_object((opk_object*)op);
      printf("{\"ev\":\"apply\",\"mode\":\"%s\",\"methods\":[", mnames[m]);
      for (k = i = 0; i < 3; ++i) if (methods & (1 << i)) printf("%s\"%s\"", k++ ? "," : "", mnames[i]);
      printf("],\"ran\":[");
      for (i = 0; i < nran; ++i) printf("%s\"%s\"", i ? "," : "", mnames[ran[i]]);
      printf("],\"inp\":%d,\"out\":%d,\"d\":%d,\"x\":%d,\"op\":%d,\"mst\":\"%s\",\"st\":\"%s\"", inp, out, d, x, !opnull, h_status(mst), h_status(st));
      jd("a", mval); tail();
      continue;
    }
    return 3;
  }
  return 0;
}
