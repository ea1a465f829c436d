/* Replays operations on bound sets; logs the contents of all vectors. */
#include "hcommon.h"
#include "optimpack.h"
#include "hstatus.h"

#define NV 7
#define NB 4
#define MAXN 512
#define PAD 3
/* vectors 1..5 are in space 1; 6 and 7 are in space 2 */
static opk_vspace* space[3];
static int isfloat[3], size[3];
static opk_vector* vect[NV + 1];
static const int owner[NV + 1] = {0, 1, 1, 1, 1, 1, 2, 2};
typedef union { double d[MAXN + 2*PAD]; float f[MAXN + 2*PAD]; } block;
static block mem[NV + 1];
static opk_convexset* box[NB + 1];
static block arr[NB + 1][2], arrcopy[NB + 1][2];
static int arrkind[NB + 1][2];  /* 0 none, 1 static, 2 volatile */
static double tmp[MAXN];

static void get(int v, double* out)
{
  int i, s = owner[v];
  for (i = 0; i < size[s]; ++i) out[i] = isfloat[s] ? (double)mem[v].f[PAD + i] : mem[v].d[PAD + i];
}
static void put(int v, const double* in)
{
  int i, s = owner[v];
  for (i = 0; i < size[s]; ++i) if (isfloat[s]) mem[v].f[PAD + i] = in[i]; else mem[v].d[PAD + i] = in[i];
}
static int guards(void)
{
  int v, i, s, b, k;
  for (v = 1; v <= NV; ++v) {
    s = owner[v];
    for (i = 0; i < PAD; ++i)
      if (isfloat[s] ? (mem[v].f[i] != -12345.f || mem[v].f[PAD + size[s] + i] != -12345.f)
          : (mem[v].d[i] != -12345. || mem[v].d[PAD + size[s] + i] != -12345.)) return 0;
  }
  /* the arrays of the client are never modified */
  for (b = 1; b <= NB; ++b) for (k = 0; k < 2; ++k)
    if (arrkind[b][k] && memcmp(&arr[b][k], &arrcopy[b][k], sizeof(block))) return 0;
  return 1;
}
static void tail(void)
{
  int v;
  printf(",\"guard\":%d,\"vecs\":[", guards());
  for (v = 1; v <= NV; ++v) { if (v > 1) putchar(','); get(v, tmp); jvec(stdout, tmp, size[owner[v]]); }
  printf("]}\n");
}
static char* cur;
static long tl(void) { return strtol(cur, &cur, 10); }
static double td(void) { return strtod(cur, &cur); }
static char* tw(void)
{
  char* w;
  while (*cur == ' ') ++cur;
  w = cur;
  while (*cur && *cur != ' ' && *cur != '\n') ++cur;
  if (*cur) *cur++ = 0;
  return w;
}
static const char* tname[] = {"NONE", "SCALAR_FLOAT", "SCALAR_DOUBLE", "STATIC_FLOAT", "STATIC_DOUBLE",
                              "VOLATILE_FLOAT", "VOLATILE_DOUBLE", "VECTOR"};
static const opk_bound_type tcode[] = {OPK_BOUND_NONE, OPK_BOUND_SCALAR_FLOAT, OPK_BOUND_SCALAR_DOUBLE,
  OPK_BOUND_STATIC_FLOAT, OPK_BOUND_STATIC_DOUBLE, OPK_BOUND_VOLATILE_FLOAT, OPK_BOUND_VOLATILE_DOUBLE, OPK_BOUND_VECTOR};
static float sf[2]; static double sd[2];
/* parse one bound: type, address given or not, value; prints its description */
static void* bound(int b, int k, int s, opk_bound_type* type)
{
  char* w = tw(); int t, i, addr = tl(); void* p = NULL; const char* pre = k ? "u" : "l";
  for (t = 0; t < 8; ++t) if (!strcmp(w, tname[t])) break;
  *type = t < 8 ? tcode[t] : (opk_bound_type)atoi(w);
  printf(",\"%st\":\"%s\",\"%sa\":%s,\"%sv\":", pre, w, pre, addr ? "true" : "false", pre);
  arrkind[b][k] = 0;
  if (addr && (t == 1 || t == 2)) {
    double x = td();
    if (t == 1) { sf[k] = x; p = &sf[k]; x = sf[k]; } else { sd[k] = x; p = &sd[k]; }
    jnum(stdout, x);
  } else if (addr && t == 7) {
    int v = tl(); p = vect[v]; printf("%d", v);
  } else if (addr && t >= 3 && t <= 6) {
    int f = (t == 3 || t == 5);
    memset(&arr[b][k], 0x77, sizeof(block));
    for (i = 0; i < size[s]; ++i) {
      double x = td();
      if (f) { arr[b][k].f[i] = x; tmp[i] = arr[b][k].f[i]; } else { arr[b][k].d[i] = x; tmp[i] = x; }
    }
    memcpy(&arrcopy[b][k], &arr[b][k], sizeof(block));
    jvec(stdout, tmp, size[s]);
    arrkind[b][k] = t <= 4 ? 1 : 2;
    p = &arr[b][k];
  } else {
    if (addr) p = &sd[k];
    printf("0");
  }
  return p;
}
static void jd(const char* name, double x) { printf(",\"%s\":", name); jnum(stdout, x); }

int main(void)
{
  static char line[1 << 16]; char* cmd; int v, i, s, b, k;
  setvbuf(stdout, NULL, _IOFBF, 1 << 20);
  while (fgets(line, sizeof line, stdin)) {
    cur = line; cmd = tw();
    if (!*cmd) continue;
    if (!strcmp(cmd, "reset")) {
      for (b = 1; b <= NB; ++b) { if (box[b]) OPK_DROP(box[b]); box[b] = NULL; arrkind[b][0] = arrkind[b][1] = 0; }
      for (v = 1; v <= NV; ++v) { if (vect[v]) OPK_DROP(vect[v]); vect[v] = NULL; }
      for (s = 1; s <= 2; ++s) {
        if (space[s]) OPK_DROP(space[s]);
        isfloat[s] = tl(); size[s] = tl();
        space[s] = isfloat[s] ? opk_new_simple_float_vector_space(size[s]) : opk_new_simple_double_vector_space(size[s]);
      }
      for (v = 1; v <= NV; ++v) {
        s = owner[v];
        for (i = 0; i < MAXN + 2*PAD; ++i) if (isfloat[s]) mem[v].f[i] = -12345.f; else mem[v].d[i] = -12345.;
        vect[v] = isfloat[s] ? opk_wrap_simple_float_vector(space[s], mem[v].f + PAD, NULL, NULL)
          : opk_wrap_simple_double_vector(space[s], mem[v].d + PAD, NULL, NULL);
      }
      printf("{\"ev\":\"reset\"}\n");
    } else if (!strcmp(cmd, "put")) {
      v = tl();
      for (i = 0; i < size[owner[v]]; ++i) tmp[i] = td();
      put(v, tmp);
    } else if (!strcmp(cmd, "load")) {
      printf("{\"ev\":\"load\",\"own\":[1,1,1,1,1,2,2],\"prec\":[\"%s\",\"%s\"]", isfloat[1] ? "float" : "double", isfloat[2] ? "float" : "double");
      tail();
    } else if (!strcmp(cmd, "fill")) {
      v = tl();
      for (i = 0; i < size[owner[v]]; ++i) tmp[i] = td();
      put(v, tmp);
      get(v, tmp);
      printf("{\"ev\":\"fill\",\"v\":%d,\"value\":", v); jvec(stdout, tmp, size[owner[v]]);
      tail();
    } else if (!strcmp(cmd, "scribble")) {
      b = tl();
      for (k = 0; k < 2; ++k) {
        if (arrkind[b][k] == 2) { memset(&arr[b][k], 0x3c, sizeof(block)); memset(&arrcopy[b][k], 0x3c, sizeof(block)); }
        sf[k] = 77; sd[k] = 78;
      }
      printf("{\"ev\":\"scribble\",\"b\":%d", b); tail();
    } else if (!strcmp(cmd, "box")) {
      opk_bound_type lt, ut; void* lo; void* up; long r0[NV + 3]; opk_convexset* c; int e;
      b = tl(); s = tl();
      printf("{\"ev\":\"box\",\"b\":%d,\"s\":%d", b, s);
      lo = bound(b, 0, s ? s : 1, &lt); up = bound(b, 1, s ? s : 1, &ut);
      for (v = 1; v <= NV; ++v) r0[v] = opk_get_object_references((opk_object*)vect[v]);
      for (i = 1; i <= 2; ++i) r0[NV + i] = opk_get_object_references((opk_object*)space[i]);
      if (box[b]) abort();
      errno = 0;
      c = opk_new_boxset(s ? space[s] : NULL, lt, lo, ut, up);
      e = errno;
      box[b] = c;
      printf(",\"st\":\"%s\",\"errno\":\"%s\",\"refs\":[", c ? "ok" : "fail", c ? "" : e == EINVAL ? "EINVAL" : e == EFAULT ? "EFAULT" : e == ENOMEM ? "ENOMEM" : "?");
      for (v = 1; v <= NV; ++v) printf("%s%ld", v > 1 ? "," : "", (long)opk_get_object_references((opk_object*)vect[v]) - r0[v]);
      /* spaces: only whether anything remains of a failed creation */
      for (i = 1; i <= 2; ++i) printf(",%ld", c ? 0L : (long)opk_get_object_references((opk_object*)space[i]) - r0[NV + i]);
      printf("]"); tail();
    } else if (!strcmp(cmd, "can")) {
      b = tl();
      printf("{\"ev\":\"can\",\"b\":%d,\"can\":[%d,%d,%d,%d]", b, opk_can_project_variables(box[b]) != 0,
             opk_can_project_directions(box[b]) != 0, opk_can_get_free_variables(box[b]) != 0,
             opk_can_get_step_limits(box[b]) != 0);
      tail();
    } else if (!strcmp(cmd, "projvar")) {
      int dst = tl(), x = tl(); opk_status st; b = tl();
      st = opk_project_variables(dst ? vect[dst] : NULL, x ? vect[x] : NULL, b ? box[b] : NULL);
      printf("{\"ev\":\"projvar\",\"dst\":%d,\"x\":%d,\"b\":%d,\"st\":\"%s\"", dst, x, b, h_status(st)); tail();
    } else if (!strcmp(cmd, "projdir") || !strcmp(cmd, "freevar")) {
      int dst = tl(), x = tl(), d, o; opk_status st; b = tl(); d = tl(); o = tl();
      st = (cmd[0] == 'p' ? opk_project_direction : opk_get_free_variables)
        (dst ? vect[dst] : NULL, x ? vect[x] : NULL, b ? box[b] : NULL, d ? vect[d] : NULL, (opk_orientation)o);
      printf("{\"ev\":\"%s\",\"dst\":%d,\"x\":%d,\"b\":%d,\"d\":%d,\"o\":%d,\"st\":\"%s\"", cmd, dst, x, b, d, o, h_status(st)); tail();
    } else if (!strcmp(cmd, "steplim")) {
      int x = tl(), d, o, ask; double r[3] = {-7, -7, -7}; opk_status st; b = tl(); d = tl(); o = tl(); ask = tl();
      st = opk_get_step_limits(ask & 1 ? &r[0] : NULL, ask & 2 ? &r[1] : NULL, ask & 4 ? &r[2] : NULL,
                               x ? vect[x] : NULL, b ? box[b] : NULL, d ? vect[d] : NULL, (opk_orientation)o);
      printf("{\"ev\":\"steplim\",\"x\":%d,\"b\":%d,\"d\":%d,\"o\":%d,\"ask\":[%d,%d,%d],\"s\":", x, b, d, o, ask & 1, (ask >> 1) & 1, (ask >> 2) & 1);
      jvec(stdout, r, 3); jd("s0", -7); printf(",\"st\":\"%s\"", h_status(st)); tail();
    } else return 3;
    fflush(stdout);
  }
  return 0;
}
