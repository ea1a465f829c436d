/* Replays uses of wrapped vectors (Wrap.tla). */
#include "hcommon.h"
#include "optimpack.h"
#include "hstatus.h"
#define NV 4
#define NM 3
#define NN 3
#define PAD 2
static int fl;
static opk_vspace *space, *other;
static opk_vector* vect[NV + 1];
static opk_vector* alien;
static int refs[NV + 1];
static union { double d[NN + 2*PAD]; float f[NN + 2*PAD]; } mem[NM + 1];
static int datum[3];
static int calls[64][2], ncalls, early, current;
static void record(int cb, void* data);
static void cb1(void* d) { record(1, d); }
static void cb2(void* d) { record(2, d); }
static void (*cbs[3])(void*) = {NULL, cb1, cb2};
static void* cds[3] = {NULL, &datum[1], &datum[2]};
static int cbidx(opk_free_proc* p) { return p == cb1 ? 1 : p == cb2 ? 2 : p == NULL ? 0 : 9; }
static int cdidx(void* p) { int i; for (i = 0; i < 3; ++i) if (cds[i] == p) return i; return 9; }
static opk_free_proc* getcb(opk_vector* v) { return fl ? opk_get_simple_float_vector_free_client_data(v) : opk_get_simple_double_vector_free_client_data(v); }
static void* getcd(opk_vector* v) { return fl ? opk_get_simple_float_vector_client_data(v) : opk_get_simple_double_vector_client_data(v); }
static void* getdata(opk_vector* v) { return fl ? (void*)opk_get_simple_float_vector_data(v) : (void*)opk_get_simple_double_vector_data(v); }
static void* arr(int m) { return fl ? (void*)(mem[m].f + PAD) : (void*)(mem[m].d + PAD); }
static int memidx(void* p) { int m; for (m = 1; m <= NM; ++m) if (arr(m) == p) return m; return 9; }
static void record(int cb, void* d)
{
  calls[ncalls][0] = cb; calls[ncalls][1] = cdidx(d); ++ncalls;
  /* while re-wrapping, the vector no longer refers to what is released */
  if (current && cbidx(getcb(vect[current])) == cb && getcd(vect[current]) == d) early = 1;
}
static void setup(int f)
{
  int m, i, v;
  fl = f;
  for (v = 1; v <= NV; ++v) { vect[v] = NULL; refs[v] = 0; }
  if (space) { opk_drop_object((opk_object*)space); opk_drop_object((opk_object*)other); }
  space = fl ? opk_new_simple_float_vector_space(NN) : opk_new_simple_double_vector_space(NN);
  other = fl ? opk_new_simple_double_vector_space(NN) : opk_new_simple_float_vector_space(NN);
  alien = opk_vcreate(other);
  for (m = 1; m <= NM; ++m) for (i = 0; i < NN + 2*PAD; ++i) {
    double x = i < PAD || i >= PAD + NN ? -777 : 0;
    if (fl) mem[m].f[i] = x; else mem[m].d[i] = x;
  }
}
static void tail(void)
{
  int m, i, v, g = 1;
  printf(",\"calls\":[");
  for (i = 0; i < ncalls; ++i) printf("%s[%d,%d]", i ? "," : "", calls[i][0], calls[i][1]);
  printf("],\"early\":%d,\"mem\":[", early);
  for (m = 1; m <= NM; ++m) {
    printf("%s[", m > 1 ? "," : "");
    for (i = 0; i < NN + 2*PAD; ++i) {
      double x = fl ? mem[m].f[i] : mem[m].d[i];
      if (i < PAD || i >= PAD + NN) { if (x != -777) g = 0; }
      else printf("%s%d", i > PAD ? "," : "", (int)x);
    }
    putchar(']');
  }
  printf("],\"guard\":%d,\"info\":[", g);
  for (v = 1; v <= NV; ++v) {
    if (refs[v] > 0) printf("%s[%d,%d,%d]", v > 1 ? "," : "", memidx(getdata(vect[v])), cbidx(getcb(vect[v])), cdidx(getcd(vect[v])));
    else printf("%s[0,0,0]", v > 1 ? "," : "");
  }
  printf("]}\n");
  ncalls = 0; early = 0; current = 0;
}
int main(void)
{
  char line[128], cmd[16]; int a[5];
  setvbuf(stdout, NULL, _IOFBF, 1 << 20);
  while (fgets(line, sizeof line, stdin)) {
    memset(a, 0, sizeof a);
    if (sscanf(line, "%15s %d %d %d %d", cmd, a, a+1, a+2, a+3) < 1) continue;
    int v = a[0];
    if (!strcmp(cmd, "reset")) { setup(a[0]); ncalls = early = current = 0; printf("{\"ev\":\"reset\"}\n"); continue; }
    if (!strcmp(cmd, "end")) { opk_drop_object((opk_object*)alien); printf("{\"ev\":\"end\"}\n"); continue; }
    if (!strcmp(cmd, "wrap")) {
      vect[v] = fl ? opk_wrap_simple_float_vector(space, arr(a[1]), cbs[a[2]], cds[a[3]])
                   : opk_wrap_simple_double_vector(space, arr(a[1]), cbs[a[2]], cds[a[3]]);
      refs[v] = vect[v] != NULL;
      printf("{\"ev\":\"wrap\",\"v\":%d,\"m\":%d,\"cb\":%d,\"cd\":%d,\"ok\":%d", v, a[1], a[2], a[3], vect[v] != NULL);
    } else if (!strcmp(cmd, "rewrap")) {
      current = v;
      int st = fl ? opk_rewrap_simple_float_vector(vect[v], arr(a[1]), cbs[a[2]], cds[a[3]])
                  : opk_rewrap_simple_double_vector(vect[v], arr(a[1]), cbs[a[2]], cds[a[3]]);
      printf("{\"ev\":\"rewrap\",\"v\":%d,\"m\":%d,\"cb\":%d,\"cd\":%d,\"st\":\"%s\"", v, a[1], a[2], a[3], h_status(st));
    } else if (!strcmp(cmd, "hold")) {
      opk_hold_object((opk_object*)vect[v]); ++refs[v];
      printf("{\"ev\":\"hold\",\"v\":%d", v);
    } else if (!strcmp(cmd, "drop")) {
      if (--refs[v] > 0) current = v;
      opk_drop_object((opk_object*)vect[v]);
      printf("{\"ev\":\"drop\",\"v\":%d", v);
    } else if (!strcmp(cmd, "fill")) {
      opk_vfill(vect[v], a[1]); printf("{\"ev\":\"fill\",\"v\":%d,\"a\":%d", v, a[1]);
    } else if (!strcmp(cmd, "poke")) {
      opk_vpoke(vect[v], a[1] - 1, a[2]); printf("{\"ev\":\"poke\",\"v\":%d,\"k\":%d,\"a\":%d", v, a[1], a[2]);
    } else if (!strcmp(cmd, "peek")) {
      double x = -1; opk_vpeek(vect[v], a[1] - 1, &x); printf("{\"ev\":\"peek\",\"v\":%d,\"k\":%d,\"a\":%d", v, a[1], (int)x);
    } else if (!strcmp(cmd, "copy")) {
      opk_vcopy(vect[v], vect[a[1]]); printf("{\"ev\":\"copy\",\"v\":%d,\"w\":%d", v, a[1]);
    } else if (!strcmp(cmd, "badwrap")) {
      int ok = 0;
      switch (a[1]) {
      case 0: ok = (fl ? opk_rewrap_simple_float_vector(vect[v], NULL, cb1, &datum[1]) : opk_rewrap_simple_double_vector(vect[v], NULL, cb1, &datum[1])) == OPK_SUCCESS; break;
      case 1: ok = (fl ? opk_rewrap_simple_double_vector(vect[v], mem[1].d, cb1, &datum[1]) : opk_rewrap_simple_float_vector(vect[v], mem[1].f, cb1, &datum[1])) == OPK_SUCCESS; break;
      case 2: ok = (fl ? opk_rewrap_simple_float_vector(NULL, arr(1), cb1, &datum[1]) : opk_rewrap_simple_double_vector(NULL, arr(1), cb1, &datum[1])) == OPK_SUCCESS; break;
      case 3: ok = (fl ? opk_wrap_simple_float_vector(space, NULL, cb1, &datum[1]) : opk_wrap_simple_double_vector(space, NULL, cb1, &datum[1])) != NULL; break;
      case 4: ok = (fl ? opk_wrap_simple_double_vector(space, mem[1].d, cb1, &datum[1]) : opk_wrap_simple_float_vector(space, mem[1].f, cb1, &datum[1])) != NULL; break;
      case 5: ok = (fl ? opk_rewrap_simple_float_vector(alien, arr(1), cb1, &datum[1]) : opk_rewrap_simple_double_vector(alien, arr(1), cb1, &datum[1])) == OPK_SUCCESS; break;
      }
      printf("{\"ev\":\"badwrap\",\"ok\":%d", ok);
    } else return 3;
    tail();
  }
  return 0;
}
