/* Interpreter of behaviours of Objects.tla: one line per call. After each
   call, the reference counts reported by the library and the objects whose
   memory was released by the call are logged. */
#define H_TRACK_ALLOC 1
#include "hcommon.h"
#include "optimpack.h"
#include "optimpack-private.h"

#define MAXID 64
#define N 3
static void* obj[MAXID];
static int kind[MAXID]; /* 0 none, 1 space(double), 2 ... */
static int isfloat[MAXID];
static int sp[MAXID];
static int dead[MAXID];
static int freed[MAXID], nfreed;
static double dstore[MAXID][N];
static float fstore[MAXID][N];
static int nrun[MAXID];
enum { NONE, SPACE, VEC, WRAP, BOX, OPER, LNSRCH, VMLMB, NLCG };

static void on_free(void* p)
{
  int i;
  for (i = 0; i < MAXID; ++i) if (obj[i] == p && !dead[i]) { dead[i] = 1; freed[nfreed++] = i; }
}
static void handler(const char* msg) { (void)msg; }
static opk_status nop(opk_operator* self, opk_vector* dst, const opk_vector* src) { return OPK_SUCCESS; }
static opk_operator_operations oper_ops = { NULL, nop, nop, nop };

static void report(const char* ev, int o, const char* more)
{
  int i, k = 0;
  printf("{\"ev\":\"%s\",\"o\":%d%s,\"refs\":[", ev, o, more);
  for (i = 1; i < MAXID; ++i) if (obj[i] && !dead[i])
    printf("%s[%d,%ld]", k++ ? "," : "", i, (long)opk_get_object_references((opk_object*)obj[i]));
  printf("],\"freed\":[");
  for (i = 0; i < nfreed; ++i) printf("%s%d", i ? "," : "", freed[i]);
  printf("],\"badfree\":%ld}\n", h_badfree);
  nfreed = 0;
}
static int fail(const char* ev, int o)
{
  printf("{\"ev\":\"failed\",\"call\":\"%s\",\"o\":%d,\"errno\":%d,\"refs\":[],\"freed\":[],\"badfree\":0}\n", ev, o, errno);
  return 0;
}
/* One step of an optimizer on 1/2 sum_i w_i (x_i - 1)^2. */
static void run(int o, int x)
{
  opk_vector* v = (opk_vector*)obj[x];
  opk_task task;
  opk_vector* g;
  double f = 0; int i;
  if (kind[o] == VMLMB) task = nrun[o] ? opk_get_vmlmb_task(obj[o]) : opk_start_vmlmb(obj[o], v);
  else                  task = nrun[o] ? opk_get_nlcg_task(obj[o]) : opk_start_nlcg(obj[o], v);
  ++nrun[o];
  g = opk_vcreate(v->owner);
  if (g == NULL) return;
  for (i = 0; i < N; ++i) {
    double xi; opk_vpeek(v, i, &xi);
    f += 0.5*(i + 1)*(xi - 1)*(xi - 1);
    opk_vpoke(g, i, (i + 1)*(xi - 1));
  }
  if (kind[o] == VMLMB) opk_iterate_vmlmb(obj[o], v, f, g);
  else                  opk_iterate_nlcg(obj[o], v, f, g);
  opk_drop_object((opk_object*)g);
}

int main(int argc, char** argv)
{
  char line[256], cmd[32], more[128];
  int a[6], n, i, variant = 0;
  setvbuf(stdout, NULL, _IOFBF, 1 << 20);
  h_on_free = on_free;
  opk_set_error_handler(handler);
  while (fgets(line, sizeof line, stdin)) {
    memset(a, 0, sizeof a);
    n = sscanf(line, "%31s %d %d %d %d %d", cmd, a, a+1, a+2, a+3, a+4);
    if (n < 1) continue;
    if (!strcmp(cmd, "reset")) {
      fflush(stdout);
      h_reset();
      memset(obj, 0, sizeof obj); memset(dead, 0, sizeof dead); memset(kind, 0, sizeof kind);
      memset(nrun, 0, sizeof nrun);
      nfreed = 0; variant = a[0];
      printf("{\"ev\":\"reset\"}\n");
      continue;
    }
    if (!strcmp(cmd, "end")) {
      printf("{\"ev\":\"end\",\"live\":%ld,\"badfree\":%ld}\n", h_live, h_badfree);
      continue;
    }
    more[0] = 0;
    int o = a[0];
    H_ENTER;
    if (!strcmp(cmd, "space")) {
      isfloat[o] = (variant & 1);
      obj[o] = isfloat[o] ? opk_new_simple_float_vector_space(N) : opk_new_simple_double_vector_space(N);
      kind[o] = SPACE;
    } else if (!strcmp(cmd, "vector")) {
      int s = a[1]; isfloat[o] = isfloat[s]; kind[o] = VEC; sp[o] = s;
      obj[o] = opk_vcreate(obj[s]);
      if (obj[o]) opk_vfill(obj[o], 0);
      sprintf(more, ",\"s\":%d", s);
    } else if (!strcmp(cmd, "wrapped")) {
      int s = a[1]; isfloat[o] = isfloat[s]; kind[o] = WRAP; sp[o] = s;
      for (i = 0; i < N; ++i) { dstore[o][i] = 0; fstore[o][i] = 0; }
      obj[o] = isfloat[o]
        ? (void*)opk_wrap_simple_float_vector(obj[s], fstore[o], NULL, NULL)
        : (void*)opk_wrap_simple_double_vector(obj[s], dstore[o], NULL, NULL);
      sprintf(more, ",\"s\":%d", s);
    } else if (!strcmp(cmd, "box")) {
      int s = a[1]; double big = -1e3, hi = 1e3;
      static double lod[N] = {-1e3,-1e3,-1e3}, upd[N] = {1e3,1e3,1e3};
      opk_bound_type tl = OPK_BOUND_VECTOR, tu = OPK_BOUND_VECTOR;
      void* pl = a[2] ? obj[a[2]] : NULL; void* pu = a[3] ? obj[a[3]] : NULL;
      if (!a[2]) { if (a[3] && ((variant >> 1) & 1) == 0) { tl = OPK_BOUND_NONE; } else { tl = OPK_BOUND_SCALAR_DOUBLE; pl = &big; } }
      if (!a[3]) { if (((variant >> 1) & 1) == 0) { tu = OPK_BOUND_NONE; }
                   else if (isfloat[s] || (variant & 4)) { tu = OPK_BOUND_SCALAR_DOUBLE; pu = &hi; }
                   else { tu = OPK_BOUND_VOLATILE_DOUBLE; pu = upd; } }
      isfloat[o] = isfloat[s]; kind[o] = BOX; sp[o] = s;
      obj[o] = opk_new_boxset(obj[s], tl, pl, tu, pu);
      sprintf(more, ",\"s\":%d,\"lo\":%d,\"up\":%d", s, a[2], a[3]);
    } else if (!strcmp(cmd, "oper")) {
      kind[o] = OPER;
      obj[o] = opk_allocate_operator(&oper_ops, obj[a[1]], obj[a[2]], sizeof(opk_operator));
      sprintf(more, ",\"s\":%d,\"t\":%d", a[1], a[2]);
    } else if (!strcmp(cmd, "lnsrch")) {
      kind[o] = LNSRCH;
      obj[o] = (variant & 2) ? (void*)opk_lnsrch_new_backtrack(1e-4, 0.1) :
        (variant & 4) ? (void*)opk_lnsrch_new_nonmonotone(4, 1e-4, 0.1, 0.9) :
        (void*)opk_lnsrch_new_csrch(1e-4, 0.9, 0.1);
    } else if (!strcmp(cmd, "vmlmb")) {
      opk_vmlmb_options opts; int s = a[1];
      opk_get_vmlmb_default_options(&opts);
      opts.mem = 2; opts.blmvm = (variant & 8) != 0; opts.save_memory = (variant & 16) != 0;
      kind[o] = VMLMB; sp[o] = s; isfloat[o] = isfloat[s];
      obj[o] = opk_new_vmlmb_optimizer(&opts, obj[s], a[2] ? obj[a[2]] : NULL, a[3] ? obj[a[3]] : NULL);
      sprintf(more, ",\"s\":%d,\"ls\":%d,\"b\":%d", s, a[2], a[3]);
    } else if (!strcmp(cmd, "nlcg")) {
      int s = a[1];
      static const unsigned flags[4] = { OPK_NLCG_POLAK_RIBIERE_POLYAK|OPK_NLCG_POWELL|OPK_NLCG_SHANNO_PHUA,
        OPK_NLCG_FLETCHER_REEVES, OPK_NLCG_DAI_YUAN, OPK_NLCG_PERRY_SHANNO };
      opk_nlcg_options opts;
      opk_get_nlcg_default_options(&opts);
      opts.flags = flags[(variant >> 3) & 3];
      kind[o] = NLCG; sp[o] = s; isfloat[o] = isfloat[s];
      obj[o] = opk_new_nlcg_optimizer(&opts, obj[s], a[2] ? obj[a[2]] : NULL);
      sprintf(more, ",\"s\":%d,\"ls\":%d", s, a[2]);
    } else if (!strcmp(cmd, "run")) {
      run(o, a[1]);
      sprintf(more, ",\"x\":%d", a[1]);
    } else if (!strcmp(cmd, "null")) {
      /* "nothing is done" for NULL */
      int r = opk_hold_object(NULL) == NULL;
      opk_drop_object(NULL);
      sprintf(more, ",\"ok\":%d", r);
    } else if (!strcmp(cmd, "hold")) {
      opk_object* r = opk_hold_object(obj[o]);
      if (r != obj[o]) { H_LEAVE; fail("hold", o); continue; }
    } else if (!strcmp(cmd, "drop")) {
      opk_drop_object(obj[o]);
    } else { fprintf(stderr, "unknown command %s\n", cmd); return 3; }
    H_LEAVE;
    if (strcmp(cmd, "run") && strcmp(cmd, "hold") && strcmp(cmd, "drop") && strcmp(cmd, "null") && obj[o] == NULL) { fail(cmd, o); continue; }
    report(cmd, o, more);
  }
  return 0;
}
