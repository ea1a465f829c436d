/* Makes every allocation of every constructor fail, one at a time. */
#define H_TRACK_ALLOC 1
#include "hcommon.h"
#include "optimpack.h"
#include "optimpack-private.h"
#include "newuoa.h"
#include "cobyla.h"

#define N 3
static opk_vspace *sd, *sf; static opk_vector *v1, *v2, *w1; static opk_lnsrch* ls; static opk_convexset* box;
static double lo[N] = {-1,-2,-3}, up[N] = {1,2,3}; static float lof[N] = {-1,-2,-3}, upf[N] = {1,2,3};
static double dmem[N]; static float fmem[N];
static double big = -10, hi = 10;
static double scl[N] = {1, 2, 3}; static double scratch[N];
static double objective(opk_index n, const double* x, void* data) { return 0; }

enum { NCASE = 46 };
static const char* name;
static int is_opt, is_ws;  /* destroyed otherwise than by opk_drop_object */
static opk_vmlmb_options vo; static opk_nlcg_options no;
static void* make(int k)
{
  is_opt = is_ws = 0;
  opk_get_vmlmb_default_options(&vo); opk_get_nlcg_default_options(&no);
  switch (k) {
  case 0: name = "double space"; return opk_new_simple_double_vector_space(N);
  case 1: name = "float space"; return opk_new_simple_float_vector_space(N);
  case 2: name = "double vector"; return opk_vcreate(sd);
  case 3: name = "float vector"; return opk_vcreate(sf);
  case 4: name = "wrapped double vector"; return opk_wrap_simple_double_vector(sd, dmem, NULL, NULL);
  case 5: name = "wrapped float vector"; return opk_wrap_simple_float_vector(sf, fmem, NULL, NULL);
  case 6: name = "operator"; { static opk_operator_operations ops; return opk_allocate_operator(&ops, sd, sf, 64); }
  case 7: name = "csrch"; return opk_lnsrch_new_csrch(1e-3, 0.9, 0.1);
  case 8: name = "backtrack"; return opk_lnsrch_new_backtrack(1e-3, 0.1);
  case 9: name = "nonmonotone"; return opk_lnsrch_new_nonmonotone(5, 1e-3, 0.1, 0.9);
  case 10: name = "box none/none"; return opk_new_boxset(sd, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL);
  case 11: name = "box scalar/vector"; return opk_new_boxset(sd, OPK_BOUND_SCALAR_DOUBLE, &big, OPK_BOUND_VECTOR, v1);
  case 12: name = "box vector/volatile"; return opk_new_boxset(sd, OPK_BOUND_VECTOR, v1, OPK_BOUND_VOLATILE_DOUBLE, up);
  case 13: name = "box volatile/volatile"; return opk_new_boxset(sd, OPK_BOUND_VOLATILE_FLOAT, lof, OPK_BOUND_VOLATILE_DOUBLE, up);
  case 14: name = "box static/static"; return opk_new_boxset(sd, OPK_BOUND_STATIC_DOUBLE, lo, OPK_BOUND_STATIC_FLOAT, upf);
  case 15: name = "box static/static float"; return opk_new_boxset(sf, OPK_BOUND_STATIC_FLOAT, lof, OPK_BOUND_STATIC_DOUBLE, up);
  case 16: name = "box static/vector float"; return opk_new_boxset(sf, OPK_BOUND_STATIC_FLOAT, lof, OPK_BOUND_VECTOR, w1);
  case 17: name = "nlcg default"; return opk_new_nlcg_optimizer(NULL, sd, NULL);
  case 18: name = "nlcg with line search"; return opk_new_nlcg_optimizer(NULL, sd, ls);
  case 19: name = "nlcg float"; return opk_new_nlcg_optimizer(NULL, sf, ls);
  case 20: name = "nlcg FR"; no.flags = OPK_NLCG_FLETCHER_REEVES; return opk_new_nlcg_optimizer(&no, sd, NULL);
  case 21: name = "nlcg HS"; no.flags = OPK_NLCG_HESTENES_STIEFEL; return opk_new_nlcg_optimizer(&no, sd, NULL);
  case 22: name = "nlcg DY"; no.flags = OPK_NLCG_DAI_YUAN; return opk_new_nlcg_optimizer(&no, sd, ls);
  case 23: name = "nlcg PS"; no.flags = OPK_NLCG_PERRY_SHANNO; return opk_new_nlcg_optimizer(&no, sd, ls);
  case 24: name = "nlcg HZ"; no.flags = OPK_NLCG_HAGER_ZHANG; return opk_new_nlcg_optimizer(&no, sf, NULL);
  case 25: name = "vmlmb default"; return opk_new_vmlmb_optimizer(NULL, sd, NULL, NULL);
  case 26: name = "vmlmb with line search"; return opk_new_vmlmb_optimizer(NULL, sd, ls, NULL);
  case 27: name = "vmlmb with box"; return opk_new_vmlmb_optimizer(NULL, sd, NULL, box);
  case 28: name = "vmlmb with both"; return opk_new_vmlmb_optimizer(NULL, sd, ls, box);
  case 29: name = "blmvm"; vo.blmvm = OPK_TRUE; return opk_new_vmlmb_optimizer(&vo, sd, ls, box);
  case 30: name = "blmvm default ls"; vo.blmvm = OPK_TRUE; vo.mem = 2; return opk_new_vmlmb_optimizer(&vo, sd, NULL, box);
  case 31: name = "vmlmb save memory"; vo.save_memory = OPK_TRUE; vo.mem = 3; return opk_new_vmlmb_optimizer(&vo, sd, ls, box);
  case 32: name = "vmlmb no save memory"; vo.save_memory = OPK_FALSE; vo.mem = 1; return opk_new_vmlmb_optimizer(&vo, sf, ls, NULL);
  case 33: name = "blmvm save memory"; vo.save_memory = OPK_TRUE; vo.blmvm = OPK_TRUE; return opk_new_vmlmb_optimizer(&vo, sd, ls, box);
  case 34: name = "driver nlcg double"; is_opt = 1; return opk_new_optimizer(OPK_ALGORITHM_NLCG, NULL, OPK_DOUBLE, N, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL, NULL);
  case 35: name = "driver nlcg float"; is_opt = 1; return opk_new_optimizer(OPK_ALGORITHM_NLCG, NULL, OPK_FLOAT, N, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL, NULL);
  case 36: name = "driver vmlmb double"; is_opt = 1; return opk_new_optimizer(OPK_ALGORITHM_VMLMB, NULL, OPK_DOUBLE, N, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL, NULL);
  case 37: name = "driver vmlmb static bounds"; is_opt = 1; return opk_new_optimizer(OPK_ALGORITHM_VMLMB, NULL, OPK_DOUBLE, N, OPK_BOUND_STATIC_DOUBLE, lo, OPK_BOUND_STATIC_DOUBLE, up, NULL);
  case 38: name = "driver vmlmb volatile bounds"; is_opt = 1; return opk_new_optimizer(OPK_ALGORITHM_VMLMB, NULL, OPK_DOUBLE, N, OPK_BOUND_VOLATILE_DOUBLE, lo, OPK_BOUND_VOLATILE_DOUBLE, up, NULL);
  case 39: name = "driver vmlmb float static bounds"; is_opt = 1; return opk_new_optimizer(OPK_ALGORITHM_VMLMB, NULL, OPK_FLOAT, N, OPK_BOUND_STATIC_FLOAT, lof, OPK_BOUND_STATIC_FLOAT, upf, NULL);
  case 40: name = "driver vmlmb float mixed bounds"; is_opt = 1; return opk_new_optimizer(OPK_ALGORITHM_VMLMB, NULL, OPK_FLOAT, N, OPK_BOUND_VOLATILE_FLOAT, lof, OPK_BOUND_SCALAR_DOUBLE, &hi, NULL);
  case 41: name = "driver nlcg with line search"; is_opt = 1; return opk_new_optimizer(OPK_ALGORITHM_NLCG, NULL, OPK_DOUBLE, N, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL, ls);
  case 42: name = "driver vmlmb with line search"; is_opt = 1; return opk_new_optimizer(OPK_ALGORITHM_VMLMB, NULL, OPK_DOUBLE, N, OPK_BOUND_STATIC_DOUBLE, lo, OPK_BOUND_NONE, NULL, ls);
  case 43: name = "cobyla workspace"; is_ws = 1; return cobyla_create(N, 2, 1.0, 1e-3, 0, 100);
  case 44: name = "newuoa workspace"; is_ws = 2; return newuoa_create(N, 2*N + 1, 1.0, 1e-3, 0, 100);
  case 45: name = "driver vmlmb scalar float bounds"; is_opt = 1; { static float fl = -4; return opk_new_optimizer(OPK_ALGORITHM_VMLMB, NULL, OPK_DOUBLE, N, OPK_BOUND_SCALAR_FLOAT, &fl, OPK_BOUND_SCALAR_DOUBLE, &hi, NULL); }
  }
  return NULL;
}
static void destroy(void* p)
{
  if (is_opt) opk_destroy_optimizer(p);
  else if (is_ws == 1) cobyla_delete(p);
  else if (is_ws == 2) newuoa_delete(p);
  else opk_drop_object(p);
}
static void args(const char* key)
{
  void* o[] = { sd, sf, v1, v2, w1, ls, box }; int i;
  printf(",\"%s\":[", key);
  for (i = 0; i < 7; ++i) printf("%s%ld", i ? "," : "", (long)opk_get_object_references(o[i]));
  printf("]");
}
int main(int argc, char** argv)
{
  int k, i, total, k0 = argc > 1 ? atoi(argv[1]) : 0, k1 = argc > 2 ? atoi(argv[2]) : NCASE;
  setvbuf(stdout, NULL, _IOLBF, 1 << 16);
  sd = opk_new_simple_double_vector_space(N); sf = opk_new_simple_float_vector_space(N);
  v1 = opk_vcreate(sd); opk_vfill(v1, -5); v2 = opk_vcreate(sd); opk_vfill(v2, 5); w1 = opk_vcreate(sf); opk_vfill(w1, 5);
  ls = opk_lnsrch_new_backtrack(1e-3, 0.1);
  box = opk_new_boxset(sd, OPK_BOUND_VECTOR, v1, OPK_BOUND_VECTOR, v2);
  for (k = k0; k < NCASE && k < k1; ++k) {
    printf("{\"ev\":\"reset\"}\n");
    for (i = -1, total = 1; i <= total; ++i) {
      /* i = -1: count the allocations; then make number i fail; last: success again */
      void* p; long live0 = h_live; int err;
      h_count = 0; h_fail_at = (i >= 0 && i < total) ? i : -1; h_nfailed = 0; h_badfree = 0;
      errno = 0;
      printf("{\"ev\":\"create\",\"case\":%d,\"at\":%d", k, i);
      args("before");
      fflush(stdout);
      H_ENTER; p = make(k); err = errno; H_LEAVE;
      if (i < 0) total = (int)h_count;
      printf(",\"name\":"); jstr(stdout, name);
      printf(",\"total\":%d,\"failed\":%ld,\"ok\":%d,\"enomem\":%d,\"newblocks\":%ld,\"badfree\":%ld", total, h_nfailed, p != NULL, err == ENOMEM, h_live - live0, h_badfree);
      args("after"); printf("}\n");
      if (p != NULL) {
        h_fail_at = -1;
        H_ENTER; destroy(p); H_LEAVE;
        printf("{\"ev\":\"destroy\",\"case\":%d,\"newblocks\":%ld,\"badfree\":%ld", k, h_live - live0, h_badfree);
        args("after"); printf("}\n");
      }
      h_fail_at = -1;
    }
    h_reset();
  }
  return 0;
}
