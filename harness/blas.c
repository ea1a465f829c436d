/* Calls of the small linear algebra kernels on a memory of three buffers. */
#define _GNU_SOURCE 1
#include "hcommon.h"
#include "optimpack-linalg.h"
static double* D[3]; static float* S[3]; static long len[3]; static int single;
static void dump(void)
{
  int b; long i;
  printf(",\"mem\":[");
  for (b = 0; b < 3; ++b) {
    printf(b ? ",[" : "[");
    for (i = 0; i < len[b]; ++i) { if (i) putchar(','); jnum(stdout, single ? (double)S[b][i] : D[b][i]); }
    putchar(']');
  }
  putchar(']');
}
int main(void)
{
  static char line[1 << 16]; int b; long i;
  while (fgets(line, sizeof line, stdin)) {
    char* s = strtok(line, " \n");
    if (!s) continue;
    if (!strcmp(s, "reset")) { printf("{\"ev\":\"reset\"}\n"); continue; }
    if (!strcmp(s, "fill")) {     /* fill SINGLE EXACT n v... n v... n v... */
      int exact;
      for (b = 0; b < 3; ++b) { free(D[b]); free(S[b]); D[b] = NULL; S[b] = NULL; }
      single = atoi(strtok(NULL, " \n")); exact = atoi(strtok(NULL, " \n"));
      for (b = 0; b < 3; ++b) {
        len[b] = atol(strtok(NULL, " \n"));
        if (single) S[b] = malloc(len[b]*sizeof(float)); else D[b] = malloc(len[b]*sizeof(double));
        for (i = 0; i < len[b]; ++i) {
          double v = strtod(strtok(NULL, " \n"), NULL);
          if (single) S[b][i] = (float)v; else D[b][i] = v;
        }
      }
      printf("{\"ev\":\"fill\",\"single\":%s,\"exact\":%s", single ? "true" : "false", exact ? "true" : "false");
      dump(); printf("}\n");
    } else {                      /* call OP ta tb up di m n k alpha beta ao lda bo ldb co ldc xo incx yb yo incy */
      char* op = strtok(NULL, " \n");
      long a[20]; double alpha, beta; double dr = 0; float sr = 0; long ir = 0; int kind = 0; /* 0: nothing, 1: real, 2: integer */
      for (i = 0; i < 7; ++i) a[i] = atol(strtok(NULL, " \n"));
      alpha = strtod(strtok(NULL, " \n"), NULL); beta = strtod(strtok(NULL, " \n"), NULL);
      for (i = 7; i < 18; ++i) a[i] = atol(strtok(NULL, " \n"));
#define ta a[0]
#define tb a[1]
#define up a[2]
#define di a[3]
#define m a[4]
#define n a[5]
#define k a[6]
#define ao a[7]
#define lda a[8]
#define bo a[9]
#define ldb a[10]
#define co a[11]
#define ldc a[12]
#define xo a[13]
#define incx a[14]
#define yb (a[15] - 1)
#define yo a[16]
#define incy a[17]
#define RUN(T, M, R) do { T *A = M[0] + ao, *B = M[1] + bo, *C = M[2] + co, *X = M[1] + xo, *Y = M[yb] + yo; \
      if (!strcmp(op, "swap")) opk_##R##swap(n, X, incx, Y, incy); \
      else if (!strcmp(op, "scal")) opk_##R##scal(n, alpha, X, incx); \
      else if (!strcmp(op, "copy")) opk_##R##copy(n, X, incx, Y, incy); \
      else if (!strcmp(op, "axpy")) opk_##R##axpy(n, alpha, X, incx, Y, incy); \
      else if (!strcmp(op, "zero")) opk_##R##zero(n, X, incx); \
      else if (!strcmp(op, "dot")) { kind = 1; R##r = opk_##R##dot(n, X, incx, Y, incy); } \
      else if (!strcmp(op, "asum")) { kind = 1; R##r = opk_##R##asum(n, X, incx); } \
      else if (!strcmp(op, "sum")) { kind = 1; R##r = opk_##R##sum(n, X, incx); } \
      else if (!strcmp(op, "nrm2")) { kind = 1; R##r = opk_##R##nrm2(n, X, incx); } \
      else if (!strcmp(op, "amax")) { kind = 1; R##r = opk_##R##amax(n, X, incx); } \
      else if (!strcmp(op, "iamax")) { kind = 2; ir = opk_i##R##amax(n, X, incx); } \
      else if (!strcmp(op, "gemv")) { kind = 2; ir = opk_##R##gemv(ta, m, n, alpha, A, lda, X, incx, beta, Y, incy); } \
      else if (!strcmp(op, "trmv")) { kind = 2; ir = opk_##R##trmv(up, ta, di, n, A, lda, X, incx); } \
      else if (!strcmp(op, "trsv")) { kind = 2; ir = opk_##R##trsv(up, ta, di, n, A, lda, X, incx); } \
      else if (!strcmp(op, "gemm")) { kind = 2; ir = opk_##R##gemm(ta, tb, m, n, k, alpha, A, lda, B, ldb, beta, C, ldc); } \
      else if (!strcmp(op, "syrk")) { kind = 2; ir = opk_##R##syrk(up, ta, n, k, alpha, A, lda, beta, C, ldc); } \
      else if (!strcmp(op, "potf2")) { kind = 2; ir = opk_##R##potf2(up, n, A, lda); } \
      else abort(); } while (0)
      if (single) { RUN(float, S, s); dr = sr; } else RUN(double, D, d);
      printf("{\"ev\":\"call\",\"c\":{\"op\":\"%s\",\"ta\":%ld,\"tb\":%ld,\"up\":%ld,\"di\":%ld,\"m\":%ld,\"n\":%ld,\"k\":%ld,\"alpha\":", op, ta, tb, up, di, m, n, k);
      jnum(stdout, alpha); printf(",\"beta\":"); jnum(stdout, beta);
      printf(",\"ao\":%ld,\"lda\":%ld,\"bo\":%ld,\"ldb\":%ld,\"co\":%ld,\"ldc\":%ld,\"xo\":%ld,\"incx\":%ld,\"yb\":%ld,\"yo\":%ld,\"incy\":%ld},\"real\":",
             ao, lda, bo, ldb, co, ldc, xo, incx, yb + 1, yo, incy);
      jnum(stdout, kind == 1 ? dr : 0); printf(",\"int\":%ld", kind == 2 ? ir : 0);
      dump(); printf("}\n");
    }
    fflush(stdout);
  }
  return 0;
}
