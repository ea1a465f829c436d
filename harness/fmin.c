/* Minimization of functions of one variable: the three interfaces. */
#define _GNU_SOURCE 1
#include <setjmp.h>
#include "hcommon.h"
#include "optimpack.h"
/* The version with reverse communication is not declared in optimpack.h. */
typedef struct opk_fmin_context_ opk_fmin_context;
extern opk_fmin_context* opk_fmin_new(int method);
extern void opk_fmin_destroy(opk_fmin_context*);
extern opk_status opk_fmin_set_precision(opk_fmin_context*, double);
extern double opk_fmin_get_precision(opk_fmin_context*);
extern unsigned int opk_fmin_get_flags(opk_fmin_context*);
extern opk_fmin_task opk_fmin_get_status(opk_fmin_context*);
extern opk_status opk_fmin_start(opk_fmin_context*, double, double, unsigned int);
extern opk_status opk_fmin_get_initial(opk_fmin_context*, double*, double*, unsigned int*);
extern opk_status opk_fmin_get_final(opk_fmin_context*, double*, double*, double*, double*, double*, double*, long*);
extern opk_fmin_task opk_fmin_next(opk_fmin_context*, double*, double);

static int kind; static double c0, sc, seedv; static long count, cap; static jmp_buf stop;
static double value(double x)
{
  double d = x - c0, z = fabs(d); long k;
  switch (kind) {
  case 0: return sc*d*d;
  case 1: return sc*z;
  case 2: return sc*d*d*d*d;
  case 3: return sc*(d < 0 ? -3*d : d);
  case 4: return sc*sqrt(z);
  case 5: return sc*exp(z > 600 ? 600 : z);
  case 6: return 3.5;                               /* flat */
  case 7: return sc*floor(z*4);                     /* stairs */
  case 8: return sc*x;                              /* monotonic: within bounds only */
  case 9: return -sc*x;
  case 10: return fabs(x - 12.7)*(x + 5.2)*(x - 4.8); /* two minima, not bounded below on the left */
  case 11: return cos(3*d) + .1*z;                  /* many minima */
  case 12: k = lrint(fmod(fabs(d)*1e4 + seedv, 1e9)); hseed((unsigned long long)k); return (double)hint(0, 5); /* arbitrary */
  case 13: return z < 1e-3 ? (double)INFINITY : d*d;        /* infinite in the middle */
  case 14: return z > 3 ? (double)INFINITY : d*d;           /* infinite far away */
  default: return sc*(z + z*z);
  }
}
static double f(double x)
{
  double v;
  if (count >= cap) longjmp(stop, 1);
  ++count; v = value(x);
  printf("{\"ev\":\"eval\",\"x\":"); jnum(stdout, x); printf(",\"f\":"); jnum(stdout, v); printf("}\n");
  return v;
}
static int token; static int foreign;
static double fctx(void* data, double x) { if (data != &token) ++foreign; return f(x); }
static void outv(const double* o, int n) { printf(",\"out\":"); jvec(stdout, o, n); }

int main(void)
{
  static char line[4096]; opk_fmin_context* c = NULL; double x = 0, fx = 0; int fed = 0;
  cap = 20000;
  while (fgets(line, sizeof line, stdin)) {
    char* s = strtok(line, " \n");
#define NEXTD strtod(strtok(NULL, " \n"), NULL)
#define NEXTL atol(strtok(NULL, " \n"))
    if (!s) continue;
    if (!strcmp(s, "reset")) { opk_fmin_destroy(c); c = NULL; x = fx = 0; fed = 0; printf("{\"ev\":\"reset\"}\n"); }
    else if (!strcmp(s, "func")) {
      kind = NEXTL; c0 = NEXTD; sc = NEXTD; seedv = NEXTD;
      printf("{\"ev\":\"func\",\"kind\":%d,\"c\":", kind); jnum(stdout, c0); printf("}\n");
    } else if (!strcmp(s, "min")) {    /* min API a b flags maxeval prec */
      int api = NEXTL; double a = NEXTD, b = NEXTD; long fl = NEXTL, me = NEXTL; double prec = NEXTD, out[9]; int i, r = 99, e;
      for (i = 0; i < 9; ++i) out[i] = 1234.5;
      count = 0; errno = 0; foreign = 0;
      printf("{\"ev\":\"min\",\"api\":%d,\"a\":", api); jnum(stdout, a); printf(",\"b\":"); jnum(stdout, b);
      printf(",\"flags\":%ld,\"max\":%ld,\"prec\":", fl, me); jnum(stdout, prec); printf("}\n");
      if (setjmp(stop) == 0)
        r = api ? opk_fmin_with_context(fctx, a, b, (unsigned)fl, me, prec, out + 1, &token) : opk_fmin(f, a, b, (unsigned)fl, me, prec, out + 1);
      e = errno;
      printf("{\"ev\":\"end\",\"st\":%d,\"einval\":%s,\"intact\":%s", r, e == EINVAL ? "true" : "false",
             out[0] == 1234.5 && out[8] == 1234.5 && foreign == 0 ? "true" : "false");
      outv(out + 1, 6); printf(",\"n\":%ld,\"untouched\":%s}\n", (long)out[7], out[1] == 1234.5 && out[7] == 1234.5 ? "true" : "false");
    } else if (!strcmp(s, "new")) {
      opk_fmin_destroy(c); c = opk_fmin_new(0); fed = 0;
      printf("{\"ev\":\"new\",\"ok\":%s,\"st\":%d,\"prec\":", c != NULL ? "true" : "false", (int)opk_fmin_get_status(c)); jnum(stdout, opk_fmin_get_precision(c)); printf("}\n");
    } else if (!strcmp(s, "start")) {
      double a = NEXTD, b = NEXTD; long fl = NEXTL; int r = opk_fmin_start(c, a, b, (unsigned)fl);
      printf("{\"ev\":\"start\",\"a\":"); jnum(stdout, a); printf(",\"b\":"); jnum(stdout, b);
      printf(",\"flags\":%ld,\"ret\":%d,\"st\":%d,\"got\":%u}\n", fl, r, (int)opk_fmin_get_status(c), opk_fmin_get_flags(c));
    } else if (!strcmp(s, "prec")) {
      double p = NEXTD; int r = opk_fmin_set_precision(c, p);
      printf("{\"ev\":\"prec\",\"v\":"); jnum(stdout, p); printf(",\"ret\":%d,\"got\":", r); jnum(stdout, opk_fmin_get_precision(c)); printf("}\n");
    } else if (!strcmp(s, "next") || !strcmp(s, "changed") || !strcmp(s, "null")) {
      long k = s[0] == 'n' && s[1] == 'e' ? NEXTL : 1;
      int how = s[0] == 'c' ? 1 : s[1] == 'u' ? 2 : 0;
      while (k-- > 0) {
        int r, pre = (int)opk_fmin_get_status(c); double x0;
        fx = pre == OPK_FMIN_FX ? value(x) : 77.0;
        if (how == 1) x += 1 + fabs(x);
        x0 = x;
        r = opk_fmin_next(c, how == 2 ? NULL : &x, fx);
        printf("{\"ev\":\"next\",\"how\":%d,\"x0\":", how); jnum(stdout, x0); printf(",\"f\":"); jnum(stdout, fx);
        printf(",\"ret\":%d,\"st\":%d,\"x\":", r, (int)opk_fmin_get_status(c)); jnum(stdout, x); printf("}\n");
        if (r != OPK_FMIN_FX) break;
      }
    } else if (!strcmp(s, "status")) printf("{\"ev\":\"status\",\"st\":%d}\n", (int)opk_fmin_get_status(c));
    else if (!strcmp(s, "initial")) {
      double a = 1234.5, b = 1234.5; unsigned fl = 99; int r = opk_fmin_get_initial(c, &a, &b, &fl);
      int r2 = opk_fmin_get_initial(c, NULL, NULL, NULL);
      printf("{\"ev\":\"initial\",\"ret\":%d,\"ret2\":%d,\"a\":", r, r2); jnum(stdout, a); printf(",\"b\":"); jnum(stdout, b); printf(",\"flags\":%u}\n", fl);
    } else if (!strcmp(s, "final")) {
      double o[6] = {1234.5,1234.5,1234.5,1234.5,1234.5,1234.5}; long n = -5;
      int r = opk_fmin_get_final(c, o, o + 1, o + 2, o + 3, o + 4, o + 5, &n);
      int r2 = opk_fmin_get_final(c, NULL, NULL, NULL, NULL, NULL, NULL, NULL);
      printf("{\"ev\":\"final\",\"ret\":%d,\"ret2\":%d", r, r2); outv(o, 6); printf(",\"n\":%ld}\n", n);
    } else if (!strcmp(s, "nocontext")) {
      double p = 0, z = 0; long n; int ok = 1; opk_fmin_destroy(NULL);
      ok = opk_fmin_start(NULL, 0, 1, 0) == OPK_ILLEGAL_ADDRESS && opk_fmin_set_precision(NULL, p) == OPK_ILLEGAL_ADDRESS
        && opk_fmin_get_initial(NULL, &p, &p, NULL) == OPK_ILLEGAL_ADDRESS && opk_fmin_get_final(NULL, &p, &p, &p, &p, &p, &p, &n) == OPK_ILLEGAL_ADDRESS
        && opk_fmin_next(NULL, &z, 0) == OPK_FMIN_ERROR && opk_fmin_get_status(NULL) == OPK_FMIN_ERROR && opk_fmin_get_flags(NULL) == 0;
      printf("{\"ev\":\"nocontext\",\"ok\":%s}\n", ok ? "true" : "false");
    } else abort();
    (void)fed;
    fflush(stdout);
  }
  return 0;
}
