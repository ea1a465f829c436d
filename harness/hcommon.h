/* Helpers shared by the harnesses: JSON output and allocation tracking. */
#ifndef HCOMMON_H_
#define HCOMMON_H_ 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <errno.h>
#include <malloc.h>

/* ---- numbers ---------------------------------------------------------- */
static inline void jnum(FILE* f, double x)
{
  if (x != x) fprintf(f, "\"nan\"");
  else if (x - x != 0) fprintf(f, x > 0 ? "\"inf\"" : "\"-inf\"");
  else if (x == 0) fprintf(f, "\"0\"");
  else fprintf(f, "\"%a\"", x);
}
static inline void jvec(FILE* f, const double* x, long n)
{
  long i;
  fputc('[', f);
  for (i = 0; i < n; ++i) { if (i) fputc(',', f); jnum(f, x[i]); }
  fputc(']', f);
}
static inline void jstr(FILE* f, const char* s)
{
  fputc('"', f);
  for (; *s; ++s) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
    else if (c < 32 || c > 126) fprintf(f, "?");
    else fputc(c, f);
  }
  fputc('"', f);
}

/* deterministic random numbers, independent of the C library */
static unsigned long long h_rng_state = 88172645463325252ULL;
static inline void hseed(unsigned long long s)
{ h_rng_state = s*0x9E3779B97F4A7C15ULL + 88172645463325252ULL; if (!h_rng_state) h_rng_state = 1; }
static inline unsigned long long hrand(void)
{
  unsigned long long x = h_rng_state;
  x ^= x << 13; x ^= x >> 7; x ^= x << 17;
  h_rng_state = x;
  return (x*0x2545F4914F6CDD1DULL) >> 11;
}
static inline long hint(long lo, long hi) { return lo + (long)(hrand() % (unsigned long long)(hi - lo + 1)); }
static inline double hunif(double lo, double hi)
{ return lo + (hi - lo)*((double)(hrand() & ((1ULL<<40)-1))/(double)(1ULL<<40)); }

/* ---- allocation tracking (link with --wrap=malloc,...) ------------------ */
#ifdef H_TRACK_ALLOC
extern void* __real_malloc(size_t n);
extern void* __real_calloc(size_t m, size_t n);
extern void* __real_realloc(void* p, size_t n);
extern void __real_free(void* p);
#define H_MAXBLK 65536
static struct { void* p; int live; } h_blk[H_MAXBLK];
static int h_nblk = 0;       /* slots in use */
static long h_live = 0;      /* live blocks allocated while tracking */
static long h_count = 0;     /* allocations requested while tracking */
static long h_fail_at = -1;  /* index of the allocation that must fail */
static long h_badfree = 0;   /* frees of blocks already freed */
static long h_nfailed = 0;   /* allocations made to fail */
static int h_tracking = 0;
static void (*h_on_free)(void*) = NULL;
#define H_ENTER (++h_tracking)
#define H_LEAVE (--h_tracking)
static void h_add(void* p)
{
  int i;
  if (p == NULL) return;
  for (i = 0; i < h_nblk; ++i) if (!h_blk[i].live && h_blk[i].p == NULL) break;
  if (i == h_nblk) { if (h_nblk >= H_MAXBLK) abort(); ++h_nblk; }
  h_blk[i].p = p; h_blk[i].live = 1; ++h_live;
}
static int h_del(void* p)
{
  int i;
  for (i = h_nblk - 1; i >= 0; --i) if (h_blk[i].p == p && h_blk[i].live) {
    h_blk[i].p = NULL; h_blk[i].live = 0; --h_live;
    while (h_nblk > 0 && h_blk[h_nblk-1].p == NULL) --h_nblk;
    return 1;
  }
  return 0;
}
/* released for good by h_reset(), called between two behaviours */
static void** h_quar = NULL; static long h_nquar = 0, h_mquar = 0;
static void h_quarantine(void* p)
{
  if (h_nquar == h_mquar) {
    h_mquar = 2*h_mquar + 1024;
    h_quar = (void**)__real_realloc(h_quar, h_mquar*sizeof(void*));
  }
  h_quar[h_nquar++] = p;
}
/* Releases the quarantine; forgets leaked blocks. */
static void h_reset(void)
{
  while (h_nquar > 0) __real_free(h_quar[--h_nquar]);
  h_nblk = 0; h_live = 0; h_count = 0; h_fail_at = -1; h_badfree = 0; h_nfailed = 0;
}
void* __wrap_malloc(size_t n)
{
  void* p;
  if (h_tracking <= 0) return __real_malloc(n);
  if (h_count++ == h_fail_at) { ++h_nfailed; errno = ENOMEM; return NULL; }
  p = __real_malloc(n);
  if (p) memset(p, 0xA5, n);   /* reveals the use of uninitialized memory */
  h_add(p);
  return p;
}
void* __wrap_calloc(size_t m, size_t n)
{
  void* p;
  if (h_tracking <= 0) return __real_calloc(m, n);
  if (h_count++ == h_fail_at) { ++h_nfailed; errno = ENOMEM; return NULL; }
  p = __real_calloc(m, n);
  h_add(p);
  return p;
}
void* __wrap_realloc(void* q, size_t n)
{
  void* p;
  if (h_tracking <= 0) return __real_realloc(q, n);
  if (h_count++ == h_fail_at) { ++h_nfailed; errno = ENOMEM; return NULL; }
  if (q) h_del(q);
  p = __real_realloc(q, n);
  h_add(p);
  return p;
}
void __wrap_free(void* p)
{
  if (p != NULL && h_del(p)) {
    if (h_on_free) h_on_free(p);
    /* keep freed blocks of the library in quarantine, scribbled over, so that
       any later use is noticed and addresses are not reused */
    memset(p, 0xDD, malloc_usable_size(p));
    h_quarantine(p);
    return;
  }
  if (h_tracking > 0 && p != NULL) { ++h_badfree; return; }
  __real_free(p);
}
#endif
#endif
