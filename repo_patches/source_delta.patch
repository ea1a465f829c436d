From 638a39a20e72b28b23da351fff27f602666c26d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 01/36] fix: opk_new_optimizer: check that the optimizer has
 been allocated

opk_allocate_object() returns NULL (with errno set to ENOMEM) when there is
not enough memory, the result was dereferenced without being checked.
---
 src/driver.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver.c b/src/driver.c
index 5961e79..6fee9a9 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -342,6 +342,9 @@ opk_new_optimizer(opk_algorithm algorithm, /* optimization algorithm */
   /* Allocate optimizer and instanciate it. */
   opt = (opk_optimizer*)opk_allocate_object(finalize_optimizer,
                                               sizeof(opk_optimizer));
+  if (opt == NULL) {
+    return NULL;
+  }
   opt->single = single;
   opt->n = n;
   opt->algorithm = algorithm;
-- 
2.43.0


From 94938037ae5e54900fc26efbb0709826675c0adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 02/36] fix: opk_new_boxset: tell the actual reason of a
 failure in errno

ENOMEM was replaced by EINVAL when the copy of the bounds could not be
allocated (and so was EFAULT for a missing address).
---
 src/algebra.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index f46234b..5075735 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -844,10 +844,14 @@ opk_new_boxset(opk_vspace* space,
                                               freevar, steplim,
                                               sizeof(opk_boxset));
   if (box != NULL) {
-    if (set_bound(space, &box->lower, lower_type, lower) != OPK_SUCCESS ||
-        set_bound(space, &box->upper, upper_type, upper) != OPK_SUCCESS) {
+    opk_status status = set_bound(space, &box->lower, lower_type, lower);
+    if (status == OPK_SUCCESS) {
+      status = set_bound(space, &box->upper, upper_type, upper);
+    }
+    if (status != OPK_SUCCESS) {
       OPK_DROP(box);
-      errno = EINVAL;
+      errno = (status == OPK_INSUFFICIENT_MEMORY ? ENOMEM :
+               (status == OPK_ILLEGAL_ADDRESS ? EFAULT : EINVAL));
       return NULL;
     }
   }
-- 
2.43.0


From 60415ccfefc9e4754674b554f377f311651c61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 03/36] fix: opk_lnsrch_iterate: do not turn convergence at a
 bound into a warning

---
 src/lnsrch.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 89ec57a..779299e 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -174,6 +174,10 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
     bound = 0;
   }
   ls->task = ls->ops->iterate(ls, stp_ptr, f1, g1);
+  if (ls->task != OPK_LNSRCH_SEARCH) {
+    /* No other step is requested, do not change the outcome of the search. */
+    bound = 0;
+  }
   if (*stp_ptr <= ls->stpmin) {
     if (bound < 0) {
       warning(ls, OPK_STEP_EQ_STPMIN);
-- 
2.43.0


From 4087f40c5e76b504783a1dac910cf9d3d03d3275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 04/36] fix: opk_lnsrch_start/iterate: return an error code for
 a NULL line search

---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 779299e..ecc0e2d 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -126,7 +126,7 @@ opk_lnsrch_start(opk_lnsrch* ls, double f0, double g0,
                  double stp, double stpmin, double stpmax)
 {
   if (ls == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+    return OPK_LNSRCH_ERROR;
   }
   if (stpmin < 0) {
     return failure(ls, OPK_STPMIN_LT_ZERO);
@@ -158,7 +158,7 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
   int bound;
 
   if (ls == NULL || stp_ptr == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+    return OPK_LNSRCH_ERROR;
   }
   if (ls->task != OPK_LNSRCH_SEARCH) {
     return failure(ls, OPK_NOT_STARTED);
-- 
2.43.0


From aab5e78594f54a1eceebdafd5271c7110a9e6bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 05/36] fix: opk_lnsrch_new_nonmonotone: check that sigma2 is
 finite

---
 src/lnsrch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index ecc0e2d..06cf26c 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -429,7 +429,7 @@ opk_lnsrch_new_nonmonotone(opk_index m, double ftol,
   opk_lnsrch* ls;
   size_t size, offset;
 
-  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma1) ||
+  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma2) ||
       ftol <= 0.0 || sigma1 <= 0.0 || sigma1 >= sigma2 || sigma2 >= 1.0 ||
       m < 1) {
     errno = EINVAL;
-- 
2.43.0


From 917ca10ac57f26f5faf48731248095775e392693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 06/36] fix: nonmonotone line search: always reduce the step

---
 src/lnsrch.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 06cf26c..329bc43 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -402,8 +402,12 @@ nonmonotone_iterate(opk_lnsrch* ls,
        the bounds.  Take the quadratic interpolation step. */
     alpha = q/r;
   } else {
-    /* Take the bisection step. */
+    /* Take the bisection step.  Because of rounding errors, bisection may stop
+       reducing the step when it is very close to the lower bound. */
     alpha = (alpha + ls->stpmin)/2.0;
+    if (alpha >= *stp_ptr) {
+      alpha = ls->stpmin;
+    }
   }
 
   /* Safeguard the step. */
-- 
2.43.0


From 28bf01d60e55e97c10771157bc7941d0f3392e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 07/36] fix: opk_new_nlcg_optimizer: honor the minimal function
 value given in the options

---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index 135043d..d9990df 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -521,7 +521,7 @@ opk_new_nlcg_optimizer(const opk_nlcg_options* opts,
   opt->stpmax = opts->stpmax;
   opt->fmin = opts->fmin;
   opt->flags = flags;
-  opt->fmin_given = FALSE;
+  opt->fmin_given = opts->fmin_given;
   opt->update_Hager_Zhang_orig = FALSE;
 
   /* Allocate work vectors. */
-- 
2.43.0


From 8ec6440f6c45baf94d9a6c2aac09184e7fb7037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 08/36] fix: opk_iterate_vmlmb: always project the variables
 onto the bounds

---
 src/vmlmb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index a8b6367..0e7a7fb 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -732,7 +732,9 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
 
   /* Compute a new trial point along the line search. */
   opk_vaxpby(x, 1, opt->x0, -opt->stp, opt->d);
-  if (bounded && opt->stp > opt->bsmin) {
+  if (bounded) {
+    /* Always project: even for a step shorter than the one to the first bound,
+       rounding errors may yield variables slightly outside the bounds. */
     opk_status status = opk_project_variables(x, x, opt->box);
     if (status != OPK_SUCCESS) {
       return failure(opt, status);
-- 
2.43.0


From 074d892633cf1204e9199a02ef9f0b73e142a0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:37 +0000
Subject: [PATCH 09/36] fix: opk_check_nlcg_options: refuse unknown update
 rules as the creation does

---
 src/nlcg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nlcg.c b/src/nlcg.c
index d9990df..d1f3271 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -702,6 +702,12 @@ opk_check_nlcg_options(const opk_nlcg_options* opts)
       (opts->fmin_given && non_finite(opts->fmin))) {
     return OPK_INVALID_ARGUMENT;
   }
+  /* Check the update rule (zero flags means default ones). */
+  if (opts->flags != 0 &&
+      ((opts->flags & 0xff) < OPK_NLCG_FLETCHER_REEVES ||
+       (opts->flags & 0xff) > OPK_NLCG_HAGER_ZHANG)) {
+    return OPK_INVALID_ARGUMENT;
+  }
   return OPK_SUCCESS;
 }
 
-- 
2.43.0


From fbebd8d18a8c538b2944d4f8bf676b5f20741780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:37 +0000
Subject: [PATCH 10/36] fix: opk_get_nlcg_description: avoid overflow of the
 local buffer

---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index d1f3271..dd3495d 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -595,7 +595,7 @@ opk_get_nlcg_name(char* buf, size_t size, const opk_nlcg* opt)
 size_t
 opk_get_nlcg_description(char* buf, size_t size, const opk_nlcg* opt)
 {
-  char str[80];
+  char str[128]; /* large enough for the longest description */
   int and;
 
   if (opt == NULL || (buf == NULL && size > 0)) {
-- 
2.43.0


From 98fdbed02499098af021544a430ea71b95e108c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:58 +0000
Subject: [PATCH 11/36] fix: messages of the statuses for function, gradient
 and variable tolerances

---
 src/optimpack.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimpack.h b/src/optimpack.h
index 7167da8..3485671 100644
--- a/src/optimpack.h
+++ b/src/optimpack.h
@@ -303,11 +303,11 @@ OPK_BEGIN_C_DECLS
   OPK_STATUS_(14, OPK_STEP_LT_STPMIN, "Step lesser than lower bound")   \
   OPK_STATUS_(15, OPK_STEP_GT_STPMAX, "Step greater than upper bound")  \
   OPK_STATUS_(16, OPK_FTOL_TEST_SATISFIED,                              \
-              "Convergence within variable tolerance")                  \
+              "Convergence within function tolerance")                  \
   OPK_STATUS_(17, OPK_GTOL_TEST_SATISFIED,                              \
-                "Convergence within function tolerance")                \
-  OPK_STATUS_(18, OPK_XTOL_TEST_SATISFIED,                              \
                 "Convergence within gradient tolerance")                \
+  OPK_STATUS_(18, OPK_XTOL_TEST_SATISFIED,                              \
+                "Convergence within variable tolerance")                \
   OPK_STATUS_(19, OPK_STEP_EQ_STPMAX, "Step blocked at upper bound")    \
   OPK_STATUS_(20, OPK_STEP_EQ_STPMIN, "Step blocked at lower bound")    \
   OPK_STATUS_(21, OPK_ROUNDING_ERRORS_PREVENT_PROGRESS,                 \
-- 
2.43.0


From af41ac1bb2264dab5ed74d089bcf407fb36a0bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:58 +0000
Subject: [PATCH 12/36] fix: opk_get_description: accept a NULL optimizer as
 the other queries

---
 src/driver.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/driver.c b/src/driver.c
index 6fee9a9..9464b12 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -526,7 +526,11 @@ opk_get_name(char* buf, size_t size, const opk_optimizer* opt)
 size_t
 opk_get_description(char* buf, size_t size, const opk_optimizer* opt)
 {
-  return opt->ops->get_description(buf, size, opt);
+  if (opt == NULL) {
+    return opk_copy_string(buf, size, "");
+  } else {
+    return opt->ops->get_description(buf, size, opt);
+  }
 }
 
 double
-- 
2.43.0


From ff09a034f144f792c328e6dd11b87e21c4c72fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 13/36] fix: opk_hold_object: do nothing for a NULL object, as
 documented

---
 src/algebra.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algebra.c b/src/algebra.c
index 5075735..eb33691 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -61,7 +61,9 @@ opk_allocate_object(void (*finalize)(opk_object* self),
 opk_object*
 opk_hold_object(opk_object* obj)
 {
-  ++obj->references;
+  if (obj != NULL) {
+    ++obj->references;
+  }
   return obj;
 }
 
-- 
2.43.0


From ec336743719cf34a972011d3e2057f00452de4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 14/36] fix: opk_vprint: print to the standard output when the
 file and the vector are NULL

---
 src/algebra.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index eb33691..291c582 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -231,6 +231,9 @@ opk_vprint(FILE* file, const char* name, const opk_vector* vect,
   opk_vspace* vspace;
   opk_index i, n;
 
+  if (file == NULL) {
+    file = stdout;
+  }
   if (vect == NULL) {
     if (name != NULL) {
       fputs(name, file);
@@ -240,9 +243,6 @@ opk_vprint(FILE* file, const char* name, const opk_vector* vect,
     }
     return;
   }
-  if (file == NULL) {
-    file = stdout;
-  }
   if (name != NULL) {
     fputs(name, file);
     fputs(" = {", file);
-- 
2.43.0


From 399e086316c423e71cf108b7b6c22a9eabdee1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 15/36] fix: NEWUOA returns the best point when the budget
 stops the initial model

---
 src/newuoa.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/newuoa.c b/src/newuoa.c
index 6d36508..08bf50e 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -1057,6 +1057,13 @@ newuoa_optimize(INTEGER n, INTEGER npt,
     fopt = f;
     kopt = nf;
   }
+  if (kopt == nf) {
+    /* Keep track of the best point so far, the calculation may be stopped
+       before the initial model is complete. */
+    LOOP(i,n) {
+      XOPT(i) = XPT(nf,i);
+    }
+  }
 
   /* Set the nonzero initial elements of BMAT and the quadratic model in the
      cases when NF is at most 2*N+1. */
-- 
2.43.0


From 8d0118b7c080af9a6e05b73958e3dd6d72a40089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 16/36] fix: a restarted DFO workspace reports a null radius
 until it is started

---
 src/cobyla.c | 1 +
 src/newuoa.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/cobyla.c b/src/cobyla.c
index 8a88cb1..0c11597 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -266,6 +266,7 @@ cobyla_restart(cobyla_context* ctx)
     return COBYLA_BAD_ADDRESS;
   }
   ctx->nfvals = 0;
+  ctx->rho = 0; /* not yet started */
   ctx->status = COBYLA_ITERATE;
   return ctx->status;
 }
diff --git a/src/newuoa.c b/src/newuoa.c
index 08bf50e..2c7f8d5 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -618,6 +618,7 @@ newuoa_restart(newuoa_context* ctx)
     return NEWUOA_BAD_ADDRESS;
   }
   ctx->nevals = 0;
+  ctx->rho = 0; /* not yet started */
   ctx->status = NEWUOA_ITERATE;
   return ctx->status;
 }
-- 
2.43.0


From 4b7a04347a9ec6edfc51cb23a3541b9db52d9869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 17/36] fix: BOBYQA leaves the variables unchanged when the
 bounds are too close

---
 src/bobyqa.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 8c8c257..7de04c4 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -387,14 +387,13 @@ bobyqa_status bobyqa_optimize(
       }
     }
     if (scaling) {
-      /* If scaling, divide the initial variables and the bounds by the scaling
-         factors. */
+      /* If scaling, divide the bounds by the scaling factors (the initial
+         variables are scaled below, once all arguments have been checked). */
       REAL* tmpx  = w + WORK_SIZE(n, npt);
       REAL* tmpxl = tmpx + n;
       REAL* tmpxu = tmpxl + n;
       for (j = 0; j < n; ++j) {
         REAL s = one/scl[j];
-        x[j] *= s;
         tmpxl[j] = s*xl[j];
         tmpxu[j] = s*xu[j];
       }
@@ -428,12 +427,7 @@ bobyqa_status bobyqa_optimize(
   ivl = id + n;
   iw = ivl + ndim;
 
-  /* Return if there is insufficient space between the bounds.  Modify the
-     initial X if necessary in order to avoid conflicts between the bounds and
-     the construction of the first quadratic model.  The lower and upper bounds
-     on moves from the updated X are set now, in the ISL and ISU partitions of
-     W, in order to provide useful and exact information about components of X
-     that become within distance RHOBEG from their bounds. */
+  /* Return if there is insufficient space between the bounds. */
   for (j = 0; j < n; ++j) {
     temp = xu[j] - xl[j];
     if (temp < rhobeg + rhobeg) {
@@ -442,6 +436,19 @@ bobyqa_status bobyqa_optimize(
       }
       return BOBYQA_TOO_CLOSE;
     }
+  }
+
+  /* If scaling, divide the initial variables by the scaling factors.  Modify
+     the initial X if necessary in order to avoid conflicts between the bounds and
+     the construction of the first quadratic model.  The lower and upper bounds
+     on moves from the updated X are set now, in the ISL and ISU partitions of
+     W, in order to provide useful and exact information about components of X
+     that become within distance RHOBEG from their bounds. */
+  for (j = 0; j < n; ++j) {
+    if (ctx.scl != NULL) {
+      x[j] *= one/ctx.scl[j];
+    }
+    temp = xu[j] - xl[j];
     jsl = isl + j;
     jsu = jsl + n;
     w[jsl] = xl[j] - x[j];
-- 
2.43.0


From cc25450086459d4df1f8faceac91720fd241adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 18/36] fix: BOBYQA with scaling factors evaluates and returns
 points within the bounds exactly

---
 src/bobyqa.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 7de04c4..89a3768 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -103,13 +103,15 @@ typedef struct {
   bobyqa_objfun* objfun; /* objective function */
   void*          data;   /* client data for the objective function */
   const REAL*    scl;    /* scaling factors */
+  const REAL*    xl;     /* unscaled lower bounds */
+  const REAL*    xu;     /* unscaled upper bounds */
   REAL*          ws;     /* temporary workspace */
   REAL           sgn;    /* sign: +1 for minimize, -1 for maximize */
   INTEGER        n;      /* number of variables */
 } context;
 
 #define GET_VARIABLES(ctx, x) ((ctx)->scl == NULL ? (x) : \
-                               scale((ctx)->ws, (ctx)->n, (ctx)->scl, (x)))
+                               unscale((ctx), (ctx)->ws, (x)))
 
 #define CALL_OBJFUN(ctx, x)   ((ctx)->objfun((ctx)->n, GET_VARIABLES(ctx, x), \
                                            (ctx)->data)*(ctx)->sgn)
@@ -171,17 +173,6 @@ update(const INTEGER n, const INTEGER npt, REAL* bmat,
        REAL* zmat, const INTEGER ndim, REAL* vlag, const REAL beta,
        const REAL denom, const INTEGER knew, REAL* w);
 
-static REAL*
-scale(REAL* dst, INTEGER n, const REAL* scl, const REAL* src)
-{
-  INTEGER i;
-
-  for (i = 0; i < n; ++i) {
-    dst[i] = scl[i]*src[i];
-  }
-  return dst;
-}
-
 /* `clamp(x,lo,hi)` returns the value in the range `[lo,hi]` which is the
    closest to `x`.  It is assumed that 'lo <= hi` holds.  */
 static REAL
@@ -190,6 +181,20 @@ clamp(REAL x, REAL lo, REAL hi)
   return (x >= hi ? hi : (x <= lo ? lo : x));
 }
 
+/* `unscale(ctx,dst,src)` stores in `dst` the unscaled variables corresponding
+   to the scaled variables `src`.  As rounding errors may occur, the result is
+   clamped into the bounds of the unscaled variables. */
+static REAL*
+unscale(const context* ctx, REAL* dst, const REAL* src)
+{
+  INTEGER i;
+
+  for (i = 0; i < ctx->n; ++i) {
+    dst[i] = clamp(ctx->scl[i]*src[i], ctx->xl[i], ctx->xu[i]);
+  }
+  return dst;
+}
+
 static REAL
 min(REAL a, REAL b)
 {
@@ -370,6 +375,8 @@ bobyqa_status bobyqa_optimize(
   ctx.objfun = objfun;
   ctx.data = data;
   ctx.scl = NULL;
+  ctx.xl = NULL;
+  ctx.xu = NULL;
   ctx.ws = NULL;
   ctx.sgn = (maximize ? FLT(-1.0) : FLT(1.0));
   ctx.n = n;
@@ -398,6 +405,8 @@ bobyqa_status bobyqa_optimize(
         tmpxu[j] = s*xu[j];
       }
       ctx.scl = scl;
+      ctx.xl = xl;
+      ctx.xu = xu;
       ctx.ws = tmpx;
       xl = tmpxl;
       xu = tmpxu;
@@ -486,7 +495,7 @@ bobyqa_status bobyqa_optimize(
 
   /* Scale the final variables, if scaling. */
   if (ctx.scl != NULL) {
-    scale(x, n, ctx.scl, x);
+    unscale(&ctx, x, x);
   }
 
   /* Return status. */
-- 
2.43.0


From bedcc9ec325259c4ec3a5b1a33713b669f9cfa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 19/36] fix: COBYLA prints nothing when IPRINT is 0, even if
 stopped by the budget

---
 src/cobyla.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 0c11597..39927ab 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -528,8 +528,10 @@ cobyla_optimize(INTEGER n, INTEGER m,
  call_calcfc:
   if (nfvals >= maxfun && nfvals > 0) {
     status = COBYLA_TOO_MANY_EVALUATIONS;
-    fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
-            cobyla_reason(status));
+    if (iprint >= 1) {
+      fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
+              cobyla_reason(status));
+    }
     goto L_600;
   }
 #ifdef COBYLA_REVCOM_
-- 
2.43.0


From faa6dd9a28d9a47e8e8da8f6435a7b4d93e5cb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 20/36] fix: NEWUOA reports the trust region radius from the
 first iteration

---
 src/newuoa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/newuoa.c b/src/newuoa.c
index 2c7f8d5..7397e21 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -1010,6 +1010,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
   recip = one/rhosq;
   reciq = SQRT(half)/rhosq;
   nf = 0;
+  rho = rhobeg;
  L50:
   nfm = nf;
   nfmm = nf - n;
-- 
2.43.0


From 4da9b29372651956f1ca9378a4d1486b73ec226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 21/36] fix: COBYLA, NEWUOA and BOBYQA refuse trust region
 radii that are not numbers

---
 src/bobyqa.c | 2 +-
 src/cobyla.c | 4 ++--
 src/newuoa.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 89a3768..f8a26ed 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -367,7 +367,7 @@ bobyqa_status bobyqa_optimize(
     }
     return BOBYQA_BAD_NPT;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (! (rhoend > zero && rhoend <= rhobeg)) {
     return BOBYQA_BAD_RHO_RANGE;
   }
 
diff --git a/src/cobyla.c b/src/cobyla.c
index 39927ab..462c862 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -208,7 +208,7 @@ cobyla_create(INTEGER n, INTEGER m, REAL rhobeg, REAL rhoend,
   size_t size, offset1, offset2;
 
   /* Check arguments. */
-  if (n < 1 || m < 0 || rhobeg < rhoend || rhoend <= 0 || maxfun < 1) {
+  if (n < 1 || m < 0 || !(rhoend > 0 && rhoend <= rhobeg) || maxfun < 1) {
     errno = EINVAL;
     return NULL;
   }
@@ -425,7 +425,7 @@ cobyla_optimize(INTEGER n, INTEGER m,
   if (m < 0) {
     return COBYLA_BAD_NCONS;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (! (rhoend > zero && rhoend <= rhobeg)) {
     return COBYLA_BAD_RHO_RANGE;
   }
 
diff --git a/src/newuoa.c b/src/newuoa.c
index 7397e21..15f6446 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -545,7 +545,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     }
     return NULL;
   }
-  if (rhoend <= 0 || rhoend > rhobeg) {
+  if (! (rhoend > 0 && rhoend <= rhobeg)) {
     if (iprint > 0) {
       print_error("invalid RHOBEG and/or RHOEND");
     }
@@ -848,7 +848,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
     }
     return NEWUOA_BAD_NPT;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (! (rhoend > zero && rhoend <= rhobeg)) {
     return NEWUOA_BAD_RHO_RANGE;
   }
 
-- 
2.43.0


From b62e0af63a9fd28a96667de46db6d02a2f579568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 22/36] fix: newuoa_create refuses less than 2 variables and
 sets errno for a bad NPT

---
 src/newuoa.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/newuoa.c b/src/newuoa.c
index 15f6446..01bd742 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -532,9 +532,9 @@ newuoa_create(const INTEGER n, const INTEGER npt,
   size_t size, offset;
 
   /* Check arguments. */
-  if (n < 0) {
+  if (n < 2) {
     if (iprint > 0) {
-      print_error("invalid number of variables N");
+      print_error("there must be at least 2 variables");
     }
     errno = EINVAL;
     return NULL;
@@ -543,6 +543,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     if (iprint > 0) {
       print_error("NPT is not in the required interval");
     }
+    errno = EINVAL;
     return NULL;
   }
   if (! (rhoend > 0 && rhoend <= rhobeg)) {
-- 
2.43.0


From 68d61b93a87286fadf7acea2d532fb976e2dfc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 23/36] fix: opk_gqt: do not claim success for b = 0 before the
 multiplier is negligible

---
 src/gqtpar.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gqtpar.c b/src/gqtpar.c
index 7f749c9..d74412a 100644
--- a/src/gqtpar.c
+++ b/src/gqtpar.c
@@ -239,7 +239,8 @@ OPK_GQT(const opk_index n, real_t a_[], const opk_index lda,
           info = 1;
         } else if (info == 0 && HALF*temp2 <= (atol/delta)/delta) {
           info = 2;
-        } else if (xnorm == ZERO) {
+        } else if (xnorm == ZERO && par + anorm == anorm) {
+          /* b = 0 and PAR is negligible. */
           info = 1;
         }
       }
-- 
2.43.0


From c8e2d5fd075ee4e73d76d6a33dfc7a179c31e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 24/36] fix: syrk addresses matrix A with its own leading
 dimension

---
 src/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg.c b/src/linalg.c
index 2564a31..c97f2ee 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1475,7 +1475,7 @@ OPK_SYRK(opk_blas_uplo uplo,
 #undef c
 #define c(a1,a2) c_[(a2)*ldc + a1]
 #undef a
-#define a(a1,a2) a_[(a2)*ldc + a1]
+#define a(a1,a2) a_[(a2)*lda + a1]
 
   /* Local constants and variables. */
   const real_t ZERO = OPK_REALCONST(0.0);
-- 
2.43.0


From a1fe61d95a1a63e707d22e7b33a4a686a21a20df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 25/36] fix: nrm2 does not overflow when scaling by the
 reciprocal of a tiny maximum

---
 src/linalg.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/linalg.c b/src/linalg.c
index c97f2ee..2276289 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -550,7 +550,6 @@ OPK_NRM2(opk_index n, const real_t x[],
          opk_index incx)
 {
   const real_t ZERO = OPK_REALCONST(0.0);
-  const real_t ONE = OPK_REALCONST(1.0);
   real_t a, b, s, t;
   opk_index i, m;
 
@@ -581,16 +580,15 @@ OPK_NRM2(opk_index n, const real_t x[],
 
   /* Compute sum of squares avoiding overflows. */
   s = ZERO;
-  b = ONE/a;
   if (incx == 1) {
     for (i = 0; i < n; ++i) {
-      t = b*x[i];
+      t = x[i]/a;
       s += t*t;
     }
   } else {
     m = n*incx;
     for (i = 0; i < m; i += incx) {
-      t = b*x[i];
+      t = x[i]/a;
       s += t*t;
     }
   }
-- 
2.43.0


From 2e612d6985ec957e42c09fe507bb493db93c851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 26/36] fix: gemm reports an invalid transb as its second
 argument

---
 src/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg.c b/src/linalg.c
index 2276289..4bb55db 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1322,7 +1322,7 @@ OPK_GEMM(opk_blas_trans transa,
     notb = 0;
     nrowb = n;
   } else {
-    return 1;
+    return 2;
   }
   if (m < 0) return 3;
   if (n < 0) return 4;
-- 
2.43.0


From 0716681fd7acf001c7e27e5fb5d61efb226565d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 27/36] fix: potf2 checks its first argument even for an empty
 matrix

---
 src/linalg.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/linalg.c b/src/linalg.c
index 4bb55db..54a2094 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1657,6 +1657,9 @@ OPK_POTF2(opk_blas_uplo uplo,
   opk_index j;
 
   /* Test the input parameters. */
+  if (uplo != OPK_BLAS_UPPER && uplo != OPK_BLAS_LOWER) {
+    return -1;
+  }
   if (n < 0) {
     return -2;
   }
@@ -1693,7 +1696,7 @@ OPK_POTF2(opk_blas_uplo uplo,
 
     }
 
-  } else if (uplo == OPK_BLAS_LOWER) {
+  } else {
 
     /* Compute the Cholesky factorization A = L*L'. */
 
@@ -1717,11 +1720,6 @@ OPK_POTF2(opk_blas_uplo uplo,
 
     }
 
-  } else {
-
-    /* Bad first parameter. */
-    return -1;
-
   }
   return 0;
 }
-- 
2.43.0


From 49b644262a5130cd46e71bab8dc75ca6c6490bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 28/36] fix: opk_fmin_get_final returns both ends of the
 bracket

---
 src/fmin.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 8b2d504..c18c387 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -211,11 +211,11 @@ opk_fmin_get_final(opk_fmin_context* ctx,
   if (ctx->u > ctx->w) {
     MAYBE_GET(xlo, ctx->w);
     MAYBE_GET(flo, ctx->fw);
-    MAYBE_GET(xup, ctx->v);
-    MAYBE_GET(fup, ctx->fv);
+    MAYBE_GET(xup, ctx->u);
+    MAYBE_GET(fup, ctx->fu);
   } else {
-    MAYBE_GET(xlo, ctx->v);
-    MAYBE_GET(flo, ctx->fv);
+    MAYBE_GET(xlo, ctx->u);
+    MAYBE_GET(flo, ctx->fu);
     MAYBE_GET(xup, ctx->w);
     MAYBE_GET(fup, ctx->fw);
   }
-- 
2.43.0


From 4c731ac3b5a4c5b615a714396a75aa6d7054a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 29/36] fix: opk_fmin takes maxeval = 0 as a limit, as
 documented

---
 src/fmin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index c18c387..e094ebf 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -526,7 +526,7 @@ int func(args)
   fv = f(v);
   ++nevals;
   while (fv > fw) {
-    if (maxeval > 0 && nevals >= maxeval) {
+    if (maxeval >= 0 && nevals >= maxeval) {
       status = 2; /* no bracket yet */
       goto done;
     }
@@ -548,7 +548,7 @@ int func(args)
     if (fabs(w - v) <= prec*r) {
       status = 0; /* convergence */
       goto done;
-    } else if (maxeval > 0 && nevals >= maxeval) {
+    } else if (maxeval >= 0 && nevals >= maxeval) {
       status = 1; /* bracket but no convergence */
       goto done;
     }
-- 
2.43.0


From 77c60e3aa40178cf87648978ae04412f68d4aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:45 +0000
Subject: [PATCH 30/36] fix: opk_fmin_next may be called again after
 convergence

---
 src/fmin.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fmin.c b/src/fmin.c
index e094ebf..9d57246 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -232,6 +232,7 @@ opk_fmin_get_final(opk_fmin_context* ctx,
  *    ctx->stage =  3    evaluation of f(x) for x inside (a,b)
  *    ctx->stage =  4    evaluation of f(x) while trying to bracket
  *    ctx->stage =  5    evaluation of f(x) while converging
+ *    ctx->stage =  6    convergence
  */
 
 opk_fmin_task
@@ -293,6 +294,7 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
       JUMP(3);
       JUMP(4);
       JUMP(5);
+    case 6: goto check;
     default:
       return (ctx->status = OPK_FMIN_ERROR);
     }
@@ -341,11 +343,13 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
 
   /* Reduce the bracketing interval to improve the precision. */
   for (;;) {
+  check:
     /* Check for convergence. */
     r = fabs(u);
     if ((t = fabs(v)) > r) r = t;
     if ((t = fabs(w)) > r) r = t;
     if (fabs(w - v) <= prec*r) {
+      ctx->stage = 6;
       return (ctx->status = OPK_FMIN_CONVERGENCE);
     }
 
-- 
2.43.0


From 5b58d8113f803543748c013092bea6358c2fb3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 31/36] fix: opk_fmin ends when rounding prevents any progress
 instead of looping forever

---
 src/fmin.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 9d57246..c9e46be 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -354,7 +354,13 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
     }
 
     /* Take a golden section interpolation step. */
-    EVAL(5, x, FMIN_ALPHA*(w - v) + v);
+    t = FMIN_ALPHA*(w - v) + v;
+    if (t == v || t == w) {
+      /* Rounding errors prevent further progresses. */
+      ctx->stage = 6;
+      return (ctx->status = OPK_FMIN_CONVERGENCE);
+    }
+    EVAL(5, x, t);
 
     /* Update the interval.  In case of a tie (fx = fv and fu = fw), the
        situation is symmetrical and the choice arbitrary. */
@@ -559,14 +565,11 @@ int func(args)
 
     /* Take a golden section interpolation step. */
     x = FMIN_ALPHA*(w - v) + v;
-#if 0
-    /* FIXME: This test may be used to save one function evaluation when
-       extreme precision is requested and rounding errors prevent further
-       progresses. */
-    if (x == u || x == v || x == w) {
-      break;
+    if (x == v || x == w) {
+      /* Rounding errors prevent further progresses. */
+      status = 0;
+      goto done;
     }
-#endif
     fx = f(x);
     ++nevals;
     /* Update the interval.  In case of a tie (fx = fv and fu = fw), the
-- 
2.43.0


From 9e609d76d4f26f2f26d8e7e26f198d682369a81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 32/36] fix: COBYLA no longer loops for ever when values are
 not finite

---
 src/cobyla.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 462c862..fde8a5e 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -1527,7 +1527,7 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
   /* If the full step is not acceptable then begin another iteration.
      Otherwise switch to stage two or end the calculation. */
   if (icon > 0) goto L_70;
-  if (step == stpful) goto L_500;
+  if (! (step < stpful)) goto L_500; /* (also if STEP is not a number) */
  L_480:
   mcon = m + 1;
   icon = mcon;
-- 
2.43.0


From eb083b86d3e4c58efc17397b12de8a8fff365b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 33/36] fix: BOBYQA returns the last point if it is the best
 when the trust region step failed

---
 src/bobyqa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index f8a26ed..08c92e1 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -1056,6 +1056,7 @@ bobyqb(const INTEGER n, const INTEGER npt, const context* ctx,
   /* Pick the next value of DELTA after a trust region step. */
   if (ntrits > 0) {
     if (vquad >= zero) {
+      fsave = f;
       goto step_failed;
     }
     ratio = (f - fopt)/vquad;
-- 
2.43.0


From 01a8453bbb1554d825a51483b1b6b65a63c99793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 34/36] fix: forget the values of a previous run when an
 optimizer is restarted with a nonmonotone line search

---
 src/lnsrch.c            | 13 ++++++++++---
 src/nlcg.c              |  1 +
 src/optimpack-private.h |  9 +++++++++
 src/vmlmb.c             |  1 +
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 329bc43..5f1f5ba 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -95,6 +95,14 @@ finalize_line_search(opk_object* obj)
   }
 }
 
+void
+opk__reset_lnsrch(opk_lnsrch* ls)
+{
+  if (ls != NULL && ls->ops->reset != NULL) {
+    ls->ops->reset(ls);
+  }
+}
+
 opk_lnsrch*
 opk_allocate_line_search(opk_lnsrch_operations *ops,
                          size_t size)
@@ -362,14 +370,12 @@ nonmonotone_start(opk_lnsrch* ls)
   return success(ls, OPK_LNSRCH_SEARCH);
 }
 
-#if 0
 static void
 nonmonotone_reset(opk_lnsrch* ls)
 {
   nonmonotone_lnsrch* nmls = (nonmonotone_lnsrch*)ls;
   nmls->mp = 0;
 }
-#endif
 
 static opk_lnsrch_task
 nonmonotone_iterate(opk_lnsrch* ls,
@@ -423,7 +429,8 @@ static opk_lnsrch_operations nonmonotone_operations = {
   NULL,
   nonmonotone_start,
   nonmonotone_iterate,
-  FALSE
+  FALSE,
+  nonmonotone_reset
 };
 
 opk_lnsrch*
diff --git a/src/nlcg.c b/src/nlcg.c
index dd3495d..9093dfd 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -717,6 +717,7 @@ opk_start_nlcg(opk_nlcg* opt, opk_vector* x)
   opt->iterations = 0;
   opt->evaluations = 0;
   opt->restarts = 0;
+  opk__reset_lnsrch(opt->lnsrch);
   return success(opt, OPK_TASK_COMPUTE_FG);
 }
 
diff --git a/src/optimpack-private.h b/src/optimpack-private.h
index 26aa301..0887a43 100644
--- a/src/optimpack-private.h
+++ b/src/optimpack-private.h
@@ -490,12 +490,21 @@ struct opk_lnsrch_operations_ {
      or 1st Wolfe condition only).  The initial directional derivative at the
      start of each search is always needed. */
   opk_bool use_deriv;
+
+  /* Method called when a new minimization is started with the line search to
+     forget everything about the previous searches.  Can be NULL if the line
+     search keeps no memory of the previous searches. */
+  void (*reset)(opk_lnsrch* self);
 };
 
 extern opk_lnsrch*
 opk_allocate_line_search(opk_lnsrch_operations *ops,
                          size_t size);
 
+/* Forget about the previous line searches (to start a new minimization). */
+extern void
+opk__reset_lnsrch(opk_lnsrch* ls);
+
 extern void
 opk__set_nlcg_status(opk_nlcg* opt, opk_status status);
 
diff --git a/src/vmlmb.c b/src/vmlmb.c
index 0e7a7fb..832fcdc 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -375,6 +375,7 @@ opk_start_vmlmb(opk_vmlmb* opt, opk_vector* x)
   opt->restarts = 0;
   opt->updates = 0;
   opt->mp = 0;
+  opk__reset_lnsrch(opt->lnsrch);
   if (opt->box != NULL) {
     opk_status status = opk_project_variables(x, x, opt->box);
     if (status != OPK_SUCCESS) {
-- 
2.43.0


From 30118ac49733d34fd086bf865aa06a222b968b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:41 +0000
Subject: [PATCH 35/36] fix: delete the right constraint from the active set in
 COBYLA's trust region step

When the gradient of a new active constraint is a linear combination of the
gradients of the active ones, the constraint to be deleted is the one which
limits the change of the multipliers (IOUT), as said by the comments.  The
test and the reordering were made with ICON, the index of the new
constraint, which always exceeds NACT, so that the last active constraint
was deleted whatever its multiplier and the step could be far from
minimizing the greatest violation of the linear constraints.
---
 src/cobyla.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index fde8a5e..8a070ba 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -1114,7 +1114,7 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
   REAL acca, accb, alpha, beta, dd, optnew, optold, ratio, resmax, resold, sd,
     sp, spabs, ss, step, stpful, sum, sumabs, temp, tempa, tempb, tot, vsave,
     zdotv, zdotw, zdvabs, zdwabs;
-  INTEGER i, icon, icount, isave, j, k, kk, kl, kp, kw, mcon, nact, nactx;
+  INTEGER i, icon, icount, iout, isave, j, k, kk, kl, kp, kw, mcon, nact, nactx;
 
   *ifull = 1;
   icon = 0; /* FIXME: `icon` was uninitialized */
@@ -1230,6 +1230,7 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
      of the linear combination.  Further, set IOUT to the index of the
      constraint to be deleted, but branch if no suitable index can be found. */
   ratio = -one;
+  iout = nact;
   k = nact;
  L_130:
   zdotv = zero;
@@ -1247,7 +1248,7 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
       tempa = VMULTC(k)/temp;
       if (ratio < zero || tempa < ratio) {
         ratio = tempa;
-        /* iout = k; (FIXME: `iout` unused) */
+        iout = k;
       }
     }
     if (k >= 2) {
@@ -1271,10 +1272,10 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
     tempb = VMULTC(k) - ratio*VMULTD(k);
     VMULTC(k) = MAX(zero, tempb);
   }
-  if (icon < nact) {
-    isave = IACT(icon);
-    vsave = VMULTC(icon);
-    k = icon;
+  if (iout < nact) {
+    isave = IACT(iout);
+    vsave = VMULTC(iout);
+    k = iout;
     do {
       kp = k + 1;
       kw = IACT(kp);
-- 
2.43.0


From 23e0683d6bcd9a62adaf845987666c99a7d91b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:57 +0000
Subject: [PATCH 36/36] fix: refuse NaN parameters in the constructors of line
 searches

opk_lnsrch_new_backtrack and opk_lnsrch_new_csrch accepted NaN tolerances
(every comparison with a NaN is false), with which no step is ever
acceptable, whereas opk_lnsrch_new_nonmonotone refuses them.
---
 src/lnsrch.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 5f1f5ba..0afff51 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -319,7 +319,7 @@ opk_lnsrch_new_backtrack(double ftol, double amin)
 {
   opk_lnsrch* ls;
 
-  if (ftol <= 0 || ftol > 0.5 || amin <= 0 || amin >= 1) {
+  if (! (ftol > 0 && ftol <= 0.5 && amin > 0 && amin < 1)) { /* or NaN */
     errno = EINVAL;
     return NULL;
   }
@@ -666,15 +666,15 @@ opk_lnsrch_new_csrch(double ftol, double gtol, double xtol)
 {
   opk_lnsrch* ls;
 
-  if (ftol < 0) {
+  if (! (ftol >= 0)) { /* or NaN */
     errno = EINVAL;
     return NULL;
   }
-  if (gtol < 0) {
+  if (! (gtol >= 0)) { /* or NaN */
     errno = EINVAL;
     return NULL;
   }
-  if (xtol < 0) {
+  if (! (xtol >= 0)) { /* or NaN */
     errno = EINVAL;
     return NULL;
   }
-- 
2.43.0

