From 68677ae494b8ef76a4caf2961bce87eecb3a40dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:26 +0000
Subject: [PATCH 01/82] fix: unordered comparison predicates of the IEEE
 backend

UEQ, UGT, UGE, ULT, ULE and UNE returned only whether the operands were
unordered, so e.g. 1.0 != 2.0 was false under --inst-fcmp.
---
 src/backends/interflop-backend-ieee/interflop_ieee.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/backends/interflop-backend-ieee/interflop_ieee.c b/src/backends/interflop-backend-ieee/interflop_ieee.c
index 2a6b357..fb8932c 100644
--- a/src/backends/interflop-backend-ieee/interflop_ieee.c
+++ b/src/backends/interflop-backend-ieee/interflop_ieee.c
@@ -246,27 +246,27 @@ static inline void debug_print_fma_double(void *context,
     (STR) = "FCMP_ORD";                                                        \
     break;                                                                     \
   case FCMP_UEQ:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = isunordered(A, B) || ((A) == (B));                                  \
     (STR) = "FCMP_UEQ";                                                        \
     break;                                                                     \
   case FCMP_UGT:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !islessequal(A, B);                                                 \
     (STR) = "FCMP_UGT";                                                        \
     break;                                                                     \
   case FCMP_UGE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isless(A, B);                                                      \
     (STR) = "FCMP_UGE";                                                        \
     break;                                                                     \
   case FCMP_ULT:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isgreaterequal(A, B);                                              \
     (STR) = "FCMP_ULT";                                                        \
     break;                                                                     \
   case FCMP_ULE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !isgreater(A, B);                                                   \
     (STR) = "FCMP_ULE";                                                        \
     break;                                                                     \
   case FCMP_UNE:                                                               \
-    *(C) = isunordered(A, B);                                                  \
+    *(C) = !((A) == (B));                                                      \
     (STR) = "FCMP_UNE";                                                        \
     break;                                                                     \
   case FCMP_UNO:                                                               \
-- 
2.43.0


From 84a3d91c4dc43450feb1b28197795457930b91cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:03 +0000
Subject: [PATCH 02/82] fix: VPREC absolute error modes on denormals of the
 simulated format

For values below the normal range, the exponent of the absolute error was
used as a number of bits of precision, so results were flushed to zero or
kept bits far below the requested error. Round to the coarser of the
absolute error and the format's own last bit instead.
---
 .../interflop-backend-vprec/interflop_vprec.c | 68 ++++++++-----------
 1 file changed, 28 insertions(+), 40 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec.c b/src/backends/interflop-backend-vprec/interflop_vprec.c
index d79eed3..a50b7b4 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec.c
@@ -247,25 +247,12 @@ void _set_vprec_ftz(bool ftz, vprec_context_t *ctx) { ctx->ftz = ftz; }
  * The following functions are used to set virtual precision,
  * VPREC mode of operation and instrumentation mode.
  ***************************************************************/
-extern int compute_absErr_vprec_binary32(bool isDenormal,
-                                         vprec_context_t *currentContext,
+extern int compute_absErr_vprec_binary32(vprec_context_t *currentContext,
                                          int expDiff, int binary32_precision);
-inline int compute_absErr_vprec_binary32(bool isDenormal,
-                                         vprec_context_t *currentContext,
+inline int compute_absErr_vprec_binary32(vprec_context_t *currentContext,
                                          int expDiff, int binary32_precision) {
   /* this function is used only when in vprec error mode abs and all,
    * so there is no need to handle vprec error mode rel */
-  if (isDenormal == true) {
-    /* denormal, or underflow case */
-    if (currentContext->relErr == true) {
-      /* vprec error mode all */
-      if (abs(currentContext->absErr_exp) < binary32_precision) {
-        return currentContext->absErr_exp;
-      }
-      return binary32_precision;
-    } /* vprec error mode abs */
-    return currentContext->absErr_exp;
-  } /* normal case */
   if (currentContext->relErr == true) {
     /* vprec error mode all */
     if (expDiff < binary32_precision) {
@@ -278,33 +265,18 @@ inline int compute_absErr_vprec_binary32(bool isDenormal,
   }
   return FLOAT_PMAN_SIZE;
 }
-extern int compute_absErr_vprec_binary64(bool isDenormal,
-                                         vprec_context_t *currentContext,
+extern int compute_absErr_vprec_binary64(vprec_context_t *currentContext,
                                          int expDiff, int binary64_precision);
-inline int compute_absErr_vprec_binary64(bool isDenormal,
-                                         vprec_context_t *currentContext,
+inline int compute_absErr_vprec_binary64(vprec_context_t *currentContext,
                                          int expDiff, int binary64_precision) {
   /* this function is used only when in vprec error mode abs and all,
    * so there is no need to handle vprec error mode rel */
-  if (isDenormal == true) {
-    /* denormal, or underflow case */
-    if (currentContext->relErr == true) {
-      /* vprec error mode all */
-      if (abs(currentContext->absErr_exp) < binary64_precision) {
-        return currentContext->absErr_exp;
-      }
-      return binary64_precision;
-    } /* vprec error mode abs */
-    return currentContext->absErr_exp;
-
-  } /* normal case */
   if (currentContext->relErr == true) {
     /* vprec error mode all */
     if (expDiff < binary64_precision) {
       return expDiff;
     }
     return binary64_precision;
-
   } /* vprec error mode abs */
   if (expDiff < DOUBLE_PMAN_SIZE) {
     return expDiff;
@@ -334,7 +306,7 @@ inline float handle_binary32_normal_absErr(float a, int32_t aexp,
   } else {
     /* normal case for the absolute error mode */
     int binary32_precision_adjusted = compute_absErr_vprec_binary32(
-        false, currentContext, expDiff, binary32_precision);
+        currentContext, expDiff, binary32_precision);
     retVal = round_binary32_normal(a, binary32_precision_adjusted);
   }
 
@@ -363,7 +335,7 @@ inline double handle_binary64_normal_absErr(double a, int64_t aexp,
   } else {
     /* normal case for the absolute error mode */
     int binary64_precision_adjusted = compute_absErr_vprec_binary64(
-        false, currentContext, (int)expDiff, binary64_precision);
+        currentContext, (int)expDiff, binary64_precision);
     retVal = round_binary64_normal(a, binary64_precision_adjusted);
   }
 
@@ -464,9 +436,17 @@ float _vprec_round_binary32(float a, char is_input, void *context,
     }
     if (currentContext->absErr == true) {
       /* absolute error mode, or both absolute and relative error modes */
-      int binary32_precision_adjusted = compute_absErr_vprec_binary32(
-          true, currentContext, 0, binary32_precision);
-      a = handle_binary32_denormal(a, emin, binary32_precision_adjusted);
+      int expDiff = emin - currentContext->absErr_exp;
+      if (expDiff < 0) {
+        /* the whole denormal range lies below the absolute error threshold */
+        a = handle_binary32_normal_absErr(a, aexp.s32, binary32_precision,
+                                          currentContext);
+      } else {
+        /* the last bit of the denormals is at least the absolute error */
+        int binary32_precision_adjusted = compute_absErr_vprec_binary32(
+            currentContext, expDiff, binary32_precision);
+        a = handle_binary32_denormal(a, emin, binary32_precision_adjusted);
+      }
     } else {
       /* relative error mode */
       a = handle_binary32_denormal(a, emin, binary32_precision);
@@ -539,9 +519,17 @@ double _vprec_round_binary64(double a, char is_input, void *context,
     }
     if (currentContext->absErr == true) {
       /* absolute error mode, or both absolute and relative error modes */
-      int binary64_precision_adjusted = compute_absErr_vprec_binary64(
-          true, currentContext, 0, binary64_precision);
-      a = handle_binary64_denormal(a, emin, binary64_precision_adjusted);
+      int expDiff = emin - currentContext->absErr_exp;
+      if (expDiff < 0) {
+        /* the whole denormal range lies below the absolute error threshold */
+        a = handle_binary64_normal_absErr(a, aexp.s64, binary64_precision,
+                                          currentContext);
+      } else {
+        /* the last bit of the denormals is at least the absolute error */
+        int binary64_precision_adjusted = compute_absErr_vprec_binary64(
+            currentContext, expDiff, binary64_precision);
+        a = handle_binary64_denormal(a, emin, binary64_precision_adjusted);
+      }
     } else {
       /* relative error mode */
       a = handle_binary64_denormal(a, emin, binary64_precision);
-- 
2.43.0


From 6d3563e5355d02fb9570f57b4d7801b15d6b4d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:38 +0000
Subject: [PATCH 03/82] fix: fma of the MCA backends in ieee mode was rounded
 twice

The fma was computed in the extended type and then rounded to the type of
the operands, so --mode=ieee did not give the IEEE result.
---
 src/backends/interflop-backend-mcaint/interflop_mca_int.c | 6 ++++++
 src/backends/interflop-backend-mcaquad/interflop_mca.c    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index f490a2d..f202034 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -445,6 +445,12 @@ static void _mcaint_inexact_binary128(_Float128 *qa, void *context) {
       _B = DAZ(B);                                                             \
       _C = DAZ(C);                                                             \
     }                                                                          \
+    if (TMP_CTX->mode == mcaint_mode_ieee) {                                   \
+      /* the fma of the extended type would be rounded twice */                \
+      const typeof(A) _R =                                                     \
+          PERFORM_FMA((typeof(A))_A, (typeof(A))_B, (typeof(A))_C);            \
+      return TMP_CTX->ftz ? FTZ(_R) : _R;                                      \
+    }                                                                          \
     if (TMP_CTX->mode == mcaint_mode_pb || TMP_CTX->mode == mcaint_mode_mca) { \
       _INEXACT_BINARYN(X, &_A, CTX);                                           \
       _INEXACT_BINARYN(X, &_B, CTX);                                           \
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index b48f3e9..913c27c 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -506,6 +506,12 @@ inline void _mcaquad_inexact_binary128(_Float128 *qa, void *context) {
       _B = DAZ(B);                                                             \
       _C = DAZ(C);                                                             \
     }                                                                          \
+    if (TMP_CTX->mode == mcaquad_mode_ieee) {                                  \
+      /* the fma of the extended type would be rounded twice */                \
+      const typeof(A) _R =                                                     \
+          PERFORM_FMA((typeof(A))_A, (typeof(A))_B, (typeof(A))_C);            \
+      return TMP_CTX->ftz ? FTZ(_R) : _R;                                      \
+    }                                                                          \
     if (TMP_CTX->mode == mcaquad_mode_pb ||                                    \
         TMP_CTX->mode == mcaquad_mode_mca) {                                   \
       _INEXACT_BINARYN(X, &_A, CTX);                                           \
-- 
2.43.0


From d3a3af45af5464acaa6992c956cdc5b251dbdd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:37 +0000
Subject: [PATCH 04/82] fix: cancellation noise no longer wraps around on full
 cancellations

The exponent of the noise was added modulo the exponent field, so 1.0 - 1.0
in double precision gave a random number between -4 and 4.
---
 .../interflop_cancellation.c                              | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/backends/interflop-backend-cancellation/interflop_cancellation.c b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
index aed1ac1..201fd56 100644
--- a/src/backends/interflop-backend-cancellation/interflop_cancellation.c
+++ b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
@@ -112,7 +112,13 @@ void cancellation_pop_seed() { rng_state = __rng_state; }
 static inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
   const double d_rand = get_rand_double01(rng_state, &global_tid) - 0.5;
   binary64 b64 = {.f64 = d_rand};
-  b64.ieee.exponent += exp;
+  /* noise below the smallest normal number is zero, e.g. when all the bits of
+   * the operands cancel; the exponent field must not wrap around */
+  const int32_t noise_exp = (int32_t)b64.ieee.exponent + exp;
+  if (noise_exp <= 0) {
+    return 0.0;
+  }
+  b64.ieee.exponent = noise_exp;
   return b64.f64;
 }
 
-- 
2.43.0


From 9c5bcd4e1db7c284c86e6fc3aa600518da1f2717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:58 +0000
Subject: [PATCH 05/82] fix: --ftz flushes denormal results of double to float
 casts

The MCA and bitmask backends only tested the cast's result as a binary64.
---
 src/backends/interflop-backend-bitmask/interflop_bitmask.c | 4 +++-
 src/backends/interflop-backend-mcaint/interflop_mca_int.c  | 4 +++-
 src/backends/interflop-backend-mcaquad/interflop_mca.c     | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.c b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
index 28d1160..81ecc60 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.c
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
@@ -514,7 +514,9 @@ void INTERFLOP_BITMASK_API(fma_double)(double a, double b, double c,
 
 void INTERFLOP_BITMASK_API(cast_double_to_float)(double a, float *res,
                                                  void *context) {
-  *res = (float)_bitmask_binary64_unary_op(a, bitmask_cast, context);
+  const float b = (float)_bitmask_binary64_unary_op(a, bitmask_cast, context);
+  /* the output is a binary32: it can be denormal when the binary64 is not */
+  *res = ((bitmask_context_t *)context)->ftz ? FTZ(b) : b;
 }
 
 const char *INTERFLOP_BITMASK_API(get_backend_name)(void) {
diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index f202034..e42aac0 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -578,7 +578,9 @@ void INTERFLOP_MCAINT_API(fma_double)(double a, double b, double c, double *res,
 
 void INTERFLOP_MCAINT_API(cast_double_to_float)(double a, float *res,
                                                 void *context) {
-  *res = (float)_mcaint_binary64_unary_op(a, mcaint_cast, context);
+  const float b = (float)_mcaint_binary64_unary_op(a, mcaint_cast, context);
+  /* the output is a binary32: it can be denormal when the binary64 is not */
+  *res = ((mcaint_context_t *)context)->ftz ? FTZ(b) : b;
 }
 
 const char *INTERFLOP_MCAINT_API(get_backend_name)(void) {
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 913c27c..d4b1a81 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -648,7 +648,9 @@ void INTERFLOP_MCAQUAD_API(fma_double)(double a, double b, double c,
 
 void INTERFLOP_MCAQUAD_API(cast_double_to_float)(double a, float *res,
                                                  void *context) {
-  *res = _mcaquad_binary64_unary_op(a, mcaquad_cast, context);
+  const float b = (float)_mcaquad_binary64_unary_op(a, mcaquad_cast, context);
+  /* the output is a binary32: it can be denormal when the binary64 is not */
+  *res = ((mcaquad_context_t *)context)->ftz ? FTZ(b) : b;
 }
 
 void _interflop_usercall_inexact(void *context, va_list ap) {
-- 
2.43.0


From f5570e5a430adbf44cc16a130b0f44960347e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:48 +0000
Subject: [PATCH 06/82] fix: loading the VPREC backend twice no longer frees
 its buffers twice at exit

---
 .../interflop_vprec_function_instrumentation.c             | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 769d41a..9a4e33b 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -54,8 +54,10 @@ static const char key_log_file_str[] = "prec-log-file";
 
 #define FREE_STRING(A, N)                                                      \
   for (int i = 0; i < N; i++)                                                  \
-    if ((A)[i])                                                                \
-      interflop_free((A)[i]);
+    if ((A)[i]) {                                                              \
+      interflop_free((A)[i]);                                                  \
+      (A)[i] = NULL;                                                           \
+    }
 
 const int elt_to_read_header = 12;
 const int elt_to_read_inputs = 7;
@@ -408,6 +410,7 @@ void _vfi_finalize(void *context) {
   /* close log file */
   if (_vprec_log_file != NULL) {
     interflop_fclose(_vprec_log_file);
+    _vprec_log_file = NULL;
   }
 
   /* free vprec_function_map */
-- 
2.43.0


From 05b03a17ee2045b720cc885c9d14c2aeba997081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:07 +0000
Subject: [PATCH 07/82] fix: operations on small vectors were not replaced by
 their instrumented version

The x86-64 ABI returns a <2 x float> as a double, so the call to the wrapper
is followed by a bitcast; the result of updateReturn was discarded in that
case and the original operation kept.
---
 src/libvfcinstrument/libVFCInstrument.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index 0d4a1f7..836036a 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -450,9 +450,7 @@ struct VfclibInst : public ModulePass {
     CallInst *newInst = Builder.CreateCall(F, {op1, op2});
     newInst->setAttributes(F->getAttributes());
 
-    newInst = dyn_cast<CallInst>(updateReturn(Builder, newInst, retType));
-
-    return newInst;
+    return updateReturn(Builder, newInst, retType);
   }
 
   /* Replace fma arithmetic instructions with MCA */
@@ -472,9 +470,7 @@ struct VfclibInst : public ModulePass {
     CallInst *newInst = Builder.CreateCall(F, {op1, op2, op3});
     newInst->setAttributes(F->getAttributes());
 
-    newInst = dyn_cast<CallInst>(updateReturn(Builder, newInst, retType));
-
-    return newInst;
+    return updateReturn(Builder, newInst, retType);
   }
 
   /* Replace comparison instructions with MCA */
@@ -517,9 +513,7 @@ struct VfclibInst : public ModulePass {
     CallInst *newInst = Builder.CreateCall(F, {op});
     newInst->setAttributes(F->getAttributes());
 
-    newInst = dyn_cast<CallInst>(updateReturn(Builder, newInst, dstType));
-
-    return newInst;
+    return updateReturn(Builder, newInst, dstType);
   }
 
   /* Returns the MCA function */
-- 
2.43.0


From 87e58d03b9ae65e6e012d87c5483a39a96988479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:24 +0000
Subject: [PATCH 08/82] fix: --inst-fcmp produced invalid IR for comparisons of
 2-lane vectors

---
 src/libvfcinstrument/libVFCInstrument.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index 836036a..37e11e4 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -493,8 +493,10 @@ struct VfclibInst : public ModulePass {
       auto size = ((::llvm::FixedVectorType *)vTy)->getNumElements();
       res = GET_VECTOR_TYPE(res, size);
     }
-    Value *newInst = Builder.CreateCall(
+    CallInst *call = Builder.CreateCall(
         F, {Builder.getInt32(FCI->getPredicate()), op1, op2});
+    /* the ABI can return small vectors of int in a double */
+    Value *newInst = updateReturn(Builder, call, res);
     newInst = Builder.CreateIntCast(newInst, retType, true);
     return newInst;
   }
-- 
2.43.0


From 23edd7c0ddcbacf279f9921cf4380948dfda0a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:56 +0000
Subject: [PATCH 09/82] fix: wide vectors were passed incorrectly to the
 wrapper with -march=native on AVX-512 machines

---
 src/libvfcinstrument/libVFCInstrument.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index 37e11e4..b3d98bc 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -538,6 +538,26 @@ struct VfclibInst : public ModulePass {
             caller->getFnAttribute("target-cpu"));
   }
 
+  // Vectors wider than the "min-legal-vector-width" of the caller may be split
+  // by the code generator when they are passed to a function. The caller must
+  // thus accept vectors at least as wide as those of the callee.
+  void updateMinLegalVectorWidth(Function *caller, Function *callee) {
+    const char *name = "min-legal-vector-width";
+    Attribute callerAttr = caller->getFnAttribute(name);
+    if (not callerAttr.isValid())
+      return;
+    Attribute calleeAttr = callee->getFnAttribute(name);
+    if (not calleeAttr.isValid()) {
+      caller->removeFnAttr(name);
+      return;
+    }
+    uint64_t callerWidth = 0, calleeWidth = 0;
+    callerAttr.getValueAsString().getAsInteger(0, callerWidth);
+    calleeAttr.getValueAsString().getAsInteger(0, calleeWidth);
+    if (callerWidth < calleeWidth)
+      caller->addFnAttr(calleeAttr);
+  }
+
   Value *replaceWithMCACall(Module &M, Instruction *I, FPOps opCode) {
     if (not isValidInstruction(I)) {
       return nullptr;
@@ -557,6 +577,7 @@ struct VfclibInst : public ModulePass {
       caller->addFnAttr(target_features);
       caller->addFnAttr(target_cpu);
     }
+    updateMinLegalVectorWidth(caller, mcaFunction);
 
     // We call directly a hardcoded helper function
     // no need to go through the vtable at this stage.
-- 
2.43.0


From 87c957af8731f517f2e0320aea85bc8f5d1306be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:57 +0000
Subject: [PATCH 10/82] fix: vectors were passed incorrectly between functions
 whose target attributes differ

The pass gives the caller of a wrapper function the target attributes of the
wrapper. Internal functions which take or return vectors by value then used
another calling convention than their callers, and the test of the
compatibility of the calling conventions was inverted.
---
 src/libvfcinstrument/libVFCInstrument.cpp | 27 +++++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index b3d98bc..d748542 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -532,12 +532,28 @@ struct VfclibInst : public ModulePass {
   // Returns true if the caller and the callee agree on how args will be
   // passed Available in TargetTransformInfoImpl since llvm-8
   bool areFunctionArgsABICompatible(Function *caller, Function *callee) {
-    return (callee->getFnAttribute("target-features") !=
+    return (callee->getFnAttribute("target-features") ==
             caller->getFnAttribute("target-features")) and
-           (callee->getFnAttribute("target-cpu") !=
+           (callee->getFnAttribute("target-cpu") ==
             caller->getFnAttribute("target-cpu"));
   }
 
+  // Sets the target attributes of the caller to the callee ones. The functions
+  // of the module that agree with the caller on how args are passed must still
+  // agree with it, so they are changed likewise.
+  void setTargetAttributes(Module &M, Function *caller, Function *callee) {
+    auto old_features = caller->getFnAttribute("target-features");
+    auto old_cpu = caller->getFnAttribute("target-cpu");
+    for (auto &F : M) {
+      if (not F.isDeclaration() and
+          F.getFnAttribute("target-features") == old_features and
+          F.getFnAttribute("target-cpu") == old_cpu) {
+        F.addFnAttr(callee->getFnAttribute("target-features"));
+        F.addFnAttr(callee->getFnAttribute("target-cpu"));
+      }
+    }
+  }
+
   // Vectors wider than the "min-legal-vector-width" of the caller may be split
   // by the code generator when they are passed to a function. The caller must
   // thus accept vectors at least as wide as those of the callee.
@@ -571,11 +587,8 @@ struct VfclibInst : public ModulePass {
 
     // If the caller and the callee (mcaFunction) have different ABI we set the
     // caller attributes to the callee ones.
-    if (areFunctionArgsABICompatible(caller, mcaFunction)) {
-      auto target_features = mcaFunction->getFnAttribute("target-features");
-      auto target_cpu = mcaFunction->getFnAttribute("target-cpu");
-      caller->addFnAttr(target_features);
-      caller->addFnAttr(target_cpu);
+    if (not areFunctionArgsABICompatible(caller, mcaFunction)) {
+      setTargetAttributes(M, caller, mcaFunction);
     }
     updateMinLegalVectorWidth(caller, mcaFunction);
 
-- 
2.43.0


From 624f8ea3858bd59b7e66c458074c61ceca95cc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:57 +0000
Subject: [PATCH 11/82] fix: --inst-func crashed on functions containing
 indirect calls

---
 src/libvfcfuncinstrument/libVFCFuncInstrument.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index 346e7dd..e835f4a 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -189,6 +189,10 @@ std::string getArgName(Function *F, unsigned int i) {
       if (isa<CallInst>(&I)) {
         CallInst *Call = cast<CallInst>(&I);
 
+        // Indirect calls have no called function
+        if (Call->getCalledFunction() == nullptr)
+          continue;
+
         if (Call->getCalledFunction()->getName() == "llvm.dbg.declare" ||
             Call->getCalledFunction()->getName() == "llvm.dbg.value" ||
             Call->getCalledFunction()->getName() == "llvm.dbg.addr") {
-- 
2.43.0


From cf757b3867ab70aa80455bde09cabc1be339f9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:57 +0000
Subject: [PATCH 12/82] fix: --inst-func took every pointer for a pointer to
 float

Since LLVM pointers are opaque, the type of the objects can only be found from
the origin of the pointer. Structures and arrays of double were handled as
float, and intrinsics such as llvm.memcpy or llvm.va_start were hooked.
---
 .../libVFCFuncInstrument.cpp                  | 148 +++++++++---------
 1 file changed, 70 insertions(+), 78 deletions(-)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index e835f4a..f1e2aec 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -82,8 +82,7 @@ enum FTYPES {
 };
 
 // Types
-llvm::Type *FloatTy, *DoubleTy, *FloatPtrTy, *DoublePtrTy, *Int8Ty, *Int8PtrTy,
-    *Int32Ty;
+llvm::Type *FloatTy, *DoubleTy, *Int8Ty, *Int8PtrTy, *Int32Ty;
 
 // Array of values
 Value *Types2val[] = {
@@ -91,6 +90,61 @@ Value *Types2val[] = {
     [FFLOAT_PTR] = NULL, [FDOUBLE_PTR] = NULL, [FQUAD_PTR] = NULL,
     [FTYPES_END] = NULL};
 
+// Search the type of the object at the address given by the pointer V. The type
+// is searched from the origin of V since pointers are opaque. Returns nullptr
+// if it is not known.
+Type *getObjectType(Value *V) {
+  GEPOperator *GEP = dyn_cast<GEPOperator>(V);
+  if (GEP != nullptr) {
+    // The address of the first element is the address of the array
+    if (GEP->hasAllZeroIndices() && GEP->getSourceElementType()->isArrayTy() &&
+        not GEP->getResultElementType()->isArrayTy())
+      return getObjectType(GEP->getPointerOperand());
+    return GEP->getResultElementType();
+  } else if (const AllocaInst *Alloca = dyn_cast<AllocaInst>(V)) {
+    return Alloca->getAllocatedType();
+  } else if (const GlobalVariable *Global = dyn_cast<GlobalVariable>(V)) {
+    return Global->isConstant() ? nullptr : Global->getValueType();
+  }
+  return nullptr;
+}
+
+// Get the type of the elements of a possibly nested array
+Type *getElementType(Type *Ty) {
+  while (Ty != nullptr && Ty->isArrayTy())
+    Ty = Ty->getArrayElementType();
+  return Ty;
+}
+
+// Search the number of elements at the address given by the pointer V
+unsigned int getSizeOf(Value *V) {
+  unsigned int size = 1;
+  for (Type *Ty = getObjectType(V); Ty != nullptr && Ty->isArrayTy();
+       Ty = Ty->getArrayElementType())
+    size *= Ty->getArrayNumElements();
+  return size;
+}
+
+// Returns true if V is a pointer to at least one float or double
+bool isFloatingPointPtr(Value *V) {
+  Type *Ty = V->getType()->isPointerTy() ? getElementType(getObjectType(V))
+                                         : nullptr;
+  return Ty != nullptr && (Ty == FloatTy || Ty == DoubleTy) &&
+         getSizeOf(V) != 0;
+}
+
+FTYPES ftypesFromValue(Value *V) {
+  Type *Ty = V->getType();
+  if (Ty == FloatTy)
+    return FFLOAT;
+  if (Ty == DoubleTy)
+    return FDOUBLE;
+  if (isFloatingPointPtr(V))
+    return getElementType(getObjectType(V)) == FloatTy ? FFLOAT_PTR
+                                                       : FDOUBLE_PTR;
+  return FTYPES_END;
+}
+
 // Fill use_double and use_float with true if the call_inst pi use at least
 // of the managed types
 void haveFloatingPointArithmetic(Instruction *call, Function *f,
@@ -134,54 +188,15 @@ void haveFloatingPointArithmetic(Instruction *call, Function *f,
   } else if (call != NULL) {
     // Loop over arguments types
     for (auto it = call->op_begin(); it < call->op_end() - 1; it++) {
-      if ((*it)->getType() == FloatTy || (*it)->getType() == FloatPtrTy)
+      FTYPES type = ftypesFromValue(*it);
+      if (type == FFLOAT || type == FFLOAT_PTR)
         (*use_float) = true;
-      if ((*it)->getType() == DoubleTy || (*it)->getType() == DoublePtrTy)
+      if (type == FDOUBLE || type == FDOUBLE_PTR)
         (*use_double) = true;
     }
   }
 }
 
-// Search the size of the Value V which is a pointer
-unsigned int getSizeOf(Value *V, const Function *F) {
-  // if V is an argument of the F function, search the size of V in the parent
-  // of F
-  for (auto &Args : F->args()) {
-    if (&Args == V) {
-      for (const auto &U : V->users()) {
-        if (isa<CallInst>(U)) {
-          const CallInst *call = cast<CallInst>(U);
-          Value *to_search = call->getOperand(Args.getArgNo());
-
-          return getSizeOf(to_search, call->getParent()->getParent());
-        }
-      }
-    }
-  }
-
-  // search for the AllocaInst at the origin of V
-  for (auto &BB : (*F)) {
-    for (auto &I : BB) {
-      if (&I == V) {
-        if (const AllocaInst *Alloca = dyn_cast<AllocaInst>(&I)) {
-          if (Alloca->getAllocatedType()->isArrayTy() ||
-              Alloca->getAllocatedType()->isVectorTy()) {
-            return Alloca->getAllocatedType()->getArrayNumElements();
-          } else {
-            return 1;
-          }
-        } else if (const GetElementPtrInst *GEP =
-                       dyn_cast<GetElementPtrInst>(&I)) {
-          Value *to_search = GEP->getOperand(0);
-          return getSizeOf(to_search, F);
-        }
-      }
-    }
-  }
-
-  return 0;
-}
-
 // Get the Name of the given argument V
 std::string getArgName(Function *F, unsigned int i) {
   for (auto &BB : (*F)) {
@@ -221,8 +236,6 @@ void allocateMemoryForPointers(Function *CurrentFunction,
   if (RetTy == DoubleTy or RetTy == FloatTy) {
     OutputAlloca.push_back(Builder.CreateAlloca(RetTy, nullptr));
     output_cpt++;
-  } else if ((RetTy == FloatPtrTy or RetTy == DoublePtrTy) and call) {
-    output_cpt++;
   }
 
   for (auto &args : CurrentFunction->args()) {
@@ -230,25 +243,14 @@ void allocateMemoryForPointers(Function *CurrentFunction,
     if (argTy == DoubleTy or argTy == FloatTy) {
       InputAlloca.push_back(Builder.CreateAlloca(argTy, nullptr));
       input_cpt++;
-    } else if ((argTy == FloatPtrTy or argTy == DoublePtrTy) and call) {
+    } else if (call and
+               isFloatingPointPtr(call->getArgOperand(args.getArgNo()))) {
       input_cpt++;
       output_cpt++;
     }
   }
 };
 
-FTYPES ftypesFromType(Type *Ty) {
-  if (Ty == FloatTy)
-    return FFLOAT;
-  if (Ty == DoubleTy)
-    return FDOUBLE;
-  if (Ty == FloatPtrTy)
-    return FFLOAT_PTR;
-  if (Ty == DoublePtrTy)
-    return FDOUBLE_PTR;
-  return FTYPES_END;
-}
-
 void initializeInputArgs(std::vector<Value *> &EnterArgs,
                          std::vector<Value *> &InputMetaData,
                          Function *CurrentFunction, Function *HookedFunction,
@@ -257,7 +259,9 @@ void initializeInputArgs(std::vector<Value *> &EnterArgs,
   size_t input_index = 0;
   for (auto &args : CurrentFunction->args()) {
     Type *argTy = args.getType();
-    FTYPES type = ftypesFromType(argTy);
+    // The pointers are known by the operands of the call
+    FTYPES type =
+        ftypesFromValue(call ? call->getArgOperand(args.getArgNo()) : &args);
 
     if (type != FTYPES_END) {
       std::string arg_name = getArgName(HookedFunction, args.getArgNo());
@@ -269,9 +273,8 @@ void initializeInputArgs(std::vector<Value *> &EnterArgs,
       EnterArgs.push_back(ConstantInt::get(Int32Ty, 1));
       EnterArgs.push_back(InputAlloca[input_index]);
       Builder.CreateStore(&args, InputAlloca[input_index++]);
-    } else if ((argTy == FloatPtrTy or argTy == DoublePtrTy) and call) {
-      unsigned int size = getSizeOf(call->getOperand(args.getArgNo()),
-                                    call->getParent()->getParent());
+    } else if (type != FTYPES_END) {
+      unsigned int size = getSizeOf(call->getArgOperand(args.getArgNo()));
       EnterArgs.push_back(ConstantInt::get(Int32Ty, size));
       EnterArgs.push_back(&args);
     }
@@ -285,7 +288,7 @@ void initializeOutputArgs(std::vector<Value *> &ExitArgs,
                           std::vector<Value *> &OutputAlloca, Module &M) {
 
   Type *retTy = ret->getType();
-  FTYPES type = ftypesFromType(retTy);
+  FTYPES type = ftypesFromValue(ret);
 
   if (type != FTYPES_END) {
     ExitArgs.push_back(Types2val[type]);
@@ -296,22 +299,15 @@ void initializeOutputArgs(std::vector<Value *> &ExitArgs,
     ExitArgs.push_back(ConstantInt::get(Int32Ty, 1));
     ExitArgs.push_back(OutputAlloca[0]);
     Builder.CreateStore(ret, OutputAlloca[0]);
-  } else if ((retTy == FloatPtrTy or retTy == DoublePtrTy) and
-             call != nullptr) {
-    unsigned int size = getSizeOf(ret, call->getParent()->getParent());
-    ExitArgs.push_back(ConstantInt::get(Int32Ty, size));
-    ExitArgs.push_back(ret);
   }
 
   for (auto &args : CurrentFunction->args()) {
-    Type *argTy = args.getType();
-    type = ftypesFromType(argTy);
-    if ((argTy == FloatPtrTy or argTy == DoublePtrTy) and call != nullptr) {
+    if (call and isFloatingPointPtr(call->getArgOperand(args.getArgNo()))) {
+      type = ftypesFromValue(call->getArgOperand(args.getArgNo()));
       std::string arg_name = getArgName(HookedFunction, args.getArgNo());
       ExitArgs.push_back(Types2val[type]);
       ExitArgs.push_back(Builder.CreateGlobalStringPtr(arg_name));
-      unsigned int size = getSizeOf(call->getOperand(args.getArgNo()),
-                                    call->getParent()->getParent());
+      unsigned int size = getSizeOf(call->getArgOperand(args.getArgNo()));
       ExitArgs.push_back(ConstantInt::get(Int32Ty, size));
       ExitArgs.push_back(&args);
     }
@@ -425,12 +421,8 @@ struct VfclibFunc : public ModulePass {
     Int8Ty = Type::getInt8Ty(M.getContext());
     Int32Ty = Type::getInt32Ty(M.getContext());
 #if LLVM_VERSION_MAJOR < 20
-    FloatPtrTy = FloatTy->getPointerTo();
-    DoublePtrTy = DoubleTy->getPointerTo();
     Int8PtrTy = Int8Ty->getPointerTo();
 #else
-    FloatPtrTy = PointerType::getUnqual(FloatTy);
-    DoublePtrTy = PointerType::getUnqual(DoubleTy);
     Int8PtrTy = PointerType::getUnqual(Int8Ty);
 #endif
 
-- 
2.43.0


From a85f3120bc925e36f1960abd262da30e628ba93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:57 +0000
Subject: [PATCH 13/82] fix: --inst-func no longer hooks setjmp and intrinsics
 with immediate operands

---
 .../libVFCFuncInstrument.cpp                  | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
index f1e2aec..5eec72a 100644
--- a/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
+++ b/src/libvfcfuncinstrument/libVFCFuncInstrument.cpp
@@ -400,6 +400,14 @@ bool isLLVMDebugFunction(Function &F) {
   return STARTS_WITH(name, "llvm.dbg.") || STARTS_WITH(name, "llvm.lifetime.");
 }
 
+bool hasImmediateOperand(Function &F) {
+  for (auto &arg : F.args()) {
+    if (arg.hasAttribute(Attribute::ImmArg) || arg.getType()->isMetadataTy())
+      return true;
+  }
+  return false;
+}
+
 struct VfclibFunc : public ModulePass {
   static char ID;
   std::vector<Function *> OriginalFunctions;
@@ -529,6 +537,11 @@ struct VfclibFunc : public ModulePass {
                   continue;
                 }
 
+                // Functions such as setjmp return to their caller
+                if (f->hasFnAttribute(Attribute::ReturnsTwice)) {
+                  continue;
+                }
+
                 if (MDNode *N = pi->getMetadata("dbg")) {
                   DILocation *Loc = cast<DILocation>(N);
                   unsigned line = Loc->getLine();
@@ -561,8 +574,10 @@ struct VfclibFunc : public ModulePass {
                   haveFloatingPointArithmetic(pi, f, &use_float, &use_double);
 
                   // If the called function is an intrinsic function that does
-                  // not use float or double, do not instrument it.
-                  if (is_intrinsic && !(use_float || use_double)) {
+                  // not use float or double, or that can only be called with
+                  // immediate operands, do not instrument it.
+                  if (is_intrinsic &&
+                      (!(use_float || use_double) || hasImmediateOperand(*f))) {
                     continue;
                   }
 
-- 
2.43.0


From 8579d4b78337810fe2c5fab65c744d6ff720355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:17 +0000
Subject: [PATCH 14/82] fix: each backend gets its own list of the arguments of
 the instrumented functions

---
 src/vfcwrapper/funcinstr.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/vfcwrapper/funcinstr.c b/src/vfcwrapper/funcinstr.c
index 41bf805..15f0ffd 100644
--- a/src/vfcwrapper/funcinstr.c
+++ b/src/vfcwrapper/funcinstr.c
@@ -138,17 +138,17 @@ void vfc_enter_function(char *func_name, char isLibraryFunction,
   vfc_call_stack_push(function);
 
   if ((useFloat != 0) || (useDouble != 0)) {
-    va_list ap;
-    // n is the number of arguments intercepted, each argument
-    // is represented by a type ID and a pointer
-    va_start(ap, n);
-
-    for (int i = 0; i < loaded_backends; i++)
-      if (backends[i].interflop_enter_function)
+    for (int i = 0; i < loaded_backends; i++) {
+      if (backends[i].interflop_enter_function) {
+        va_list ap;
+        // n is the number of arguments intercepted, each argument
+        // is represented by a type ID and a pointer
+        va_start(ap, n);
         backends[i].interflop_enter_function(&_vfc_call_stack, contexts[i], n,
                                              ap);
-
-    va_end(ap);
+        va_end(ap);
+      }
+    }
   }
 }
 
@@ -159,17 +159,17 @@ void vfc_exit_function(__attribute__((unused)) char *func_name,
                        char useFloat, char useDouble, int n, ...) {
 
   if ((useFloat != 0) || (useDouble != 0)) {
-    va_list ap;
-    // n is the number of arguments intercepted, each argument
-    // is represented by a type ID and a pointer
-    va_start(ap, n);
-
-    for (int i = 0; i < loaded_backends; i++)
-      if (backends[i].interflop_exit_function)
+    for (int i = 0; i < loaded_backends; i++) {
+      if (backends[i].interflop_exit_function) {
+        va_list ap;
+        // n is the number of arguments intercepted, each argument
+        // is represented by a type ID and a pointer
+        va_start(ap, n);
         backends[i].interflop_exit_function(&_vfc_call_stack, contexts[i], n,
                                             ap);
-
-    va_end(ap);
+        va_end(ap);
+      }
+    }
   }
 
   vfc_call_stack_pop();
-- 
2.43.0


From de8e0de5c71738731bb2b7b8720fa1426728ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:17 +0000
Subject: [PATCH 15/82] fix: calls left by an exception or a longjmp stayed in
 the call stack of --inst-func

---
 src/vfcwrapper/funcinstr.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vfcwrapper/funcinstr.c b/src/vfcwrapper/funcinstr.c
index 15f0ffd..dab83d6 100644
--- a/src/vfcwrapper/funcinstr.c
+++ b/src/vfcwrapper/funcinstr.c
@@ -101,6 +101,17 @@ interflop_function_info_t *vfc_call_stack_pop() {
   return NULL;
 }
 
+// Remove the functions left without returning to their caller (exceptions,
+// longjmp) which are above the last call to the function id
+void vfc_call_stack_unwind(const char *id) {
+  for (long int i = _vfc_call_stack.top; i < _VFC_CALL_STACK_MAXSIZE - 1; i++) {
+    if (strcmp(_vfc_call_stack.array[i]->id, id) == 0) {
+      _vfc_call_stack.top = i;
+      return;
+    }
+  }
+}
+
 // Print the call stack
 void vfc_call_stack_print(FILE *f) {
   for (int i = _VFC_CALL_STACK_MAXSIZE - 2; i >= _vfc_call_stack.top; i--)
@@ -153,11 +164,13 @@ void vfc_enter_function(char *func_name, char isLibraryFunction,
 }
 
 // Function called after each function's call of the code
-void vfc_exit_function(__attribute__((unused)) char *func_name,
+void vfc_exit_function(char *func_name,
                        __attribute__((unused)) char isLibraryFunction,
                        __attribute__((unused)) char isIntrinsicFunction,
                        char useFloat, char useDouble, int n, ...) {
 
+  vfc_call_stack_unwind(func_name);
+
   if ((useFloat != 0) || (useDouble != 0)) {
     for (int i = 0; i < loaded_backends; i++) {
       if (backends[i].interflop_exit_function) {
-- 
2.43.0


From cda0587ba8cdcdac2f29042b6bbb9a4f8cf91aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:17 +0000
Subject: [PATCH 16/82] fix: long function identifiers overflowed the buffers
 of the VPREC profile reader

---
 .../interflop_vprec_function_instrumentation.c                 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 9a4e33b..c2cf169 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -45,8 +45,9 @@ static const char key_input_file_str[] = "prec-input-file";
 static const char key_output_file_str[] = "prec-output-file";
 static const char key_log_file_str[] = "prec-log-file";
 
-#define STRING_BUFF 256
 #define LINE_MAX_SIZE 2048
+// a token is at most as long as a line
+#define STRING_BUFF LINE_MAX_SIZE
 
 #define INIT_STRING(A, N)                                                      \
   for (int i = 0; i < (N); i++)                                                \
-- 
2.43.0


From 4eae5741c2aae81d5244623b713ab22a68be779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:43 +0000
Subject: [PATCH 17/82] fix: DD_DICHO_TAB accepts the documented number of runs

---
 src/tools/ddebug/dd_config.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/ddebug/dd_config.py b/src/tools/ddebug/dd_config.py
index 6424bbe..c72b3f6 100644
--- a/src/tools/ddebug/dd_config.py
+++ b/src/tools/ddebug/dd_config.py
@@ -117,10 +117,10 @@ class ddConfig:
             else:
                 if value in acceptedValue:
                     exec("self." + attribut + "= value")
-                elif conv_type == "string/int":
+                elif conv_type == "int/string":
                     try:
-                        exec("self." + attribut + "= int(value)")
-                    except Exception:
+                        value = int(value)
+                    except ValueError:
                         print(
                             "Error : "
                             + self.PREFIX
@@ -130,6 +130,7 @@ class ddConfig:
                             + str(acceptedValue)
                             + " or be a int value"
                         )
+                        self.failure()
                 else:
                     print(
                         "Error : "
@@ -187,7 +188,7 @@ class ddConfig:
             splitTab = [self.nbRUN]
         if self.param_dicho_tab == "half":
             splitTab = [int(math.ceil(self.nbRUN / 2.0))]
-        if self.param_dicho_tab in [str(i) for i in range(1, self.nbRUN + 1)]:
+        if self.param_dicho_tab in range(1, self.nbRUN + 1):
             splitTab = [self.param_dicho_tab]
         return splitTab
 
-- 
2.43.0


From 53456a3d388e702d57b6434a04969575f0569639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:43 +0000
Subject: [PATCH 18/82] fix: parallel delta-debug stopped when a failing
 configuration was tested again

---
 src/tools/ddebug/DD_stoch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/ddebug/DD_stoch.py b/src/tools/ddebug/DD_stoch.py
index 7b7c2e5..d07fc60 100644
--- a/src/tools/ddebug/DD_stoch.py
+++ b/src/tools/ddebug/DD_stoch.py
@@ -140,13 +140,13 @@ class InterflopTask:
         for run in workToDo:
             self.mkdir(run)
             self.runOneSample(run)
+        # compare every sample, so that each of them gets a result
+        returnVal = self.PASS
         for run in workToDo:
-            retVal = self.cmpOneSample(run)
+            if self.cmpOneSample(run) == self.FAIL:
+                returnVal = self.FAIL
 
-            if retVal == "FAIL":
-                return self.FAIL
-
-        return self.PASS
+        return returnVal
 
 
 def md5Name(deltas):
-- 
2.43.0


From 42892c0940cd0bc8254ac8aed376ee8b15681327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:30 +0000
Subject: [PATCH 19/82] fix: items removed from the hashmap were still found
 and freed

---
 src/interflop-stdlib/hashmap/vfc_hashmap.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/interflop-stdlib/hashmap/vfc_hashmap.c b/src/interflop-stdlib/hashmap/vfc_hashmap.c
index 2208c55..399cd0d 100644
--- a/src/interflop-stdlib/hashmap/vfc_hashmap.c
+++ b/src/interflop-stdlib/hashmap/vfc_hashmap.c
@@ -186,7 +186,9 @@ void vfc_hashmap_remove(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    // a deleted item has 1 as value
+    if (get_value_at(map->items, ii) != 1 &&
+        get_key_at(map->items, ii) == key) {
       set_value_at(map->items, 1, ii);
       map->nitems--;
       map->n_deleted_items++;
@@ -202,7 +204,9 @@ char vfc_hashmap_have(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    // a deleted item has 1 as value
+    if (get_value_at(map->items, ii) != 1 &&
+        get_key_at(map->items, ii) == key) {
       return 1;
     } else {
       ii = map->mask & (ii + hashmap_prime_2);
@@ -216,7 +220,9 @@ void *vfc_hashmap_get(vfc_hashmap_t map, ISize_t key) {
   ISize_t ii = map->mask & (hashmap_prime_1 * key);
 
   while (get_value_at(map->items, ii) != 0) {
-    if (get_key_at(map->items, ii) == key) {
+    // a deleted item has 1 as value
+    if (get_value_at(map->items, ii) != 1 &&
+        get_key_at(map->items, ii) == key) {
       return (void *)get_value_at(map->items, ii);
     } else {
       ii = map->mask & (ii + hashmap_prime_2);
@@ -247,6 +253,6 @@ ISize_t vfc_hashmap_str_function(const char *id) {
 // Free the hashmap
 void vfc_hashmap_free(vfc_hashmap_t map) {
   for (ISize_t ii = 0; ii < map->capacity; ii++)
-    if (get_value_at(map->items, ii) != 0 && get_value_at(map->items, ii) != 0)
+    if (get_value_at(map->items, ii) != 0 && get_value_at(map->items, ii) != 1)
       interflop_free((void *)get_value_at(map->items, ii));
 }
\ No newline at end of file
-- 
2.43.0


From 16bbf09a55f095808486f253414bbc90ba03e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:21 +0000
Subject: [PATCH 20/82] fix: duplicate probes were accepted when another probe
 has the same hash

---
 src/common/vfc_probes.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/common/vfc_probes.c b/src/common/vfc_probes.c
index 5f066ca..4b13317 100644
--- a/src/common/vfc_probes.c
+++ b/src/common/vfc_probes.c
@@ -160,11 +160,15 @@ int vfc_probe_kernel(vfc_probes *probes, char *testName, char *varName,
   char *key = gen_probe_key(testName, varName);
 
   // Look for a duplicate key
-  vfc_probe_node *oldProbe = (vfc_probe_node *)vfc_hashmap_get(
-      probes->map, vfc_hashmap_str_function(key));
-
-  if (oldProbe != NULL) {
-    if (strcmp(key, oldProbe->key) == 0) {
+  char hashInUse =
+      vfc_hashmap_have(probes->map, vfc_hashmap_str_function(key));
+
+  // Different keys may share the same hash, in which case the hashmap returns
+  // any of them: go through all the probes
+  for (size_t i = 0; hashInUse && i < probes->map->capacity; i++) {
+    vfc_probe_node *oldProbe =
+        (vfc_probe_node *)get_value_at(probes->map->items, i);
+    if (oldProbe != NULL && strcmp(key, oldProbe->key) == 0) {
       fprintf(stderr,
               "Error [verificarlo]: you have a duplicate error with one of \
               your probes (\"%s\"). Please make sure to use different names.\n",
-- 
2.43.0


From 94552558b5349ca305a32707ed9fdea5e5a7e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:17 +0000
Subject: [PATCH 21/82] fix: vfc_ci lost or merged probes whose names look like
 numbers or missing values, and stopped on inf and nan

---
 src/tools/ci/test.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 75aa76c..af3a67e 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -53,7 +53,9 @@ def read_probes_csv(filepath, warnings, execution_data):
     """Read a CSV file outputted by vfc_probe as a Pandas dataframe"""
 
     try:
-        results = pd.read_csv(filepath)
+        # Names must not be interpreted as numbers or missing values, and values
+        # are converted below
+        results = pd.read_csv(filepath, dtype=str, keep_default_na=False)
 
     except FileNotFoundError:
         print(
-- 
2.43.0


From 7a25a98edd794e2838e3deacdc1936d2ba30ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:18 +0000
Subject: [PATCH 22/82] fix: vfc_ci compared deterministic probes with the
 reference of another probe when both runs differ

---
 src/tools/ci/test.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index af3a67e..1a986fd 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -276,7 +276,15 @@ def run_deterministic(command, executable, backend, deterministic_data, warnings
 
         reference_run_data = read_probes_csv(temp.name, warnings, execution_data)[0]
 
-        run_data["reference_value"] = reference_run_data["values"]
+        # Both runs may not register the same probes, or in the same order
+        reference_run_data = reference_run_data.rename(
+            columns={"values": "reference_value"}
+        )
+        run_data = run_data.merge(
+            reference_run_data[["test", "variable", "reference_value"]],
+            how="left",
+            on=["test", "variable"],
+        )
         run_data["check"] = run_data.apply(
             lambda x: validate_deterministic_probe(x), axis=1
         )
-- 
2.43.0


From f685906b2b93cb4ee699f1b2182e3b2e4bbb9bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:32 +0000
Subject: [PATCH 23/82] fix: vfc_ci skipped the checks of deterministic probes
 when their thresholds sum to zero

---
 src/tools/ci/test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 1a986fd..3f19e82 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -252,7 +252,7 @@ def run_deterministic(command, executable, backend, deterministic_data, warnings
     run_data["check_mode"] = run_checks_data["check_mode"]
 
     # If checks are detected, do a reference run (with IEEE backend)
-    if run_data["accuracy_threshold"].sum() != 0:
+    if (run_data["accuracy_threshold"] != 0).any():
         temp.close()
 
         os.putenv("VFC_BACKENDS", "libinterflop_ieee.so")
-- 
2.43.0


From ec8a348a177903116d888a6073a685500c16d5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:52 +0000
Subject: [PATCH 24/82] fix: vfc_ci misread probes whose names contain quotes

---
 src/tools/ci/test.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tools/ci/test.py b/src/tools/ci/test.py
index 3f19e82..54efa1c 100644
--- a/src/tools/ci/test.py
+++ b/src/tools/ci/test.py
@@ -22,6 +22,7 @@
 # It will also generate a ... .vfcrunh5 file with the results of the run
 
 import calendar
+import csv
 import json
 import os
 
@@ -53,9 +54,11 @@ def read_probes_csv(filepath, warnings, execution_data):
     """Read a CSV file outputted by vfc_probe as a Pandas dataframe"""
 
     try:
-        # Names must not be interpreted as numbers or missing values, and values
-        # are converted below
-        results = pd.read_csv(filepath, dtype=str, keep_default_na=False)
+        # Names must not be interpreted as numbers, missing values or quoted
+        # strings, and values are converted below
+        results = pd.read_csv(
+            filepath, dtype=str, keep_default_na=False, quoting=csv.QUOTE_NONE
+        )
 
     except FileNotFoundError:
         print(
-- 
2.43.0


From d2ad540004ca16b63fb57068dabf598526f90408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:57 +0000
Subject: [PATCH 25/82] fix: only the first element of the arrays given to a
 function was rounded by VPREC

---
 .../interflop_vprec_function_instrumentation.c   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index c2cf169..98fa76d 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -671,9 +671,9 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
         if (value == NULL) {
           continue;
         }
-        _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_enter(value, exponent_length, mantissa_length,
                                   new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
         _vfi_print_log(ctx, "%la\t(%d, %d)\n", *value, mantissa_length,
                        exponent_length);
       }
@@ -689,9 +689,9 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
         if (value == NULL) {
           continue;
         }
-        _vprec_round_binary_enter(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_enter(value, exponent_length, mantissa_length,
                                   new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
         _vfi_print_log(ctx, "%a\t(%d, %d)\n", *value, mantissa_length,
                        exponent_length);
       }
@@ -811,9 +811,9 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         }
 
         _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
-        _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_exit(value, exponent_length, mantissa_length,
                                  new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
 
         _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                        exponent_length);
@@ -833,9 +833,9 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         }
 
         _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
-        _vprec_round_binary_exit(raw_value, exponent_length, mantissa_length,
+        _vprec_round_binary_exit(value, exponent_length, mantissa_length,
                                  new_flag, mode_flag, type, context);
-        _update_range_bounds(raw_value, arg, new_flag, type);
+        _update_range_bounds(value, arg, new_flag && j == 0, type);
 
         _vfi_print_log(ctx, "%la\t(%d,%d)\n", *value, mantissa_length,
                        exponent_length);
-- 
2.43.0


From 0b817567cfefa3ddfba6aeb6933f06d900a5f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:26 +0000
Subject: [PATCH 26/82] fix: interflop_isnan and interflop_isinf were always
 false, NaN and infinities entered the ranges of VPREC profiles

---
 src/interflop-stdlib/interflop_stdlib.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interflop-stdlib/interflop_stdlib.c b/src/interflop-stdlib/interflop_stdlib.c
index 3b9e312..7db093b 100644
--- a/src/interflop-stdlib/interflop_stdlib.c
+++ b/src/interflop-stdlib/interflop_stdlib.c
@@ -142,9 +142,9 @@ float interflop_fpclassifyf(float x) {
   int mant = u.i & FLOAT_GET_PMAN;
   if (exp == 0 && mant == 0) {
     return IFP_ZERO;
-  } else if (exp == FLOAT_EXP_MAX && mant == 0) {
+  } else if (exp == FLOAT_GET_EXP && mant == 0) {
     return IFP_INFINITE;
-  } else if (exp == FLOAT_EXP_MAX && mant != 0) {
+  } else if (exp == FLOAT_GET_EXP && mant != 0) {
     return IFP_NAN;
   } else if (exp == 0 && mant != 0) {
     return IFP_SUBNORMAL;
@@ -159,9 +159,9 @@ double interflop_fpclassifyd(double x) {
   long mant = u.i & DOUBLE_GET_PMAN;
   if (exp == 0 && mant == 0) {
     return IFP_ZERO;
-  } else if (exp == FLOAT_EXP_MAX && mant == 0) {
+  } else if (exp == DOUBLE_GET_EXP && mant == 0) {
     return IFP_INFINITE;
-  } else if (exp == FLOAT_EXP_MAX && mant != 0) {
+  } else if (exp == DOUBLE_GET_EXP && mant != 0) {
     return IFP_NAN;
   } else if (exp == 0 && mant != 0) {
     return IFP_SUBNORMAL;
-- 
2.43.0


From 3044c1a5e388e2333b47856de781f1a230b726f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:35 +0000
Subject: [PATCH 27/82] fix: the ranges of VPREC profiles were wrong for values
 outside of int

---
 .../interflop_vprec_function_instrumentation.c  | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 98fa76d..5ef543f 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -439,6 +439,15 @@ void _init_function_inst_arg(_vfi_argument_data_t *arg, char *arg_id,
                              : VPREC_PRECISION_BINARY32_DEFAULT;
 }
 
+/* convert to int, with saturation */
+static int _vfi_double_to_int(double x) {
+  if (x >= INT_MAX)
+    return INT_MAX;
+  if (x <= INT_MIN)
+    return INT_MIN;
+  return (int)x;
+}
+
 void _update_range_bounds(void *raw_value, _vfi_argument_data_t *arg,
                           int new_flag, enum FTYPES type) {
 
@@ -450,14 +459,14 @@ void _update_range_bounds(void *raw_value, _vfi_argument_data_t *arg,
     float *value = (float *)raw_value;
     isnan = interflop_isnan(*value);
     isinf = interflop_isinf(*value);
-    floor = interflop_floor(*value);
-    ceil = interflop_ceil(*value);
+    floor = _vfi_double_to_int(interflop_floor(*value));
+    ceil = _vfi_double_to_int(interflop_ceil(*value));
   } else if (type == FDOUBLE || type == FDOUBLE_PTR) {
     double *value = (double *)raw_value;
     isnan = interflop_isnan(*value);
     isinf = interflop_isinf(*value);
-    floor = interflop_floor(*value);
-    ceil = interflop_ceil(*value);
+    floor = _vfi_double_to_int(interflop_floor(*value));
+    ceil = _vfi_double_to_int(interflop_ceil(*value));
   } else {
     logger_error("Invalid type\n");
   }
-- 
2.43.0


From eb87ce0e3dca6b2102269f98dc6f217350d7c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:29 +0000
Subject: [PATCH 28/82] fix: VPREC operation formats were not restored after a
 call through a function without floating-point

---
 .../interflop_vprec_function_instrumentation.c   | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 5ef543f..1b9e4d4 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -730,13 +730,16 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
   _vfi_t *function_inst = vfc_hashmap_get(
       ctx->vfi->map, vfc_hashmap_str_function(function_info->id));
 
-  // set internal operations precision with parent function values
-  if (stack->array[stack->top + 1] != NULL) {
-    interflop_function_info_t *parent_info = stack->array[stack->top + 1];
+  // set internal operations precision with the values of the closest calling
+  // function which has some: functions without floating-point operations and
+  // library functions do not
+  if (ctx->vfi->vprec_inst_mode != vprecinst_arg &&
+      ctx->vfi->vprec_inst_mode != vprecinst_none) {
+    for (long int i = stack->top + 1; stack->array[i] != NULL; i++) {
+      interflop_function_info_t *parent_info = stack->array[i];
 
-    if (!parent_info->isLibraryFunction && !parent_info->isIntrinsicFunction &&
-        ctx->vfi->vprec_inst_mode != vprecinst_arg &&
-        ctx->vfi->vprec_inst_mode != vprecinst_none) {
+      if (parent_info->isLibraryFunction || parent_info->isIntrinsicFunction)
+        continue;
 
       _vfi_t *function_parent = vfc_hashmap_get(
           ctx->vfi->map, vfc_hashmap_str_function(parent_info->id));
@@ -746,6 +749,7 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
         _set_vprec_range_binary64(function_parent->OpsRange64, ctx);
         _set_vprec_precision_binary32(function_parent->OpsPrec32, ctx);
         _set_vprec_range_binary32(function_parent->OpsRange32, ctx);
+        break;
       }
     }
   }
-- 
2.43.0


From 43ec5c53377e30f9b32d538c683410978afc9818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:54 +0000
Subject: [PATCH 29/82] fix: vfc_precexp wrote configurations that VPREC
 refuses

---
 src/tools/optimize/precexp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 3dae93c..a5079fb 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -286,12 +286,14 @@ def save(Arguments, Operations, File):
             j < arg_index + Operations.at[i, "Ninputs"] + Operations.at[i, "Noutputs"]
         ):
             f.write(
-                "{IO}\t{ArgID}\t{Type}\t{Prec}\t{Range}\n".format(
+                "{IO}\t{ArgID}\t{Type}\t{Prec}\t{Range}\t{Min}\t{Max}\n".format(
                     IO=Arguments.at[j, "IO"],
                     ArgID=Arguments.at[j, "ArgID"],
                     Type=Arguments.at[j, "Type"],
                     Prec=Arguments.at[j, "Prec"],
                     Range=Arguments.at[j, "Range"],
+                    Min=Arguments.at[j, "Min"],
+                    Max=Arguments.at[j, "Max"],
                 )
             )
             j = j + 1
-- 
2.43.0


From b513b056070f2a0b4c68112a411b8586d63f9711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:54 +0000
Subject: [PATCH 30/82] fix: vfc_precexp took float pointers for double
 pointers and skipped double pointers

---
 src/tools/optimize/precexp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index a5079fb..7258732 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -525,7 +525,7 @@ def search_minimum_arguments(
     """Find the minimum precision for a given argument of a function"""
 
     # If is a float or float ptr
-    if Arguments.at[index, "Type"] == 0 or Arguments.at[index, "Type"] == 2:
+    if Arguments.at[index, "Type"] == 0 or Arguments.at[index, "Type"] == 3:
         # minimize mantissa
         dich_search_arguments(
             index,
@@ -558,7 +558,7 @@ def search_minimum_arguments(
         )
 
     # If is a double or double ptr
-    elif Arguments.at[index, "Type"] == 1 or Arguments.at[index, "Type"] == 3:
+    elif Arguments.at[index, "Type"] == 1 or Arguments.at[index, "Type"] == 4:
         # minimize mantissa
         dich_search_arguments(
             index,
-- 
2.43.0


From 8c0559fefb657e20f591cc255ef0096f063c57d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:54 +0000
Subject: [PATCH 31/82] fix: vfc_precexp searched forever when the highest
 precision is rejected

---
 src/tools/optimize/precexp.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 7258732..3d9bbab 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -352,8 +352,8 @@ def dich_search_operations(
         Arguments,
         Operations,
     ):
-        flag = 1
-        while flag:
+        l = l + 1
+        while l < r:
             p = math.floor((r + l) / 2)
             Operations.at[index, field] = p
             if Check(
@@ -366,12 +366,11 @@ def dich_search_operations(
                 Arguments,
                 Operations,
             ):
-                if l >= r:
-                    flag = 0
-                    break
                 r = p
             else:
                 l = p + 1
+        Operations.at[index, field] = r
+        save(Arguments, Operations, config_file)
 
 
 def search_minimum_operations(
@@ -489,8 +488,8 @@ def dich_search_arguments(
         Arguments,
         Operations,
     ):
-        flag = 1
-        while flag:
+        l = l + 1
+        while l < r:
             p = math.floor((r + l) / 2)
             Arguments.at[index, field] = p
             if Check(
@@ -503,12 +502,11 @@ def dich_search_arguments(
                 Arguments,
                 Operations,
             ):
-                if l >= r:
-                    flag = 0
-                    break
                 r = p
             else:
                 l = p + 1
+        Arguments.at[index, field] = r
+        save(Arguments, Operations, config_file)
 
 
 def search_minimum_arguments(
-- 
2.43.0


From f873a76a66da9bde856d488dc6b161ef1ed9099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:54 +0000
Subject: [PATCH 32/82] fix: vfc_precexp offered a mode that VPREC does not
 have

---
 src/tools/optimize/precexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 3d9bbab..122b477 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -612,7 +612,7 @@ def main():
     )
     parser.add_argument(
         "--vprec_mode",
-        choices=["ieee", "ib", "ob", "all"],
+        choices=["ieee", "ib", "ob", "full"],
         default="ob",
         help="vprec operating mode",
     )
-- 
2.43.0


From 6680f8dfc4e725a1c8531b15427757b0ca55ad2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:54 +0000
Subject: [PATCH 33/82] fix: vfc_precexp ignored --maxTimeout

---
 src/tools/optimize/precexp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index 122b477..e8f15c1 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -590,6 +590,7 @@ def search_minimum_arguments(
 
 
 def main():
+    global vfc_maxTimeout
     parser = argparse.ArgumentParser(
         description="The vfc_precexp script tries "
         "to minimize the precision for each function "
@@ -629,7 +630,7 @@ def main():
     vfc_vprec_mode = args[0].vprec_mode
     vfc_mode = args[0].mode
     if args[0].maxTimeout != None:
-        vfc_maxTimeout = int(args[0].maxTimeout)
+        vfc_maxTimeout = args[0].maxTimeout / 1000
 
     function_list = args[1]
 
-- 
2.43.0


From b1fe31effe5f5b6ef4a4a7030b4841d11e9a2d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:54 +0000
Subject: [PATCH 34/82] fix: vfc_precexp blocked on scripts that print more
 than the size of a pipe

---
 src/tools/optimize/precexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/optimize/precexp.py b/src/tools/optimize/precexp.py
index e8f15c1..f1963c4 100755
--- a/src/tools/optimize/precexp.py
+++ b/src/tools/optimize/precexp.py
@@ -55,7 +55,7 @@ def shell(cmd, newEnv, maxTimeout=None):
     for cmdEntry in cmdSplit:
         cmdNew = cmdNew + " " + cmdEntry.strip()
 
-    proc = subprocess.Popen(cmdNew.split(), stdout=subprocess.PIPE, env=env)
+    proc = subprocess.Popen(cmdNew.split(), stdout=subprocess.DEVNULL, env=env)
 
     try:
         proc.wait(maxTimeout)
-- 
2.43.0


From b5457553cda810ae10f0e2953fcf8a70e19dc643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:34 +0000
Subject: [PATCH 35/82] fix: back-end options silently accepted integers and
 reals followed by other characters

---
 src/vfcwrapper/main.c.in | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index e703f5d..e691b04 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -296,11 +296,17 @@ void parse_vfc_backends_env(char **vfc_backends, char **vfc_backends_env) {
   }
 }
 
+/* Returns true if the conversion of nptr that stopped at end read the whole */
+/* string, trailing spaces excepted */
+static bool _vfc_is_fully_converted(const char *nptr, const char *end) {
+  return end != nptr && end[strspn(end, " \t\r\n")] == '\0';
+}
+
 long _vfc_strtol(const char *nptr, char **endptr, int *error) {
   *error = 0;
   errno = 0;
   long val = strtoll(nptr, endptr, 10);
-  if (errno != 0) {
+  if (errno != 0 || !_vfc_is_fully_converted(nptr, *endptr)) {
     *error = 1;
   }
   return val;
@@ -310,7 +316,7 @@ double _vfc_strtod(const char *nptr, char **endptr, int *error) {
   *error = 0;
   errno = 0;
   double val = strtod(nptr, endptr);
-  if (errno != 0) {
+  if (errno != 0 || !_vfc_is_fully_converted(nptr, *endptr)) {
     *error = 1;
   }
   return val;
-- 
2.43.0


From 821e21f836dc1e96223e4721e742382236e1c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:01 +0000
Subject: [PATCH 36/82] fix: an argument that belongs to no option was taken as
 the binary32 precision

---
 src/backends/interflop-backend-bitmask/interflop_bitmask.c | 2 +-
 src/backends/interflop-backend-mcaint/interflop_mca_int.c  | 2 +-
 src/backends/interflop-backend-mcaquad/interflop_mca.c     | 2 +-
 src/backends/interflop-backend-vprec/interflop_vprec.h     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.c b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
index 81ecc60..a059255 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.c
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
@@ -57,7 +57,7 @@
 #endif
 
 typedef enum {
-  KEY_PREC_B32,
+  KEY_PREC_B32 = 1, /* 0 is ARGP_KEY_ARG */
   KEY_PREC_B64,
   KEY_MODE = 'm',
   KEY_OPERATOR = 'o',
diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index e42aac0..6178804 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -52,7 +52,7 @@
 #endif
 
 typedef enum {
-  KEY_PREC_B32,
+  KEY_PREC_B32 = 1, /* 0 is ARGP_KEY_ARG */
   KEY_PREC_B64,
   KEY_ERR_EXP,
   KEY_MODE = 'm',
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index d4b1a81..cf40a40 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -89,7 +89,7 @@ static const char backend_name[] = "interflop-mcaquad";
 static const char backend_version[] = "1.x-dev";
 
 typedef enum {
-  KEY_PREC_B32,
+  KEY_PREC_B32 = 1, /* 0 is ARGP_KEY_ARG */
   KEY_PREC_B64,
   KEY_ERR_EXP,
   KEY_MODE = 'm',
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec.h b/src/backends/interflop-backend-vprec/interflop_vprec.h
index 8faab94..2ec4af7 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec.h
+++ b/src/backends/interflop-backend-vprec/interflop_vprec.h
@@ -52,7 +52,7 @@
 #define VPREC_ERR_MODE_DEFAULT vprec_err_mode_rel
 
 typedef enum {
-  KEY_PREC_B32,
+  KEY_PREC_B32 = 1, /* 0 is ARGP_KEY_ARG */
   KEY_PREC_B64,
   KEY_RANGE_B32,
   KEY_RANGE_B64,
-- 
2.43.0


From ea74b2cffc5ad7410837f3f90a9e352196968f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:17 +0000
Subject: [PATCH 37/82] fix: integer options of the back-ends were truncated to
 32 bits instead of refused when too large

---
 .../interflop_bitmask.c                       | 13 ++++++------
 .../interflop_cancellation.c                  |  7 ++++---
 .../interflop_mca_int.c                       | 10 ++++-----
 .../interflop-backend-mcaquad/interflop_mca.c | 17 ++++++++-------
 .../interflop-backend-vprec/interflop_vprec.c | 21 ++++++++++---------
 5 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.c b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
index a059255..a6e6521 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.c
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
@@ -27,6 +27,7 @@
 
 #include <argp.h>
 #include <err.h>
+#include <limits.h>
 #include <math.h>
 #include <mpfr.h>
 #include <stdbool.h>
@@ -551,27 +552,27 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision for binary32 */
     error = 0;
-    int val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    long val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid "
                    "value provided, must be a "
                    "positive integer.",
                    key_prec_b32_str);
     } else {
-      _set_bitmask_precision_binary32(val, ctx);
+      _set_bitmask_precision_binary32((int)val, ctx);
     }
     break;
   case KEY_PREC_B64:
     /* precision for binary64 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid "
                    "value provided, must be a "
                    "positive integer.",
                    key_prec_b64_str);
     } else {
-      _set_bitmask_precision_binary64(val, ctx);
+      _set_bitmask_precision_binary64((int)val, ctx);
     }
     break;
   case KEY_MODE:
diff --git a/src/backends/interflop-backend-cancellation/interflop_cancellation.c b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
index 201fd56..40b40e3 100644
--- a/src/backends/interflop-backend-cancellation/interflop_cancellation.c
+++ b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
@@ -27,6 +27,7 @@
 
 #include <argp.h>
 #include <err.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdint.h>
 #include <stdlib.h>
@@ -225,12 +226,12 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_TOLERANCE:
     /* tolerance */
     error = 0;
-    int val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val < 0) {
+    long val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val < 0 || val > INT_MAX) {
       logger_error("--tolerance invalid value provided, must be a"
                    "positive integer.");
     } else {
-      _set_cancellation_tolerance(val, ctx);
+      _set_cancellation_tolerance((int)val, ctx);
     }
     break;
   case KEY_WARNING:
diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index 6178804..028d646 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -659,7 +659,7 @@ static const struct argp_option options[] = {
 static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   mcaint_context_t *ctx = (mcaint_context_t *)state->input;
   char *endptr = NULL;
-  int val = -1;
+  long val = -1;
   int error = 0;
   float sparsity = -1;
   uint64_t seed = -1;
@@ -667,24 +667,24 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision for binary32 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val != MCAINT_PRECISION_BINARY32_DEFAULT) {
       logger_error("--%s invalid value provided, MCA integer does not support "
                    "custom precisions",
                    key_prec_b32_str);
     }
-    _set_mcaint_precision_binary32(val, ctx);
+    _set_mcaint_precision_binary32((int)val, ctx);
     break;
   case KEY_PREC_B64:
     /* precision for binary64 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val != MCAINT_PRECISION_BINARY64_DEFAULT) {
       logger_error("--%s invalid value provided, MCA integer does not support "
                    "custom precisions",
                    key_prec_b64_str);
     }
-    _set_mcaint_precision_binary64(val, ctx);
+    _set_mcaint_precision_binary64((int)val, ctx);
     break;
   case KEY_MODE:
     /* mca mode */
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index cf40a40..9fb781a 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -58,6 +58,7 @@
 
 #include <argp.h>
 #include <err.h>
+#include <limits.h>
 #include <math.h>
 #include <pthread.h>
 #include <stdbool.h>
@@ -781,7 +782,7 @@ static const struct argp_option options[] = {
 static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   mcaquad_context_t *ctx = (mcaquad_context_t *)state->input;
   char *endptr = NULL;
-  int val = -1;
+  long val = -1;
   int error = 0;
   float sparsity = MCAQUAD_SPARSITY_DEFAULT;
   uint64_t seed = MCAQUAD_SEED_DEFAULT;
@@ -790,23 +791,23 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision for binary32 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid value provided, must be a positive integer",
                    key_prec_b32_str);
     } else {
-      _set_mcaquad_precision_binary32(val, ctx);
+      _set_mcaquad_precision_binary32((int)val, ctx);
     }
     break;
   case KEY_PREC_B64:
     /* precision for binary64 */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
-    if (error != 0 || val <= 0) {
+    val = interflop_strtol(arg, &endptr, &error);
+    if (error != 0 || val <= 0 || val > INT_MAX) {
       logger_error("--%s invalid value provided, must be a positive integer",
                    key_prec_b64_str);
     } else {
-      _set_mcaquad_precision_binary64(val, ctx);
+      _set_mcaquad_precision_binary64((int)val, ctx);
     }
     break;
   case KEY_MODE:
@@ -849,7 +850,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
     /* exponent of the maximum absolute error */
     error = 0;
     exponent_error = interflop_strtol(arg, &endptr, &error);
-    if (error != 0) {
+    if (error != 0 || exponent_error < INT_MIN || exponent_error > INT_MAX) {
       logger_error("--%s invalid value provided, must be an integer",
                    key_err_exp_str);
     }
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec.c b/src/backends/interflop-backend-vprec/interflop_vprec.c
index a50b7b4..0c1999a 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec.c
@@ -26,6 +26,7 @@
 //
 
 #include <argp.h>
+#include <limits.h>
 #include <math.h>
 
 #include "common/vprec_tools.h"
@@ -882,7 +883,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   vprec_context_t *ctx = (vprec_context_t *)state->input;
   state->child_inputs[0] = ctx;
   char *endptr = NULL;
-  int val = -1;
+  long val = -1;
   int precision = 0;
   int range = 0;
   int error = 0;
@@ -891,7 +892,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
   case KEY_PREC_B32:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_PRECISION_BINARY32_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -901,13 +902,13 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
                    "must lower than IEEE binary32 precision (%d)",
                    key_prec_b32_str, VPREC_PRECISION_BINARY32_MAX);
     } else {
-      _set_vprec_precision_binary32(val, ctx);
+      _set_vprec_precision_binary32((int)val, ctx);
     }
     break;
   case KEY_PREC_B64:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_PRECISION_BINARY64_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -917,13 +918,13 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
                    "must be lower than IEEE binary64 precision (%d)",
                    key_prec_b64_str, VPREC_PRECISION_BINARY64_MAX);
     } else {
-      _set_vprec_precision_binary64(val, ctx);
+      _set_vprec_precision_binary64((int)val, ctx);
     }
     break;
   case KEY_RANGE_B32:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_RANGE_BINARY32_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -933,13 +934,13 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
                    "must be lower than IEEE binary32 range size (%d)",
                    key_range_b32_str, VPREC_RANGE_BINARY32_MAX);
     } else {
-      _set_vprec_range_binary32(val, ctx);
+      _set_vprec_range_binary32((int)val, ctx);
     }
     break;
   case KEY_RANGE_B64:
     /* precision */
     error = 0;
-    val = (int)interflop_strtol(arg, &endptr, &error);
+    val = interflop_strtol(arg, &endptr, &error);
     if (error != 0 || val < VPREC_RANGE_BINARY64_MIN) {
       logger_error("--%s invalid value provided, must be a "
                    "positive integer.",
@@ -949,7 +950,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
                    "must be lower than IEEE binary64 range size (%d)",
                    key_range_b64_str, VPREC_RANGE_BINARY64_MAX);
     } else {
-      _set_vprec_range_binary64(val, ctx);
+      _set_vprec_range_binary64((int)val, ctx);
     }
     break;
   case KEY_MODE:
@@ -989,7 +990,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
     /* exponent of the maximum absolute error */
     error = 0;
     long exp = interflop_strtol(arg, &endptr, &error);
-    if (error != 0) {
+    if (error != 0 || exp < INT_MIN || exp > INT_MAX) {
       logger_error("--%s invalid value provided, must be an integer",
                    key_err_exp_str);
     } else {
-- 
2.43.0


From 8078bc8883d1e4d764998c272bc81a33c9288140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:17 +0000
Subject: [PATCH 38/82] fix: --sparsity accepted NaN, and values above 1 in the
 MCA back-end

---
 src/backends/interflop-backend-mcaint/interflop_mca_int.c | 2 +-
 src/backends/interflop-backend-mcaquad/interflop_mca.c    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index 028d646..fe5fd60 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -727,7 +727,7 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
     /* sparse perturbations */
     error = 0;
     sparsity = (float)interflop_strtod(arg, &endptr, &error);
-    if (sparsity <= 0 || sparsity > 1) {
+    if (!(sparsity > 0 && sparsity <= 1)) {
       error = 1;
     }
     if (error != 0) {
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 9fb781a..caca0d6 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -878,11 +878,11 @@ static error_t parse_opt(int key, char *arg, struct argp_state *state) {
     /* sparse perturbations */
     error = 0;
     sparsity = (float)interflop_strtod(arg, &endptr, &error);
-    if (sparsity <= 0) {
+    if (!(sparsity > 0 && sparsity <= 1)) {
       error = 1;
     }
     if (error != 0) {
-      logger_error("--%s invalid value provided, must be positive",
+      logger_error("--%s invalid value provided, must be in (0, 1]",
                    key_sparsity_str);
     }
     _set_mcaquad_sparsity(sparsity, ctx);
-- 
2.43.0


From cfe6ad6a31afea8695a8b3345ba4b059e08099b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:16 +0000
Subject: [PATCH 39/82] fix: the logger displayed the text of the warnings when
 disabled or set to a higher level

---
 src/interflop-stdlib/iostream/logger.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/interflop-stdlib/iostream/logger.c b/src/interflop-stdlib/iostream/logger.c
index 7088e6e..5986680 100644
--- a/src/interflop-stdlib/iostream/logger.c
+++ b/src/interflop-stdlib/iostream/logger.c
@@ -241,11 +241,11 @@ void logger_info(const char *fmt, ...) {
 void logger_warning(const char *fmt, ...) {
   if (logger_enabled && logger_level <= logger_level_warning) {
     logger_header(logger_stderr, "Warning", warning_color, logger_colored);
+    va_list ap;
+    va_start(ap, fmt);
+    interflop_vwarnx(fmt, ap);
+    va_end(ap);
   }
-  va_list ap;
-  va_start(ap, fmt);
-  interflop_vwarnx(fmt, ap);
-  va_end(ap);
 }
 
 /* Display the error message */
@@ -279,8 +279,8 @@ void vlogger_info(const char *fmt, va_list argp) {
 void vlogger_warning(const char *fmt, va_list argp) {
   if (logger_enabled && logger_level <= logger_level_warning) {
     logger_header(logger_stderr, "Warning", warning_color, logger_colored);
+    interflop_vwarnx(fmt, argp);
   }
-  interflop_vwarnx(fmt, argp);
 }
 
 /* Display the error message */
-- 
2.43.0


From c26683c53bd89abe7c06b71c7fdb93d4a19d251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:16 +0000
Subject: [PATCH 40/82] fix: the MCA-int back-end ignored
 VFC_BACKENDS_SILENT_LOAD

---
 .../interflop-backend-mcaint/interflop_mca_int.c       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index fe5fd60..d69bdca 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -774,6 +774,16 @@ void INTERFLOP_MCAINT_API(configure)(void *configure, void *context) {
 }
 
 static void print_information_header(void *context) {
+  /* Environnement variable to disable loading message */
+  char *silent_load_env = interflop_getenv("VFC_BACKENDS_SILENT_LOAD");
+  bool silent_load = ((silent_load_env == NULL) ||
+                      (interflop_strcasecmp(silent_load_env, "True") != 0))
+                         ? false
+                         : true;
+
+  if (silent_load)
+    return;
+
   mcaint_context_t *ctx = (mcaint_context_t *)context;
 
   logger_info("load backend with:\n");
-- 
2.43.0


From c7abe298ad90ae90687da7a9064d19aa5a2aa2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:28 +0000
Subject: [PATCH 41/82] fix: delta-debug identified vector operations by an
 address inside the wrapper

---
 src/vfcwrapper/main.c.in | 78 +++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 36 deletions(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index e691b04..bc70212 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -604,9 +604,9 @@ void interflop_call(interflop_call_id id, ...) {
 }
 
 #define define_arithmetic_wrapper(precision, operation, operator)              \
-  precision _##precision##operation(precision a, precision b) {                \
+  static inline precision _vfc_##precision##operation(precision a,             \
+                                                      precision b) {           \
     precision c = NAN;                                                         \
-    ddebug(operator);                                                          \
     for (unsigned char i = 0; i < loaded_backends; i++) {                      \
       if (backends[i].interflop_##operation##_##precision) {                   \
         backends[i].interflop_##operation##_##precision(a, b, &c,              \
@@ -614,6 +614,10 @@ void interflop_call(interflop_call_id id, ...) {
       }                                                                        \
     }                                                                          \
     return c;                                                                  \
+  }                                                                            \
+  precision _##precision##operation(precision a, precision b) {                \
+    ddebug(operator);                                                          \
+    return _vfc_##precision##operation(a, b);                                  \
   }
 
 define_arithmetic_wrapper(float, add, (a + b));
@@ -646,56 +650,58 @@ int _doublecmp(enum FCMP_PREDICATE p, double a, double b) {
 }
 
 /* Arithmetic vector wrappers */
-#define define_vectorized_arithmetic_wrapper(precision, operation, size)       \
+#define define_vectorized_arithmetic_wrapper(precision, operation, operator,   \
+                                             size)                             \
   precision##size _##size##x##precision##operation(const precision##size a,    \
                                                    const precision##size b) {  \
     precision##size c;                                                         \
+    ddebug(operator);                                                          \
                                                                                \
     _Pragma("unroll") for (int i = 0; i < size; i++) {                         \
-      c[i] = _##precision##operation(a[i], b[i]);                              \
+      c[i] = _vfc_##precision##operation(a[i], b[i]);                          \
     }                                                                          \
     return c;                                                                  \
   }
 
 /* Define vector of size 2 */
-define_vectorized_arithmetic_wrapper(float, add, 2);
-define_vectorized_arithmetic_wrapper(float, sub, 2);
-define_vectorized_arithmetic_wrapper(float, mul, 2);
-define_vectorized_arithmetic_wrapper(float, div, 2);
-define_vectorized_arithmetic_wrapper(double, add, 2);
-define_vectorized_arithmetic_wrapper(double, sub, 2);
-define_vectorized_arithmetic_wrapper(double, mul, 2);
-define_vectorized_arithmetic_wrapper(double, div, 2);
+define_vectorized_arithmetic_wrapper(float, add, (a + b), 2);
+define_vectorized_arithmetic_wrapper(float, sub, (a - b), 2);
+define_vectorized_arithmetic_wrapper(float, mul, (a * b), 2);
+define_vectorized_arithmetic_wrapper(float, div, (a / b), 2);
+define_vectorized_arithmetic_wrapper(double, add, (a + b), 2);
+define_vectorized_arithmetic_wrapper(double, sub, (a - b), 2);
+define_vectorized_arithmetic_wrapper(double, mul, (a * b), 2);
+define_vectorized_arithmetic_wrapper(double, div, (a / b), 2);
 
 /* Define vector of size 4 */
-define_vectorized_arithmetic_wrapper(float, add, 4);
-define_vectorized_arithmetic_wrapper(float, sub, 4);
-define_vectorized_arithmetic_wrapper(float, mul, 4);
-define_vectorized_arithmetic_wrapper(float, div, 4);
-define_vectorized_arithmetic_wrapper(double, add, 4);
-define_vectorized_arithmetic_wrapper(double, sub, 4);
-define_vectorized_arithmetic_wrapper(double, mul, 4);
-define_vectorized_arithmetic_wrapper(double, div, 4);
+define_vectorized_arithmetic_wrapper(float, add, (a + b), 4);
+define_vectorized_arithmetic_wrapper(float, sub, (a - b), 4);
+define_vectorized_arithmetic_wrapper(float, mul, (a * b), 4);
+define_vectorized_arithmetic_wrapper(float, div, (a / b), 4);
+define_vectorized_arithmetic_wrapper(double, add, (a + b), 4);
+define_vectorized_arithmetic_wrapper(double, sub, (a - b), 4);
+define_vectorized_arithmetic_wrapper(double, mul, (a * b), 4);
+define_vectorized_arithmetic_wrapper(double, div, (a / b), 4);
 
 /* Define vector of size 8 */
-define_vectorized_arithmetic_wrapper(float, add, 8);
-define_vectorized_arithmetic_wrapper(float, sub, 8);
-define_vectorized_arithmetic_wrapper(float, mul, 8);
-define_vectorized_arithmetic_wrapper(float, div, 8);
-define_vectorized_arithmetic_wrapper(double, add, 8);
-define_vectorized_arithmetic_wrapper(double, sub, 8);
-define_vectorized_arithmetic_wrapper(double, mul, 8);
-define_vectorized_arithmetic_wrapper(double, div, 8);
+define_vectorized_arithmetic_wrapper(float, add, (a + b), 8);
+define_vectorized_arithmetic_wrapper(float, sub, (a - b), 8);
+define_vectorized_arithmetic_wrapper(float, mul, (a * b), 8);
+define_vectorized_arithmetic_wrapper(float, div, (a / b), 8);
+define_vectorized_arithmetic_wrapper(double, add, (a + b), 8);
+define_vectorized_arithmetic_wrapper(double, sub, (a - b), 8);
+define_vectorized_arithmetic_wrapper(double, mul, (a * b), 8);
+define_vectorized_arithmetic_wrapper(double, div, (a / b), 8);
 
 /* Define vector of size 16 */
-define_vectorized_arithmetic_wrapper(float, add, 16);
-define_vectorized_arithmetic_wrapper(float, sub, 16);
-define_vectorized_arithmetic_wrapper(float, mul, 16);
-define_vectorized_arithmetic_wrapper(float, div, 16);
-define_vectorized_arithmetic_wrapper(double, add, 16);
-define_vectorized_arithmetic_wrapper(double, sub, 16);
-define_vectorized_arithmetic_wrapper(double, mul, 16);
-define_vectorized_arithmetic_wrapper(double, div, 16);
+define_vectorized_arithmetic_wrapper(float, add, (a + b), 16);
+define_vectorized_arithmetic_wrapper(float, sub, (a - b), 16);
+define_vectorized_arithmetic_wrapper(float, mul, (a * b), 16);
+define_vectorized_arithmetic_wrapper(float, div, (a / b), 16);
+define_vectorized_arithmetic_wrapper(double, add, (a + b), 16);
+define_vectorized_arithmetic_wrapper(double, sub, (a - b), 16);
+define_vectorized_arithmetic_wrapper(double, mul, (a * b), 16);
+define_vectorized_arithmetic_wrapper(double, div, (a / b), 16);
 
 /* Comparison vector wrappers */
 #define define_vectorized_comparison_wrapper(precision, size)                  \
-- 
2.43.0


From 792dfd2a41a10a922c683c51c4b66c8de3d18876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:28 +0000
Subject: [PATCH 42/82] fix: VFC_DDEBUG_GEN left the end of an existing longer
 file

---
 src/vfcwrapper/main.c.in | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index bc70212..2f46af5 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -165,7 +165,8 @@ vfc_hashmap_t dd_must_instrument;
 vfc_hashmap_t dd_mustnot_instrument;
 
 void ddebug_generate_inclusion(char *dd_generate_path, vfc_hashmap_t map) {
-  int output = open(dd_generate_path, O_WRONLY | O_CREAT, S_IWUSR | S_IRUSR);
+  int output = open(dd_generate_path, O_WRONLY | O_CREAT | O_TRUNC,
+                    S_IWUSR | S_IRUSR);
   if (output == -1) {
     logger_error("cannot open DDEBUG_GEN file %s", dd_generate_path);
   }
-- 
2.43.0


From 768808b8085f243101ba2ff3380862183723a584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:28 +0000
Subject: [PATCH 43/82] fix: VFC_DDEBUG_GEN corrupted the set of operations of
 multithreaded programs

---
 src/vfcwrapper/main.c.in | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 2f46af5..99ae139 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -98,6 +98,7 @@ void logger_error(const char *fmt, ...);
 __attribute__((unused)) static char *dd_exclude_path = NULL;
 __attribute__((unused)) static char *dd_include_path = NULL;
 __attribute__((unused)) static char *dd_generate_path = NULL;
+__attribute__((unused)) static bool dd_generate_lock = false;
 
 /* Function instrumentation prototypes */
 
@@ -583,7 +584,11 @@ __attribute__((constructor(0))) static void vfc_init(void) {
       return operation;                                                        \
     }                                                                          \
   } else if (dd_generate_path) {                                               \
+    /* Threads share the map */                                                \
+    while (__atomic_test_and_set(&dd_generate_lock, __ATOMIC_ACQUIRE))         \
+      ;                                                                        \
     vfc_hashmap_insert(dd_must_instrument, (size_t)addr, addr);                \
+    __atomic_clear(&dd_generate_lock, __ATOMIC_RELEASE);                       \
   }
 
 #else
-- 
2.43.0


From 1c9120f584eebe036a77daeb2ca4bc40965603e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:28 +0000
Subject: [PATCH 44/82] fix: the environment inherited by child processes had a
 truncated VFC_BACKENDS

---
 src/vfcwrapper/main.c.in | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 99ae139..9c92fef 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -463,6 +463,9 @@ __attribute__((constructor(0))) static void vfc_init(void) {
      Backends .so are separated by semi-colons in the VFC_BACKENDS
      env variable */
   char *semicolonptr;
+  /* strtok_r modifies its argument: keep the environment intact, it is
+     inherited by the programs executed by this one */
+  vfc_backends = strdup(vfc_backends);
   char *token = strtok_r(vfc_backends, ";", &semicolonptr);
   while (token) {
     /* Parse each backend arguments, argv[0] is the backend name */
-- 
2.43.0


From 9dbacf7da6ee1db7e0eb56ded28c1326a2fde91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:28 +0000
Subject: [PATCH 45/82] fix: out-of-bounds write when a back-end is given 256
 arguments

---
 src/vfcwrapper/main.c.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfcwrapper/main.c.in b/src/vfcwrapper/main.c.in
index 9c92fef..1e2f1d8 100644
--- a/src/vfcwrapper/main.c.in
+++ b/src/vfcwrapper/main.c.in
@@ -474,7 +474,7 @@ __attribute__((constructor(0))) static void vfc_init(void) {
     char *spaceptr;
     char *arg = strtok_r(token, " ", &spaceptr);
     while (arg) {
-      if (backend_argc >= MAX_ARGS) {
+      if (backend_argc >= MAX_ARGS - 1) {
         logger_error("%s syntax error: too many arguments", vfc_backends_env);
       }
       backend_argv[backend_argc++] = arg;
-- 
2.43.0


From 309ffdcc0a3de2b2c970e681fa5c0982428b73bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:43 +0000
Subject: [PATCH 46/82] fix: delta-debug identified operations in tail position
 by the address of the caller

---
 src/libvfcinstrument/libVFCInstrument.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libvfcinstrument/libVFCInstrument.cpp b/src/libvfcinstrument/libVFCInstrument.cpp
index d748542..95ddf01 100644
--- a/src/libvfcinstrument/libVFCInstrument.cpp
+++ b/src/libvfcinstrument/libVFCInstrument.cpp
@@ -449,6 +449,8 @@ struct VfclibInst : public ModulePass {
 
     CallInst *newInst = Builder.CreateCall(F, {op1, op2});
     newInst->setAttributes(F->getAttributes());
+    /* delta-debug identifies the operation by its return address */
+    newInst->setTailCallKind(CallInst::TCK_NoTail);
 
     return updateReturn(Builder, newInst, retType);
   }
@@ -469,6 +471,8 @@ struct VfclibInst : public ModulePass {
 
     CallInst *newInst = Builder.CreateCall(F, {op1, op2, op3});
     newInst->setAttributes(F->getAttributes());
+    /* delta-debug identifies the operation by its return address */
+    newInst->setTailCallKind(CallInst::TCK_NoTail);
 
     return updateReturn(Builder, newInst, retType);
   }
-- 
2.43.0


From b1d01eabf8b62340f0534f1d0998fa6b6bf97be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:24 +0000
Subject: [PATCH 47/82] fix: undefined shifts in the VPREC rounding at the full
 and null precisions

---
 .../common/vprec_tools.c                       | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/common/vprec_tools.c b/src/backends/interflop-backend-vprec/common/vprec_tools.c
index fb494fc..49f8c1a 100644
--- a/src/backends/interflop-backend-vprec/common/vprec_tools.c
+++ b/src/backends/interflop-backend-vprec/common/vprec_tools.c
@@ -47,7 +47,8 @@ inline static int check_if_binary32_needs_rounding(binary32 b32x,
 
   // Calculate the bit that will be rounded
   const uint32_t bit_to_round_offset = (FLOAT_PMAN_SIZE - precision);
-  const uint32_t bit_to_round = (b32x.ieee.mantissa >> bit_to_round_offset) & 1;
+  const uint32_t mantissa = b32x.ieee.mantissa;
+  const uint32_t bit_to_round = (mantissa >> bit_to_round_offset) & 1;
 
   // Calculate the halfway point for rounding.
   const uint32_t halfway_point = one << (FLOAT_PMAN_SIZE - precision - 1);
@@ -69,6 +70,12 @@ inline static int check_if_binary32_needs_rounding(binary32 b32x,
  *   retval x rounded on the specified precision
  */
 inline float round_binary32_normal(float x, int precision) {
+  /* nothing to round; the shifts below are only defined for shorter precisions
+   */
+  if (precision >= FLOAT_PMAN_SIZE) {
+    return x;
+  }
+
   /* build 1/2 ulp and add it before truncation for rounding to nearest with
    * ties to even */
 
@@ -110,7 +117,8 @@ inline static int check_if_binary64_needs_rounding(binary64 b64x,
 
   // Calculate the bit that will be rounded
   const uint64_t bit_to_round_offset = (DOUBLE_PMAN_SIZE - precision);
-  const uint64_t bit_to_round = (b64x.ieee.mantissa >> bit_to_round_offset) & 1;
+  const uint64_t mantissa = b64x.ieee.mantissa;
+  const uint64_t bit_to_round = (mantissa >> bit_to_round_offset) & 1;
 
   // Calculate the halfway point for rounding.
   const uint64_t halfway_point = one << (DOUBLE_PMAN_SIZE - precision - 1);
@@ -132,6 +140,12 @@ inline static int check_if_binary64_needs_rounding(binary64 b64x,
  *   retval x rounded on the specified precision
  */
 inline double round_binary64_normal(double x, int precision) {
+  /* nothing to round; the shifts below are only defined for shorter precisions
+   */
+  if (precision >= DOUBLE_PMAN_SIZE) {
+    return x;
+  }
+
   /* build 1/2 ulp and add it  before truncation for rounding to nearest
    * with ties to even */
 
-- 
2.43.0


From 291aff3f6a047d708e0a0e555098485e59cc0dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:01 +0000
Subject: [PATCH 48/82] fix: the exponent of the MCA noise and of the VPREC
 absolute error wrapped around for extreme precisions and error exponents

---
 .../interflop-backend-mcaquad/interflop_mca.c | 30 ++++++++++++++-----
 .../interflop-backend-vprec/interflop_vprec.c | 20 ++++++++-----
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index caca0d6..28b7090 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -272,11 +272,20 @@ static const char *_get_error_mode_str(mcaquad_context_t *ctx) {
 /* is comprised between: */
 /* 127+127 = 254 < DOUBLE_EXP_MAX (1023)  */
 /* -126-24+-126-24 = -300 > DOUBLE_EXP_MIN (-1022) */
-double _noise_binary64(int exp, rng_state_t *rng_state);
-inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
+/* for values of exp out of these bounds (huge precision or absolute error), */
+/* the noise is zero or infinite, the exponent field must not wrap around */
+double _noise_binary64(int64_t exp, rng_state_t *rng_state);
+inline double _noise_binary64(const int64_t exp, rng_state_t *rng_state) {
   const double d_rand = get_rand_double01(rng_state, &mcaquad_global_tid) - 0.5;
   binary64 b64 = {.f64 = d_rand};
-  b64.ieee.exponent = b64.ieee.exponent + exp;
+  const int64_t noise_exp = (int64_t)b64.ieee.exponent + exp;
+  if (noise_exp <= 0) {
+    return 0.0;
+  }
+  if (noise_exp > DOUBLE_NORMAL_EXP_MAX + DOUBLE_EXP_COMP) {
+    return d_rand < 0 ? -INFINITY : INFINITY;
+  }
+  b64.ieee.exponent = noise_exp;
   return b64.f64;
 }
 
@@ -286,12 +295,19 @@ inline double _noise_binary64(const int exp, rng_state_t *rng_state) {
 /* is comprised between: */
 /* 1023+1023 = 2046 < QUAD_EXP_MAX (16383)  */
 /* -1022-53+-1022-53 = -2200 > QUAD_EXP_MIN (-16382) */
-_Float128 _noise_binary128(const int exp, rng_state_t *rng_state) {
+_Float128 _noise_binary128(const int64_t exp, rng_state_t *rng_state) {
   /* random number in (-0.5, 0.5) */
   const _Float128 noise =
       (_Float128)get_rand_double01(rng_state, &mcaquad_global_tid) - 0.5Q;
   binary128 b128 = {.f128 = noise};
-  b128.ieee128.exponent = b128.ieee128.exponent + exp;
+  const int64_t noise_exp = (int64_t)b128.ieee128.exponent + exp;
+  if (noise_exp <= 0) {
+    return 0.0Q;
+  }
+  if (noise_exp > QUAD_EXP_MAX + QUAD_EXP_COMP) {
+    return noise < 0 ? -INFINITY : INFINITY;
+  }
+  b128.ieee128.exponent = noise_exp;
   return b128.f128;
 }
 
@@ -330,7 +346,7 @@ _Float128 _noise_binary128(const int exp, rng_state_t *rng_state) {
     _init_rng_state_struct(&(RNG_STATE), TMP_CTX->choose_seed,                 \
                            (unsigned long long)(TMP_CTX->seed), false);        \
     const int32_t e_a = GET_EXP_FLT(*(X));                                     \
-    const int32_t e_n_rel = e_a - ((VIRTUAL_PRECISION) - 1);                   \
+    const int64_t e_n_rel = (int64_t)e_a - ((VIRTUAL_PRECISION) - 1);          \
     const typeof(*X) noise_rel = _NOISE(*X, e_n_rel, &(RNG_STATE));            \
     *X = *X + noise_rel;                                                       \
   }
@@ -351,7 +367,7 @@ _Float128 _noise_binary128(const int exp, rng_state_t *rng_state) {
     }                                                                          \
     if (TMP_CTX->relErr) {                                                     \
       const int32_t e_a = GET_EXP_FLT(*(X));                                   \
-      const int32_t e_n_rel = e_a - ((VIRTUAL_PRECISION) - 1);                 \
+      const int64_t e_n_rel = (int64_t)e_a - ((VIRTUAL_PRECISION) - 1);        \
       const typeof(*(X)) noise_rel = _NOISE(*(X), e_n_rel, &(RNG_STATE));      \
       *(X) += noise_rel;                                                       \
     }                                                                          \
diff --git a/src/backends/interflop-backend-vprec/interflop_vprec.c b/src/backends/interflop-backend-vprec/interflop_vprec.c
index 0c1999a..e5427eb 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec.c
@@ -249,9 +249,11 @@ void _set_vprec_ftz(bool ftz, vprec_context_t *ctx) { ctx->ftz = ftz; }
  * VPREC mode of operation and instrumentation mode.
  ***************************************************************/
 extern int compute_absErr_vprec_binary32(vprec_context_t *currentContext,
-                                         int expDiff, int binary32_precision);
+                                         int64_t expDiff,
+                                         int binary32_precision);
 inline int compute_absErr_vprec_binary32(vprec_context_t *currentContext,
-                                         int expDiff, int binary32_precision) {
+                                         int64_t expDiff,
+                                         int binary32_precision) {
   /* this function is used only when in vprec error mode abs and all,
    * so there is no need to handle vprec error mode rel */
   if (currentContext->relErr == true) {
@@ -267,9 +269,11 @@ inline int compute_absErr_vprec_binary32(vprec_context_t *currentContext,
   return FLOAT_PMAN_SIZE;
 }
 extern int compute_absErr_vprec_binary64(vprec_context_t *currentContext,
-                                         int expDiff, int binary64_precision);
+                                         int64_t expDiff,
+                                         int binary64_precision);
 inline int compute_absErr_vprec_binary64(vprec_context_t *currentContext,
-                                         int expDiff, int binary64_precision) {
+                                         int64_t expDiff,
+                                         int binary64_precision) {
   /* this function is used only when in vprec error mode abs and all,
    * so there is no need to handle vprec error mode rel */
   if (currentContext->relErr == true) {
@@ -292,7 +296,7 @@ inline float handle_binary32_normal_absErr(float a, int32_t aexp,
                                            int binary32_precision,
                                            vprec_context_t *currentContext) {
   /* absolute error mode, or both absolute and relative error modes */
-  int expDiff = aexp - currentContext->absErr_exp;
+  int64_t expDiff = (int64_t)aexp - currentContext->absErr_exp;
   float retVal = NAN;
 
   if (expDiff < -1) {
@@ -336,7 +340,7 @@ inline double handle_binary64_normal_absErr(double a, int64_t aexp,
   } else {
     /* normal case for the absolute error mode */
     int binary64_precision_adjusted = compute_absErr_vprec_binary64(
-        currentContext, (int)expDiff, binary64_precision);
+        currentContext, expDiff, binary64_precision);
     retVal = round_binary64_normal(a, binary64_precision_adjusted);
   }
 
@@ -437,7 +441,7 @@ float _vprec_round_binary32(float a, char is_input, void *context,
     }
     if (currentContext->absErr == true) {
       /* absolute error mode, or both absolute and relative error modes */
-      int expDiff = emin - currentContext->absErr_exp;
+      int64_t expDiff = (int64_t)emin - currentContext->absErr_exp;
       if (expDiff < 0) {
         /* the whole denormal range lies below the absolute error threshold */
         a = handle_binary32_normal_absErr(a, aexp.s32, binary32_precision,
@@ -520,7 +524,7 @@ double _vprec_round_binary64(double a, char is_input, void *context,
     }
     if (currentContext->absErr == true) {
       /* absolute error mode, or both absolute and relative error modes */
-      int expDiff = emin - currentContext->absErr_exp;
+      int64_t expDiff = (int64_t)emin - currentContext->absErr_exp;
       if (expDiff < 0) {
         /* the whole denormal range lies below the absolute error threshold */
         a = handle_binary64_normal_absErr(a, aexp.s64, binary64_precision,
-- 
2.43.0


From d254cee9d7fb6449ad0b96806f3c35ad05922bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:13 +0000
Subject: [PATCH 49/82] fix: VPREC rounded every subnormal number up to the
 absolute error 2^emin of the format

---
 .../interflop-backend-vprec/common/vprec_tools.c     | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/common/vprec_tools.c b/src/backends/interflop-backend-vprec/common/vprec_tools.c
index 49f8c1a..1c6066b 100644
--- a/src/backends/interflop-backend-vprec/common/vprec_tools.c
+++ b/src/backends/interflop-backend-vprec/common/vprec_tools.c
@@ -289,12 +289,16 @@ inline float round_binary32_underflow(float x, int emin, int precision) {
       .ieee = {.sign = 0,
                .exponent = FLOAT_EXP_COMP + (emin - precision) - 1,
                .mantissa = 0}};
+  // below the smallest normal number, half of it is a subnormal number
+  if (half_smallest_subnormal.ieee.exponent == 0) {
+    half_smallest_subnormal.ieee.mantissa = 1U << (FLOAT_PMAN_SIZE - 1);
+  }
 
   //  If x is greater than or equal to half of the smallest subnormal number,
   //  rounds to the smallest subnormal number with the same sign.
   //  Otherwise, rounds to zero while preserving the sign.
   // checks if x is greater than or equal to half of the smallest subnormal
-  if (b32_x.ieee.exponent >= half_smallest_subnormal.ieee.exponent) {
+  if (fabsf(x) >= half_smallest_subnormal.f32) {
     // then round to the smallest subnormal number with the same sign
     b32_x.ieee.exponent = half_smallest_subnormal.ieee.exponent + 1;
     b32_x.ieee.mantissa = 0;
@@ -334,12 +338,16 @@ inline double round_binary64_underflow(double x, int emin, int precision) {
       .ieee = {.sign = 0,
                .exponent = DOUBLE_EXP_COMP + (emin - precision) - 1,
                .mantissa = 0}};
+  // below the smallest normal number, half of it is a subnormal number
+  if (half_smallest_subnormal.ieee.exponent == 0) {
+    half_smallest_subnormal.ieee.mantissa = 1ULL << (DOUBLE_PMAN_SIZE - 1);
+  }
 
   //  If x is greater than or equal to half of the smallest subnormal number,
   //  rounds to the smallest subnormal number with the same sign.
   //  Otherwise, rounds to zero while preserving the sign.
   // checks if x is greater than or equal to half of the smallest subnormal
-  if (b64_x.ieee.exponent >= half_smallest_subnormal.ieee.exponent) {
+  if (fabs(x) >= half_smallest_subnormal.f64) {
     // then round to the smallest subnormal number with the same sign
     b64_x.ieee.exponent = half_smallest_subnormal.ieee.exponent + 1;
     b64_x.ieee.mantissa = 0;
-- 
2.43.0


From d99ebd1f706ecb5ebf54eeb440137253e372cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:32 +0000
Subject: [PATCH 50/82] fix: vfc_vtk stopped on every input since Python 3.9
 removed Element.copy

---
 src/tools/vtk/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 9757a09..03a648f 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -22,6 +22,7 @@
 
 
 import argparse
+import copy
 import io
 import os
 import shutil
@@ -103,7 +104,7 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
 
         # original element
         original = output.find(xpath)
-        accuracy = original.copy()
+        accuracy = copy.deepcopy(original)
 
         # update the output_vtu with the mean
         if args.mean:
-- 
2.43.0


From c84893bfa813a68051604994725f29fdaf625fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:32 +0000
Subject: [PATCH 51/82] fix: vfc_vtk reported no significant digit for negative
 values

---
 src/tools/vtk/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 03a648f..1f2b83f 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -97,7 +97,7 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
         if args.std:
             s = std
         else:
-            s = -np.log10(std / mean)
+            s = -np.log10(std / np.abs(mean))
             s[np.isnan(s)] = 0.0
             s[s < 0.0] = 0.0
             s[s > 17.0] = 17.0
-- 
2.43.0


From 1c23243aa63ea03a5b87d251cf01b41fe4f18bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:32 +0000
Subject: [PATCH 52/82] fix: vfc_vtk -r copied the reference output as if it
 were a file

---
 src/tools/vtk/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 1f2b83f..4bdd023 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -144,7 +144,7 @@ def postprocess(verificarlo_dir, output_dir, args):
 
     # Prepare reference output
     if args.r:
-        shutil.copyfile(args.r, output_dir)
+        shutil.copytree(args.r, output_dir)
     else:
         # Use first vtu file as base for the merge
         shutil.copytree(dirs[0], output_dir)
-- 
2.43.0


From bd68c66de028b28a42bcc691754d9d9387096a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:32 +0000
Subject: [PATCH 53/82] fix: vfc_vtk ignored Float64 arrays and mixed up arrays
 of the same name

---
 src/tools/vtk/__main__.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/tools/vtk/__main__.py b/src/tools/vtk/__main__.py
index 4bdd023..89e30f7 100644
--- a/src/tools/vtk/__main__.py
+++ b/src/tools/vtk/__main__.py
@@ -61,6 +61,11 @@ def np_to_string(a):
         return "\n" + s.getvalue()
 
 
+def float_arrays(tree):
+    """Returns the floating point DataArray nodes of a .vtu, in document order"""
+    return [c for c in tree.iter("DataArray") if c.get("type") in ("Float32", "Float64")]
+
+
 def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
     """Postprocess a set of .vtu files adding verificarlo
     accuracy information.
@@ -72,22 +77,22 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
     # open output file
     output = ET.parse(output_vtu)
 
-    # find names of float32 DataArray nodes
-    names = []
-    for c in output.findall(".//DataArray[@type='Float32']"):
-        names.append(c.get("Name"))
+    # the parent of each node
+    parents = {c: p for p in output.iter() for c in p}
+
+    # floating point arrays of each verificarlo trace
+    traces = [float_arrays(ET.parse(os.path.join(d, vtu_filename))) for d in vfc_dirs]
 
-    for name in names:
+    # several arrays may have the same name (in different pieces, or for the
+    # points and for the cells): they are identified by their position
+    for i, original in enumerate(float_arrays(output)):
+        name = original.get("Name")
         rows = []
-        xpath = ".//DataArray[@type='Float32'][@Name='{}']".format(name)
 
         # for each verificarlo trace extract data as a numpy double array
-        for d in vfc_dirs:
-            vtu_path = os.path.join(d, vtu_filename)
-            inp = ET.parse(vtu_path)
-            c = inp.find(xpath)
-            assert c is not None
-            rows.append(np.fromstring(c.text, np.float64, sep=" "))
+        for arrays in traces:
+            assert arrays[i].get("Name") == name
+            rows.append(np.fromstring(arrays[i].text, np.float64, sep=" "))
 
         # compute the mean and significant digits across MCA traces
         mat = np.stack(rows)
@@ -102,8 +107,6 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
             s[s < 0.0] = 0.0
             s[s > 17.0] = 17.0
 
-        # original element
-        original = output.find(xpath)
         accuracy = copy.deepcopy(original)
 
         # update the output_vtu with the mean
@@ -115,11 +118,11 @@ def merge_vtu(output_vtu, vfc_dirs, vtu_filename, args):
         accuracy.text = np_to_string(s)
 
         # retrieve parent
-        parent = output.find(xpath + "/..")
+        parent = parents[original]
         if parent.tag != "Points":
             insert_in = parent
         else:
-            insert_in = output.find(".//PointData")
+            insert_in = parents[parent].find("PointData")
 
         # insert it as a sibling
         insert_in.insert(0, accuracy)
-- 
2.43.0


From 0b61ba4423ea586a2a75d648d889e9ee6c27f8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:13 +0000
Subject: [PATCH 54/82] fix: vfc_ci setup committed and pushed the untracked
 files of the work tree

---
 src/tools/ci/setup.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tools/ci/setup.py b/src/tools/ci/setup.py
index 6b27517..a2bf192 100644
--- a/src/tools/ci/setup.py
+++ b/src/tools/ci/setup.py
@@ -99,9 +99,11 @@ def run(git_host):
     repo = git.Repo(".")
     repo.remotes.origin.fetch()
 
-    # Make sure that repository is clean
-    assert not repo.is_dirty(), (
-        "Error [vfc_ci]: Unstaged changes detected " "in your work tree."
+    # Make sure that repository is clean (everything in the work tree is
+    # committed and pushed below)
+    assert not repo.is_dirty(untracked_files=True), (
+        "Error [vfc_ci]: Unstaged changes or untracked files detected "
+        "in your work tree."
     )
 
     dev_branch = repo.active_branch
-- 
2.43.0


From ce10df9964be35d0a6a17d60b21ad15096b20a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:13 +0000
Subject: [PATCH 55/82] fix: the GitLab workflow of vfc_ci pushed to a wrong
 address for remotes ending in .git, using ssh or not named first

---
 src/tools/ci/setup.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tools/ci/setup.py b/src/tools/ci/setup.py
index a2bf192..ea68b53 100644
--- a/src/tools/ci/setup.py
+++ b/src/tools/ci/setup.py
@@ -71,9 +71,17 @@ def gen_workflow(git_host, dev_branch, ci_branch, repo):
         )
         email = input("[vfc_ci] Enter the e-mail of the user who will run the CI jobs:")
 
-        remote_url = repo.remotes[0].config_reader.get("url")
-        remote_url = remote_url.replace("http://", "")
-        remote_url = remote_url.replace("https://", "")
+        # host/path of the remote, without the scheme, the user and the ".git"
+        # suffix (the remote can also be in the host:path syntax of ssh)
+        remote_url = repo.remotes.origin.config_reader.get("url")
+        _, separator, address = remote_url.rpartition("://")
+        host, slash, path = address.partition("/")
+        host = host.rpartition("@")[2]
+        if not separator:
+            host = host.replace(":", "/", 1)
+        remote_url = (host + slash + path).rstrip("/")
+        if remote_url.endswith(".git"):
+            remote_url = remote_url[: -len(".git")]
 
         render = template.render(
             dev_branch=dev_branch,
-- 
2.43.0


From de4bc256430576f0545cb9be193bfa92aed2db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:12 +0000
Subject: [PATCH 56/82] fix: vfc_ci serve failed on every report: figure was
 not imported, and Bokeh 3 removed Panel, plot_width and HoverTool.names

---
 src/tools/ci/vfc_ci_report/compare_runs.py    | 28 +++++++++++--------
 .../ci/vfc_ci_report/deterministic_compare.py |  4 +--
 src/tools/ci/vfc_ci_report/inspect_runs.py    | 27 ++++++++++--------
 src/tools/ci/vfc_ci_report/plot.py            | 24 ++++++++--------
 4 files changed, 48 insertions(+), 35 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/compare_runs.py b/src/tools/ci/vfc_ci_report/compare_runs.py
index fcfe150..b994971 100644
--- a/src/tools/ci/vfc_ci_report/compare_runs.py
+++ b/src/tools/ci/vfc_ci_report/compare_runs.py
@@ -32,11 +32,17 @@ from bokeh.models import (
     CheckboxGroup,
     ColumnDataSource,
     CustomJS,
-    Panel,
     Select,
     Tabs,
     TextInput,
 )
+from bokeh.plotting import figure
+
+try:
+    from bokeh.models import TabPanel
+except ImportError:
+    # Bokeh < 3
+    from bokeh.models import Panel as TabPanel
 
 ##########################################################################
 
@@ -289,8 +295,8 @@ class CompareRuns:
         self.plots["boxplot"] = figure(
             name="boxplot",
             title="Variable distribution over runs",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -335,8 +341,8 @@ class CompareRuns:
         self.plots["sigma_plot"] = figure(
             name="sigma_plot",
             title="Standard deviation σ over runs",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -369,8 +375,8 @@ class CompareRuns:
         self.plots["s10_plot"] = figure(
             name="s10_plot",
             title="Significant digits s over runs",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -399,13 +405,13 @@ class CompareRuns:
             lower_bound=True,
             custom_colors="custom_colors",
         )
-        s10_tab = Panel(child=self.plots["s10_plot"], title="Base 10")
+        s10_tab = TabPanel(child=self.plots["s10_plot"], title="Base 10")
 
         self.plots["s2_plot"] = figure(
             name="s2_plot",
             title="Significant digits s over runs",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -433,7 +439,7 @@ class CompareRuns:
             lower_bound=True,
             custom_colors="custom_colors",
         )
-        s2_tab = Panel(child=self.plots["s2_plot"], title="Base 2")
+        s2_tab = TabPanel(child=self.plots["s2_plot"], title="Base 2")
 
         s_tabs = Tabs(name="s_tabs", tabs=[s10_tab, s2_tab], tabs_location="below")
 
diff --git a/src/tools/ci/vfc_ci_report/deterministic_compare.py b/src/tools/ci/vfc_ci_report/deterministic_compare.py
index 6dff33c..a4af409 100644
--- a/src/tools/ci/vfc_ci_report/deterministic_compare.py
+++ b/src/tools/ci/vfc_ci_report/deterministic_compare.py
@@ -216,8 +216,8 @@ class DeterministicCompare:
         self.plots["comparison_plot"] = figure(
             name="comparison_plot",
             title="Variable with deterministic backend over runs",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
diff --git a/src/tools/ci/vfc_ci_report/inspect_runs.py b/src/tools/ci/vfc_ci_report/inspect_runs.py
index 2ded290..adb0aed 100644
--- a/src/tools/ci/vfc_ci_report/inspect_runs.py
+++ b/src/tools/ci/vfc_ci_report/inspect_runs.py
@@ -34,13 +34,18 @@ from bokeh.models import (
     CheckboxGroup,
     ColumnDataSource,
     CustomJS,
-    Panel,
     RadioButtonGroup,
     Select,
     Tabs,
 )
 from bokeh.plotting import figure
 
+try:
+    from bokeh.models import TabPanel
+except ImportError:
+    # Bokeh < 3
+    from bokeh.models import Panel as TabPanel
+
 ##########################################################################
 
 
@@ -388,8 +393,8 @@ class InspectRuns:
         self.plots["mu_inspect"] = figure(
             name="mu_inspect",
             title="",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -407,8 +412,8 @@ class InspectRuns:
         self.plots["sigma_inspect"] = figure(
             name="sigma_inspect",
             title="",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -426,8 +431,8 @@ class InspectRuns:
         self.plots["s10_inspect"] = figure(
             name="s10_inspect",
             title="",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -439,13 +444,13 @@ class InspectRuns:
             tooltips=s10_boxplot_tooltips,
             tooltips_formatters=s10_boxplot_tooltips_formatters,
         )
-        s10_tab_inspect = Panel(child=self.plots["s10_inspect"], title="Base 10")
+        s10_tab_inspect = TabPanel(child=self.plots["s10_inspect"], title="Base 10")
 
         self.plots["s2_inspect"] = figure(
             name="s2_inspect",
             title="",
-            plot_width=900,
-            plot_height=400,
+            width=900,
+            height=400,
             x_range=[""],
             tools=tools,
             sizing_mode="scale_width",
@@ -457,7 +462,7 @@ class InspectRuns:
             tooltips=s2_boxplot_tooltips,
             tooltips_formatters=s2_boxplot_tooltips_formatters,
         )
-        s2_tab_inspect = Panel(child=self.plots["s2_inspect"], title="Base 2")
+        s2_tab_inspect = TabPanel(child=self.plots["s2_inspect"], title="Base 2")
 
         s_tabs_inspect = Tabs(
             name="s_tabs_inspect",
diff --git a/src/tools/ci/vfc_ci_report/plot.py b/src/tools/ci/vfc_ci_report/plot.py
index 39d7ac1..41fa1b9 100644
--- a/src/tools/ci/vfc_ci_report/plot.py
+++ b/src/tools/ci/vfc_ci_report/plot.py
@@ -61,7 +61,7 @@ def fill_dotplot(
 
     # (Optional) Tooltip and tooltip formatters
     if tooltips is not None:
-        hover = HoverTool(tooltips=tooltips, mode="vline", names=["circle"])
+        hover = HoverTool(tooltips=tooltips, mode="vline")
 
         if tooltips_formatters is not None:
             hover.formatters = tooltips_formatters
@@ -87,7 +87,7 @@ def fill_dotplot(
     # (Optional) Draw a second data series
     if second_series is not None:
         if second_legend is not None:
-            second_circle = plot.circle(
+            second_circle = plot.scatter(
                 name="second_circle",
                 x="%s_x" % data_field,
                 y=second_series,
@@ -98,7 +98,7 @@ def fill_dotplot(
                 legend_label=second_legend,
             )
         else:
-            second_circle = plot.circle(
+            second_circle = plot.scatter(
                 name="second_circle",
                 x="%s_x" % data_field,
                 y=second_series,
@@ -123,7 +123,7 @@ def fill_dotplot(
 
     # Draw dots (actually Bokeh circles)
     if legend is not None:
-        circle = plot.circle(
+        circle = plot.scatter(
             name="circle",
             x="%s_x" % data_field,
             y=data_field,
@@ -134,7 +134,7 @@ def fill_dotplot(
             legend_label=legend,
         )
     else:
-        circle = plot.circle(
+        circle = plot.scatter(
             name="circle",
             x="%s_x" % data_field,
             y=data_field,
@@ -144,6 +144,9 @@ def fill_dotplot(
             line_color=custom_colors,
         )
 
+    if tooltips is not None:
+        hover.renderers = [circle]
+
     # (Optional) Add server tap callback
     if server_tap_callback is not None:
         circle.data_source.selected.on_change("indices", server_tap_callback)
@@ -184,7 +187,7 @@ def fill_boxplot(
 
     # (Optional) Tooltip and tooltip formatters
     if tooltips is not None:
-        hover = HoverTool(tooltips=tooltips, mode="vline", names=["full_box"])
+        hover = HoverTool(tooltips=tooltips, mode="vline")
 
         if tooltips_formatters is not None:
             hover.formatters = tooltips_formatters
@@ -265,6 +268,9 @@ def fill_boxplot(
         x="%sx" % prefix, y="%smu" % prefix, size=30, source=source, color="black"
     )
 
+    if tooltips is not None:
+        hover.renderers = [full_box]
+
     # (Optional) Add server tap callback
     if server_tap_callback is not None:
         top_stem.data_source.selected.on_change("indices", server_tap_callback)
@@ -312,7 +318,6 @@ def fill_barplot(
     """
 
     vbars = []
-    vbars_names = []
 
     # Draw "single" vbar
     if single_series is not None:
@@ -321,7 +326,6 @@ def fill_barplot(
         )
 
         vbars.append(vbar)
-        vbars_names.append("vbar")
 
     # Draw "double" vbars
     if double_series is not None:
@@ -345,12 +349,10 @@ def fill_barplot(
 
         vbars.append(vbar1)
         vbars.append(vbar2)
-        vbars_names.append("vbar1")
-        vbars_names.append("vbar2")
 
     # (Optional) Tooltip and tooltip formatters
     if tooltips is not None:
-        hover = HoverTool(tooltips=tooltips, mode="vline", names=vbars_names)
+        hover = HoverTool(tooltips=tooltips, mode="vline", renderers=vbars)
 
         if tooltips_formatters is not None:
             hover.formatters = tooltips_formatters
-- 
2.43.0


From 02a019be2c58e1eedecfac83f5fdecc4d6af414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:55 +0000
Subject: [PATCH 57/82] fix: vfc_ci serve indexed series by position, which
 pandas 3 refuses

---
 src/tools/ci/vfc_ci_report/compare_runs.py          | 2 +-
 src/tools/ci/vfc_ci_report/deterministic_compare.py | 6 +++---
 src/tools/ci/vfc_ci_report/helper.py                | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/compare_runs.py b/src/tools/ci/vfc_ci_report/compare_runs.py
index b994971..54c8d95 100644
--- a/src/tools/ci/vfc_ci_report/compare_runs.py
+++ b/src/tools/ci/vfc_ci_report/compare_runs.py
@@ -126,7 +126,7 @@ class CompareRuns:
         # Generate color series for display of failed checks
         custom_colors = [True] * len(main_dict["check"])
         for i in range(len(main_dict["check"])):
-            custom_colors[i] = "#1f77b4" if main_dict["check"][i] else "#cc2b2b"
+            custom_colors[i] = "#1f77b4" if main_dict["check"].iloc[i] else "#cc2b2b"
 
         # Generate ColumnDataSources for the 3 dotplots
         for stat in ["sigma", "s10", "s2"]:
diff --git a/src/tools/ci/vfc_ci_report/deterministic_compare.py b/src/tools/ci/vfc_ci_report/deterministic_compare.py
index a4af409..a469b9b 100644
--- a/src/tools/ci/vfc_ci_report/deterministic_compare.py
+++ b/src/tools/ci/vfc_ci_report/deterministic_compare.py
@@ -83,7 +83,7 @@ class DeterministicCompare:
         # Generate color series for display of failed checks
         dict["custom_colors"] = [True] * len(dict["check"])
         for i in range(len(dict["check"])):
-            dict["custom_colors"][i] = "#1f77b4" if dict["check"][i] else "#cc2b2b"
+            dict["custom_colors"][i] = "#1f77b4" if dict["check"].iloc[i] else "#cc2b2b"
 
         # Filter outliers if the box is checked
         if len(self.widgets["outliers_filtering_deterministic"].active) > 0:
@@ -97,10 +97,10 @@ class DeterministicCompare:
         dict["ieee"] = [0] * len(dict["value"])
 
         for i in range(len(dict["value"])):
-            if dict["check"][i]:
+            if dict["check"].iloc[i]:
                 dict["ieee"][i] = nan
             else:
-                dict["ieee"][i] = dict["reference_value"][i]
+                dict["ieee"][i] = dict["reference_value"].iloc[i]
 
         self.source.data = dict
 
diff --git a/src/tools/ci/vfc_ci_report/helper.py b/src/tools/ci/vfc_ci_report/helper.py
index 6bbdc2b..436d82a 100644
--- a/src/tools/ci/vfc_ci_report/helper.py
+++ b/src/tools/ci/vfc_ci_report/helper.py
@@ -81,12 +81,12 @@ def gen_x_series(metadata, timestamps, current_n_runs):
 
     for i in range(0, n):
         # Get metadata associated to this run
-        row_metadata = get_metadata(metadata, timestamps[-i - 1])
-        date = time.ctime(timestamps[-i - 1])
+        row_metadata = get_metadata(metadata, timestamps.iloc[-i - 1])
+        date = time.ctime(timestamps.iloc[-i - 1])
 
         # Fill the x series
         str = row_metadata["name"]
-        x_series.insert(0, get_metadata(metadata, timestamps[-i - 1])["name"])
+        x_series.insert(0, get_metadata(metadata, timestamps.iloc[-i - 1])["name"])
 
         # Fill the metadata lists
         x_metadata["date"].insert(0, date)
-- 
2.43.0


From 6fe6781a11f5dd04a7e2b0a646ba566c30f44468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:51 +0000
Subject: [PATCH 58/82] fix: vfc_ci serve kept the oldest run files instead of
 the most recent ones

---
 src/tools/ci/vfc_ci_report/main.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/main.py b/src/tools/ci/vfc_ci_report/main.py
index 604dde4..df6509c 100644
--- a/src/tools/ci/vfc_ci_report/main.py
+++ b/src/tools/ci/vfc_ci_report/main.py
@@ -126,10 +126,11 @@ if ignore_recent != 0:
 # original value
 max_files = min(max_files, len(metadata))
 
-metadata = metadata.head(max_files)
+metadata = metadata.tail(max_files)
 
-# Maximal acceptable timestamp
-max_timestamp = metadata.iloc[max_files - 1].name
+# Acceptable timestamps
+min_timestamp = metadata.iloc[0].name
+max_timestamp = metadata.iloc[-1].name
 
 # Second pass for data (now that we know which files to load entirely)
 for f in run_files:
@@ -139,7 +140,7 @@ for f in run_files:
     current_metadata = pd.read_hdf(path, "metadata")
     current_timestamp = current_metadata.iloc[0].name
 
-    if current_timestamp <= max_timestamp:
+    if min_timestamp <= current_timestamp <= max_timestamp:
         data.append(pd.read_hdf(directory + "/" + f, "data"))
         deterministic_data.append(
             pd.read_hdf(directory + "/" + f, "deterministic_data")
-- 
2.43.0


From 9398d26e13f29077b99977529816b7ba5ade7541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:51 +0000
Subject: [PATCH 59/82] fix: the checks of deterministic back-ends were always
 those of the last run

---
 src/tools/ci/vfc_ci_report/checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/ci/vfc_ci_report/checks.py b/src/tools/ci/vfc_ci_report/checks.py
index 6afc261..6812ecf 100644
--- a/src/tools/ci/vfc_ci_report/checks.py
+++ b/src/tools/ci/vfc_ci_report/checks.py
@@ -73,7 +73,7 @@ class Checks:
 
         # Update run data
         self.deterministic_run_data = self.deterministic_data[
-            self.deterministic_data["timestamp"] == self.current_run
+            self.deterministic_data["timestamp"] == self.current_deterministic_run
         ]
 
         # Only keep interesting columns
-- 
2.43.0


From 8c8ca6d06f5ded180f2140cc6cea450b2f2cb93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:51 +0000
Subject: [PATCH 60/82] fix: the checks of the report failed on a click on a
 run and on some changes of repository

---
 src/tools/ci/vfc_ci_report/checks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/checks.py b/src/tools/ci/vfc_ci_report/checks.py
index 6812ecf..ba34226 100644
--- a/src/tools/ci/vfc_ci_report/checks.py
+++ b/src/tools/ci/vfc_ci_report/checks.py
@@ -301,14 +301,16 @@ class Checks:
         # If the run name happens to be the same, the callback has to be
         # triggered manually
         if runs_display[-1] == self.widgets["select_check_run_non_deterministic"].value:
-            update_non_deterministic_run("value", runs_display[-1], runs_display[-1])
+            self.update_non_deterministic_run(
+                "value", runs_display[-1], runs_display[-1]
+            )
         # In any other case, updating the value is enough to trigger the
         # callback
         else:
             self.widgets["select_check_run_non_deterministic"].value = runs_display[-1]
 
         if runs_display[-1] == self.widgets["select_check_run_deterministic"].value:
-            update_deterministic_run("value", runs_display[-1], runs_display[-1])
+            self.update_deterministic_run("value", runs_display[-1], runs_display[-1])
         else:
             self.widgets["select_check_run_deterministic"].value = runs_display[-1]
 
@@ -316,7 +318,7 @@ class Checks:
         """When received, switch selected run to run_name"""
 
         # This will trigger the widget's callback
-        self.widgets["select_check_run"].value = run_name
+        self.widgets["select_check_run_deterministic"].value = run_name
 
         # Constructor
 
-- 
2.43.0


From 5d7fb7ae6cbb2192a9979668959f801d2066d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:19 +0000
Subject: [PATCH 61/82] fix: the report mixed up or refused repositories
 sharing a branch name, and the branches of a repository

---
 src/tools/ci/vfc_ci_report/helper.py | 10 ++++++----
 src/tools/ci/vfc_ci_report/main.py   | 17 +++++++++--------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/helper.py b/src/tools/ci/vfc_ci_report/helper.py
index 436d82a..10b539b 100644
--- a/src/tools/ci/vfc_ci_report/helper.py
+++ b/src/tools/ci/vfc_ci_report/helper.py
@@ -36,22 +36,24 @@ max_zscore = 3
 
 def gen_repo_names(remote_urls, branches):
     """
-    Generate display repository names from (sorted and equally sized) lists of
-    remote URLs and branch names
+    Generate display repository names from (equally sized) lists of remote URLs
+    and branch names. Returns a dictionary mapping (URL, branch) to the name.
     """
 
     repo_names_dict = {}
 
     for i in range(0, len(remote_urls)):
+        repo = (remote_urls[i], branches[i])
+
         if remote_urls[i] == "":
-            repo_names_dict[remote_urls[i]] = "None"
+            repo_names_dict[repo] = "None"
             continue
 
         parsed_url = urlparse(remote_urls[i])
         path = parsed_url.path.split("/")
 
         repo_name = path[-2] + "/" + path[-1] + ":" + branches[i]
-        repo_names_dict[remote_urls[i]] = repo_name
+        repo_names_dict[repo] = repo_name
 
     return repo_names_dict
 
diff --git a/src/tools/ci/vfc_ci_report/main.py b/src/tools/ci/vfc_ci_report/main.py
index df6509c..4bbe58f 100644
--- a/src/tools/ci/vfc_ci_report/main.py
+++ b/src/tools/ci/vfc_ci_report/main.py
@@ -269,11 +269,12 @@ class ViewsMaster:
         # Initialize repository selection
 
         # Generate display names for repositories
-        remote_urls = self.metadata["remote_url"].drop_duplicates().to_list()
-        branches = self.metadata["branch"].drop_duplicates().to_list()
-        repo_names_dict = helper.gen_repo_names(remote_urls, branches)
-        self.metadata["repo_name"] = self.metadata["remote_url"].apply(
-            lambda x: repo_names_dict[x]
+        repos = self.metadata[["remote_url", "branch"]].drop_duplicates()
+        repo_names_dict = helper.gen_repo_names(
+            repos["remote_url"].to_list(), repos["branch"].to_list()
+        )
+        self.metadata["repo_name"] = self.metadata.apply(
+            lambda x: repo_names_dict[(x["remote_url"], x["branch"])], axis=1
         )
 
         # Add the repository selection widget
@@ -290,9 +291,9 @@ class ViewsMaster:
         change_repo_callback_js = "changeRepository(cb_obj.value);"
         select_repo.js_on_change("value", CustomJS(code=change_repo_callback_js))
 
-        # Invert key/values for repo_names_dict and pass it to the template as
-        # a JSON string
-        repo_names_dict = {value: key for key, value in repo_names_dict.items()}
+        # Pass a dict mapping repository names to URLs to the template as a JSON
+        # string
+        repo_names_dict = {value: key[0] for key, value in repo_names_dict.items()}
         curdoc().template_variables["repo_names_dict"] = json.dumps(repo_names_dict)
 
         # Pass metadata to the template as a JSON string
-- 
2.43.0


From 8a76677e602322b635c22524d4cb31782e94b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:19 +0000
Subject: [PATCH 62/82] fix: the report gave the same name to runs separated by
 a run of another kind, and lost one of them

---
 src/tools/ci/vfc_ci_report/helper.py | 41 +++++++++++-----------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/helper.py b/src/tools/ci/vfc_ci_report/helper.py
index 10b539b..44c7943 100644
--- a/src/tools/ci/vfc_ci_report/helper.py
+++ b/src/tools/ci/vfc_ci_report/helper.py
@@ -144,14 +144,7 @@ def get_run_name(timestamp, hash):
         if hash != "":
             str = str + " (%s)" % hash
 
-        if str == get_run_name.previous:
-            get_run_name.counter = get_run_name.counter + 1
-            str = "%s (%s)" % (str, get_run_name.counter)
-        else:
-            get_run_name.counter = 0
-            get_run_name.previous = str
-
-        return str
+        return unique_run_name(str)
 
     # < 1 hour
     if diff < 3600:
@@ -184,30 +177,28 @@ def get_run_name(timestamp, hash):
     if hash != "":
         str = str + " (%s)" % hash
 
-    # Finally, check for duplicate with previously generated string
-    if str == get_run_name.previous:
-        # Increment the duplicate counter and add it to str
-        get_run_name.counter = get_run_name.counter + 1
-        str = "%s (%s)" % (str, get_run_name.counter)
+    # Finally, check for duplicate with previously generated strings
+    return unique_run_name(str)
 
-    else:
-        # No duplicate, reset both previously generated str and duplicate
-        # counter
-        get_run_name.counter = 0
-        get_run_name.previous = str
 
-    return str
+def unique_run_name(str):
+    """
+    Number the strings that have already been generated (identical strings may
+    not be consecutive, since only some of the runs have a git hash)
+    """
+
+    counter = unique_run_name.counters.get(str, 0)
+    unique_run_name.counters[str] = counter + 1
+
+    return "%s (%s)" % (str, counter) if counter > 0 else str
 
 
-# These external variables will store data about the last generated string to
-# avoid duplicates (assuming the runs are sorted chronologically)
-get_run_name.counter = 0
-get_run_name.previous = ""
+# This external variable counts the generated strings to avoid duplicates
+unique_run_name.counters = {}
 
 
 def reset_run_strings():
-    get_run_name.counter = 0
-    get_run_name.previous = ""
+    unique_run_name.counters = {}
 
 
 def reset_x_range(plot, x_range):
-- 
2.43.0


From 1719b354771efd9521bd0463032674cf449216d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:19 +0000
Subject: [PATCH 63/82] fix: the filter of outliers dropped null values and
 ignored low outliers of the boxplots

---
 src/tools/ci/vfc_ci_report/helper.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/helper.py b/src/tools/ci/vfc_ci_report/helper.py
index 44c7943..946b5e2 100644
--- a/src/tools/ci/vfc_ci_report/helper.py
+++ b/src/tools/ci/vfc_ci_report/helper.py
@@ -233,7 +233,7 @@ def detect_outliers(array, max_zscore=max_zscore):
     mean = np.mean(array)
     std = np.std(array)
     if std == 0:
-        return array
+        return [True] * len(array)
     distance = abs(array - mean)
     # Array of booleans with elements to be filtered
     outliers_array = distance < max_zscore * std
@@ -246,8 +246,6 @@ def remove_outliers(array, outliers):
 
 
 def remove_boxplot_outliers(dict, outliers, prefix):
-    outliers = detect_outliers(dict["%s_max" % prefix])
-
     dict["%s_x" % prefix] = remove_outliers(dict["%s_x" % prefix], outliers)
 
     dict["%s_min" % prefix] = remove_outliers(dict["%s_min" % prefix], outliers)
-- 
2.43.0


From 4f5e6dee2221ef8de14e1ef5631154054e3cebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:02 +0000
Subject: [PATCH 64/82] fix: the filter of outliers of the report failed, or
 shifted the other columns of the plots

---
 src/tools/ci/vfc_ci_report/compare_runs.py      |  8 ++++----
 .../ci/vfc_ci_report/deterministic_compare.py   | 17 ++++++++---------
 src/tools/ci/vfc_ci_report/inspect_runs.py      | 16 +++++++++-------
 3 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/compare_runs.py b/src/tools/ci/vfc_ci_report/compare_runs.py
index 54c8d95..56153ee 100644
--- a/src/tools/ci/vfc_ci_report/compare_runs.py
+++ b/src/tools/ci/vfc_ci_report/compare_runs.py
@@ -149,10 +149,10 @@ class CompareRuns:
             # Filter outliers if the box is checked
             if len(self.widgets["outliers_filtering_compare"].active) > 0:
                 outliers = helper.detect_outliers(dict[stat])
-                dict[stat] = helper.remove_outliers(dict[stat], outliers)
-                dict["%s_x" % stat] = helper.remove_outliers(
-                    dict["%s_x" % stat], outliers
-                )
+                dict = {
+                    key: helper.remove_outliers(value, outliers)
+                    for key, value in dict.items()
+                }
 
             # Assign ColumnDataSource
             self.sources["%s_source" % stat].data = dict
diff --git a/src/tools/ci/vfc_ci_report/deterministic_compare.py b/src/tools/ci/vfc_ci_report/deterministic_compare.py
index a469b9b..a9f399e 100644
--- a/src/tools/ci/vfc_ci_report/deterministic_compare.py
+++ b/src/tools/ci/vfc_ci_report/deterministic_compare.py
@@ -88,19 +88,18 @@ class DeterministicCompare:
         # Filter outliers if the box is checked
         if len(self.widgets["outliers_filtering_deterministic"].active) > 0:
             outliers = helper.detect_outliers(dict["value"])
-            dict["value"] = helper.remove_outliers(dict["value"], outliers)
-            dict["value_x"] = helper.remove_outliers(dict["%value_x"], outliers)
+            dict = {
+                key: helper.remove_outliers(value, outliers)
+                for key, value in dict.items()
+            }
 
         # Series to display IEEE results. This is different than reference_value,
         # because the latter has to be 0 when no reference run has been done
         # (because the value will be shown in the tooltip)
-        dict["ieee"] = [0] * len(dict["value"])
-
-        for i in range(len(dict["value"])):
-            if dict["check"].iloc[i]:
-                dict["ieee"][i] = nan
-            else:
-                dict["ieee"][i] = dict["reference_value"].iloc[i]
+        dict["ieee"] = [
+            nan if check else reference_value
+            for check, reference_value in zip(dict["check"], dict["reference_value"])
+        ]
 
         self.source.data = dict
 
diff --git a/src/tools/ci/vfc_ci_report/inspect_runs.py b/src/tools/ci/vfc_ci_report/inspect_runs.py
index adb0aed..b64500b 100644
--- a/src/tools/ci/vfc_ci_report/inspect_runs.py
+++ b/src/tools/ci/vfc_ci_report/inspect_runs.py
@@ -212,15 +212,17 @@ class InspectRuns:
             "nsamples": groups["nsamples"],
         }
 
-        self.sources["mu_source"].data = dict
-
         # Filter outliers if the box is checked
         if len(self.widgets["outliers_filtering_inspect"].active) > 0:
-            mu_outliers = helper.detect_outliers(groups["mu"])
-            groups["mu"] = helper.remove_outliers(groups["mu"], mu_outliers)
-            groups["mu_x"] = helper.remove_outliers(groups["mu_x"], mu_outliers)
+            mu_outliers = helper.detect_outliers(dict["mu"])
+            dict = {
+                key: helper.remove_outliers(value, mu_outliers)
+                for key, value in dict.items()
+            }
+
+        self.sources["mu_source"].data = dict
 
-            # Update plots axis/titles
+        # Update plots axis/titles
 
         # Get display string of the last (unselected) factor
         factors_dict = self.factors_dict.copy()
@@ -253,7 +255,7 @@ class InspectRuns:
             % (filterby_display, groupby_display, for_all)
         )
 
-        helper.reset_x_range(self.plots["mu_inspect"], groups["mu_x"])
+        helper.reset_x_range(self.plots["mu_inspect"], dict["mu_x"])
         helper.reset_x_range(self.plots["sigma_inspect"], groups["sigma_x"])
         helper.reset_x_range(self.plots["s10_inspect"], groups["s10_x"])
         helper.reset_x_range(self.plots["s2_inspect"], groups["s2_x"])
-- 
2.43.0


From 31b506dc5c5dc50faf0a4299d1874d3a1a71769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:44 +0000
Subject: [PATCH 65/82] fix: the report failed on repositories or runs with
 only deterministic or only non-deterministic results

---
 src/tools/ci/vfc_ci_report/compare_runs.py | 15 ++++++++++
 src/tools/ci/vfc_ci_report/inspect_runs.py | 33 +++++++++-------------
 src/tools/ci/vfc_ci_report/main.py         | 16 +++--------
 3 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/compare_runs.py b/src/tools/ci/vfc_ci_report/compare_runs.py
index 56153ee..d63c8a7 100644
--- a/src/tools/ci/vfc_ci_report/compare_runs.py
+++ b/src/tools/ci/vfc_ci_report/compare_runs.py
@@ -214,6 +214,9 @@ class CompareRuns:
             self.widgets["select_test"].value = new
             return
 
+        if self.data.empty:
+            return
+
         # New list of available vars
         self.vars = (
             self.data.loc[new]
@@ -247,6 +250,9 @@ class CompareRuns:
             self.widgets["select_var"].value = new
             return
 
+        if self.data.empty:
+            return
+
         # New list of available backends
         self.backends = (
             self.data.loc[
@@ -603,6 +609,15 @@ class CompareRuns:
         self.data = new_data
         self.metadata = new_metadata
 
+        # No result from non-deterministic backends in this repo
+        if self.data.empty:
+            for widget in ["select_test", "select_var", "select_backend"]:
+                self.widgets[widget].options = ["None"]
+                self.widgets[widget].value = "None"
+
+            self.update_plots()
+            return
+
         # Update widgets(and automatically trigger plot updates)
         self.tests = self.data.index.get_level_values("test").drop_duplicates().tolist()
 
diff --git a/src/tools/ci/vfc_ci_report/inspect_runs.py b/src/tools/ci/vfc_ci_report/inspect_runs.py
index b64500b..e4e3b13 100644
--- a/src/tools/ci/vfc_ci_report/inspect_runs.py
+++ b/src/tools/ci/vfc_ci_report/inspect_runs.py
@@ -262,6 +262,14 @@ class InspectRuns:
 
         # Widets' callback functions
 
+    def filter_options(self, filterby):
+        """Options of the filter selector for the current run"""
+
+        if self.run_data.empty:
+            return ["None"]
+
+        return self.run_data.index.get_level_values(filterby).drop_duplicates().tolist()
+
     # Run selector callback
 
     def update_run(self, attrname, old, new):
@@ -280,9 +288,7 @@ class InspectRuns:
         old_value = self.widgets["select_filter"].value
 
         # Update filter options
-        options = (
-            self.run_data.index.get_level_values(filterby).drop_duplicates().tolist()
-        )
+        options = self.filter_options(filterby)
         self.widgets["select_filter"].options = options
 
         if old_value not in self.widgets["select_filter"].options:
@@ -311,9 +317,7 @@ class InspectRuns:
         old_value = self.widgets["select_filter"].value
 
         # Update filter options
-        options = (
-            self.run_data.index.get_level_values(filterby).drop_duplicates().tolist()
-        )
+        options = self.filter_options(filterby)
         self.widgets["select_filter"].options = options
 
         if old_value not in self.widgets["select_filter"].options:
@@ -337,9 +341,7 @@ class InspectRuns:
         old_value = self.widgets["select_filter"].value
 
         # Update filter selector options
-        options = (
-            self.run_data.index.get_level_values(filterby).drop_duplicates().tolist()
-        )
+        options = self.filter_options(filterby)
         self.widgets["select_filter"].options = options
 
         if old_value not in self.widgets["select_filter"].options:
@@ -555,14 +557,7 @@ class InspectRuns:
         ]
         filterby = self.factors_dict[filterby]
 
-        if not self.run_data.empty:
-            options = (
-                self.run_data.index.get_level_values(filterby)
-                .drop_duplicates()
-                .tolist()
-            )
-        else:
-            options = ["None"]
+        options = self.filter_options(filterby)
 
         self.widgets["select_filter"] = Select(
             # We need a different name to avoid collision in the template with
@@ -612,9 +607,7 @@ class InspectRuns:
         filterby = self.factors_dict[filterby]
 
         self.run_data = self.data[self.data["timestamp"] == self.current_run]
-        options = (
-            self.run_data.index.get_level_values(filterby).drop_duplicates().tolist()
-        )
+        options = self.filter_options(filterby)
 
         # Update widget (and trigger its callback)
         self.widgets["select_filter"].options = options
diff --git a/src/tools/ci/vfc_ci_report/main.py b/src/tools/ci/vfc_ci_report/main.py
index 4bbe58f..e769ebf 100644
--- a/src/tools/ci/vfc_ci_report/main.py
+++ b/src/tools/ci/vfc_ci_report/main.py
@@ -156,7 +156,7 @@ if data.empty:
         columns=[
             "test",
             "variable",
-            "backend",
+            "vfc_backend",
             "sigma",
             "s10",
             "s2",
@@ -171,14 +171,14 @@ if data.empty:
             "check_mode",
             "timestamp",
         ]
-    )
+    ).set_index(["test", "variable", "vfc_backend"])
 
 if deterministic_data.empty:
     deterministic_data = pd.DataFrame(
         columns=[
             "test",
             "variable",
-            "backend",
+            "vfc_backend",
             "value",
             "accuracy_threshold",
             "reference_value",
@@ -186,7 +186,7 @@ if deterministic_data.empty:
             "check_mode",
             "timestamp",
         ]
-    )
+    ).set_index(["test", "variable", "vfc_backend"])
 
 # Generate the display strings for runs (runs ticks)
 # By doing this in master, we ensure the homogeneity of display strings
@@ -233,14 +233,6 @@ class ViewsMaster:
             ]
         else:
             filtered_deterministic_data = deterministic_data
-            # In some cases, index columns might be missing, so we add them just
-            # in case (here, the dataframe is empty anyway)
-            filtered_deterministic_data = filtered_deterministic_data.assign(
-                test="", variable="", backend=""
-            )
-            filtered_deterministic_data.set_index(
-                ["test", "variable", "backend"], inplace=True
-            )
 
         self.compare.change_repo(filtered_data, filtered_metadata)
         self.deterministic.change_repo(filtered_deterministic_data, filtered_metadata)
-- 
2.43.0


From 9a5c7687e5b82b0d82f7e69657c461a1847a6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:20 +0000
Subject: [PATCH 66/82] fix: changing the repository of the report kept the
 variables and back-ends of the former one

---
 src/tools/ci/vfc_ci_report/compare_runs.py        |  8 +++-----
 .../ci/vfc_ci_report/deterministic_compare.py     | 15 +++++++++++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/tools/ci/vfc_ci_report/compare_runs.py b/src/tools/ci/vfc_ci_report/compare_runs.py
index d63c8a7..26aec7f 100644
--- a/src/tools/ci/vfc_ci_report/compare_runs.py
+++ b/src/tools/ci/vfc_ci_report/compare_runs.py
@@ -638,11 +638,9 @@ class CompareRuns:
         self.widgets["select_test"].options = self.tests
         self.widgets["select_test"].value = self.tests[0]
 
-        # If changing repo doesn't affect the selection, trigger the callback
-        # manually
-        old = self.widgets["select_backend"].value
-        if self.widgets["select_backend"].value == old:
-            self.update_plots()
+        # If changing repo doesn't affect the selected test, its callback (that
+        # updates variables, backends and plots) has to be triggered manually
+        self.update_test("", "", self.tests[0])
 
         # Constructor
 
diff --git a/src/tools/ci/vfc_ci_report/deterministic_compare.py b/src/tools/ci/vfc_ci_report/deterministic_compare.py
index a9f399e..c15fc41 100644
--- a/src/tools/ci/vfc_ci_report/deterministic_compare.py
+++ b/src/tools/ci/vfc_ci_report/deterministic_compare.py
@@ -153,6 +153,10 @@ class DeterministicCompare:
             self.update_var("", "", self.widgets["select_deterministic_var"].value)
 
     def update_var(self, attrname, old, new):
+        # No variable to select when there is no data to show
+        if self.data.empty:
+            return
+
         # If the value is updated by the CustomJS,
         # self.widgets["select_deterministic_var"].value won't be updated, so we
         # have to look for that case and assign it manually.
@@ -437,13 +441,16 @@ class DeterministicCompare:
         self.widgets["select_deterministic_test"].options = self.tests
         if len(self.tests) != 0:
             self.widgets["select_deterministic_test"].value = self.tests[0]
+
+            # If changing repo doesn't affect the selected test, its callback (that
+            # updates variables, backends and plots) has to be triggered manually
+            self.update_test("", "", self.tests[0])
         else:
             self.widgets["select_deterministic_test"].value = ""
+            for widget in ["select_deterministic_var", "select_deterministic_backend"]:
+                self.widgets[widget].options = []
+                self.widgets[widget].value = ""
 
-        # If changing repo doesn't affect the selection, trigger the callback
-        # manually
-        old = self.widgets["select_deterministic_backend"].value
-        if self.widgets["select_deterministic_backend"].value == old:
             self.update_plots()
 
     # Constructor
-- 
2.43.0


From f97bd2e4080afa5dbaa83824dd89c752c8b52f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:32 +0000
Subject: [PATCH 67/82] fix: vfc_ci serve let the shell interpret its arguments
 and broke the URL of the logo

---
 src/tools/ci/serve.py | 46 +++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/tools/ci/serve.py b/src/tools/ci/serve.py
index e6cbae9..7c52182 100644
--- a/src/tools/ci/serve.py
+++ b/src/tools/ci/serve.py
@@ -22,18 +22,12 @@
 # calling Bokeh directly.
 
 import os
+import subprocess
 
 
 def run(directory, show, port, allow_origin, logo_url, max_files, ignore_recent):
     """Entry point of vfc_ci serve"""
 
-    # Prepare arguments
-    directory = "directory %s" % directory
-    show = "--show" if show else ""
-    logo = "logo %s" % logo_url if logo_url else ""
-    max_files = "max_files %s" % max_files if max_files else ""
-    ignore_recent = "ignore_recent %s" % ignore_recent if ignore_recent else ""
-
     dirname = os.path.dirname(__file__)
 
     # Call the "bokeh serve" command on the system
@@ -43,20 +37,24 @@ def run(directory, show, port, allow_origin, logo_url, max_files, ignore_recent)
     # generating the Jinja template, etc... => This is an option for a future
     # commit.
 
-    command = (
-        "bokeh serve %s/vfc_ci_report %s --allow-websocket-origin=%s:%s --port %s --args %s %s %s %s"
-        % (
-            dirname,
-            show,
-            allow_origin,
-            port,
-            port,
-            directory,
-            logo,
-            max_files,
-            ignore_recent,
-        )
-    )
-    command = os.path.normpath(command)
-
-    os.system(command)
+    command = ["bokeh", "serve", os.path.join(dirname, "vfc_ci_report")]
+
+    if show:
+        command += ["--show"]
+
+    command += ["--allow-websocket-origin=%s:%s" % (allow_origin, port)]
+    command += ["--port", str(port)]
+
+    # Arguments of the report
+    command += ["--args", "directory", directory]
+
+    if logo_url:
+        command += ["logo", logo_url]
+
+    if max_files:
+        command += ["max_files", str(max_files)]
+
+    if ignore_recent:
+        command += ["ignore_recent", str(ignore_recent)]
+
+    subprocess.run(command)
-- 
2.43.0


From 4b7a590b5a1bebd87bd1a0465f6ae209de6205f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:50 +0000
Subject: [PATCH 68/82] fix: verificarlo failed on names with spaces and on
 quotes in its arguments

---
 verificarlo.in.in | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index c9be680..0fed9ba 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -23,6 +23,7 @@ from __future__ import print_function
 
 import argparse
 import os
+import shlex
 import subprocess
 import sys
 import tempfile
@@ -125,7 +126,7 @@ def is_llvm_bitcode(name):
 
 def shell_escape(argument):
     # prevents argument expansion in shell call
-    return "'" + argument + "'"
+    return shlex.quote(argument)
 
 
 def parse_extra_args(args):
@@ -150,7 +151,7 @@ def parse_extra_args(args):
         elif is_llvm_bitcode(a):
             sources.append(a)
         elif a.startswith("-l"):
-            libraries.append(a)
+            libraries.append(shell_escape(a))
         else:
             options.append(shell_escape(a))
 
@@ -180,7 +181,7 @@ def compile_vfcwrapper(source, output, args, emit_llvm=False):
     ) + f" -c -Wno-varargs -I {mcalib_includes} "
     cmd = (
         f"{clang} -O3 {march_flag} -g {internal_options} {extra_args} "
-        f"{source} -I{libinterflop_stdlib_include} -o {output} "
+        f"{source} -I{libinterflop_stdlib_include} -o {shell_escape(output)} "
     )
     shell(cmd, verbose=args.show_cmd)
 
@@ -203,8 +204,9 @@ def linker_mode(sources, options, libraries, output, args):
             ".vfcwrapper.", ".o", args, force_delete=True
         ).name
         compile_vfcwrapper(vfcwrapper, vfcwrapper_o, args)
+        vfcwrapper_o = shell_escape(vfcwrapper_o)
 
-    sources = " ".join([os.path.splitext(s)[0] + ".o" for s in sources])
+    sources = " ".join([shell_escape(os.path.splitext(s)[0] + ".o") for s in sources])
     interflop_libs = " ".join(
         ["-linterflop_stdlib", "-linterflop_hashmap", "-linterflop_logger"]
     )
@@ -235,7 +237,7 @@ def linker_mode(sources, options, libraries, output, args):
 # Do not instrument
 def compile_only(sources, options, output, args):
     compiler = linkers[args.linker]
-    sources = " ".join(sources)
+    sources = " ".join([shell_escape(s) for s in sources])
     shell(f"{compiler} {sources} {options} {output}", verbose=args.show_cmd)
 
 
@@ -278,7 +280,7 @@ def apply_function_instrumentation_pass(ir, ins, args):
     emit_format = get_emit_format(args)
     pass_args = get_opt_pass_args("vfclibfunc", libvfcfuncinstrument)
     shell(
-        f"{opt} {emit_format} {pass_args} {ir.name} -o {ins.name}",
+        f"{opt} {emit_format} {pass_args} {shell_escape(ir.name)} -o {shell_escape(ins.name)}",
         verbose=args.show_cmd,
     )
 
@@ -306,7 +308,7 @@ def apply_mca_instrumentation_pass(
                     extra_args += f" -vfclibinst-debug-{debug} "
     else:
         libvfcinst = libvfcinstrument
-        extra_args += f" -vfclibinst-vfcwrapper-file {vfcwrapper_ir.name} "
+        extra_args += f" -vfclibinst-vfcwrapper-file {shell_escape(vfcwrapper_ir.name)} "
 
     emit_format = get_emit_format(args)
     pass_args = get_opt_pass_args("vfclibinst", libvfcinst)
@@ -314,7 +316,7 @@ def apply_mca_instrumentation_pass(
         (
             f"{opt} {emit_format} {pass_args} "
             f"{extra_args} {selectfunction} "
-            f" {ir.name} -o {ins.name}"
+            f" {shell_escape(ir.name)} -o {shell_escape(ins.name)}"
         ),
         verbose=args.show_cmd,
     )
@@ -342,7 +344,7 @@ def compiler_mode(sources, options, output, args):
 
         if is_assembly(source):
             if not output:
-                basename_output = "-o " + basename + ".o"
+                basename_output = "-o " + shell_escape(basename + ".o")
             else:
                 basename_output = output
             compile_only([source], " -c " + options, basename_output, args)
@@ -351,18 +353,22 @@ def compiler_mode(sources, options, output, args):
         # Compile to ir (fortran uses flang, c uses clang)
         emit_format = get_emit_format(args)
         shell(
-            f"{compiler} -c {emit_format} -emit-llvm {debug} {source} {include} {COMPILE_EXTRA_FLAGS} {options} -o {ir.name}",
+            f"{compiler} -c {emit_format} -emit-llvm {debug} {shell_escape(source)} {include} {COMPILE_EXTRA_FLAGS} {options} -o {shell_escape(ir.name)}",
             verbose=args.show_cmd,
         )
 
         selectfunction = ""
         if args.function:
-            selectfunction = " -vfclibinst-function " + args.function
+            selectfunction = " -vfclibinst-function " + shell_escape(args.function)
         else:
             if args.include_file:
-                selectfunction = " -vfclibinst-include-file " + args.include_file
+                selectfunction = " -vfclibinst-include-file " + shell_escape(
+                    args.include_file
+                )
             if args.exclude_file:
-                selectfunction += " -vfclibinst-exclude-file " + args.exclude_file
+                selectfunction += " -vfclibinst-exclude-file " + shell_escape(
+                    args.exclude_file
+                )
 
         if args.inst_func:
             # Apply function's instrumentation pass
@@ -393,19 +399,19 @@ def compiler_mode(sources, options, output, args):
             ir, ins, vfcwrapper_ir, extra_args, selectfunction, args
         )
 
-        cmd_output = output if output else " -o " + basename + ".o"
+        cmd_output = output if output else " -o " + shell_escape(basename + ".o")
 
         if not args.emit_llvm:
             # Produce object file
             shell(
-                f"{compiler} -c {cmd_output} {ins.name} {options}",
+                f"{compiler} -c {cmd_output} {shell_escape(ins.name)} {options}",
                 verbose=args.show_cmd,
             )
         else:
             # Produce a bc file with the wrapper bc linked in.
-            vfcwrapper_ir_name = vfcwrapper_ir.name if vfcwrapper_ir else ""
+            vfcwrapper_ir_name = shell_escape(vfcwrapper_ir.name) if vfcwrapper_ir else ""
             shell(
-                f"{llvm_link} {ins.name} {vfcwrapper_ir_name} {cmd_output}",
+                f"{llvm_link} {shell_escape(ins.name)} {vfcwrapper_ir_name} {cmd_output}",
                 verbose=args.show_cmd,
             )
 
@@ -512,7 +518,7 @@ def main():
     if args.function and (args.include_file or args.exclude_file):
         fail("Cannot use --function and --include-file/--exclude-file together")
 
-    output = "-o " + args.o if args.o else ""
+    output = "-o " + shell_escape(args.o) if args.o else ""
 
     # flang does not accept this clang-only diagnostic flag (LLVM 21+).
     if args.linker != "flang":
-- 
2.43.0


From 257f23b51079a3046912462dab9efb59959ee02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:34 +0000
Subject: [PATCH 69/82] fix: verificarlo took the arguments of options for
 sources when they end like one

---
 verificarlo.in.in | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 0fed9ba..1d66b4d 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -27,6 +27,7 @@ import shlex
 import subprocess
 import sys
 import tempfile
+from itertools import islice
 
 PACKAGE_STRING = "@PACKAGE_STRING@"
 LIBDIR = "%LIBDIR%"
@@ -54,6 +55,12 @@ CXX_EXTENSIONS = [".cc", ".cp", ".cpp", ".cxx", "c++"]
 ASSEMBLY_EXTENSIONS = [".s"]
 LLVM_BITCODE_EXTENSIONS = [".bc", ".ll"]
 COMPILE_EXTRA_FLAGS = ""
+# Options of the compiler whose argument can be the next one on the command line
+OPTIONS_WITH_ARGUMENT = """
+    -D -F -I -L -T -U -Xanalyzer -Xassembler -Xclang -Xlinker -Xpreprocessor -arch
+    -framework -idirafter -imacros -include -iprefix -iquote -isysroot -isystem
+    -iwithprefix -mllvm -rpath -target -u -x -z -MF -MQ -MT
+""".split()
 linkers = {"clang": clang, "flang": flang, "clang++": clangxx}
 default_linker = "clang"
 temp_files_set = set()
@@ -134,8 +141,17 @@ def parse_extra_args(args):
     options = []
     libraries = []
 
+    args = iter(args)
     for a in args:
-        if is_fortran(a):
+        if a == "-l":
+            libraries.append(shell_escape(a + next(args, "")))
+        elif a in OPTIONS_WITH_ARGUMENT:
+            options.append(" ".join(shell_escape(b) for b in [a] + list(islice(args, 1))))
+        elif a.startswith("-l"):
+            libraries.append(shell_escape(a))
+        elif a.startswith("-"):
+            options.append(shell_escape(a))
+        elif is_fortran(a):
             if not flang:
                 fail(
                     "fortran not supported. "
@@ -150,8 +166,6 @@ def parse_extra_args(args):
             sources.append(a)
         elif is_llvm_bitcode(a):
             sources.append(a)
-        elif a.startswith("-l"):
-            libraries.append(shell_escape(a))
         else:
             options.append(shell_escape(a))
 
-- 
2.43.0


From 23336a56adcb8d5d8365fd78cf129775ae935ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:34 +0000
Subject: [PATCH 70/82] fix: verificarlo did not know the sources named .c++

---
 verificarlo.in.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 1d66b4d..9ea117c 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -51,7 +51,7 @@ flang = "@FLANG_PATH@"
 opt = llvm_bindir + "/opt"
 FORTRAN_EXTENSIONS = [".f", ".f90", ".f77"]
 C_EXTENSIONS = [".c"]
-CXX_EXTENSIONS = [".cc", ".cp", ".cpp", ".cxx", "c++"]
+CXX_EXTENSIONS = [".cc", ".cp", ".cpp", ".cxx", ".c++"]
 ASSEMBLY_EXTENSIONS = [".s"]
 LLVM_BITCODE_EXTENSIONS = [".bc", ".ll"]
 COMPILE_EXTRA_FLAGS = ""
-- 
2.43.0


From f7ef9bcc41dd26eda8d2ab6c7d08ad8fb88dc427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:45 +0000
Subject: [PATCH 71/82] fix: verificarlo mishandled an output file name
 attached to -o

---
 verificarlo.in.in | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 9ea117c..217ad70 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -96,6 +96,16 @@ class NoPrefixParser(argparse.ArgumentParser):
     def _get_option_tuples(self, option_string):
         return []
 
+    # accept an output file name attached to -o
+    def parse_known_args(self, args=None, namespace=None):
+        expanded = []
+        for a in sys.argv[1:] if args is None else args:
+            if a.startswith("-o") and len(a) > 2 and not a.startswith("-obj"):
+                expanded += ["-o", a[2:]]
+            else:
+                expanded.append(a)
+        return super().parse_known_args(expanded, namespace)
+
 
 def close_tmp_files():
     for tmp in temp_files_set:
-- 
2.43.0


From 7637e5cbfe1564bc6c3e29343a49a4788c8e5300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:33 +0000
Subject: [PATCH 72/82] fix: verificarlo -c wrote the object file next to the
 source instead of the current directory

---
 verificarlo.in.in | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 217ad70..9559c5b 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -358,6 +358,10 @@ def compiler_mode(sources, options, output, args):
 
     for source in sources:
         basename = os.path.splitext(source)[0]
+        # as a compiler, -c writes the object file in the current directory; to
+        # link, it stays next to the source
+        object_file = os.path.basename(basename) if args.c else basename
+        object_file += ".o"
         ir = get_tmp_filename(basename, f".1.{ir_ext}", args)
         ins = get_tmp_filename(basename, f".2.{ir_ext}", args)
 
@@ -368,7 +372,7 @@ def compiler_mode(sources, options, output, args):
 
         if is_assembly(source):
             if not output:
-                basename_output = "-o " + shell_escape(basename + ".o")
+                basename_output = "-o " + shell_escape(object_file)
             else:
                 basename_output = output
             compile_only([source], " -c " + options, basename_output, args)
@@ -423,7 +427,7 @@ def compiler_mode(sources, options, output, args):
             ir, ins, vfcwrapper_ir, extra_args, selectfunction, args
         )
 
-        cmd_output = output if output else " -o " + shell_escape(basename + ".o")
+        cmd_output = output if output else " -o " + shell_escape(object_file)
 
         if not args.emit_llvm:
             # Produce object file
-- 
2.43.0


From da47ee697c730729e37547cb93fdc627fe048567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:33 +0000
Subject: [PATCH 73/82] fix: the dependency files of verificarlo -MD had the
 names of temporary files

---
 verificarlo.in.in | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index 9559c5b..c389270 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -299,6 +299,19 @@ def get_emit_format(args):
     return " -S " if args.save_temps else ""
 
 
+# The dependency options (-MD, -MMD) would name temporary files when they do not
+# name the dependency file and its target
+def get_dependency_options(options, object_file):
+    options = shlex.split(options)
+    extra = ""
+    if "-MD" in options or "-MMD" in options:
+        if not any(o.startswith("-MF") for o in options):
+            extra += " -MF " + shell_escape(os.path.splitext(object_file)[0] + ".d")
+        if not any(o.startswith(("-MT", "-MQ")) for o in options):
+            extra += " -MQ " + shell_escape(object_file)
+    return extra
+
+
 # Apply function's instrumentation pass
 def apply_function_instrumentation_pass(ir, ins, args):
     emit_format = get_emit_format(args)
@@ -378,10 +391,14 @@ def compiler_mode(sources, options, output, args):
             compile_only([source], " -c " + options, basename_output, args)
             continue
 
+        dependencies = get_dependency_options(
+            options, args.o if output else object_file
+        )
+
         # Compile to ir (fortran uses flang, c uses clang)
         emit_format = get_emit_format(args)
         shell(
-            f"{compiler} -c {emit_format} -emit-llvm {debug} {shell_escape(source)} {include} {COMPILE_EXTRA_FLAGS} {options} -o {shell_escape(ir.name)}",
+            f"{compiler} -c {emit_format} -emit-llvm {debug} {shell_escape(source)} {include} {COMPILE_EXTRA_FLAGS} {options}{dependencies} -o {shell_escape(ir.name)}",
             verbose=args.show_cmd,
         )
 
-- 
2.43.0


From 58a1c0f21e2d4980dd08d88d19e53ee843629f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:39 +0000
Subject: [PATCH 74/82] fix: verificarlo failed with the options -M, -MM and
 -fsyntax-only

---
 verificarlo.in.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verificarlo.in.in b/verificarlo.in.in
index c389270..66a454a 100644
--- a/verificarlo.in.in
+++ b/verificarlo.in.in
@@ -61,6 +61,8 @@ OPTIONS_WITH_ARGUMENT = """
     -framework -idirafter -imacros -include -iprefix -iquote -isysroot -isystem
     -iwithprefix -mllvm -rpath -target -u -x -z -MF -MQ -MT
 """.split()
+# Options of the compiler that generate no code
+NO_CODE_OPTIONS = {"-M", "-MM", "-fsyntax-only"}
 linkers = {"clang": clang, "flang": flang, "clang++": clangxx}
 default_linker = "clang"
 temp_files_set = set()
@@ -575,6 +577,8 @@ def main():
     elif args.S:
         llvm_options += " -S "
         compile_only(sources, llvm_options, output, args)
+    elif not NO_CODE_OPTIONS.isdisjoint(shlex.split(llvm_options)):
+        compile_only(sources, llvm_options, output, args)
     elif args.c or args.emit_llvm:
         if len(sources) == 0:
             fail("no input files")
-- 
2.43.0


From 2876a3c7fb4aff0e031ddbae6e7c06099752b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:47 +0000
Subject: [PATCH 75/82] fix: push_seed did not replace the seed of the
 back-ends

---
 .../interflop-backend-bitmask/interflop_bitmask.c         | 2 +-
 .../interflop_cancellation.c                              | 2 +-
 src/backends/interflop-backend-mcaint/interflop_mca_int.c | 2 +-
 src/backends/interflop-backend-mcaquad/interflop_mca.c    | 2 +-
 src/interflop-stdlib/rng/vfc_rng.c                        | 8 ++++++++
 src/interflop-stdlib/rng/vfc_rng.h                        | 6 ++++++
 6 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/backends/interflop-backend-bitmask/interflop_bitmask.c b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
index a6e6521..8f77e35 100644
--- a/src/backends/interflop-backend-bitmask/interflop_bitmask.c
+++ b/src/backends/interflop-backend-bitmask/interflop_bitmask.c
@@ -200,7 +200,7 @@ static TLS rng_state_t __rng_state;
 /* current rng state and replace it by the new seed */
 void bitmask_push_seed(uint64_t seed) {
   __rng_state = rng_state;
-  _init_rng_state_struct(&rng_state, true, seed, false);
+  _reset_rng_state_struct(&rng_state, seed);
 }
 
 /* Function used by Verrou to restore the copied rng state */
diff --git a/src/backends/interflop-backend-cancellation/interflop_cancellation.c b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
index 40b40e3..d4f3cc8 100644
--- a/src/backends/interflop-backend-cancellation/interflop_cancellation.c
+++ b/src/backends/interflop-backend-cancellation/interflop_cancellation.c
@@ -103,7 +103,7 @@ static TLS rng_state_t __rng_state;
 /* current rng state and replace it by the new seed */
 void cancellation_push_seed(uint64_t seed) {
   __rng_state = rng_state;
-  _init_rng_state_struct(&rng_state, true, seed, false);
+  _reset_rng_state_struct(&rng_state, seed);
 }
 
 /* Function used by Verrou to restore the copied rng state */
diff --git a/src/backends/interflop-backend-mcaint/interflop_mca_int.c b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
index d69bdca..195e1da 100644
--- a/src/backends/interflop-backend-mcaint/interflop_mca_int.c
+++ b/src/backends/interflop-backend-mcaint/interflop_mca_int.c
@@ -215,7 +215,7 @@ static TLS rng_state_t __rng_state;
 /* current rng state and replace it by the new seed */
 void mcaint_push_seed(uint64_t seed) {
   __rng_state = rng_state;
-  _init_rng_state_struct(&rng_state, true, seed, false);
+  _reset_rng_state_struct(&rng_state, seed);
 }
 
 /* Function used by Verrou to restore the copied rng state */
diff --git a/src/backends/interflop-backend-mcaquad/interflop_mca.c b/src/backends/interflop-backend-mcaquad/interflop_mca.c
index 28b7090..5557a85 100644
--- a/src/backends/interflop-backend-mcaquad/interflop_mca.c
+++ b/src/backends/interflop-backend-mcaquad/interflop_mca.c
@@ -248,7 +248,7 @@ static TLS rng_state_t __rng_state;
 /* current rng state and replace it by the new seed */
 void mcaquad_push_seed(uint64_t seed) {
   __rng_state = rng_state;
-  _init_rng_state_struct(&rng_state, true, seed, false);
+  _reset_rng_state_struct(&rng_state, seed);
 }
 
 /* Function used by Verrou to restore the copied rng state */
diff --git a/src/interflop-stdlib/rng/vfc_rng.c b/src/interflop-stdlib/rng/vfc_rng.c
index c414a45..c18c78e 100644
--- a/src/interflop-stdlib/rng/vfc_rng.c
+++ b/src/interflop-stdlib/rng/vfc_rng.c
@@ -73,6 +73,14 @@ void _init_rng_state_struct(rng_state_t *rng_state, bool choose_seed,
   }
 }
 
+/* Replaces the state of the RNG by the one given by the seed, */
+/* whether it has been initialized or not */
+void _reset_rng_state_struct(rng_state_t *rng_state, uint64_t seed) {
+  rng_state->choose_seed = true;
+  _set_seed(rng_state, true, seed);
+  rng_state->random_state_valid = true;
+}
+
 /* Returns a 32-bit unsigned integer r (0 <= r < 2^32) */
 uint32_t get_rand_uint32(rng_state_t *rng_state, pid_t *global_tid) {
   _INIT_RANDOM_STATE(rng_state, global_tid);
diff --git a/src/interflop-stdlib/rng/vfc_rng.h b/src/interflop-stdlib/rng/vfc_rng.h
index 55b9906..01409c7 100644
--- a/src/interflop-stdlib/rng/vfc_rng.h
+++ b/src/interflop-stdlib/rng/vfc_rng.h
@@ -48,6 +48,12 @@ pid_t _get_new_tid(pid_t *global_tid);
 void _init_rng_state_struct(rng_state_t *rng_state, bool choose_seed,
                             uint64_t seed, bool random_state_valid);
 
+/* Replaces the state of the RNG by the one given by the seed, */
+/* whether it has been initialized or not */
+/* @param rng_state pointer to the structure holding all the RNG-related data */
+/* @param seed the seed for the RNG */
+void _reset_rng_state_struct(rng_state_t *rng_state, uint64_t seed);
+
 /* Returns a 64-bit unsigned integer r (0 <= r < 2^64) */
 /* Manages the internal state of the RNG, if necessary */
 /* @param rng_state pointer to the structure holding all the RNG-related data */
-- 
2.43.0


From 15bc44c73fe48354ffb88349e45db4a7a179c751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:41 +0000
Subject: [PATCH 76/82] fix: vfc_report failed with an UnboundLocalError and
 wrote no report

---
 src/tools/optimize/report.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/optimize/report.py b/src/tools/optimize/report.py
index 8661bd4..a2d6fba 100644
--- a/src/tools/optimize/report.py
+++ b/src/tools/optimize/report.py
@@ -708,12 +708,12 @@ def main():
 
     FunctionCallsStr += "\n"
 
-    ReportString = ReportString.replace("\t\t<!-- Function Calls -->", FunctionCallsStr)
-    ReportString = ReportString.replace("\t\t\t/* Chart script */", CallChartString)
+    Report = ReportString.replace("\t\t<!-- Function Calls -->", FunctionCallsStr)
+    Report = Report.replace("\t\t\t/* Chart script */", CallChartString)
 
     ReportFile = open(Report_File, "w")
 
-    ReportString = ReportFile.write(ReportString)
+    ReportFile.write(Report)
 
     ReportFile.close()
 
-- 
2.43.0


From 71e7e9f29cb5450faf703e09137b34e5e606d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:41 +0000
Subject: [PATCH 77/82] fix: vfc_report ignored the list of functions of its
 command line

---
 src/tools/optimize/report.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tools/optimize/report.py b/src/tools/optimize/report.py
index a2d6fba..be147f1 100644
--- a/src/tools/optimize/report.py
+++ b/src/tools/optimize/report.py
@@ -212,18 +212,17 @@ def GetFunctionInfo(FunctionID):
 
 
 def FilterFunctions(Dataset, FunctionList):
-    for i in range(len(Dataset.index)):
+    to_drop = []
+    for i in Dataset.index:
         CallNb, Fline, Fparent, Fname, Ffile = GetFunctionInfo(Dataset.at[i, "ID"])
         if (
             len(FunctionList) != 0
             and (not Fname in FunctionList)
             and (not Fparent in FunctionList)
         ):
-            Dataset.drop(Dataset.index[i])
+            to_drop.append(i)
 
-    Dataset.reset_index(drop=True)
-
-    return Dataset
+    return Dataset.drop(to_drop).reset_index(drop=True)
 
 
 def AddMainChart(CallChartString, DataMain):
-- 
2.43.0


From 7b0a13042cc5efb749b8b97a42c92192ce94285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:41 +0000
Subject: [PATCH 78/82] fix: vfc_report labelled pointers to float as pointers
 to double

---
 src/tools/optimize/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/optimize/report.py b/src/tools/optimize/report.py
index be147f1..0aee9bf 100644
--- a/src/tools/optimize/report.py
+++ b/src/tools/optimize/report.py
@@ -320,7 +320,7 @@ def PlotArgs(Data, ImgID, Title):
             xtick.append(Data.at[i, "IO"] + " Float " + Data.at[i, "ArgID"])
         elif Data.at[i, "Type"] == 1:
             xtick.append(Data.at[i, "IO"] + " Double " + Data.at[i, "ArgID"])
-        elif Data.at[i, "Type"] == 2:
+        elif Data.at[i, "Type"] == 3:
             xtick.append(Data.at[i, "IO"] + " Float ptr " + Data.at[i, "ArgID"])
         else:
             xtick.append(Data.at[i, "IO"] + " Double ptr " + Data.at[i, "ArgID"])
-- 
2.43.0


From 7c7b6bfbcf871636de878c880b4d8d3707752d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:41 +0000
Subject: [PATCH 79/82] fix: the 'Operations Only' figures of vfc_report showed
 the other exploration

---
 src/tools/optimize/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/optimize/report.py b/src/tools/optimize/report.py
index 0aee9bf..fbb93c2 100644
--- a/src/tools/optimize/report.py
+++ b/src/tools/optimize/report.py
@@ -683,7 +683,7 @@ def main():
 
             if not (DataOps.at[k, "Int"] or DataOps.at[k, "Lib"]):
                 PlotOps(
-                    tmp_ops.iloc[j],
+                    DataOps.loc[k],
                     OpsChartID,
                     "Operations percision for "
                     + Fname.upper()
-- 
2.43.0


From 091eed88b939fc056fdeb02b17dc123911b91e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:41 +0000
Subject: [PATCH 80/82] fix: vfc_report mixed up the call sites of files of the
 same name

---
 src/tools/optimize/report.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/tools/optimize/report.py b/src/tools/optimize/report.py
index fbb93c2..e30e55b 100644
--- a/src/tools/optimize/report.py
+++ b/src/tools/optimize/report.py
@@ -557,12 +557,11 @@ def main():
         for j in tmp_ops.index:
             CallNb, Fline, Fparent, Fname, Ffile = GetFunctionInfo(tmp_ops.at[j, "ID"])
 
+            k = DataOps[DataOps["ID"] == tmp_ops.at[j, "ID"]].index[0]
+
+            # k, unlike CallNb, tells apart the files of the same name
             ChartID = (
-                Ffile.replace(".", "_")
-                + "_"
-                + Fname.replace(".", "_")
-                + "_"
-                + str(CallNb)
+                Ffile.replace(".", "_") + "_" + Fname.replace(".", "_") + "_" + str(k)
             )
             RangeData = ""
             ExponentData = ""
@@ -594,8 +593,6 @@ def main():
                 + '_Precisions" class="PrecNavBar, Precisions">\n'
             )
 
-            k = DataOps[DataOps["ID"] == tmp_ops.at[j, "ID"]].index[0]
-
             # Arguments and Operations
             tmp_args = DataAllArgs.copy()
             tmp_args = tmp_args[tmp_args["ID"] == tmp_ops.at[j, "ID"]]
-- 
2.43.0


From 963cc6d4fdb1811799ffe35de927e849c9808d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:41 +0000
Subject: [PATCH 81/82] fix: vfc_report failed on arguments called nan, null,
 None, ...

---
 src/tools/optimize/report.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/optimize/report.py b/src/tools/optimize/report.py
index e30e55b..a4d1859 100644
--- a/src/tools/optimize/report.py
+++ b/src/tools/optimize/report.py
@@ -471,7 +471,7 @@ def main():
         print("{} not found".format(Arguments))
         exit(0)
     else:
-        DataArgs = pd.read_csv(Arguments)
+        DataArgs = pd.read_csv(Arguments, dtype={"ArgID": str}, keep_default_na=False)
 
     if not os.path.exists(Operations):
         print("{} not found".format(Operations))
@@ -483,7 +483,9 @@ def main():
         print("{} not found".format(ArgumentsAll))
         exit(0)
     else:
-        DataAllArgs = pd.read_csv(ArgumentsAll)
+        DataAllArgs = pd.read_csv(
+            ArgumentsAll, dtype={"ArgID": str}, keep_default_na=False
+        )
 
     if not os.path.exists(OperationsAll):
         print("{} not found".format(OperationsAll))
-- 
2.43.0


From d0dea8891e13112c96af1db11d9288fbcd909f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:59 +0000
Subject: [PATCH 82/82] fix: the VPREC log file has one line per value, with
 the format used

For pointer arguments the beginning of the line of the first element was
written without its end before the elements, twice for each output element, and
the formats of a site met for the first time were (0, 0).
---
 ...interflop_vprec_function_instrumentation.c | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
index 1b9e4d4..ae64a19 100644
--- a/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
+++ b/src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c
@@ -643,13 +643,14 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
     void *raw_value = va_arg(ap, void *);
 
     _vfi_argument_data_t *arg = &function_inst->input_args[i];
-    const int exponent_length = arg->exponent_length;
-    const int mantissa_length = arg->mantissa_length;
 
     if (new_flag) {
       _init_function_inst_arg(arg, arg_id, type);
     }
 
+    const int exponent_length = arg->exponent_length;
+    const int mantissa_length = arg->mantissa_length;
+
     if (type == FDOUBLE) {
       double *value = (double *)raw_value;
       _vfi_print_log_enter(value, function_inst, arg_id, 0, type, ctx);
@@ -670,8 +671,10 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
 
     } else if (type == FDOUBLE_PTR) {
       double *value = (double *)raw_value;
-      _vfi_print_log_enter(value, function_inst, arg_id, 0, type, ctx);
       if (value == NULL) {
+        _vfi_print_log_enter(value, function_inst, arg_id, 0, type, ctx);
+        _vfi_print_log(ctx, "NULL\t(%d, %d)\n", mantissa_length,
+                       exponent_length);
         continue;
       }
 
@@ -688,8 +691,10 @@ void _vfi_enter_function(interflop_function_stack_t *stack, void *context,
       }
     } else if (type == FFLOAT_PTR) {
       float *value = (float *)raw_value;
-      _vfi_print_log_enter(value, function_inst, arg_id, 0, type, ctx);
       if (value == NULL) {
+        _vfi_print_log_enter(value, function_inst, arg_id, 0, type, ctx);
+        _vfi_print_log(ctx, "NULL\t(%d, %d)\n", mantissa_length,
+                       exponent_length);
         continue;
       }
 
@@ -784,14 +789,15 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
     void *raw_value = va_arg(ap, void *);
 
     _vfi_argument_data_t *arg = &function_inst->output_args[i];
-    const int exponent_length = arg->exponent_length;
-    const int mantissa_length = arg->mantissa_length;
 
     if (new_flag) {
       // initialize arguments data
       _init_function_inst_arg(arg, arg_id, type);
     }
 
+    const int exponent_length = arg->exponent_length;
+    const int mantissa_length = arg->mantissa_length;
+
     if (type == FDOUBLE) {
       double *value = (double *)raw_value;
       _vfi_print_log_exit(value, function_inst, arg_id, 0, type, ctx);
@@ -812,13 +818,14 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
                      exponent_length);
     } else if (type == FDOUBLE_PTR) {
       double *value = (double *)raw_value;
-      _vfi_print_log_exit(value, function_inst, arg_id, 0, type, ctx);
       if (value == NULL) {
+        _vfi_print_log_exit(value, function_inst, arg_id, 0, type, ctx);
+        _vfi_print_log(ctx, "NULL\t(%d,%d)\n", mantissa_length,
+                       exponent_length);
         continue;
       }
 
       for (unsigned int j = 0; j < size; j++, value++) {
-        _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
         if (value == NULL) {
           continue;
         }
@@ -834,13 +841,14 @@ void _vfi_exit_function(interflop_function_stack_t *stack, void *context,
 
     } else if (type == FFLOAT_PTR) {
       float *value = (float *)raw_value;
-      _vfi_print_log_exit(value, function_inst, arg_id, 0, type, ctx);
       if (value == NULL) {
+        _vfi_print_log_exit(value, function_inst, arg_id, 0, type, ctx);
+        _vfi_print_log(ctx, "NULL\t(%d,%d)\n", mantissa_length,
+                       exponent_length);
         continue;
       }
 
       for (unsigned int j = 0; j < size; j++, value++) {
-        _vfi_print_log_exit(value, function_inst, arg_id, j, type, ctx);
         if (value == NULL) {
           continue;
         }
-- 
2.43.0

