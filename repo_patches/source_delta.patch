From 7d4d8508b413643382f0d6863471c1023d87a1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 01/35] verification hook: iteration callback (guarded by
 ECOS_VERIF_HOOKS)

---
 include/ecos.h | 6 ++++++
 src/ecos.c     | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/include/ecos.h b/include/ecos.h
index 8c0385c..7e89df3 100644
--- a/include/ecos.h
+++ b/include/ecos.h
@@ -255,6 +255,12 @@ typedef struct pwork{
 #define SAFEDIV_POS(X,Y)  ( (Y) < EPS ? ((X)/EPS) : (X)/(Y) )
 
 
+#ifdef ECOS_VERIF_HOOKS
+/* Called at the start of every interior-point iteration, once residuals and
+ * statistics are up to date; provided by the verification harness. */
+extern void ecos_verif_iterate(pwork* w);
+#endif
+
 /* METHODS */
 
 /* set up work space
diff --git a/src/ecos.c b/src/ecos.c
index e5e321d..62d8e47 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1129,6 +1129,11 @@ idxint ECOS_solve(pwork* w)
 		/* Update statistics */
 		updateStatistics(w);
 
+#ifdef ECOS_VERIF_HOOKS
+		/* verification only: observe the current iterate */
+		ecos_verif_iterate(w);
+#endif
+
 #if PRINTLEVEL > 1
 		/* Print info */
 		if( w->stgs->verbose ) printProgress(w->info);
-- 
2.43.0


From 3c4d731ac039bb05b061e95132d1d74da122c657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 02/35] fix: transpose of an empty matrix left its column
 pointers uninitialised

---
 src/splamm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/splamm.c b/src/splamm.c
index a3308ee..66b4b24 100644
--- a/src/splamm.c
+++ b/src/splamm.c
@@ -68,7 +68,11 @@ spmat* transposeSparseMatrix(spmat* M, idxint* MtoMt)
 	idxint* w;
   
   spmat* A = newSparseMatrix(M->n, M->m, M->nnz);
-  if (M->nnz == 0) return A;
+  if (M->nnz == 0) {
+    /* no entries: all columns of the transpose are empty */
+    for( i=0; i <= M->m; i++ ) { A->jc[i] = 0; }
+    return A;
+  }
   
 	w = (idxint *)MALLOC(M->m*sizeof(idxint));
 
-- 
2.43.0


From 95c2ec0e581011e67380aede61a9f44ca8542af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 03/35] fix: infeasibility residuals of a vanishing certificate
 were not relative to it

With max(norm,1) as the normaliser, a ray or multiplier that shrinks to zero
satisfies the residual test although it certifies nothing, and problems with a
robust infeasibility certificate were reported unbounded (and vice versa).
---
 src/ecos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 62d8e47..3d2cac9 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -530,8 +530,8 @@ void updateStatistics(pwork* w)
      * info->pinfres = w->hz + w->by < 0 ? w->hresx / w->resx0 / (-w->hz - w->by) : NAN;
      * info->dinfres = w->cx < 0 ? MAX(w->hresy/w->resy0, w->hresz/w->resz0) / (-w->cx) : NAN;
      */
-    info->pinfres = (w->hz + w->by)/MAX(w->ny+w->nz,1) < -w->stgs->reltol ? w->hresx / MAX(w->ny+w->nz,1) : ECOS_NAN;
-    info->dinfres = w->cx/MAX(w->nx,1) < -w->stgs->reltol ? MAX(w->hresy/MAX(w->nx,1), w->hresz/MAX(w->nx+w->ns,1)) : ECOS_NAN;
+    info->pinfres = (w->hz + w->by) < -w->stgs->reltol*(w->ny+w->nz) ? w->hresx / (w->ny+w->nz) : ECOS_NAN;
+    info->dinfres = w->cx < -w->stgs->reltol*w->nx ? MAX(w->hresy/w->nx, w->hresz/(w->nx+w->ns)) : ECOS_NAN;
 
 
 
-- 
2.43.0


From c12035dd82130d807040545d7920e14932f56c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 04/35] fix: problems with exponential cones were given up on
 at the border of the neighbourhood

Once an iterate was at the border of the neighbourhood of the central path, the
tiny centering parameter kept pointing the combined direction out of it and the
step length went to zero (about 30% of small well-posed problems mixing an
exponential with a larger second-order cone ended in NUMERICS).
---
 include/ecos.h | 2 ++
 src/ecos.c     | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/include/ecos.h b/include/ecos.h
index 7e89df3..c5f3b2c 100644
--- a/include/ecos.h
+++ b/include/ecos.h
@@ -60,6 +60,8 @@ extern "C" {
 #define LINSYSACC  (1E-14)       /* rel. accuracy of search direction    */
 #define SIGMAMIN   (1E-4)        /* always do some centering             */
 #define SIGMAMAX   (1.0)         /* never fully center                   */
+#define STEP_RECENTER  (0.1)     /* exp. cones: recenter after a step shorter than this */
+#define SIGMA_RECENTER (0.9)     /* exp. cones: centering parameter used to recenter    */
 #define STEPMIN    (1E-6)        /* smallest step that we do take        */
 #define STEPMAX    (0.999)  /* largest step allowed, also in affine dir. */
 #define SAFEGUARD  (500)         /* Maximum increase in PRES before
diff --git a/src/ecos.c b/src/ecos.c
index 3d2cac9..33661e1 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1471,6 +1471,11 @@ idxint ECOS_solve(pwork* w)
         sigma = sigma*sigma*sigma;
         if( sigma > SIGMAMAX ) sigma = SIGMAMAX;
         if( sigma < SIGMAMIN ) sigma = SIGMAMIN;
+#ifdef EXPCONE
+        /* If the last step was cut short at the border of the neighbourhood of
+         * the central path, recenter instead of aiming for the border again */
+        if( w->C->nexc > 0 && w->info->iter > 0 && w->info->step < STEP_RECENTER ) sigma = SIGMA_RECENTER;
+#endif
         w->info->sigma = sigma;
 
 
-- 
2.43.0


From 6e3bd92beb4dfb1089b9623400aa80ca3ffde05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 05/35] fix: stopping at the first iterate compared with and
 restored a best iterate that was never saved

With maxit=0, an interrupt or a NaN at iteration 0, best_x and best_info are
uninitialised memory (or left over from the previous solve).
---
 src/ecos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 33661e1..4cc1b04 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1210,7 +1210,7 @@ idxint ECOS_solve(pwork* w)
                 const char *what = interrupted ? "SIGINT intercepted" : "Maximum number of iterations reached";
 #endif
                 /* Determine whether current iterate is better than what we had so far */
-                if( compareStatistics( w->info, w->best_info) ){
+                if( w->info->iter == 0 || compareStatistics( w->info, w->best_info) ){
 #if PRINTLEVEL > 0
                     if( w->stgs->verbose )
                         PRINTTEXT("%s, stopping.\n",what);
@@ -1243,7 +1243,7 @@ idxint ECOS_solve(pwork* w)
                 const char *what = "Reached NAN dead end";
 #endif
                 /* Determine whether current iterate is better than what we had so far */
-                if( compareStatistics( w->info, w->best_info) ){
+                if( w->info->iter == 0 || compareStatistics( w->info, w->best_info) ){
 #if PRINTLEVEL > 0
                     if( w->stgs->verbose )
                         PRINTTEXT("%s, stopping.\n",what);
-- 
2.43.0


From 85af08bc55a4575ad6e80714a9233a58d54d455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 06/35] fix: OUTCONE and FATAL exits left the cost vector
 scaled, the point unscaled and SIGINT blocked

They returned from the middle of the solve, skipping backscale() (which also
restores the user's c) and remove_ctrlc().
---
 src/ecos.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 4cc1b04..8f3dcba 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1114,6 +1114,12 @@ idxint ECOS_solve(pwork* w)
 	if( initcode == ECOS_FATAL ){
 #if PRINTLEVEL > 0
         if( w->stgs->verbose ) PRINTTEXT("\nFatal error during initialization, aborting.");
+#endif
+#if defined EQUILIBRATE && EQUILIBRATE > 0
+        for(i = 0; i <w->n; i++) { w->c[i] *= w->xequil[i]; }
+#endif
+#if CTRLC > 0
+        remove_ctrlc();
 #endif
         return ECOS_FATAL;
     }
@@ -1309,11 +1315,9 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
                 if( w->stgs->verbose ) PRINTTEXT("\nNUMERICAL PROBLEMS (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
 #endif
-                return ECOS_OUTCONE;
-
-            } else {
-                break;
+                exitcode = ECOS_OUTCONE;
             }
+            break;
         }
 
 		/* Update KKT matrix with scalings */
@@ -1344,7 +1348,8 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
 	    if( w->stgs->verbose ) PRINTTEXT("\nProblem in factoring KKT system, aborting.");
 #endif
-	        return ECOS_FATAL;
+	        exitcode = ECOS_FATAL;
+	        break;
 	    }
 
 		/* Solve for RHS1, which is used later also in combined direction */
-- 
2.43.0


From 213f158c40e0a1469d0f1ea7499067fb6b8d2c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 07/35] fix: line search looked at the wrong cone after
 skipping a degenerate one

---
 src/ecos.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecos.c b/src/ecos.c
index 8f3dcba..49dff39 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -997,8 +997,10 @@ pfloat lineSearch(pfloat* lambda, pfloat* ds, pfloat* dz, pfloat tau, pfloat dta
 
 		/* normalize */
 		lknorm2 = lk[0]*lk[0] - eddot(conesize-1, lk+1, lk+1);
-		if (lknorm2 <= 0.0)
+		if (lknorm2 <= 0.0) {
+			cone_start += conesize;
 			continue;
+		}
 
 		lknorm = sqrt( lknorm2 );
 		for( j=0; j < conesize; j++ ){ lkbar[j] = lk[j] / lknorm; }
-- 
2.43.0


From cb1154049782665ebdeb0f8f012cf3000d3ebc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 08/35] fix: updating data without equalities crashed, and
 reusing one array left the others equilibrated

The overlap test dereferenced the absent A, required all five arrays to move
before it restored any of the old ones, and took adjacent arrays for overlapping.
---
 include/equil.h |  6 ++++++
 src/ecos.c      | 11 ++---------
 src/equil.c     | 31 +++++++++++++++++++++++++++++++
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/include/equil.h b/include/equil.h
index d758f8b..ceff77d 100644
--- a/include/equil.h
+++ b/include/equil.h
@@ -45,6 +45,12 @@ void set_equilibration(pwork *w);
  */
 void unset_equilibration(pwork *w);
 
+/**
+ * unset_equilibration_of_replaced: undoes the equilibration of those arrays
+ * which the given new ones do not overlap with in memory.
+ */
+void unset_equilibration_of_replaced(pwork *w, const pfloat *Gpr, const pfloat *Apr, const pfloat *h, const pfloat *b);
+
 
 #endif
 #endif
diff --git a/src/ecos.c b/src/ecos.c
index 49dff39..a52f14c 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1671,15 +1671,8 @@ void ECOS_updateData(pwork *w, pfloat *Gpr, pfloat *Apr,
 #if defined EQUILIBRATE && EQUILIBRATE > 0
     /* Only unequilibrate the old data if the new data is in a different location in memory. */
     /* This is required for backward compatibility since existing code might need this step. */
-    if (
-        ((Gpr + w->G->nnz < w->G->pr) || (w->G->pr + w->G->nnz < Gpr)) &&
-        ((Apr + w->A->nnz < w->A->pr) || (w->A->pr + w->A->nnz < Apr)) &&
-        ((c + w->n < w->c) || (w->c + w->n < c)) &&
-        ((h + w->m < w->h) || (w->h + w->m < h)) &&
-        ((b + w->p < w->b) || (w->b + w->p < b))
-    ){
-    unset_equilibration(w);
-    }
+    /* Each array is treated on its own, so any of them can be reused. */
+    unset_equilibration_of_replaced(w, Gpr, Apr, h, b);
 #endif
 
     /* update pointers */
diff --git a/src/equil.c b/src/equil.c
index 975014d..6bbab06 100644
--- a/src/equil.c
+++ b/src/equil.c
@@ -393,4 +393,35 @@ void unset_equilibration(pwork *w)
     }
 }
 
+/* the arrays x and y of n elements have no element in common */
+static int disjoint(const pfloat *x, const pfloat *y, idxint n)
+{
+    return (x + n <= y) || (y + n <= x);
+}
+
+void unset_equilibration_of_replaced(pwork *w, const pfloat *Gpr, const pfloat *Apr, const pfloat *h, const pfloat *b)
+{
+    idxint i;
+    idxint num_G_rows = w->G->m;
+
+    if(w->A) {
+        if(disjoint(Apr, w->A->pr, w->A->nnz))
+            restore(w->Aequil, w->xequil, w->A);
+        if(disjoint(b, w->b, w->A->m)) {
+            for(i = 0; i < w->A->m; i++) {
+                w->b[i] *= w->Aequil[i];
+            }
+        }
+    }
+    if(num_G_rows > 0) {
+        if(disjoint(Gpr, w->G->pr, w->G->nnz))
+            restore(w->Gequil, w->xequil, w->G);
+        if(disjoint(h, w->h, num_G_rows)) {
+            for(i = 0; i < num_G_rows; i++) {
+                w->h[i] *= w->Gequil[i];
+            }
+        }
+    }
+}
+
 #endif
-- 
2.43.0


From 84076eb5bd5590d77da8ddacf3bca9da7525e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 09/35] fix: setup leaked the workspace when it rejected
 mismatched cone dimensions

---
 src/preproc.c | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/preproc.c b/src/preproc.c
index b0e57aa..82277cc 100644
--- a/src/preproc.c
+++ b/src/preproc.c
@@ -612,6 +612,28 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 #endif
     PRINTTEXT("\n");
 
+#endif
+
+    cidx = 0;
+    for( i=0; i<ncones; i++ ){ cidx += q[i]; }
+
+    /* The number of conic variables has to equal l+sum(q)+3*nexp else terminate*/
+#ifdef EXPCONE
+    if(cidx+l+3*nexc!=m)
+    {
+#if PRINTLEVEL > 2
+        PRINTTEXT("Number of conic variables does not match l+sum(q)+3*nexc\n");
+#endif
+        return NULL;
+    }
+#else
+    if(cidx+l!=m)
+    {
+#if PRINTLEVEL > 2
+        PRINTTEXT("Number of conic variables does not match l+sum(q)\n");
+#endif
+        return NULL;
+    }
 #endif
 
 	/* get work data structure */
@@ -715,25 +737,6 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 #endif
 #endif
 
-    /* The number of conic variables has to equal l+sum(q)+3*nexp else terminate*/
-#ifdef EXPCONE
-    if(cidx+l+3*nexc!=m)
-    {
-#if PRINTLEVEL > 2
-        PRINTTEXT("Number of conic variables does not match l+sum(q)+3*nexc\n");
-#endif
-        return NULL;
-    }
-#else
-    if(cidx+l!=m)
-    {
-#if PRINTLEVEL > 2
-        PRINTTEXT("Number of conic variables does not match l+sum(q)\n");
-#endif
-        return NULL;
-    }
-#endif
-
 	/* info struct */
     mywork->info = (stats *)MALLOC(sizeof(stats));
 #if PROFILING > 1
-- 
2.43.0


From 3e3fe9a7065f875ad6c5c3018d251b8e9445b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 10/35] fix: setup crashed when G is omitted although there are
 conic constraints

---
 src/equil.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/equil.c b/src/equil.c
index 6bbab06..1c46913 100644
--- a/src/equil.c
+++ b/src/equil.c
@@ -135,7 +135,7 @@ void use_alternating_norm_equilibration(pwork *w)
     if(w->A)
         sum_sq_rows(w->Aequil, w->A);
     /* compute norm across rows of G */
-    if(num_G_rows > 0)
+    if(w->G->nnz > 0)
         sum_sq_rows(w->Gequil, w->G);
 
     /* now collapse cones together by taking average norm square */
@@ -175,12 +175,12 @@ void use_alternating_norm_equilibration(pwork *w)
     /* now scale A */
     if(w->A)
         equilibrate_rows(w->Aequil, w->A);
-    if(num_G_rows > 0)
+    if(w->G->nnz > 0)
         equilibrate_rows(w->Gequil, w->G);
 
     if(w->A)
         sum_sq_cols(w->xequil, w->A);
-    if(num_G_rows > 0)
+    if(w->G->nnz > 0)
         sum_sq_cols(w->xequil, w->G);
 
     /* get the norm */
@@ -189,7 +189,7 @@ void use_alternating_norm_equilibration(pwork *w)
     }
     if(w->A)
         equilibrate_cols(w->xequil, w->A);
-    if(num_G_rows > 0)
+    if(w->G->nnz > 0)
         equilibrate_cols(w->xequil, w->G);
 
     /* the c vector is scaled in the ECOS_solve function
@@ -247,7 +247,7 @@ void use_ruiz_equilibration(pwork *w)
         /* compute norm across columns of A, G */
         if(w->A)
             max_cols(xtmp, w->A);
-        if(num_G_rows > 0)
+        if(w->G->nnz > 0)
             max_cols(xtmp, w->G);
 
         /* compute norm across rows of A */
@@ -255,7 +255,7 @@ void use_ruiz_equilibration(pwork *w)
             max_rows(Atmp, w->A);
 
         /* compute norm across rows of G */
-        if(num_G_rows > 0)
+        if(w->G->nnz > 0)
             max_rows(Gtmp, w->G);
 
         /* now collapse cones together by using total over the group */
@@ -300,12 +300,12 @@ void use_ruiz_equilibration(pwork *w)
         /* equilibrate the matrices */
         if(w->A)
             equilibrate_rows(Atmp, w->A);
-        if(num_G_rows > 0)
+        if(w->G->nnz > 0)
             equilibrate_rows(Gtmp, w->G);
 
         if(w->A)
             equilibrate_cols(xtmp, w->A);
-        if(num_G_rows > 0)
+        if(w->G->nnz > 0)
             equilibrate_cols(xtmp, w->G);
 
         /* update the equilibration matrix */
@@ -375,7 +375,7 @@ void unset_equilibration(pwork *w)
 
     if(w->A)
         restore(w->Aequil, w->xequil, w->A);
-    if(num_G_rows > 0)
+    if(w->G->nnz > 0)
         restore(w->Gequil, w->xequil, w->G);
 
     /* the c vector is unequilibrated in the ECOS_solve function
@@ -414,7 +414,7 @@ void unset_equilibration_of_replaced(pwork *w, const pfloat *Gpr, const pfloat *
         }
     }
     if(num_G_rows > 0) {
-        if(disjoint(Gpr, w->G->pr, w->G->nnz))
+        if(w->G->nnz > 0 && disjoint(Gpr, w->G->pr, w->G->nnz))
             restore(w->Gequil, w->xequil, w->G);
         if(disjoint(h, w->h, num_G_rows)) {
             for(i = 0; i < num_G_rows; i++) {
-- 
2.43.0


From d8b4c786ca13e3eacc871cf3cee7e9d69e7bc951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 11/35] fix: a failed ordering leaked the workspace and left
 the user's data equilibrated

---
 src/preproc.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/preproc.c b/src/preproc.c
index 82277cc..3a6b4ac 100644
--- a/src/preproc.c
+++ b/src/preproc.c
@@ -461,7 +461,7 @@ void ECOS_cleanup(pwork* w, idxint keepvars)
 	FREE(w->KKT->dz1);              /* mywork->KKT->dz1 = (pfloat *)MALLOC(mywork->m*sizeof(pfloat)); */
 	FREE(w->KKT->dz2);              /* mywork->KKT->dz2 = (pfloat *)MALLOC(mywork->m*sizeof(pfloat)); */
 	FREE(w->KKT->Flag);             /* mywork->KKT->Flag = (idxint *)MALLOC(nK*sizeof(idxint));       */
-	freeSparseMatrix(w->KKT->L);
+	if (w->KKT->L) freeSparseMatrix(w->KKT->L);
 	FREE(w->KKT->Lnz);              /* mywork->KKT->Lnz = (idxint *)MALLOC(nK*sizeof(idxint));        */
 	FREE(w->KKT->Parent);           /* mywork->KKT->Parent = (idxint *)MALLOC(nK*sizeof(idxint));     */
 	FREE(w->KKT->Pattern);          /* mywork->KKT->Pattern = (idxint *)MALLOC(nK*sizeof(idxint));    */
@@ -941,6 +941,23 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 		PRINTTEXT("Problem in AMD ordering, exiting.\n");
         AMD_info(Info);
 #endif
+        /* give back everything, and the data in its original scaling */
+        mywork->KKT->P = P;
+        mywork->KKT->L = NULL;
+        mywork->rx = NULL;
+        mywork->ry = NULL;
+        mywork->rz = NULL;
+        FREE(Sign);
+        if(At) {
+            freeSparseMatrix(At);
+            FREE(AtoAt);
+            FREE(AttoK);
+        }
+        freeSparseMatrix(Gt);
+        freeSparseMatrix(KU);
+        FREE(GtoGt);
+        FREE(GttoK);
+        ECOS_cleanup(mywork, 0);
         return NULL;
 	}
 
-- 
2.43.0


From 00a52f0e289b73eccc1955edaf0315ad9ab721c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 12/35] fix: mixed-integer bounds went to the wrong variables
 unless declared in index order, booleans first

---
 ecos_bb/ecos_bb_preproc.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index f052e6f..8873467 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -43,19 +43,23 @@
 #define CALLOC calloc
 #endif
 
-static int contains(idxint idx, idxint num_int, idxint *bool_vars_idx)
+/* Returns the position of variable idx in vars_idx, or -1 if it is not there */
+static idxint find_var(idxint idx, idxint num_vars, idxint *vars_idx)
 {
     idxint i;
-    idxint ans = 0;
-    for (i = 0; i < num_int; ++i)
+    for (i = 0; i < num_vars; ++i)
     {
-        ans += (bool_vars_idx[i] == idx);
+        if (vars_idx[i] == idx)
+        {
+            return i;
+        }
     }
-    return (int)ans;
+    return -1;
 }
 
 /* Augments the G and b arrays to take lb and ub constraints
- * for all of the variables marked integer
+ * for all of the variables marked integer. The bounds come in the order of
+ * bool_vars_idx followed by int_vars_idx, which is where set_prob looks for them.
  * USES MALLOC
  */
 static void socp_to_ecos_bb(
@@ -74,10 +78,9 @@ static void socp_to_ecos_bb(
         Gjc_out[i] = Gjc_in[i];
     }
 
-    j = 0;
     for (i = 0; i < n; ++i)
     {
-        if (contains(i, num_bool_vars, bool_vars_idx))
+        if ((j = find_var(i, num_bool_vars, bool_vars_idx)) >= 0)
         {
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
@@ -103,11 +106,11 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
-        else if (contains(i, num_int_vars, int_vars_idx))
+        else if ((j = find_var(i, num_int_vars, int_vars_idx)) >= 0)
         {
+            j += num_bool_vars;
+
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
 
@@ -132,8 +135,6 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
         else
         {
-- 
2.43.0


From c8232d81de1d8e74455e6a67819e73ce2d03cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 13/35] fix: mixed-integer update of h ignored the bound rows
 of the integer variables

---
 ecos_bb/ecos_bb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 1a76213..a845e3b 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1184,7 +1184,7 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
 void updateDataEntry_h(ecos_bb_pwork *w, idxint idx, pfloat value)
 {
-    ecos_updateDataEntry_h(w->ecos_prob, idx + (2 * w->num_bool_vars), value);
+    ecos_updateDataEntry_h(w->ecos_prob, idx + 2 * (w->num_bool_vars + w->num_int_vars), value);
 }
 
 void updateDataEntry_c(ecos_bb_pwork *w, idxint idx, pfloat value)
-- 
2.43.0


From fd422863b81479a3344fd52eb8b03d6a47bbaa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 14/35] fix: a feasible point found by rounding at the root was
 forgotten

---
 ecos_bb/ecos_bb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index a845e3b..0403a7a 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1142,8 +1142,8 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
     /*print_node(prob, curr_node_idx);*/
     get_bounds(curr_node_idx, prob);
 
+    /* get_bounds already stored the value of the incumbent, if any, in global_U */
     prob->global_L = prob->nodes[curr_node_idx].L;
-    prob->global_U = prob->nodes[curr_node_idx].U;
 
     while (should_continue(prob, curr_node_idx))
     {
-- 
2.43.0


From ab3df23dab7953b97dc73e9fe512bf07d6a9a029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 15/35] fix: reliability branching looked at the solution of
 another subproblem and kept stale branching variables

---
 ecos_bb/ecos_bb.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 0403a7a..2723c44 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -683,6 +683,9 @@ static void get_branch_var_pseudocost_branching(ecos_bb_pwork *problem, idxint *
     pfloat high_score = -ECOS_INFINITY;
     pfloat up_psi, down_psi;
     idxint var_idx;
+
+    *split_idx = -1;
+
     idxint *random_idx = get_shuffled_array(problem->num_bool_vars + problem->num_int_vars);
     idxint rand_i;
     for (rand_i = 0; rand_i < problem->num_bool_vars + problem->num_int_vars; ++rand_i)
@@ -752,7 +755,12 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
 
     idxint ecos_result;
     pfloat q;
-    pfloat *x_values = NULL;
+
+    /* strong branching overwrites the relaxed solution of the node */
+    pfloat *x_values = MALLOC(sizeof(pfloat) * problem->ecos_prob->n);
+    memcpy(x_values, problem->ecos_prob->x, sizeof(pfloat) * problem->ecos_prob->n);
+
+    *split_idx = -1;
 
     idxint *random_idx = get_shuffled_array(problem->num_bool_vars + problem->num_int_vars);
     idxint rand_i;
@@ -769,7 +777,7 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
             var_idx = problem->int_vars_idx[(i - problem->num_bool_vars)];
         }
 
-        const pfloat y = problem->ecos_prob->x[var_idx];
+        const pfloat y = x_values[var_idx];
         if (float_eqls(y, pfloat_floor(y, problem->stgs->integer_tol), problem->stgs->integer_tol) ||
             float_eqls(y, pfloat_ceil(y, problem->stgs->integer_tol), problem->stgs->integer_tol))
         {
@@ -793,8 +801,6 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
                 strong_initialized = 1;
 
                 calc_tmp_branching_problem(problem, &q, &ecos_result);
-                x_values = MALLOC(sizeof(pfloat) * problem->ecos_prob->n);
-                memcpy(x_values, problem->ecos_prob->x, sizeof(pfloat) * problem->ecos_prob->n);
             }
 
             var_idx = i;
@@ -992,6 +998,11 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
                 get_branch_var_random(prob, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val));
             default:;
             }
+            if (prob->nodes[node_idx].split_idx < 0)
+            {
+                /* no candidate had a usable score */
+                get_branch_var_most_infeasible(prob, &(prob->nodes[node_idx].split_idx), &(prob->nodes[node_idx].split_val));
+            }
 
             prob->nodes[node_idx].status = MI_SOLVED_BRANCHABLE;
 
-- 
2.43.0


From d6c450d58b6a39786192a78f1d0957ab83f3cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 16/35] fix: mixed-integer problems with an unbounded
 relaxation were reported infeasible

---
 ecos_bb/ecos_bb.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 2723c44..6209dd4 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -328,9 +328,7 @@ static void set_prob(ecos_bb_pwork *prob, char *bool_node_id, pfloat *int_node_i
 
 static char is_infeasible(idxint ecos_result)
 {
-    if (ecos_result == ECOS_DINF ||
-        ecos_result == ECOS_PINF ||
-        ecos_result == ECOS_DINF + ECOS_INACC_OFFSET ||
+    if (ecos_result == ECOS_PINF ||
         ecos_result == ECOS_PINF + ECOS_INACC_OFFSET)
     {
         return 1;
@@ -1066,6 +1064,15 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
             prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
         }
     }
+    else if (ret_code == ECOS_DINF ||
+             ret_code == ECOS_DINF + ECOS_INACC_OFFSET)
+    { /* The relaxation is unbounded, x is an improving ray */
+        prob->nodes[node_idx].L = -ECOS_INFINITY;
+        prob->nodes[node_idx].U = -ECOS_INFINITY;
+        prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
+        store_solution(prob);
+        prob->global_U = prob->nodes[node_idx].U;
+    }
     else
     { /*Assume node infeasible*/
         prob->nodes[node_idx].L = ECOS_INFINITY;
-- 
2.43.0


From a9b95f0b7f142d215d59cda501406bd63a13b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 17/35] fix: without a mixed-integer solution uninitialised
 memory was returned

---
 ecos_bb/ecos_bb.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 6209dd4..c26ee1b 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1189,6 +1189,11 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
         curr_node_idx = get_next_node(prob);
     }
+    if (isinf(prob->global_U) && prob->global_U > 0)
+    {
+        /* there is no incumbent to return, report the last point instead */
+        store_solution(prob);
+    }
     load_solution(prob);
 
 #if MI_PRINTLEVEL > 0
-- 
2.43.0


From 4d573fd1076f52cd115580f775fb579941500b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 18/35] fix: mixed-integer setup crashed when the relaxation
 was rejected

---
 ecos_bb/ecos_bb_preproc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index 8873467..61ad69c 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -282,6 +282,11 @@ ecos_bb_pwork *ECOS_BB_setup(
         prob->Gpr_new, prob->Gjc_new, prob->Gir_new,
         Apr, Ajc, Air,
         c, prob->h_new, b);
+    if (prob->ecos_prob == NULL)
+    {
+        ECOS_BB_cleanup(prob, 0);
+        return NULL;
+    }
 
     /* Store the number of integer variables in the problem*/
     prob->num_bool_vars = num_bool_vars;
@@ -328,7 +333,10 @@ ecos_bb_pwork *ECOS_BB_setup(
 void ECOS_BB_cleanup(ecos_bb_pwork *prob, idxint num_vars_keep)
 {
     /* FREE solver memory*/
-    ECOS_cleanup(prob->ecos_prob, num_vars_keep);
+    if (prob->ecos_prob != NULL)
+    {
+        ECOS_cleanup(prob->ecos_prob, num_vars_keep);
+    }
     FREE(prob->tmp_bool_node_id);
     FREE(prob->tmp_int_node_id);
     FREE(prob->tmp_branching_bool_node_id);
-- 
2.43.0


From 65ea76c412101d55a1cacc133791cd88841f4b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 19/35] fix: mixed-integer nodes that were interrupted or not
 solved counted as infeasible or optimal

---
 ecos_bb/ecos_bb.c | 72 +++++++++++++++++++++++++++++++++++++++--------
 include/ecos_bb.h |  2 ++
 2 files changed, 62 insertions(+), 12 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index c26ee1b..f884e42 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -326,6 +326,12 @@ static void set_prob(ecos_bb_pwork *prob, char *bool_node_id, pfloat *int_node_i
 #endif
 }
 
+static char is_optimal(idxint ecos_result)
+{
+    return ecos_result == ECOS_OPTIMAL ||
+           ecos_result == ECOS_OPTIMAL + ECOS_INACC_OFFSET;
+}
+
 static char is_infeasible(idxint ecos_result)
 {
     if (ecos_result == ECOS_PINF ||
@@ -337,6 +343,19 @@ static char is_infeasible(idxint ecos_result)
     return 0;
 }
 
+/*
+ * Solves the subproblem last set with set_prob and notes if the user interrupted it
+ */
+static idxint solve_subproblem(ecos_bb_pwork *prob)
+{
+    idxint ecos_result = ECOS_solve(prob->ecos_prob);
+    if (ecos_result == ECOS_SIGINT)
+    {
+        prob->interrupted = 1;
+    }
+    return ecos_result;
+}
+
 /*
  * returns the score for down / up branching.
  * Using the product, same method is used in SCIP
@@ -395,7 +414,7 @@ static void initialize_strong_branching(ecos_bb_pwork *problem, idxint node_idx)
 static void calc_tmp_branching_problem(ecos_bb_pwork *problem, pfloat *relaxation, idxint *ecos_result)
 {
     set_prob(problem, problem->tmp_branching_bool_node_id, problem->tmp_branching_int_node_id);
-    *ecos_result = ECOS_solve(problem->ecos_prob);
+    *ecos_result = solve_subproblem(problem);
     *relaxation = eddot(problem->ecos_prob->n, problem->ecos_prob->x, problem->ecos_prob->c);
 }
 
@@ -406,7 +425,7 @@ static int check_infeasible_bool_var(ecos_bb_pwork *problem, const idxint ecos_r
                                      const char other_val, const idxint var_idx, idxint *split_idx, pfloat *split_val,
                                      const pfloat current_value)
 {
-    if (is_infeasible(ecos_result) || relaxation > problem->global_U)
+    if (is_infeasible(ecos_result) || (is_optimal(ecos_result) && relaxation > problem->global_U))
     {
         //fix value to MI_ONE, no branching needed
         get_bool_node_id(node_idx, problem)[var_idx] = other_val;
@@ -432,7 +451,7 @@ static int check_infeasible_int_var(ecos_bb_pwork *problem, const idxint ecos_re
                                     const int fix_lb, const idxint var_idx, idxint *split_idx, pfloat *split_val,
                                     const pfloat current_value)
 {
-    if (is_infeasible(ecos_result) || relaxation > problem->global_U)
+    if (is_infeasible(ecos_result) || (is_optimal(ecos_result) && relaxation > problem->global_U))
     {
         // fix lower bound
         const pfloat fix_val = fix_lb
@@ -893,10 +912,12 @@ static void load_solution(ecos_bb_pwork *prob)
 static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
 {
     idxint i, ret_code, branchable, viable_rounded_sol;
+    char solved;
     viable_rounded_sol = 0;
 
     set_prob(prob, get_bool_node_id(node_idx, prob), get_int_node_id(node_idx, prob));
-    ret_code = ECOS_solve(prob->ecos_prob);
+    ret_code = solve_subproblem(prob);
+    solved = is_optimal(ret_code);
 
 #if MI_PRINTLEVEL > 1
     if (prob->stgs->verbose)
@@ -909,12 +930,15 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
     }
 #endif
 
-    if (ret_code == ECOS_OPTIMAL ||
-        ret_code == ECOS_OPTIMAL + ECOS_INACC_OFFSET ||
+    if (solved ||
         ret_code == ECOS_MAXIT ||
         ret_code == ECOS_NUMERICS)
     {
-        prob->nodes[node_idx].L = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+        /* otherwise the point can be branched on, but the bound of the parent remains */
+        if (solved)
+        {
+            prob->nodes[node_idx].L = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+        }
 
         // if global best known solution is better than our lower
         if (prob->global_U < prob->nodes[node_idx].L)
@@ -1012,7 +1036,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
             }
 #endif
             set_prob(prob, prob->tmp_bool_node_id, prob->tmp_int_node_id);
-            ret_code = ECOS_solve(prob->ecos_prob);
+            ret_code = solve_subproblem(prob);
 
 #if MI_PRINTLEVEL > 1
             if (prob->stgs->verbose)
@@ -1031,6 +1055,11 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
                 viable_rounded_sol = 1;
             }
         }
+        else if (!solved)
+        { /* Nothing to branch on, and not known to be a solution either */
+            prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
+            prob->unresolved = 1;
+        }
         else
         { /* This is already an integer solution*/
             prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
@@ -1073,22 +1102,39 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         store_solution(prob);
         prob->global_U = prob->nodes[node_idx].U;
     }
-    else
-    { /*Assume node infeasible*/
+    else if (is_infeasible(ret_code))
+    {
         prob->nodes[node_idx].L = ECOS_INFINITY;
         prob->nodes[node_idx].U = ECOS_INFINITY;
         prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
     }
+    else
+    { /* Not solved, nothing is known about this node but the bound of its parent */
+        prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
+        prob->unresolved = 1;
+    }
+}
+
+static idxint gap_is_open(ecos_bb_pwork *prob)
+{
+    return (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && abs_2(prob->global_U / prob->global_L - 1.0) > prob->stgs->rel_tol_gap;
 }
 
 static idxint should_continue(ecos_bb_pwork *prob, idxint curr_node_idx)
 {
-    return (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && abs_2(prob->global_U / prob->global_L - 1.0) > prob->stgs->rel_tol_gap && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
+    return gap_is_open(prob) && curr_node_idx >= 0 && !prob->interrupted && prob->iter < (prob->stgs->maxit - 1);
 }
 
 static int get_ret_code(ecos_bb_pwork *prob)
 {
-    if (prob->iter < prob->stgs->maxit - 1)
+    if (prob->interrupted)
+    {
+        return ECOS_SIGINT;
+    }
+
+    /* unless the gap is closed a leaf that was given up on leaves the proof incomplete, as the node limit does */
+    if (prob->iter < prob->stgs->maxit - 1 &&
+        (!prob->unresolved || (!isinf(prob->global_U) && !gap_is_open(prob))))
     {
         if (isinf(prob->global_U))
         {
@@ -1156,6 +1202,8 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
     /* of http://stanford.edu/class/ee364b/lectures/bb_slides.pdf*/
     prob->iter = 0;
     prob->dive_node_id = 0;
+    prob->unresolved = 0;
+    prob->interrupted = 0;
     initialize_root(prob);
     /*print_node(prob, curr_node_idx);*/
     get_bounds(curr_node_idx, prob);
diff --git a/include/ecos_bb.h b/include/ecos_bb.h
index b1fa622..96b5593 100644
--- a/include/ecos_bb.h
+++ b/include/ecos_bb.h
@@ -157,6 +157,8 @@ extern "C"
 		pfloat *tmp_int_node_id;
 		idxint iter;
 		idxint dive_node_id;
+		char unresolved;  /* a leaf was given up on without having been solved */
+		char interrupted; /* a subproblem was interrupted by the user */
 
 		/* Tmp nodes used for strong branching */
 		char *tmp_branching_bool_node_id;
-- 
2.43.0


From 20474dfebc71036aad3b62e9fdff49e72885a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 20/35] fix: mixed-integer search stopped as infeasible when
 the root was not solved

---
 ecos_bb/ecos_bb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index f884e42..df8d08d 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1117,7 +1117,8 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
 
 static idxint gap_is_open(ecos_bb_pwork *prob)
 {
-    return (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && abs_2(prob->global_U / prob->global_L - 1.0) > prob->stgs->rel_tol_gap;
+    /* the relative gap is not defined as long as both bounds are infinite */
+    return (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && !(abs_2(prob->global_U / prob->global_L - 1.0) <= prob->stgs->rel_tol_gap);
 }
 
 static idxint should_continue(ecos_bb_pwork *prob, idxint curr_node_idx)
-- 
2.43.0


From 623b82441db5fecb09d1c3469b07ef8e034c2a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 21/35] fix: mixed-integer lower bound came from the primal
 cost of inaccurate relaxations

---
 ecos_bb/ecos_bb.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index df8d08d..4ac19e3 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -356,6 +356,16 @@ static idxint solve_subproblem(ecos_bb_pwork *prob)
     return ecos_result;
 }
 
+/*
+ * Returns a lower bound from the relaxation solved last. As long as the solution
+ * is not accurate, its primal cost can be well above the optimal value.
+ */
+static pfloat get_lower_bound(ecos_bb_pwork *prob)
+{
+    pfloat primal = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+    return MIN(primal, prob->ecos_prob->info->dcost);
+}
+
 /*
  * returns the score for down / up branching.
  * Using the product, same method is used in SCIP
@@ -425,7 +435,7 @@ static int check_infeasible_bool_var(ecos_bb_pwork *problem, const idxint ecos_r
                                      const char other_val, const idxint var_idx, idxint *split_idx, pfloat *split_val,
                                      const pfloat current_value)
 {
-    if (is_infeasible(ecos_result) || (is_optimal(ecos_result) && relaxation > problem->global_U))
+    if (is_infeasible(ecos_result) || (is_optimal(ecos_result) && get_lower_bound(problem) > problem->global_U))
     {
         //fix value to MI_ONE, no branching needed
         get_bool_node_id(node_idx, problem)[var_idx] = other_val;
@@ -451,7 +461,7 @@ static int check_infeasible_int_var(ecos_bb_pwork *problem, const idxint ecos_re
                                     const int fix_lb, const idxint var_idx, idxint *split_idx, pfloat *split_val,
                                     const pfloat current_value)
 {
-    if (is_infeasible(ecos_result) || (is_optimal(ecos_result) && relaxation > problem->global_U))
+    if (is_infeasible(ecos_result) || (is_optimal(ecos_result) && get_lower_bound(problem) > problem->global_U))
     {
         // fix lower bound
         const pfloat fix_val = fix_lb
@@ -937,7 +947,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         /* otherwise the point can be branched on, but the bound of the parent remains */
         if (solved)
         {
-            prob->nodes[node_idx].L = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+            prob->nodes[node_idx].L = get_lower_bound(prob);
         }
 
         // if global best known solution is better than our lower
-- 
2.43.0


From 2f6d8f93b621424070e8a3eee3d82da164c04148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 22/35] fix: an iterate that left the cones by a minimal step
 passed as optimal

---
 src/ecos.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ecos.c b/src/ecos.c
index a52f14c..d4910a5 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1180,7 +1180,12 @@ idxint ECOS_solve(pwork* w)
 
 
 		/* Check termination criteria to full precision and exit if necessary */
-		exitcode = checkExitConditions( w, 0 );
+		/* (not after a minimal step, which can end outside of the cones or with a negative tau) */
+		if( w->info->iter > 0 && w->info->step == STEPMIN*GAMMA ){
+			exitcode = ECOS_NOT_CONVERGED_YET;
+		} else {
+			exitcode = checkExitConditions( w, 0 );
+		}
 #if CTRLC > 0
         interrupted = check_ctrlc();
 #endif
-- 
2.43.0


From c4a27279cc41360f4afcb1f0079d65e8d4cc207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 23/35] fix: exponential cone line search could step out of the
 symmetric cones

---
 src/ecos.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/ecos.c b/src/ecos.c
index d4910a5..7e745a3 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -758,6 +758,36 @@ void RHS_combined(pwork* w)
  * When affine = 1 it starts from alpha=w->info->step_aff
  * when affine = 0 it starts from alpha=w->info->step
 */
+/* Whether the symmetric cones, tau and kappa admit the given step. The line search for
+ * these usually guarantees that, but not with a degenerate scaling or a minimal step */
+static idxint staysInSymmetricCones(pwork* w, pfloat step, pfloat* ds, pfloat* dz, pfloat dtau, pfloat dkappa)
+{
+    idxint i, j, k;
+    pfloat si, zi, ress, resz;
+
+    if( w->tau + step*dtau <= 0 || w->kap + step*dkappa <= 0 ){ return 0; }
+    for( k=0; k < w->C->lpc->p; k++ ){
+        if( w->s[k] + step*ds[k] <= 0 || w->z[k] + step*dz[k] <= 0 ){ return 0; }
+    }
+    for( i=0; i < w->C->nsoc; i++ ){
+        si = w->s[k] + step*ds[k];
+        zi = w->z[k] + step*dz[k];
+        if( si <= 0 || zi <= 0 ){ return 0; }
+        ress = si*si;
+        resz = zi*zi;
+        k++;
+        for( j=1; j < w->C->soc[i].p; j++ ){
+            si = w->s[k] + step*ds[k];
+            zi = w->z[k] + step*dz[k];
+            ress -= si*si;
+            resz -= zi*zi;
+            k++;
+        }
+        if( ress < 0 || resz < 0 ){ return 0; }
+    }
+    return 1;
+}
+
 pfloat expConeLineSearch(pwork* w, pfloat dtau, pfloat dkappa, idxint affine)
 {
     /* Iterates and workspace */
@@ -872,7 +902,7 @@ pfloat expConeLineSearch(pwork* w, pfloat dtau, pfloat dkappa, idxint affine)
 
                         *centrality = barrier + cent_constant*log(mu) + cent_constant;
 
-                        if(*centrality<w->stgs->centrality)
+                        if(*centrality<w->stgs->centrality && staysInSymmetricCones(w, alpha*gamma, ds, dz, dtau, dkappa))
                         {
                                return alpha*gamma;
                         }
-- 
2.43.0


From 929b3dc45fc5aa939f3c51791e83cb7cd675bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 24/35] fix: mixed-integer cleanup freed the solution vectors
 it was asked to keep and leaked those of the relaxation

---
 ecos_bb/ecos_bb_preproc.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index 61ad69c..b6150a7 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -335,7 +335,7 @@ void ECOS_BB_cleanup(ecos_bb_pwork *prob, idxint num_vars_keep)
     /* FREE solver memory*/
     if (prob->ecos_prob != NULL)
     {
-        ECOS_cleanup(prob->ecos_prob, num_vars_keep);
+        ECOS_cleanup(prob->ecos_prob, 0);
     }
     FREE(prob->tmp_bool_node_id);
     FREE(prob->tmp_int_node_id);
@@ -348,10 +348,11 @@ void ECOS_BB_cleanup(ecos_bb_pwork *prob, idxint num_vars_keep)
     FREE(prob->nodes);
     FREE(prob->bool_node_ids);
     FREE(prob->int_node_ids);
-    FREE(prob->x);
-    FREE(prob->y);
-    FREE(prob->z);
-    FREE(prob->s);
+    /* keep the vectors of the solution in the same order as ECOS_cleanup */
+    if (num_vars_keep < 4) { FREE(prob->z); }
+    if (num_vars_keep < 3) { FREE(prob->s); }
+    if (num_vars_keep < 2) { FREE(prob->y); }
+    if (num_vars_keep < 1) { FREE(prob->x); }
     FREE(prob->info);
     FREE(prob->pseudocost_bin_cnt);
     FREE(prob->pseudocost_bin_sum);
-- 
2.43.0


From 58a5d587c9401bb226a6fd5381c5925d63d3934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:51 +0000
Subject: [PATCH 25/35] fix: mixed-integer node memory overflowed with a node
 limit of zero or raised after setup

---
 ecos_bb/ecos_bb.c         | 13 +++++++++++++
 ecos_bb/ecos_bb_preproc.c |  7 ++++---
 include/ecos_bb.h         |  1 +
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 4ac19e3..55dd6dc 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1201,6 +1201,19 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 {
     idxint curr_node_idx = 0;
 
+    /* the node limit was raised since the memory was allocated */
+    if (prob->stgs->maxit > prob->max_nodes)
+    {
+        FREE(prob->nodes);
+        FREE(prob->bool_node_ids);
+        FREE(prob->int_node_ids);
+        prob->max_nodes = prob->stgs->maxit;
+        prob->nodes = (node *)MALLOC(prob->max_nodes * sizeof(node));
+        memset(prob->nodes, 0, prob->max_nodes * sizeof(node));
+        prob->bool_node_ids = (char *)MALLOC(prob->max_nodes * prob->num_bool_vars * sizeof(char));
+        prob->int_node_ids = (pfloat *)MALLOC(2 * prob->max_nodes * prob->num_int_vars * sizeof(pfloat));
+    }
+
 #if MI_PRINTLEVEL > 0
     if (prob->stgs->verbose)
     {
diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index b6150a7..fadc9f7 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -245,11 +245,12 @@ ecos_bb_pwork *ECOS_BB_setup(
     l += 2 * (num_bool_vars + num_int_vars);
 
     /* MALLOC the initial node's book keeping data #(2*maxIter)*/
-    prob->nodes = (node *)CALLOC(prob->stgs->maxit, sizeof(node));
+    prob->max_nodes = prob->stgs->maxit > 1 ? prob->stgs->maxit : 1;
+    prob->nodes = (node *)CALLOC(prob->max_nodes, sizeof(node));
 
     /* MALLOC the id arrays*/
-    prob->bool_node_ids = (char *)MALLOC(prob->stgs->maxit * num_bool_vars * sizeof(char));
-    prob->int_node_ids = (pfloat *)MALLOC(2 * prob->stgs->maxit * num_int_vars * sizeof(pfloat));
+    prob->bool_node_ids = (char *)MALLOC(prob->max_nodes * num_bool_vars * sizeof(char));
+    prob->int_node_ids = (pfloat *)MALLOC(2 * prob->max_nodes * num_int_vars * sizeof(pfloat));
 
     /* MALLOC the tmp node id*/
     prob->tmp_bool_node_id = (char *)MALLOC(num_bool_vars * sizeof(char));
diff --git a/include/ecos_bb.h b/include/ecos_bb.h
index 96b5593..96cef8a 100644
--- a/include/ecos_bb.h
+++ b/include/ecos_bb.h
@@ -123,6 +123,7 @@ extern "C"
 		idxint num_int_vars;
 
 		node *nodes;
+		idxint max_nodes; /* number of nodes there is memory for */
 		char *bool_node_ids;
 		pfloat *int_node_ids;
 
-- 
2.43.0


From e692c3fd88735616d3dcce51adab391476cb5272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 26/35] fix: points far outside the bounds of the integer
 variables overflowed casts and left mixed-integer nodes without a branching
 variable

---
 ecos_bb/ecos_bb.c | 11 +++++++----
 include/ecos_bb.h |  6 +++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 55dd6dc..d9b3322 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -242,7 +242,7 @@ static void get_branch_var_most_infeasible(ecos_bb_pwork *prob, idxint *split_id
             x = y - pfloat_floor(y, prob->stgs->integer_tol);
         }
         ambiguity = abs_2(x - 0.5);
-        if (ambiguity < d)
+        if (i == 0 || ambiguity < d)
         {
             *split_idx = i;
             *split_val = y;
@@ -267,8 +267,10 @@ static void get_branch_var_random(ecos_bb_pwork *prob, idxint *split_idx, pfloat
                          ? prob->ecos_prob->x[prob->bool_vars_idx[i]]
                          : prob->ecos_prob->x[prob->int_vars_idx[i - prob->num_bool_vars]];
         *split_idx = i;
-        if (float_eqls(*split_val, pfloat_floor(*split_val, prob->stgs->integer_tol), prob->stgs->integer_tol) ||
-            float_eqls(*split_val, pfloat_ceil(*split_val, prob->stgs->integer_tol), prob->stgs->integer_tol))
+        if (i < prob->num_bool_vars
+                ? float_eqls(*split_val, 0.0, prob->stgs->integer_tol) || float_eqls(*split_val, 1.0, prob->stgs->integer_tol)
+                : float_eqls(*split_val, pfloat_floor(*split_val, prob->stgs->integer_tol), prob->stgs->integer_tol) ||
+                      float_eqls(*split_val, pfloat_ceil(*split_val, prob->stgs->integer_tol), prob->stgs->integer_tol))
         {
             continue;
         }
@@ -992,7 +994,8 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         branchable = 1;
         for (i = 0; i < prob->num_bool_vars; ++i)
         {
-            prob->tmp_bool_node_id[i] = (char)pfloat_round(prob->ecos_prob->x[prob->bool_vars_idx[i]]);
+            /* a point that is not a solution can be far outside of [0,1] */
+            prob->tmp_bool_node_id[i] = prob->ecos_prob->x[prob->bool_vars_idx[i]] >= 0.5 ? MI_ONE : MI_ZERO;
             branchable &= float_eqls(prob->ecos_prob->x[prob->bool_vars_idx[i]], (pfloat)prob->tmp_bool_node_id[i], prob->stgs->integer_tol);
         }
         for (i = 0; i < prob->num_int_vars; ++i)
diff --git a/include/ecos_bb.h b/include/ecos_bb.h
index 96cef8a..f9a0760 100644
--- a/include/ecos_bb.h
+++ b/include/ecos_bb.h
@@ -222,17 +222,17 @@ extern "C"
 
 	static pfloat pfloat_round(pfloat number)
 	{
-		return (number >= 0) ? (int)(number + 0.5) : (int)(number - 0.5);
+		return (number >= 0) ? trunc(number + 0.5) : trunc(number - 0.5);
 	}
 
 	static pfloat pfloat_ceil(pfloat number, pfloat integer_tol)
 	{
-		return (pfloat)(number < 0 ? (int)number : (int)(number + (1 - integer_tol)));
+		return (number < 0) ? trunc(number) : trunc(number + (1 - integer_tol));
 	}
 
 	static pfloat pfloat_floor(pfloat number, pfloat integer_tol)
 	{
-		return (pfloat)(number < 0 ? (int)(number - (1 - integer_tol)) : (int)number);
+		return (number < 0) ? trunc(number - (1 - integer_tol)) : trunc(number);
 	}
 
 	static idxint float_eqls(pfloat a, pfloat b, pfloat integer_tol)
-- 
2.43.0


From 8fe1716a412b456ef47249aceda28aa694c072ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:57 +0000
Subject: [PATCH 27/35] fix: a mixed-integer root that could not be branched on
 was branched on a stale variable

---
 ecos_bb/ecos_bb.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index d9b3322..e699281 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1238,6 +1238,12 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
     /* get_bounds already stored the value of the incumbent, if any, in global_U */
     prob->global_L = prob->nodes[curr_node_idx].L;
 
+    if (prob->nodes[curr_node_idx].status != MI_SOLVED_BRANCHABLE)
+    {
+        /* there is nothing to branch on at the root */
+        curr_node_idx = -1;
+    }
+
     while (should_continue(prob, curr_node_idx))
     {
 
-- 
2.43.0


From 5fb90839e46e99a18a6181e9b0ce43f07ae6f3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 28/35] fix: step statistics were uninitialised when the first
 iterate ended the solve

---
 src/ecos.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecos.c b/src/ecos.c
index 7e745a3..18c8bb6 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -436,6 +436,8 @@ idxint init(pwork* w)
 
 	w->info->step = 0;
 	w->info->step_aff = 0;
+	w->info->sigma = 0;
+	w->info->nitref3 = 0;
 	w->info->dinf = 0;
 	w->info->pinf = 0;
 
-- 
2.43.0


From badd8d0faf5eeb0b6c28102254bc8c70c6846382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 29/35] fix: an interrupt in the last iteration of a
 mixed-integer subproblem was ignored

---
 ecos_bb/ecos_bb.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index e699281..f28e5c3 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -350,11 +350,19 @@ static char is_infeasible(idxint ecos_result)
  */
 static idxint solve_subproblem(ecos_bb_pwork *prob)
 {
-    idxint ecos_result = ECOS_solve(prob->ecos_prob);
-    if (ecos_result == ECOS_SIGINT)
+    idxint ecos_result;
+    if (prob->interrupted)
+    {
+        return ECOS_SIGINT;
+    }
+    ecos_result = ECOS_solve(prob->ecos_prob);
+#if CTRLC > 0
+    /* an interrupted subproblem can end with a verdict nevertheless */
+    if (ecos_result == ECOS_SIGINT || check_ctrlc())
     {
         prob->interrupted = 1;
     }
+#endif
     return ecos_result;
 }
 
-- 
2.43.0


From e80db778cfb5fcc33b7edb98ec0ad5d6ed421fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 30/35] fix: the mixed-integer lower bound could end above the
 value of the solution

---
 ecos_bb/ecos_bb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index f28e5c3..830ff48 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -214,7 +214,8 @@ static idxint get_next_node(ecos_bb_pwork *prob)
 static pfloat get_global_L(ecos_bb_pwork *prob)
 {
     idxint i;
-    pfloat L = ECOS_INFINITY;
+    /* all nodes left can be worse than the best known solution */
+    pfloat L = prob->global_U;
     for (i = 0; i <= prob->iter; ++i)
         L = MIN(L, prob->nodes[i].L);
     return L;
-- 
2.43.0


From 753c4ac4bcd8ec36d8a61d959897251b48e85ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 31/35] fix: AMD_valid reads outside of the row indices when
 the column pointers exceed their number

---
 external/amd/src/amd_valid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/external/amd/src/amd_valid.c b/external/amd/src/amd_valid.c
index 609abca..2a69ee9 100644
--- a/external/amd/src/amd_valid.c
+++ b/external/amd/src/amd_valid.c
@@ -62,9 +62,9 @@ GLOBAL Int AMD_valid
 	p1 = Ap [j] ;
 	p2 = Ap [j+1] ;
 	AMD_DEBUG2 (("\nColumn: "ID" p1: "ID" p2: "ID"\n", j, p1, p2)) ;
-	if (p1 > p2)
+	if (p1 > p2 || p2 > nz)
 	{
-	    /* column pointers must be ascending */
+	    /* column pointers must be ascending, and not lead outside of Ai */
 	    AMD_DEBUG0 (("column "ID" pointer bad\n", j)) ;
 	    return (AMD_INVALID) ;
 	}
-- 
2.43.0


From f076e1e2af0529562c077c44f7a6940e7049bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 32/35] fix: exponential cone feasibility tests accept points
 that are not numbers

---
 src/expcone.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expcone.c b/src/expcone.c
index b131c85..f471330 100644
--- a/src/expcone.c
+++ b/src/expcone.c
@@ -154,7 +154,7 @@ idxint evalExpPrimalFeas(pfloat *s, idxint nexc)
        x3 = s[3*j+2];
        tmp1 = log(x2/x3);
        psi   = x3*tmp1 - x1;
-       if(psi<0||x2<0||x3<0)
+       if(!(psi>=0)||x2<0||x3<0)
        {
             return 0;
        }
@@ -180,7 +180,7 @@ idxint evalExpDualFeas(pfloat *z, idxint nexc)
        x3 = z[3*j+2];
        tmp1 = log(-x2/x1);
        psi   = -x1-x1*tmp1+x3;
-       if(0<x1||x2<0||psi<0)
+       if(0<x1||x2<0||!(psi>=0))
        {
             return 0;
        }
-- 
2.43.0


From 2d946f01a4a596cf00d4eb9b29c7b17cb0112a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 33/35] fix: the minimal step is not noticed with another step
 length scaling than the default

---
 src/ecos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 18c8bb6..cb504a6 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1213,7 +1213,7 @@ idxint ECOS_solve(pwork* w)
 
 		/* Check termination criteria to full precision and exit if necessary */
 		/* (not after a minimal step, which can end outside of the cones or with a negative tau) */
-		if( w->info->iter > 0 && w->info->step == STEPMIN*GAMMA ){
+		if( w->info->iter > 0 && w->info->step == STEPMIN*w->stgs->gamma ){
 			exitcode = ECOS_NOT_CONVERGED_YET;
 		} else {
 			exitcode = checkExitConditions( w, 0 );
@@ -1231,7 +1231,7 @@ idxint ECOS_solve(pwork* w)
              */
 
             /* Did the line search cock up? (zero step length) */
-            if( w->info->iter > 0 && w->info->step == STEPMIN*GAMMA ){
+            if( w->info->iter > 0 && w->info->step == STEPMIN*w->stgs->gamma ){
 #if PRINTLEVEL > 0
                 if( w->stgs->verbose ) deleteLastProgressLine( w->info );
                 if( w->stgs->verbose ) PRINTTEXT("No further progress possible, recovering best iterate (%i) and stopping.", (int)w->best_info->iter );
-- 
2.43.0


From 48a4954365867037ea5345e09c50c9f600f60f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 34/35] fix: concurrent solves lose the caller's SIGINT handler
 and race on the interrupt flag

---
 src/ctrlc.c | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/ctrlc.c b/src/ctrlc.c
index 0986fd7..22e0baa 100644
--- a/src/ctrlc.c
+++ b/src/ctrlc.c
@@ -84,29 +84,56 @@ int check_ctrlc(void)
 /* Use POSIX clocl_gettime() for timing on non-Windows machines */
 
 #include <signal.h>
-static int int_detected;
+static volatile sig_atomic_t int_detected;
 struct sigaction oact;
+
+/* Solves in several threads share the handler: the first one to start
+ * installs it, the last one to end restores that of the caller. */
+static int nsolves;
+static volatile int locked;
+static void lock_ctrlc(void)
+{
+    while( __sync_lock_test_and_set(&locked,1) );
+}
+static void unlock_ctrlc(void)
+{
+    __sync_lock_release(&locked);
+}
 void handle_ctrlc(int dummy)
 {
     int_detected = dummy?dummy:-1;
 }
 void init_ctrlc(void)
 {
-    int_detected = 0;
-    struct sigaction act;
-    act.sa_flags = 0;
-    sigemptyset(&act.sa_mask);
-    act.sa_handler = handle_ctrlc;
-    sigaction(SIGINT,&act,&oact);
+    lock_ctrlc();
+    if( nsolves++ == 0 )
+    {
+        int_detected = 0;
+        struct sigaction act;
+        act.sa_flags = 0;
+        sigemptyset(&act.sa_mask);
+        act.sa_handler = handle_ctrlc;
+        sigaction(SIGINT,&act,&oact);
+    }
+    unlock_ctrlc();
 }
 void remove_ctrlc(void)
 {
-    struct sigaction act;
-    sigaction(SIGINT,&oact,&act);
+    lock_ctrlc();
+    if( --nsolves == 0 )
+    {
+        struct sigaction act;
+        sigaction(SIGINT,&oact,&act);
+    }
+    unlock_ctrlc();
 }
 int check_ctrlc(void)
 {
-    return int_detected;
+    int detected;
+    lock_ctrlc();
+    detected = int_detected;
+    unlock_ctrlc();
+    return detected;
 }
 
 #endif /* END IF MATLAB_MEX_FILE / WIN32 */
-- 
2.43.0


From fb8f8ded6338152fa951c5d23c5e356423d654e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:10 +0000
Subject: [PATCH 35/35] fix: random branching never ended when every integer
 variable was so large that rounding changed it

---
 include/ecos_bb.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ecos_bb.h b/include/ecos_bb.h
index f9a0760..75f92ab 100644
--- a/include/ecos_bb.h
+++ b/include/ecos_bb.h
@@ -222,7 +222,7 @@ extern "C"
 
 	static pfloat pfloat_round(pfloat number)
 	{
-		return (number >= 0) ? trunc(number + 0.5) : trunc(number - 0.5);
+		return round(number); /* exact, also where adding 0.5 is not */
 	}
 
 	static pfloat pfloat_ceil(pfloat number, pfloat integer_tol)
-- 
2.43.0

