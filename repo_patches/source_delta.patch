From e15a8781aedace969701085f70ac7be85a2863a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:58 +0000
Subject: [PATCH 01/52] Add guarded verification observation points

---
 lib/plutolib.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index db5221c..62dd138 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -26,6 +26,14 @@
 #include "pluto/pluto.h"
 #include "program.h"
 
+#ifdef PLUTO_VERIF
+/* Verification hook: lets a checker inspect the program being scheduled. */
+extern void pluto_verif_observe(PlutoProg *prog, const char *point);
+#define PLUTO_VERIF_OBSERVE(prog, point) pluto_verif_observe(prog, point)
+#else
+#define PLUTO_VERIF_OBSERVE(prog, point)
+#endif
+
 /// Run Pluto on the supplied PlutoProg.
 static int pluto_schedule_prog(PlutoProg *prog) {
   // Set global var for rest of Pluto.
@@ -52,6 +60,7 @@ static int pluto_schedule_prog(PlutoProg *prog) {
 
   pluto_compute_dep_directions(prog);
   pluto_compute_dep_satisfaction(prog);
+  PLUTO_VERIF_OBSERVE(prog, "transformed");
 
   if (!options->silent) {
     fprintf(stdout,
@@ -97,6 +106,7 @@ static int pluto_schedule_prog(PlutoProg *prog) {
     printf("\n");
     pluto_loops_free(ploops, nploops);
   }
+  PLUTO_VERIF_OBSERVE(prog, "scheduled");
   return 0;
 }
 
-- 
2.43.0


From 0c4c159239fb04661a9c59e865e3a333f5f6fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:23 +0000
Subject: [PATCH 02/52] fix: name parameters of zero-dimensional statement
 domains

The names array does not exist yet when a statement has no iterators, and
writing parameter names through it crashed.
---
 lib/plutolib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 62dd138..66b192e 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -186,9 +186,9 @@ static isl_stat extract_stmt(__isl_take isl_set *set, void *user) {
                                     stmt->dim);
 
   for (int i = 0; i < npar; i++) {
-    char *param = (char *)malloc(13);
+    char param[13], *name = param;
     sprintf(param, "p%d", i);
-    stmt->domain->names[stmt->dim + i] = param;
+    pluto_constraints_set_names_range(stmt->domain, &name, stmt->dim + i, 0, 1);
   }
 
   pluto_matrix_free(trans);
-- 
2.43.0


From 27f9e2d27cd54f8dab0b13b1ec17ec8053e81d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:23 +0000
Subject: [PATCH 03/52] fix: keep all pieces of statement domains that are
 unions

Appending a third piece dropped the first one, and computing the parameter
context of a union domain hit an assertion.
---
 lib/constraints.c | 7 ++++---
 lib/pluto.c       | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index bb8a334..d66d4d7 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1930,10 +1930,11 @@ int pluto_constraints_is_empty(const PlutoConstraints *cst) {
 PlutoConstraints *
 pluto_constraints_unionize_simple(PlutoConstraints *cst1,
                                   const PlutoConstraints *cst2) {
-  while (cst1->next != NULL) {
-    cst1 = cst1->next;
+  PlutoConstraints *tail = cst1;
+  while (tail->next != NULL) {
+    tail = tail->next;
   }
-  cst1->next = pluto_constraints_dup(cst2);
+  tail->next = pluto_constraints_dup(cst2);
   return cst1;
 }
 
diff --git a/lib/pluto.c b/lib/pluto.c
index 7ccd33f..ce1cbaf 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1163,6 +1163,9 @@ void normalize_domains(PlutoProg *prog) {
         pluto_constraints_alloc(prog->nstmts * npar, npar + 1, prog->context);
     pluto_constraints_set_names(param_context, prog->params);
     for (i = 0; i < prog->nstmts; i++) {
+      /* The context of a union is not a single conjunction. */
+      if (prog->stmts[i]->domain->next != NULL)
+        continue;
       PlutoConstraints *copy = pluto_constraints_dup(prog->stmts[i]->domain);
       for (unsigned j = 0; j < prog->stmts[i]->dim_orig; j++) {
         fourier_motzkin_eliminate(copy, 0);
-- 
2.43.0


From f7d2a9e5b2372419b746f19e79ae2bfe5bcd7ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:23 +0000
Subject: [PATCH 04/52] fix: do not rescale integral GLPK solutions with dfp
 and ilp

The scaling matrices exist only with lp; with dfp and ilp they are NULL.
---
 lib/constraints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index d66d4d7..ec74a3b 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1365,7 +1365,7 @@ int64_t *pluto_prog_constraints_lexmin_glpk(const PlutoConstraints *cst,
     return NULL;
   }
 
-  if (options->lp || options->dfp) {
+  if (options->lp) {
 
     fpsol = get_lp_solution_from_glpk_problem(lp);
     num_sols = glp_get_num_cols(lp);
-- 
2.43.0


From 1c31187bbf483045787a3264276bc6b89fcee2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:31 +0000
Subject: [PATCH 05/52] fix: do not skew across a scalar dimension that
 dependences rely on

A wavefront added a band's inner hyperplane to its first one even when a
dependence satisfied by a scalar dimension between them has a negative
component on the inner hyperplane, yielding an illegal schedule.
---
 lib/tile.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index 9939b8a..7f43fa4 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -379,6 +379,30 @@ void pluto_tile_scattering_dims(PlutoProg *prog, Band **bands, int nbands,
   pluto_detect_hyperplane_types_stmtwise(prog);
 }
 
+/* Can hyperplane 'depth' of the band be added to the band's first hyperplane?
+ * Dependences satisfied by a scalar dimension inside the band are allowed to
+ * have negative components at the band's dimensions that follow it. Such
+ * dimensions can't be moved out of the scalar dimension. */
+static bool is_wavefront_legal(const PlutoProg *prog, const Band *band,
+                               unsigned depth) {
+  for (int i = 0; i < prog->ndeps; i++) {
+    Dep *dep = prog->deps[i];
+    if (IS_RAR(dep->type) || !dep->satisfied)
+      continue;
+    /* Dependences satisfied outer to the band don't matter */
+    if (dep->satisfaction_level < (int)band->loop->depth)
+      continue;
+    if (dep->dirvec[depth] != DEP_STAR && dep->dirvec[depth] != DEP_MINUS)
+      continue;
+    if (pluto_stmt_is_member_of(prog->stmts[dep->src]->id, band->loop->stmts,
+                                band->loop->nstmts) &&
+        pluto_stmt_is_member_of(prog->stmts[dep->dest]->id, band->loop->stmts,
+                                band->loop->nstmts))
+      return false;
+  }
+  return true;
+}
+
 /// Transform a band of dimensions to get a wavefront (a wavefront of tiles
 /// typically). Returns true if something was done, false otherwise.
 bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
@@ -401,10 +425,9 @@ bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
       if (pluto_is_hyperplane_scalar(band->loop->stmts[j], depth))
         break;
     }
-    if (j == band->loop->nstmts) {
-      /* All of them are loops */
+    /* All of them are loops */
+    if (j == band->loop->nstmts && is_wavefront_legal(prog, band, depth))
       loop_depths[nloops++] = depth;
-    }
   }
 
   if (nloops <= 1) {
-- 
2.43.0


From d618590c50a49c4f1e3d9287f386c707512bd578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:56 +0000
Subject: [PATCH 06/52] fix: order statements that diamond rescheduling leaves
 at the same point

The intra-tile reschedule of diamond tiling puts the evicted hyperplane back.
Dependences that only its replacement satisfied between different statements
were left with equal time vectors for source and target.
---
 lib/tile.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/lib/tile.c b/lib/tile.c
index 7f43fa4..1cec3db 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -14,6 +14,7 @@
 #include <string.h>
 
 #include "constraints.h"
+#include "ddg.h"
 #include "math_support.h"
 #include "pluto/matrix.h"
 #include "pluto/pluto.h"
@@ -104,6 +105,36 @@ int pluto_diamond_tile_reschedule(PlutoProg *prog) {
   return retval;
 }
 
+/* The hyperplane that diamond tiling evicted need not satisfy all dependences
+ * that the one found in its place does: dependent statement instances can get
+ * the same point in the rescheduled tile. Add an innermost scalar dimension to
+ * order such statements. */
+static void order_stmts_innermost(PlutoProg *prog) {
+  int i;
+  for (i = 0; i < prog->ndeps; i++) {
+    Dep *dep = prog->deps[i];
+    if (!IS_RAR(dep->type) && dep->src != dep->dest && !dep->satisfied)
+      break;
+  }
+  if (i == prog->ndeps)
+    return;
+
+  ddg_update(prog->ddg, prog);
+  ddg_compute_scc(prog);
+  if (prog->ddg->num_sccs == 1)
+    return;
+
+  pluto_prog_add_hyperplane(prog, prog->num_hyperplanes, H_SCALAR);
+  for (i = 0; i < prog->nstmts; i++) {
+    Stmt *stmt = prog->stmts[i];
+    pluto_stmt_add_hyperplane(stmt, H_SCALAR, stmt->trans->nrows);
+    stmt->trans->val[stmt->trans->nrows - 1][stmt->trans->ncols - 1] =
+        stmt->scc_id;
+  }
+  pluto_compute_dep_directions(prog);
+  pluto_compute_dep_satisfaction(prog);
+}
+
 /* Manipulates statement domain and transformation to tile scattering
  * dimensions from firstD to lastD */
 void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
@@ -291,6 +322,7 @@ void pluto_tile(PlutoProg *prog) {
     if (retval) {
       pluto_compute_dep_directions(prog);
       pluto_compute_dep_satisfaction(prog);
+      order_stmts_innermost(prog);
       if (!options->silent) {
         printf("[Pluto] After intra_tile reschedule\n");
         pluto_transformations_pretty_print(prog);
-- 
2.43.0


From 6b44411c369908d21ef3740875646c7cc0c2f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:55 +0000
Subject: [PATCH 07/52] fix: keep the connected component of statements visited
 early

ddg_compute_cc overwrote the component a statement was given by the search
with the number of the most recently found component.
---
 lib/pluto.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index ce1cbaf..b283e4a 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2004,9 +2004,7 @@ void ddg_compute_cc(PlutoProg *prog) {
       num_cc++;
       gU->vertices[i].cc_id = cc_id;
       dfs_vertex(gU, &gU->vertices[i], &time);
-      gU->vertices[i].cc_id = cc_id;
     }
-    gU->vertices[i].cc_id = cc_id;
     g->vertices[i].cc_id = gU->vertices[i].cc_id;
     stmt_id = g->vertices[i].id;
     assert(stmt_id == i);
-- 
2.43.0


From 509d23e2a642ca0df7a6af8c3578e9947385edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:48 +0000
Subject: [PATCH 08/52] fix: start the dependence distance lower bounds of an
 SCC empty

A spurious first row was read and written outside the allocation when the
bounds of the first dependence have no rows.
---
 lib/framework.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/framework.cpp b/lib/framework.cpp
index 29467df..e0f94b9 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -1711,7 +1711,7 @@ get_dep_dist_lower_bound_constraints_for_scc(int scc_id, PlutoProg *prog) {
       dist_lb_csts =
           pluto_constraints_alloc(prog->ndeps * dep_dist_lb_cst->nrows,
                                   dep_dist_lb_cst->ncols, context);
-      dist_lb_csts->nrows = 1;
+      dist_lb_csts->nrows = 0;
       dist_lb_csts->ncols = dep_dist_lb_cst->ncols;
     }
     dist_lb_csts = pluto_constraints_add(dist_lb_csts, dep_dist_lb_cst);
-- 
2.43.0


From 0fbe2e3c6cec62498022a36947107e4135a96f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:05 +0000
Subject: [PATCH 09/52] fix: hand out parallel loops and release objects once
 in pluto_schedule_str

pluto_parallel_schedule_with_remapping never set the parallel loops, freed the
space twice, and left the remapping unset on failure. pluto_schedule_str freed
the domains and dependences it had already given away, and printed a NULL
schedule.
---
 lib/plutolib.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 66b192e..4048faf 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -520,9 +520,14 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
   IF_MORE_DEBUG(printf("Extracted PlutoProg\n"));
   IF_DEBUG(pluto_prog_print(stdout, prog));
 
+  *ploops = NULL;
+  *nploops = 0;
+  *remap = NULL;
+
   if (pluto_schedule_prog(prog)) {
     /* Failure */
     pluto_prog_free(prog);
+    isl_space_free(space);
 
     if (!context->options->silent) {
       printf("[libpluto] failure, returning NULL schedules\n");
@@ -530,13 +535,13 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
     return NULL;
   }
 
-  Remapping *remapping = pluto_get_remapping(prog);
-  *remap = remapping;
+  *remap = pluto_get_remapping(prog);
+  if (context->options->parallel)
+    *ploops = pluto_get_dom_parallel_loops(prog, nploops);
 
   isl_union_map *schedules = pluto_schedules_to_isl(prog, space, ctx);
 
   pluto_prog_free(prog);
-  isl_space_free(space);
 
   return schedules;
 }
@@ -589,18 +594,21 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
       sprintf(str, "%d", ploop[i - 1]->depth + 1);
       strcat(p_loops[0], str);
     }
+    free(str);
   }
 
-  isl_printer *printer = isl_printer_to_str(ctx);
-  isl_printer_print_union_map(printer, schedule);
+  pluto_loops_free(ploop, nploop);
 
-  *schedules_str_buffer_ptr = isl_printer_get_str(printer);
-  assert(*schedules_str_buffer_ptr != NULL && "isl printer providing empty"
-                                              " string");
+  *schedules_str_buffer_ptr = NULL;
+  if (schedule) {
+    isl_printer *printer = isl_printer_to_str(ctx);
+    printer = isl_printer_print_union_map(printer, schedule);
 
-  isl_printer_free(printer);
-  isl_union_set_free(domains);
-  isl_union_map_free(dependences);
+    *schedules_str_buffer_ptr = isl_printer_get_str(printer);
+    assert(*schedules_str_buffer_ptr != NULL && "isl printer providing empty"
+                                                " string");
+    isl_printer_free(printer);
+  }
   isl_union_map_free(schedule);
 
   isl_ctx_free(ctx);
-- 
2.43.0


From 1f8c9c30b4b7943b21ecaf16e7f274709716574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:05 +0000
Subject: [PATCH 10/52] fix: return an empty remapping when scheduling fails

pluto_get_remapping_str dereferenced NULL.
---
 lib/plutolib.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 4048faf..261a0e3 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -624,8 +624,15 @@ void pluto_get_remapping_str(const char *domains_str,
 
   Remapping *remapping_l =
       pluto_schedule_and_get_remapping(domains, dependences, context);
-  *remapping = *remapping_l;
-  free(remapping_l);
+  if (remapping_l) {
+    *remapping = *remapping_l;
+    free(remapping_l);
+  } else {
+    /* Failure: nothing to remap. */
+    remapping->nstmts = 0;
+    remapping->stmt_inv_matrices = NULL;
+    remapping->stmt_divs = NULL;
+  }
   isl_ctx_free(ctx);
 };
 
-- 
2.43.0


From 30e2be60881d4e5d90e3023a0c7b2aa17351e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:01 +0000
Subject: [PATCH 11/52] fix: do not drop carried dependences of inner loops
 with innerpar

---
 lib/tile.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index 1cec3db..665e886 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -445,6 +445,10 @@ bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
   PlutoContext *context = prog->context;
   PlutoOptions *options = context->options;
 
+  /* Pure inner parallelism is preferred: dependences stay where they are */
+  if (options->innerpar)
+    return false;
+
   /* A band can have scalar dimensions; it starts from a loop */
   int loop_depths[band->width];
   loop_depths[0] = band->loop->depth;
@@ -485,14 +489,12 @@ bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
    * become parallel */
   int first = band->loop->depth;
 
-  if (!options->innerpar) {
-    /* Create the wavefront */
-    for (unsigned i = 0; i < band->loop->nstmts; i++) {
-      Stmt *stmt = band->loop->stmts[i];
-      for (unsigned k = 1; k <= nip_dims; k++) {
-        for (unsigned j = 0; j < stmt->trans->ncols; j++) {
-          stmt->trans->val[first][j] += stmt->trans->val[loop_depths[k]][j];
-        }
+  /* Create the wavefront */
+  for (unsigned i = 0; i < band->loop->nstmts; i++) {
+    Stmt *stmt = band->loop->stmts[i];
+    for (unsigned k = 1; k <= nip_dims; k++) {
+      for (unsigned j = 0; j < stmt->trans->ncols; j++) {
+        stmt->trans->val[first][j] += stmt->trans->val[loop_depths[k]][j];
       }
     }
   }
-- 
2.43.0


From e44a7ab7f80df69bf254190fbb3088f613bc531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:53 +0000
Subject: [PATCH 12/52] fix: re-detect statement hyperplane types after diamond
 tiling

---
 lib/pluto.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index b283e4a..b6dee11 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2289,6 +2289,9 @@ bool pluto_diamond_tile(PlutoProg *prog) {
 
   if (conc_start_enabled) {
     pluto_dep_satisfaction_reset(prog);
+    /* The new hyperplane can be a loop where the replaced one was scalar for a
+     * statement and vice versa. */
+    pluto_detect_hyperplane_types_stmtwise(prog);
     PLUTO_MESSAGE(printf("[pluto] Concurrent start hyperplanes found\n"););
     IF_DEBUG(printf("[pluto] Transformations after concurrent start enable\n"));
     IF_DEBUG(pluto_transformations_pretty_print(prog););
-- 
2.43.0


From cb62f127a285004fb33ef4010f9fe7d5950f02e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:40 +0000
Subject: [PATCH 13/52] fix: restore the evicted hyperplane at its own row
 after tiling

---
 lib/tile.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index 665e886..b758662 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -83,20 +83,29 @@ static int read_tile_sizes(int *tile_sizes, int *second_level_tile_size_ratios,
 /*
  * Reschedule a diamond tile
  */
-int pluto_diamond_tile_reschedule(PlutoProg *prog) {
+int pluto_diamond_tile_reschedule(PlutoProg *prog, Band **bands,
+                                  unsigned nbands, unsigned num_tiled_levels) {
   int retval = 0;
 
   for (int i = 0; i < prog->nstmts; i++) {
     if (prog->stmts[i]->evicted_hyp) {
       int evicted_hyp_pos = prog->stmts[i]->evicted_hyp_pos;
       int fl = prog->stmts[i]->dim - prog->stmts[i]->dim_orig;
+      /* Tile space dimensions are added for scalar hyperplanes too, without a
+       * supernode in the domain. */
+      unsigned row = evicted_hyp_pos;
+      for (unsigned b = 0; b < nbands; b++) {
+        if (bands[b]->loop->depth <= evicted_hyp_pos &&
+            pluto_stmt_is_member_of(prog->stmts[i]->id, bands[b]->loop->stmts,
+                                    bands[b]->loop->nstmts))
+          row += num_tiled_levels * bands[b]->width;
+      }
       PlutoMatrix *evicted_hyp = prog->stmts[i]->evicted_hyp;
       assert(fl + evicted_hyp->ncols == prog->stmts[i]->trans->ncols);
       for (unsigned j = 0; j < evicted_hyp->ncols; j++) {
         int64_t tmp = evicted_hyp->val[0][j];
-        evicted_hyp->val[0][j] =
-            prog->stmts[i]->trans->val[fl + evicted_hyp_pos][fl + j];
-        prog->stmts[i]->trans->val[fl + evicted_hyp_pos][fl + j] = tmp;
+        evicted_hyp->val[0][j] = prog->stmts[i]->trans->val[row][fl + j];
+        prog->stmts[i]->trans->val[row][fl + j] = tmp;
       }
       retval = 1;
     }
@@ -317,7 +326,8 @@ void pluto_tile(PlutoProg *prog) {
 
   if (options->diamondtile) {
     int retval;
-    retval = pluto_diamond_tile_reschedule(prog);
+    retval =
+        pluto_diamond_tile_reschedule(prog, bands, nbands, num_tiled_levels);
 
     if (retval) {
       pluto_compute_dep_directions(prog);
-- 
2.43.0


From 1865fa8d388de1138a168fd44679df42cc70bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 14/52] fix: compute the row echelon form of matrices with more
 columns than rows

---
 lib/math_support.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index bb23abd..918416c 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -452,10 +452,11 @@ PlutoMatrix *pluto_matrix_product(const PlutoMatrix *mat1,
 
 /* Converts matrix to row-echelon form in-place */
 PlutoMatrix *pluto_matrix_to_row_echelon(PlutoMatrix *mat) {
-  int i, j, k, r, _lcm, factor1;
+  int i, j, k, r;
+  int64_t _lcm, factor1;
 
   r = 0;
-  for (i = 0; i < PLMIN(mat->ncols, mat->nrows); i++) {
+  for (i = 0; i < mat->ncols && r < mat->nrows; i++) {
     if (mat->val[r][i] == 0) {
       for (k = r + 1; k < mat->nrows; k++) {
         if (mat->val[k][i] != 0)
@@ -491,11 +492,12 @@ unsigned pluto_matrix_get_rank(const PlutoMatrix *mat) {
 
   unsigned null = 0;
   for (unsigned i = 0; i < re->nrows; i++) {
-    int sum = 0;
-    for (unsigned j = 0; j < re->ncols; j++) {
-      sum += llabs(re->val[i][j]);
+    unsigned j;
+    for (j = 0; j < re->ncols; j++) {
+      if (re->val[i][j] != 0)
+        break;
     }
-    if (sum == 0)
+    if (j == re->ncols)
       null++;
   }
   rank = re->nrows - null;
-- 
2.43.0


From 48c97c5fa9bb1b0cd7027ddb2cfcebfe7dc77340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 15/52] fix: do not truncate matrix entries to int

---
 lib/math_support.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index 918416c..56c36bc 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -204,7 +204,8 @@ void pluto_matrix_interchange_rows(PlutoMatrix *mat, int r1, int r2) {
 }
 
 void pluto_matrix_interchange_cols(PlutoMatrix *mat, int c1, int c2) {
-  int tmp, i;
+  int64_t tmp;
+  int i;
 
   for (i = 0; i < mat->nrows; i++) {
     tmp = mat->val[i][c1];
@@ -352,7 +353,7 @@ void pluto_matrix_normalize_row(PlutoMatrix *mat, int pos) {
 /* pos: 0-indexed */
 void gaussian_eliminate_var(PlutoMatrix *mat, int pos) {
   int r, r2, c;
-  int factor1, factor2;
+  int64_t factor1, factor2;
 
   for (r = 0; r < mat->nrows; r++) {
     if (mat->val[r][pos] != 0) {
@@ -645,7 +646,8 @@ char *pluto_affine_function_sprint(int64_t *func, int ndims,
  */
 int pluto_vector_is_parallel(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
                              int r2) {
-  int num, den, j;
+  int64_t num, den;
+  int j;
 
   assert(mat1->ncols == mat2->ncols);
 
@@ -676,7 +678,8 @@ int pluto_vector_is_parallel(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
 
 int pluto_vector_is_normal(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
                            int r2) {
-  int j, dot;
+  int64_t dot;
+  int j;
 
   assert(mat1->ncols == mat2->ncols);
 
-- 
2.43.0


From 29c006543053e3d88b5a3adbc34c89ab10b8e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:41 +0000
Subject: [PATCH 16/52] fix: take intermediate vertices outermost in the
 transitive closure

---
 lib/ddg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/ddg.c b/lib/ddg.c
index ad49d2f..259eb88 100644
--- a/lib/ddg.c
+++ b/lib/ddg.c
@@ -102,9 +102,9 @@ Graph *get_undirected_graph(const Graph *g) {
 /// Compute the transitive closure of the graph using Floyd-Warshall algorithm.
 void compute_transitive_closure(Graph *g) {
   int i, j, k;
-  for (i = 0; i < g->nVertices; i++) {
-    for (j = 0; j < g->nVertices; j++) {
-      for (k = 0; k < g->nVertices; k++) {
+  for (k = 0; k < g->nVertices; k++) {
+    for (i = 0; i < g->nVertices; i++) {
+      for (j = 0; j < g->nVertices; j++) {
         g->adj->val[i][j] =
             ((g->adj->val[i][j]) || (g->adj->val[i][k] && g->adj->val[k][j]));
       }
-- 
2.43.0


From 3bf417bc8db6fb568af47d21991f1feeffd9789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:57 +0000
Subject: [PATCH 17/52] fix: sum the distance bounds of connected components
 column by column

---
 lib/pluto.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index b6dee11..92c8092 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -752,7 +752,7 @@ PlutoConstraints *get_per_cc_obj_sum_constraints(PlutoProg *prog) {
   for (int i = 0; i < npar + 1; i++) {
     obj_sum_cst->val[i][i] = 1;
     for (int j = 1; j <= num_ccs; j++) {
-      obj_sum_cst->val[i][j + i] = -1;
+      obj_sum_cst->val[i][j * (npar + 1) + i] = -1;
     }
   }
   return obj_sum_cst;
-- 
2.43.0


From 026ac6641777460cb42551c2f8cefb14aecbde8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:37 +0000
Subject: [PATCH 18/52] fix: enlarge the global constraints when cuts add
 connected components

---
 lib/framework.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/framework.cpp b/lib/framework.cpp
index e0f94b9..fe0590e 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -399,6 +399,11 @@ PlutoConstraints *get_permutability_constraints(PlutoProg *prog) {
   if (options->per_cc_obj) {
     ncols += (npar + 1) * prog->ddg->num_ccs;
   }
+  /* The number of connected components grows as dependences are cut. */
+  if (prog->globcst && (int)prog->globcst->alloc_ncols < ncols) {
+    pluto_constraints_free(prog->globcst);
+    prog->globcst = NULL;
+  }
   if (!prog->globcst) {
     prog->globcst = pluto_constraints_alloc(total_cst_rows, ncols, context);
   }
-- 
2.43.0


From 3c4b05ca8b8ef06b00326d35a152329c9ecb1ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:02 +0000
Subject: [PATCH 19/52] fix: pluto_constraints_negate_constraint keeps the sign
 of the constant

---
 lib/constraints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index ec74a3b..aee456c 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1738,7 +1738,7 @@ void pluto_constraints_negate_constraint(PlutoConstraints *cst, int pos) {
   for (j = 0; j < cst->ncols - 1; j++) {
     cst->val[pos][j] = -cst->val[pos][j];
   }
-  cst->val[pos][cst->ncols - 1]--;
+  cst->val[pos][cst->ncols - 1] = -cst->val[pos][cst->ncols - 1] - 1;
 }
 
 /* Convert everything to >= 0 form; for all equalities, add a single extra
-- 
2.43.0


From a15d0a1c8ca6756b337dc621dc9e680020615d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:02 +0000
Subject: [PATCH 20/52] fix: gaussian elimination on a list removes the
 dimension once per element

---
 lib/constraints.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/constraints.c b/lib/constraints.c
index aee456c..89d64cc 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -2602,7 +2602,11 @@ void pluto_constraints_gaussian_eliminate(PlutoConstraints *cst, int pos) {
   }
   pluto_constraints_remove_row(cst, r);
 
+  /* Only this element here: the recursive call takes care of the rest */
+  PlutoConstraints *next = cst->next;
+  cst->next = NULL;
   pluto_constraints_remove_dim(cst, pos);
+  cst->next = next;
 
   if (cst->next != NULL)
     pluto_constraints_gaussian_eliminate(cst->next, pos);
-- 
2.43.0


From fed200681a9cdaf294ef84fdb1446ff0d376f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:02 +0000
Subject: [PATCH 21/52] fix: pluto_constraints_add_to_each resizes the rest of
 the list to the first element's rows

---
 lib/constraints.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 89d64cc..8c47c47 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -313,7 +313,8 @@ PlutoConstraints *pluto_constraints_add_to_each(PlutoConstraints *cst1,
   assert(cst1->ncols == cst2->ncols);
 
   if (cst1->nrows + cst2->nrows > cst1->alloc_nrows) {
-    pluto_constraints_resize(cst1, cst1->nrows + cst2->nrows, cst1->ncols);
+    pluto_constraints_resize_single(cst1, cst1->nrows + cst2->nrows,
+                                    cst1->ncols);
   } else {
     cst1->nrows = cst1->nrows + cst2->nrows;
   }
-- 
2.43.0


From b61a89c31588f37dd102eb7fddad0a18c852f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:02 +0000
Subject: [PATCH 22/52] fix: constant bounds of a dimension from equalities and
 non-unit coefficients

---
 lib/constraints.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 8c47c47..638056f 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1939,6 +1939,11 @@ pluto_constraints_unionize_simple(PlutoConstraints *cst1,
   return cst1;
 }
 
+static int64_t floor_div(int64_t a, int64_t b) {
+  int64_t q = a / b;
+  return (a % b != 0 && (a < 0) != (b < 0)) ? q - 1 : q;
+}
+
 /* Get lower bound for pos^th variable if it's a (single) constant: return 1
  * if constant, 0 otherwise */
 int pluto_constraints_get_const_lb(const PlutoConstraints *cnst, int pos,
@@ -1953,14 +1958,16 @@ int pluto_constraints_get_const_lb(const PlutoConstraints *cnst, int pos,
   retval = 0;
   *lb = INT_MIN;
   for (i = 0; i < cst->nrows; i++) {
-    if (cst->is_eq[i]) {
-      *lb = cst->val[i][cst->ncols - 1];
+    int64_t coeff = cst->val[i][0];
+    int64_t cterm = cst->val[i][cst->ncols - 1];
+    if (cst->is_eq[i] && coeff != 0) {
+      *lb = -cterm / coeff;
       retval = 1;
       break;
     }
-    if (!cst->is_eq[i] && cst->val[i][0] >= 1) {
+    if (!cst->is_eq[i] && coeff >= 1) {
       retval = 1;
-      *lb = PLMAX(*lb, -cst->val[i][cst->ncols - 1]);
+      *lb = PLMAX(*lb, -floor_div(cterm, coeff));
     }
   }
   pluto_constraints_free(cst);
@@ -1989,13 +1996,15 @@ int pluto_constraints_get_const_ub(const PlutoConstraints *cnst, int pos,
   retval = 0;
   *ub = LLONG_MAX;
   for (i = 0; i < cst->nrows; i++) {
-    if (cst->is_eq[i]) {
-      *ub = cst->val[i][cst->ncols - 1];
+    int64_t coeff = cst->val[i][0];
+    int64_t cterm = cst->val[i][cst->ncols - 1];
+    if (cst->is_eq[i] && coeff != 0) {
+      *ub = -cterm / coeff;
       retval = 1;
       break;
     }
-    if (!cst->is_eq[i] && cst->val[i][0] <= -1) {
-      *ub = PLMIN(*ub, cst->val[i][cst->ncols - 1]);
+    if (!cst->is_eq[i] && coeff <= -1) {
+      *ub = PLMIN(*ub, floor_div(cterm, -coeff));
       retval = 1;
     }
   }
-- 
2.43.0


From a4edf2e743257b66d8714f524798d1d188438b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:02 +0000
Subject: [PATCH 23/52] fix: difference of constraint lists with empty elements

---
 tool/constraints_polylib.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/tool/constraints_polylib.c b/tool/constraints_polylib.c
index 9916275..e95b8a5 100644
--- a/tool/constraints_polylib.c
+++ b/tool/constraints_polylib.c
@@ -124,12 +124,30 @@ PlutoConstraints *pluto_constraints_union(const PlutoConstraints *cst1,
   return ucst;
 }
 
+/* DomainDifference does not expect empty polyhedra in a domain of more than
+ * one: drop them (the last one stays if all are empty). */
+static Polyhedron *drop_empty(Polyhedron *pol) {
+  if (pol->next == NULL)
+    return pol;
+  pol->next = drop_empty(pol->next);
+  Polyhedron *next = pol->next;
+  if (emptyQ(pol)) {
+    Polyhedron_Free(pol);
+    return next;
+  }
+  if (emptyQ(next)) {
+    Polyhedron_Free(next);
+    pol->next = NULL;
+  }
+  return pol;
+}
+
 PlutoConstraints *pluto_constraints_difference(const PlutoConstraints *cst1,
                                                const PlutoConstraints *cst2) {
   assert(cst1->ncols == cst2->ncols);
 
-  Polyhedron *pol1 = pluto_constraints_to_polylib(cst1);
-  Polyhedron *pol2 = pluto_constraints_to_polylib(cst2);
+  Polyhedron *pol1 = drop_empty(pluto_constraints_to_polylib(cst1));
+  Polyhedron *pol2 = drop_empty(pluto_constraints_to_polylib(cst2));
   Polyhedron *pol3 = DomainDifference(pol1, pol2, 50);
 
   PlutoConstraints *diffcst = polylib_to_pluto_constraints(pol3, cst1->context);
-- 
2.43.0


From 0629e2a5a14cb2f973f4d637707fb17f4672102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:02 +0000
Subject: [PATCH 24/52] fix: pluto_constraints_union_isl passes no isl context

---
 lib/constraints_isl.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/constraints_isl.c b/lib/constraints_isl.c
index 85b40c2..e858f41 100644
--- a/lib/constraints_isl.c
+++ b/lib/constraints_isl.c
@@ -404,13 +404,15 @@ int64_t *pluto_constraints_lexmin_isl(const PlutoConstraints *cst, int negvar) {
 
 PlutoConstraints *pluto_constraints_union_isl(const PlutoConstraints *cst1,
                                               const PlutoConstraints *cst2) {
-  isl_set *set1 = isl_set_from_pluto_constraints(cst1, NULL);
-  isl_set *set2 = isl_set_from_pluto_constraints(cst2, NULL);
+  isl_ctx *ctx = isl_ctx_alloc();
+  isl_set *set1 = isl_set_from_pluto_constraints(cst1, ctx);
+  isl_set *set2 = isl_set_from_pluto_constraints(cst2, ctx);
   isl_set *set3 = isl_set_union(set1, set2);
 
   PlutoConstraints *ucst = isl_set_to_pluto_constraints(set3, cst1->context);
 
   isl_set_free(set3);
+  isl_ctx_free(ctx);
 
   return ucst;
 }
-- 
2.43.0


From cf2a4336593cce0c5ec7b2f7589176718799dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:42 +0000
Subject: [PATCH 25/52] fix: relations from constraints with coefficients
 beyond 32 bits

---
 lib/constraints_isl.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/constraints_isl.c b/lib/constraints_isl.c
index e858f41..2df4761 100644
--- a/lib/constraints_isl.c
+++ b/lib/constraints_isl.c
@@ -225,7 +225,15 @@ isl_basic_map_from_pluto_constraints(isl_ctx *ctx, const PlutoConstraints *cst,
     }
 
     for (unsigned j = 0; j < cst->ncols; ++j) {
-      *m = isl_mat_set_element_si(*m, row, j, cst->val[i][j]);
+      mpz_t tmp, one;
+      mpz_init(tmp);
+      mpz_init(one);
+      mpz_set_ui(one, 1);
+      mpz_set_sll(tmp, cst->val[i][j]);
+      isl_val *v = isl_val_from_gmp(ctx, tmp, one);
+      *m = isl_mat_set_element_val(*m, row, j, v);
+      mpz_clear(tmp);
+      mpz_clear(one);
     }
   }
 
-- 
2.43.0


From 8a4e26044be606945176d8555d7256bde7c7d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:10 +0000
Subject: [PATCH 26/52] fix: too large negative numbers saturate at the
 smallest 64-bit number

---
 lib/isl_support.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/isl_support.c b/lib/isl_support.c
index a37e731..c4c0612 100644
--- a/lib/isl_support.c
+++ b/lib/isl_support.c
@@ -144,10 +144,11 @@ long long isl_val_get_num_ll(__isl_keep isl_val *v) {
            "largest/smallest signed 64-bit number\n");
     sign = mpz_sgn(z);
     mpz_clear(z);
+    mpz_clear(tmp);
 
     /* 2^63-1 is the largest positive signed number for 64-bit */
     /* -2^63 is the largest negative signed number for 64-bit */
-    return sign ? (long long)((1ULL << 63) - 1) : (long long)((1ULL << 63));
+    return sign > 0 ? (long long)((1ULL << 63) - 1) : (long long)((1ULL << 63));
   }
 
   /* tmp = (lower 64 bits of r) */
-- 
2.43.0


From 1912a0d8b9c064dbaf8566ef8cd4878edab813df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:37 +0000
Subject: [PATCH 27/52] fix: parameters of domains and dependences are matched
 by name, not position

---
 lib/plutolib.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 261a0e3..0aa1f27 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -322,6 +322,24 @@ pluto_schedules_to_isl(PlutoProg *prog, __isl_take isl_space *space,
   return schedules;
 }
 
+/// Give the domains and dependences (and accesses, if there are any) the same
+/// parameters in the same order: the scheduler identifies them by position.
+static void align_params(isl_union_set **domains, isl_union_map **dependences,
+                         isl_union_map **reads, isl_union_map **writes) {
+  isl_union_map **maps[3] = {dependences, reads, writes};
+  /* Those of the domains come first; parameters of the others are appended */
+  for (int pass = 0; pass < 2; pass++) {
+    for (int i = 0; i < 3; i++) {
+      if (!maps[i] || !*maps[i])
+        continue;
+      *maps[i] = isl_union_map_align_params(*maps[i],
+                                            isl_union_set_get_space(*domains));
+      *domains = isl_union_set_align_params(*domains,
+                                            isl_union_map_get_space(*maps[i]));
+    }
+  }
+}
+
 /// Construct PlutoProg given domains and dependences in ISL structures.
 /// `reads' and `writes' are optional. PlutoAccesses are constructed when they
 /// are not set to NULL.
@@ -403,6 +421,7 @@ __isl_give isl_union_map *pluto_transform(__isl_take isl_union_set *domains,
                                           __isl_take isl_union_map *writes,
                                           PlutoContext *context) {
   isl_ctx *ctx = isl_union_set_get_ctx(domains);
+  align_params(&domains, &dependences, &reads, &writes);
   isl_space *space = isl_union_set_get_space(domains);
 
   PlutoProg *prog = pluto_prog_from_isl_domains_dependences(
@@ -484,6 +503,7 @@ static Remapping *
 pluto_schedule_and_get_remapping(__isl_take isl_union_set *domains,
                                  __isl_take isl_union_map *dependences,
                                  PlutoContext *context) {
+  align_params(&domains, &dependences, NULL, NULL);
   PlutoProg *prog = pluto_prog_from_isl_domains_dependences(
       domains, dependences, NULL, NULL, context);
 
@@ -512,6 +532,7 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
     Ploop ***ploops, unsigned *nploops, Remapping **remap,
     PlutoContext *context) {
   isl_ctx *ctx = isl_union_set_get_ctx(domains);
+  align_params(&domains, &dependences, NULL, NULL);
   isl_space *space = isl_union_set_get_space(domains);
 
   PlutoProg *prog = pluto_prog_from_isl_domains_dependences(
-- 
2.43.0


From 1f9925bcd85a565e465fd3434c94d0b7c2b8f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:55 +0000
Subject: [PATCH 28/52] fix: dependences with wrapped ranges whose array index
 needs a division

---
 lib/program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 391f1f6..9694006 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -374,8 +374,6 @@ static isl_stat basic_map_extract_dep(__isl_take isl_basic_map *bmap,
 
   stmts = info->stmts;
 
-  bmap = isl_basic_map_remove_divs(bmap);
-
   dep = info->deps[info->index];
 
   dep->id = info->index;
@@ -394,6 +392,8 @@ static isl_stat basic_map_extract_dep(__isl_take isl_basic_map *bmap,
     isl_space_free(space);
     space = isl_basic_map_get_space(bmap);
   }
+  /* Only now: dropping the wrapped range can leave divs as well */
+  bmap = isl_basic_map_remove_divs(bmap);
   dep->dest = atoi(isl_space_get_tuple_name(space, isl_dim_out) + 2);
   dep->dpolytope = isl_basic_map_to_pluto_constraints(bmap, info->context);
   dep->bounding_poly = pluto_constraints_dup(dep->dpolytope);
-- 
2.43.0


From 5096bdfd8e4c791234fa529790c8c4732ee103f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:17 +0000
Subject: [PATCH 29/52] fix: coalesce transitive dependences only when they
 were asked for

pluto_schedule() does not ask for them: with lastwriter and isldepcoalesce
both set, compute_deps_isl() dereferenced the null pointers.
---
 lib/program.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 9694006..ea2b405 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -689,8 +689,10 @@ void compute_deps_isl(__isl_keep isl_union_map *reads,
     *dep_waw = isl_union_map_coalesce(*dep_waw);
 
     if (options->lastwriter) {
-      *trans_dep_war = isl_union_map_coalesce(*trans_dep_war);
-      *trans_dep_waw = isl_union_map_coalesce(*trans_dep_waw);
+      if (trans_dep_war)
+        *trans_dep_war = isl_union_map_coalesce(*trans_dep_war);
+      if (trans_dep_waw)
+        *trans_dep_waw = isl_union_map_coalesce(*trans_dep_waw);
     }
   }
 }
-- 
2.43.0


From a9441c73ab5463d8985a4c5348b5d7856bd1b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:17 +0000
Subject: [PATCH 30/52] fix: do not lose a statement's loop when diamond tiling

The hyperplane found for concurrent start can be constant, or depend on the
others, for a statement of lower dimensionality. Such a statement is no longer
part of the band that is tiled; the evicted hyperplane was put back among its
tile dimensions, giving illegal schedules, or the search for hyperplanes failed
an assertion.
---
 lib/pluto.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index 92c8092..40310c0 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2268,12 +2268,30 @@ bool pluto_diamond_tile(PlutoProg *prog) {
         Stmt *stmt = band->loop->stmts[i];
         /* Since we do concurrent start only once */
         assert(stmt->evicted_hyp == NULL);
+        unsigned nind = pluto_stmt_get_num_ind_hyps(stmt);
+        bool is_loop = pluto_is_hyperplane_loop(stmt, evict_pos);
         stmt->evicted_hyp = pluto_matrix_alloc(1, stmt->trans->ncols, context);
         copy_hyperplane(stmt->evicted_hyp->val[0], stmt->trans->val[evict_pos],
                         stmt->trans->ncols);
         copy_hyperplane(stmt->trans->val[evict_pos],
                         cone_complement_hyps[i]->val[0], stmt->trans->ncols);
         stmt->evicted_hyp_pos = evict_pos;
+        /* A statement for which the new hyperplane is a constant or depends on
+         * the others would not be tiled along with the rest of the band */
+        if (pluto_stmt_get_num_ind_hyps(stmt) < nind ||
+            (is_loop && pluto_is_hyperplane_scalar(stmt, evict_pos)))
+          conc_start_enabled_band = 0;
+      }
+      if (!conc_start_enabled_band) {
+        IF_DEBUG(printf("[pluto] Concurrent start hyperplanes not usable\n"));
+        for (i = 0; i < band->loop->nstmts; i++) {
+          Stmt *stmt = band->loop->stmts[i];
+          copy_hyperplane(stmt->trans->val[evict_pos],
+                          stmt->evicted_hyp->val[0], stmt->trans->ncols);
+          pluto_matrix_free(stmt->evicted_hyp);
+          stmt->evicted_hyp = NULL;
+          stmt->evicted_hyp_pos = -1;
+        }
       }
     }
 
-- 
2.43.0


From a3d23032bc3edc3724e59b55927c38d8711f90ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:59 +0000
Subject: [PATCH 31/52] fix: keep statements with a scalar dimension in the
 loops they are fused with

A statement with a constant at the depth of a loop of other statements it is
fused with was left out of that loop, and so of the band that is tiled: its
dimensions no longer lined up with those of the others, and tiled schedules
were illegal.
---
 lib/polyloop.c | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index bdb8da7..dcc2552 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -135,39 +135,21 @@ Ploop **pluto_get_loops_under(Stmt **stmts, unsigned nstmts, unsigned depth,
   loop = (i < nstmts);
 
   if (loop) {
-    /* Even if one of the statements is a loop at this level,
-     * all of the statements are treated as being fused with it;
-     * check any limitations of this later */
-    unsigned num_inner, loop_nstmts, i;
+    /* Even if one of the statements is a loop at this level, all of the
+     * statements are fused with it: those with a scalar dimension here are part
+     * of the loop as well (they are executed in one of its iterations) */
+    unsigned num_inner;
     Ploop **inner_loops, *this_loop;
     this_loop = pluto_loop_alloc();
     this_loop->stmts = (Stmt **)malloc(nstmts * sizeof(Stmt *));
-
-    loop_nstmts = 0;
-    for (i = 0; i < nstmts; i++) {
-      if (!pluto_is_hyperplane_scalar(stmts[i], depth)) {
-        memcpy(this_loop->stmts + loop_nstmts, stmts + i, sizeof(Stmt *));
-        loop_nstmts++;
-      }
-    }
-    this_loop->nstmts = loop_nstmts;
+    memcpy(this_loop->stmts, stmts, nstmts * sizeof(Stmt *));
+    this_loop->nstmts = nstmts;
     this_loop->depth = depth;
-    /* Even with H_LOOP, some statements can have a scalar dimension - at
-     * least one of the statements is a real loop (doesn't happen often
-     * though */
     /* TODO: What if the hyperplane was 0 for S1, 1 for S2, i for S3 */
-    /* The filter (first arg) for call below is not changed since if a
-     * stmt has a scalar dimension here, it may still be fused with
-     * other ones which do not have a scalar dimension here */
     inner_loops =
         pluto_get_loops_under(stmts, nstmts, depth + 1, prog, &num_inner);
-    if (loop_nstmts >= 1) {
-      inner_loops = pluto_loops_cat(inner_loops, num_inner, &this_loop, 1);
-      *num = num_inner + 1;
-    } else {
-      pluto_loop_free(this_loop);
-      *num = num_inner;
-    }
+    inner_loops = pluto_loops_cat(inner_loops, num_inner, &this_loop, 1);
+    *num = num_inner + 1;
     all_loops = inner_loops;
   } else {
     /* All statements have a scalar dimension at this depth */
-- 
2.43.0


From ee47fa426f9dd33d98177f4f8ddd60d0575f58f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:59 +0000
Subject: [PATCH 32/52] fix: place constants in their tile where other
 statements have a loop

A constant of one statement at a level that is a loop for others was copied to
the tile dimension, while loops were divided by the tile size there: the
statement was ordered after instances that depend on it.
---
 lib/tile.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/tile.c b/lib/tile.c
index b758662..1fb213a 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -158,6 +158,11 @@ void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
     num_domain_supernodes[s] = 0;
   }
 
+  /* Levels at which a statement of the band has a loop */
+  bool tiled_as_loop[band->width];
+  for (unsigned depth = firstD; depth <= lastD; depth++)
+    tiled_as_loop[depth - firstD] = !pluto_is_depth_scalar(band->loop, depth);
+
   for (unsigned depth = firstD; depth <= lastD; depth++) {
     for (unsigned s = 0; s < band->loop->nstmts; s++) {
       Stmt *stmt = band->loop->stmts[s];
@@ -238,6 +243,14 @@ void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
               stmt->trans
                   ->val[firstD + (depth - firstD) + 1 + (depth - firstD)][j];
         }
+        /* Where other statements have a loop that is tiled, the instances are
+         * in the tile that the constant lies in. */
+        if (tiled_as_loop[depth - firstD]) {
+          int64_t c = stmt->trans->val[depth][stmt->dim + npar];
+          int64_t size = tile_sizes[depth - firstD];
+          stmt->trans->val[depth][stmt->dim + npar] =
+              (c >= 0) ? c / size : -((-c + size - 1) / size);
+        }
       }
       stmt->num_tiled_loops++;
       stmt->first_tile_dim = firstD;
-- 
2.43.0


From 1c2119ed76b98b48e3cc858b545a4bbdbadc5b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:52 +0000
Subject: [PATCH 33/52] fix: zero padding coefficients of the target statement
 of a dependence

The target's padding dimensions were skipped when the source statement's
number happened to equal the column offset of the target.
---
 lib/framework.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/framework.cpp b/lib/framework.cpp
index fe0590e..26a1724 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -257,7 +257,7 @@ static void compute_permutability_constraints_dep(Dep *dep, PlutoProg *prog) {
         cst->val[j][src_offset + k] = 0;
       }
     }
-    if (src_stmt != dest_offset && !stmts[dest_stmt]->is_orig_loop[k]) {
+    if (src_stmt != dest_stmt && !stmts[dest_stmt]->is_orig_loop[k]) {
       for (unsigned j = 0; j < cst->nrows; j++) {
         cst->val[j][dest_offset + k] = 0;
       }
@@ -602,7 +602,7 @@ PlutoConstraints *get_feautrier_schedule_constraints_dep(Dep *dep,
         cst->val[j][src_offset + k] = 0;
       }
     }
-    if (src_stmt != dest_offset && !stmts[dest_stmt]->is_orig_loop[k]) {
+    if (src_stmt != dest_stmt && !stmts[dest_stmt]->is_orig_loop[k]) {
       for (unsigned j = 0; j < cst->nrows; j++) {
         cst->val[j][dest_offset + k] = 0;
       }
-- 
2.43.0


From d0cddd5fe018389e528144465208acdecf461c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:54 +0000
Subject: [PATCH 34/52] fix: use a dependence's schedule constraints before
 freeing them

---
 lib/framework.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/framework.cpp b/lib/framework.cpp
index 26a1724..f3f58c6 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -650,7 +650,6 @@ get_feautrier_schedule_constraints(PlutoProg *prog,
 
     pluto_constraints_add(fcst, fcst_d);
     assert(fcst->nrows >= fcst_d->nrows);
-    pluto_constraints_free(fcst_d);
 
     if (fcst->nrows >= CONSTRAINTS_SIMPLIFY_THRESHOLD + (1000 * inc) &&
         fcst->nrows - fcst_d->nrows <
@@ -663,6 +662,7 @@ get_feautrier_schedule_constraints(PlutoProg *prog,
         inc++;
       }
     }
+    pluto_constraints_free(fcst_d);
   }
   pluto_constraints_simplify(fcst);
 
-- 
2.43.0


From 9668abf17c9f6cc2ca5cb15093188b6877f43d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:44 +0000
Subject: [PATCH 35/52] fix: index-set splitting must not keep freed
 dependences

---
 lib/iss.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/iss.c b/lib/iss.c
index 475b786..4585928 100644
--- a/lib/iss.c
+++ b/lib/iss.c
@@ -377,12 +377,10 @@ void pluto_update_deps_after_iss(PlutoProg *prog, PlutoConstraints **cuts,
     pluto_dep_free(dep);
   }
 
-  if (num_iss_deps >= 1) {
-    free(prog->deps);
+  free(prog->deps);
 
-    prog->deps = iss_deps;
-    prog->ndeps = num_iss_deps;
-  }
+  prog->deps = iss_deps;
+  prog->ndeps = num_iss_deps;
 }
 
 /*
-- 
2.43.0


From 09d022b78173c1c5bcace2494b9648def8547519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:56 +0000
Subject: [PATCH 36/52] fix: keep the fusion conflict matrices of DFP per
 thread

Two threads scheduling with typed or hybrid fusion overwrote and freed each
other's matrices.
---
 lib/framework-dfp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 0a0d528..ba9f93a 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -36,8 +36,8 @@ double *pluto_fusion_constraints_feasibility_solve(PlutoConstraints *cst,
 bool colour_scc(int scc_id, int *colour, int c, int stmt_pos, int pv,
                 PlutoProg *prog);
 void pluto_print_colours(int *colour, PlutoProg *prog);
-PlutoMatrix *par_preventing_adj_mat;
-PlutoMatrix *dep_dist_mat;
+static __thread PlutoMatrix *par_preventing_adj_mat;
+static __thread PlutoMatrix *dep_dist_mat;
 
 static double rtclock() {
   struct timezone Tzp;
-- 
2.43.0


From 998e8e8b2ca5163efd2d844aed8c7d24746703c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:37 +0000
Subject: [PATCH 37/52] fix: release the abandoned transformation when
 scheduling fails

---
 lib/pluto.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 40310c0..fbe1872 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1808,11 +1808,16 @@ int pluto_auto_transform(PlutoProg *prog) {
                    "transformation (if they exist)\n");
             /* Restore original ones */
             for (i = 0; i < nstmts; i++) {
+              pluto_matrix_free(stmts[i]->trans);
+              free(stmts[i]->hyp_types);
               stmts[i]->trans = orig_trans[i];
               stmts[i]->hyp_types = orig_hyp_types[i];
-              prog->num_hyperplanes = orig_num_hyperplanes;
-              prog->hProps = orig_hProps;
             }
+            free(prog->hProps);
+            prog->num_hyperplanes = orig_num_hyperplanes;
+            prog->hProps = orig_hProps;
+            free(orig_trans);
+            free(orig_hyp_types);
             return 1;
           }
         }
-- 
2.43.0


From a04d6ddaf5f8f81c86d4f68b1253162b56ededed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:37 +0000
Subject: [PATCH 38/52] fix: free the satisfaction vector of dependences
 without directions

---
 lib/program.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index ea2b405..62bba76 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -330,12 +330,8 @@ void pluto_dep_free(Dep *dep) {
   pluto_constraints_free(dep->dpolytope);
   pluto_constraints_free(dep->bounding_poly);
   pluto_constraints_free(dep->depsat_poly);
-  if (dep->dirvec) {
-    free(dep->dirvec);
-  }
-  if (dep->dirvec) {
-    free(dep->satvec);
-  }
+  free(dep->dirvec);
+  free(dep->satvec);
   pluto_constraints_free(dep->cst);
   pluto_constraints_free(dep->bounding_cst);
   free(dep);
-- 
2.43.0


From 7d5868df24c7d8fdd73dfbe3e21c59a0651540e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:37 +0000
Subject: [PATCH 39/52] fix: free the parameter and statement arrays of
 programs without any

---
 lib/program.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 62bba76..ace782a 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -802,17 +802,13 @@ void pluto_prog_free(PlutoProg *prog) {
   for (int i = 0; i < prog->npar; i++) {
     free(prog->params[i]);
   }
-  if (prog->npar >= 1) {
-    free(prog->params);
-  }
+  free(prog->params);
 
   /* Statements */
   for (unsigned i = 0; i < prog->nstmts; i++) {
     pluto_stmt_free(prog->stmts[i]);
   }
-  if (prog->nstmts >= 1) {
-    free(prog->stmts);
-  }
+  free(prog->stmts);
 
   pluto_constraints_free(prog->param_context);
   pluto_constraints_free(prog->codegen_context);
-- 
2.43.0


From ee39a770d985726ec8a34dc6bfff0c382539e696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:37 +0000
Subject: [PATCH 40/52] fix: close .fst and .precut

---
 lib/pluto.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index fbe1872..3ec1594 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -899,6 +899,7 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
       printf("You have an .fst in your directory that is invalid for this "
              "source\n");
       printf("No fusion/distribution forced\n");
+      fclose(cutFp);
       return false;
     }
 
@@ -1017,6 +1018,7 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
         dep_satisfaction_update(prog, prog->num_hyperplanes - 1);
         ddg_update(ddg, prog);
       }
+      fclose(precut);
       return true;
     }
 
-- 
2.43.0


From 1f99c3c0f7eb0b6121bd9b359a66d98ec20ec9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:37 +0000
Subject: [PATCH 41/52] fix: free the faces when diamond tiling is given up

---
 lib/pluto.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index 3ec1594..8d46ea4 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2233,6 +2233,7 @@ bool pluto_diamond_tile(PlutoProg *prog) {
     }
     if (s == band->loop->nstmts) {
       printf("row normal\n");
+      pluto_matrix_free(conc_start_faces);
       continue;
     }
 
-- 
2.43.0


From ad26f8c2bf53f4b713f2b151277eb63c8616822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:37 +0000
Subject: [PATCH 42/52] fix: free read-after-read dependences that
 pluto_schedule does not use

---
 lib/plutolib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 0aa1f27..8b2e6c0 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -468,6 +468,8 @@ __isl_give isl_union_map *pluto_schedule(__isl_take isl_union_map *schedules,
   compute_deps_isl(reads, writes, schedules, empty, &dep_raw, &dep_war,
                    &dep_waw, &dep_rar, NULL, NULL, options);
   isl_union_map_free(empty);
+  if (options->rar)
+    isl_union_map_free(dep_rar);
 
   isl_union_map *dependences = isl_union_map_union(dep_raw, dep_war);
   dependences = isl_union_map_union(dependences, dep_waw);
-- 
2.43.0


From d756239b34a1ae6e97a21c8c6934a3f64776f8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:37 +0000
Subject: [PATCH 43/52] fix: free the loops considered in
 make_parallel_loop_innermost

---
 lib/post_transform.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index 7995386..72d0435 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -423,11 +423,10 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
       innermost_loop_depth = loops[i]->depth;
     }
   }
-  if (nploops == 0) {
-    return false;
-  }
-
-  Ploop *best_loop = get_best_vectorizable_loop(par_loops, nploops, prog);
+  bool retval = false;
+  Ploop *best_loop =
+      nploops == 0 ? NULL
+                   : get_best_vectorizable_loop(par_loops, nploops, prog);
   if (best_loop && !pluto_loop_is_innermost(best_loop, prog)) {
     IF_DEBUG(printf("[pluto] intra_tile_opt: loop to be made innermost: "););
     pluto_loop_print(best_loop);
@@ -435,9 +434,12 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
     bool move_across_scalar_hyperplanes = true;
     pluto_make_innermost_loop(best_loop, innermost_loop_depth + 1,
                               move_across_scalar_hyperplanes, prog);
-    return true;
+    retval = true;
   }
-  return false;
+  /* The loops in par_loops are those in loops */
+  free(par_loops);
+  pluto_loops_free(loops, nloops);
+  return retval;
 }
 
 /// Optimize the intra-tile loop order for locality and vectorization.
-- 
2.43.0


From 58c59369ce31b184887482dcb28ec3ce5c7ccd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:37 +0000
Subject: [PATCH 44/52] fix: free the access function of scalars

---
 lib/post_transform.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index 72d0435..78d154c 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -35,8 +35,11 @@ int has_spatial_reuse(Stmt *stmt, PlutoAccess *acc, int depth) {
   assert(depth <= (int)newacc->ncols - 1);
 
   /* Scalars */
-  if (newacc->nrows == 0)
+  if (newacc->nrows == 0) {
+    pluto_matrix_free(newacc);
+    free(divs);
     return 0;
+  }
 
   for (int i = 0; i < (int)newacc->nrows - 1; i++) {
     /* No spatial reuse when the func is varying at a non-innermost dim */
-- 
2.43.0


From 4ec20346e3ea944d8bdabaf0e76094be6a53bdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:37 +0000
Subject: [PATCH 45/52] fix: one-to-many accesses, and use of a relation given
 away

---
 lib/program.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index ace782a..d9d872a 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -522,13 +522,13 @@ isl_basic_map_extract_access_func(__isl_take isl_basic_map *bmap, void *user) {
       isl_pw_aff_free(pw_aff);
     } else {
       // Multi-valued map for access function? Setting this to zero.
-      pluto_matrix_add_row(acc_mat, 0);
-      pluto_matrix_zero_row(acc_mat, 0);
+      pluto_matrix_add_row(acc_mat, acc_mat->nrows);
+      pluto_matrix_zero_row(acc_mat, acc_mat->nrows - 1);
     }
   }
   (*info->accs)[info->index] = (PlutoAccess *)malloc(sizeof(PlutoAccess));
   PlutoAccess *acc = (*info->accs)[info->index];
-  acc->name = strdup(isl_basic_map_get_tuple_name(bmap, isl_dim_out));
+  acc->name = strdup(isl_map_get_tuple_name(map, isl_dim_out));
   acc->mat = acc_mat;
   info->index++;
   isl_map_free(map);
-- 
2.43.0


From d74397d03b3bdc5da05638a6c7e9bc4afc8e326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:03 +0000
Subject: [PATCH 46/52] fix: free the loops considered for vectorization when
 finding tile sizes

---
 lib/tile_size_selection_model.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index 20c62a7..3ed1b3a 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -452,14 +452,16 @@ static std::vector<bool> get_vectorizable_dimensions(Band *band,
       pluto_loop_print(best_loop);
     }
 
+    unsigned best_depth = best_loop->depth;
+    pluto_loops_free(loops, nloops);
+
     // Do not select outermost parallel loop
-    if (best_loop->depth - band->loop->depth == 0)
+    if (best_depth - band->loop->depth == 0)
       continue;
     // Do not assign vector tile sizes to concurrent start dimensions.
-    if (prog->is_diamond_tiled && best_loop->depth - band->loop->depth <= 1)
+    if (prog->is_diamond_tiled && best_depth - band->loop->depth <= 1)
       continue;
-    vectorizableDims[best_loop->depth - depth] = true;
-    pluto_loops_free(loops, nloops);
+    vectorizableDims[best_depth - depth] = true;
   }
   pluto_bands_free(ibands, num_fused_bands);
   return vectorizableDims;
-- 
2.43.0


From 1ec9341ce635bfb5ea0df84e055c485041db3a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:00 +0000
Subject: [PATCH 47/52] fix: intra-tile loops of statements fused with a loop's
 iteration are permuted together

---
 lib/post_transform.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index 78d154c..2dbfbd2 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -290,9 +290,11 @@ Band **get_per_stmt_band(Band *band, unsigned *nstmt_bands) {
 
 /// Assumes that all bands in per_stmt_bands have the same width and begin at
 /// the same depth. Returns true if the statements in band b1 and b2 are fused
-/// in the tile space.
-bool are_stmts_fused_in_band(Band **per_stmt_bands, int b1, int b2,
-                             int num_tiled_levels) {
+/// in the tile space. A dimension distributes statements only if it is scalar
+/// for all of them; otherwise, those for which it is scalar are executed in one
+/// of the iterations of the loop that the others have.
+bool are_stmts_fused_in_band(Band **per_stmt_bands, unsigned nbands, int b1,
+                             int b2, int num_tiled_levels) {
 
   /* Assumptions of this routine. */
   assert(per_stmt_bands[b1]->loop->depth == per_stmt_bands[b2]->loop->depth &&
@@ -306,7 +308,12 @@ bool are_stmts_fused_in_band(Band **per_stmt_bands, int b1, int b2,
   Stmt *stmt2 = per_stmt_bands[b2]->loop->stmts[0];
 
   for (unsigned i = band_begin; i < band_end; i++) {
-    if (!pluto_is_depth_scalar(per_stmt_bands[b1]->loop, i)) {
+    unsigned b;
+    for (b = 0; b < nbands; b++) {
+      if (!pluto_is_depth_scalar(per_stmt_bands[b]->loop, i))
+        break;
+    }
+    if (b < nbands) {
       continue;
     }
     int col1 = stmt1->trans->ncols - 1;
@@ -360,7 +367,8 @@ Band **fuse_per_stmt_bands(Band **per_stmt_bands, unsigned nbands,
         continue;
       /* If the statements in the bands i and j are not fused, then do not merge
        * the bands. */
-      if (!are_stmts_fused_in_band(per_stmt_bands, i, j, num_tiled_levels)) {
+      if (!are_stmts_fused_in_band(per_stmt_bands, nbands, i, j,
+                                   num_tiled_levels)) {
         IF_DEBUG(
             printf("Stmts in bands %d and %d are distributed in tile space\n",
                    i, j););
-- 
2.43.0


From 7a5b95acd71168f2426dfdb5bb3a2d2089e92255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:08 +0000
Subject: [PATCH 48/52] fix: gcd and lcm of numbers whose product is beyond 64
 bits

---
 lib/math_support.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index 56c36bc..0d80215 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -390,9 +390,9 @@ void gaussian_eliminate(PlutoMatrix *mat, int start, int num_elim) {
 }
 
 int64_t lcm(int64_t a, int64_t b) {
-  if (a * b == 0)
+  if (a == 0 || b == 0)
     return 0;
-  return (a * b) / gcd(a, b);
+  return a / gcd(a, b) * b;
 }
 
 /* Assuming both args are not zero */
@@ -401,7 +401,7 @@ int64_t gcd(int64_t a, int64_t b) {
   b = llabs(b);
 
   /* If at least one of them is zero */
-  if (a * b == 0)
+  if (a == 0 || b == 0)
     return a + b;
 
   if (a == b)
-- 
2.43.0


From 8275f15c0cc396a957a91af8b3cc75af62b97b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:08 +0000
Subject: [PATCH 49/52] fix: elimination factors and constant lower bounds
 beyond 32 bits

---
 lib/constraints.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 638056f..72d1ad3 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1956,7 +1956,7 @@ int pluto_constraints_get_const_lb(const PlutoConstraints *cnst, int pos,
   pluto_constraints_project_out_single(cst, 1, cst->ncols - 2);
 
   retval = 0;
-  *lb = INT_MIN;
+  *lb = LLONG_MIN;
   for (i = 0; i < cst->nrows; i++) {
     int64_t coeff = cst->val[i][0];
     int64_t cterm = cst->val[i][cst->ncols - 1];
@@ -2575,7 +2575,7 @@ void fourier_motzkin_eliminate_smart(PlutoConstraints *cst, unsigned pos) {
 
 void pluto_constraints_gaussian_eliminate(PlutoConstraints *cst, int pos) {
   int r, r2, c;
-  int factor1, factor2;
+  int64_t factor1, factor2;
 
   assert(pos >= 0);
   assert(pos <= cst->ncols - 2);
-- 
2.43.0


From f6c79b22f1c2df96ca46df8fde20d17ad1716f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:17 +0000
Subject: [PATCH 50/52] fix: keep bounding sets and transitive dependences in
 step when adding a parameter or removing a dimension

---
 lib/program.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/program.cpp b/lib/program.cpp
index d9d872a..3e7a26c 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -964,6 +964,17 @@ void pluto_prog_add_param(PlutoProg *prog, const char *param, int pos) {
     pluto_constraints_add_dim(
         prog->deps[i]->dpolytope,
         prog->deps[i]->dpolytope->ncols - 1 - prog->npar + pos, NULL);
+    pluto_constraints_add_dim(
+        prog->deps[i]->bounding_poly,
+        prog->deps[i]->bounding_poly->ncols - 1 - prog->npar + pos, NULL);
+  }
+  for (int i = 0; i < prog->ntransdeps; i++) {
+    pluto_constraints_add_dim(
+        prog->transdeps[i]->dpolytope,
+        prog->transdeps[i]->dpolytope->ncols - 1 - prog->npar + pos, NULL);
+    pluto_constraints_add_dim(
+        prog->transdeps[i]->bounding_poly,
+        prog->transdeps[i]->bounding_poly->ncols - 1 - prog->npar + pos, NULL);
   }
   pluto_constraints_add_dim(prog->param_context,
                             prog->param_context->ncols - 1 - prog->npar + pos,
@@ -1118,10 +1129,13 @@ void pluto_stmt_remove_dim(Stmt *stmt, unsigned pos, PlutoProg *prog) {
   for (int i = 0; i < prog->ndeps; i++) {
     if (prog->deps[i]->src == stmt->id) {
       pluto_constraints_remove_dim(prog->deps[i]->dpolytope, pos);
+      pluto_constraints_remove_dim(prog->deps[i]->bounding_poly, pos);
     }
     if (prog->deps[i]->dest == stmt->id) {
       pluto_constraints_remove_dim(prog->deps[i]->dpolytope,
                                    prog->stmts[prog->deps[i]->src]->dim + pos);
+      pluto_constraints_remove_dim(prog->deps[i]->bounding_poly,
+                                   prog->stmts[prog->deps[i]->src]->dim + pos);
     }
   }
 
@@ -1129,11 +1143,15 @@ void pluto_stmt_remove_dim(Stmt *stmt, unsigned pos, PlutoProg *prog) {
     assert(prog->transdeps[i] != NULL);
     if (prog->transdeps[i]->src == stmt->id) {
       pluto_constraints_remove_dim(prog->transdeps[i]->dpolytope, pos);
+      pluto_constraints_remove_dim(prog->transdeps[i]->bounding_poly, pos);
     }
     if (prog->transdeps[i]->dest == stmt->id) {
       pluto_constraints_remove_dim(prog->transdeps[i]->dpolytope,
                                    prog->stmts[prog->transdeps[i]->src]->dim +
                                        pos);
+      pluto_constraints_remove_dim(prog->transdeps[i]->bounding_poly,
+                                   prog->stmts[prog->transdeps[i]->src]->dim +
+                                       pos);
     }
   }
 }
-- 
2.43.0


From c4f6f632e161169b13a2654f50e86a5dee0cd999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:17 +0000
Subject: [PATCH 51/52] fix: bounds of a strip-mined loop include the constant
 column

---
 lib/transforms.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/transforms.c b/lib/transforms.c
index afaecbf..d5be8f9 100644
--- a/lib/transforms.c
+++ b/lib/transforms.c
@@ -43,17 +43,17 @@ void pluto_stripmine(Stmt *stmt, int dim, int factor, char *supernode,
   pluto_constraints_add_inequality(domain);
   domain->val[domain->nrows - 1][0] = -factor;
   assert(stmt->trans->ncols == domain->ncols);
-  for (int i = 1; i < (int)stmt->trans->ncols - 1; i++) {
+  for (int i = 1; i < (int)stmt->trans->ncols; i++) {
     domain->val[domain->nrows - 1][i] = stmt->trans->val[dim + 1][i];
   }
 
   pluto_constraints_add_inequality(domain);
   domain->val[domain->nrows - 1][0] = factor;
   assert(stmt->trans->ncols == domain->ncols);
-  for (int i = 1; i < (int)stmt->trans->ncols - 1; i++) {
+  for (int i = 1; i < (int)stmt->trans->ncols; i++) {
     domain->val[domain->nrows - 1][i] = -stmt->trans->val[dim + 1][i];
   }
-  domain->val[domain->nrows - 1][stmt->trans->ncols] += factor;
+  domain->val[domain->nrows - 1][stmt->trans->ncols - 1] += factor - 1;
 }
 
 /// Interchange loops for a stmt.
-- 
2.43.0


From ff804d9967530bb07f7615679a39458b692f6017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:17 +0000
Subject: [PATCH 52/52] fix: removing a dimension moves every name, also those
 that are not set

---
 lib/constraints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 72d1ad3..96816cd 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1546,7 +1546,7 @@ void pluto_constraints_remove_dim(PlutoConstraints *cst, int pos) {
   }
 
   for (int j = pos; j < (int)cst->ncols - 1; j++) {
-    if (cst->names && j < (int)cst->ncols - 2 && cst->names[j + 1]) {
+    if (cst->names && j < (int)cst->ncols - 2) {
       cst->names[j] = cst->names[j + 1];
     }
   }
-- 
2.43.0

