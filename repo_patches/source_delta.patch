From f31dd315de1158469de565cf44f07df0b800759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:15 +0000
Subject: [PATCH 01/32] fix: keep the common denominator of existentially
 quantified divisions

isl_aff_get_coefficient_val returns reduced fractions, so taking only
their numerators turned e.g. floor((2*i+3*j)/6) into floor((i+j)/6).
---
 source/isl/constraints.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/isl/constraints.c b/source/isl/constraints.c
index acd6312..de06f6d 100644
--- a/source/isl/constraints.c
+++ b/source/isl/constraints.c
@@ -584,8 +584,9 @@ static struct clast_expr *div_expr(CloogConstraint *constraint, int pos,
 
 		v = cloog_constraint_variable_expr(constraint, 1 + i, names);
 
-		/* We are interested only in the numerator */
-		cloog_int_set_si(cint, isl_val_get_num_si(c));
+		/* Express the coefficient over the common denominator */
+		c = isl_val_mul(c, isl_aff_get_denominator_val(div));
+		isl_val_to_cloog_int(c, &cint);
 		r->elts[nb_elts++] = &new_clast_term(cint, v)->expr;
 
 		isl_val_free(c);
@@ -593,8 +594,9 @@ static struct clast_expr *div_expr(CloogConstraint *constraint, int pos,
 
 	c = isl_aff_get_constant_val(div);
 	if (!isl_val_is_zero(c)) {
-		/* We are interested only in the numerator */
-		cloog_int_set_si(cint, isl_val_get_num_si(c));
+		/* Express the constant over the common denominator */
+		c = isl_val_mul(c, isl_aff_get_denominator_val(div));
+		isl_val_to_cloog_int(c, &cint);
 		r->elts[nb_elts++] = &new_clast_term(cint, NULL)->expr;
 	}
 	isl_val_free(c);
-- 
2.43.0


From d553ea24f73673659842922fe535d4654d5e1a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:15 +0000
Subject: [PATCH 02/32] fix: drop the modulo constraints on the iterator from
 the innermost loop domain

When the domain had exactly "level" dimensions it was used unprojected, so
separation worked on lattices: guards could be simplified away against a
loop that does not implement them and disjoint lattices were scanned one
after the other, out of order.
---
 source/loop.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index a019ffa..ad6fb27 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -731,10 +731,7 @@ CloogLoop * cloog_loop_project(CloogLoop * loop, int level)
   copy = cloog_loop_alloc(loop->state, loop->domain, loop->otl, loop->stride,
 			  loop->block, loop->inner, NULL);
 
-  if (cloog_domain_dimension(loop->domain) == level)
-  new_domain = cloog_domain_copy(loop->domain) ;  
-  else
-    new_domain = cloog_domain_project(loop->domain, level);
+  new_domain = cloog_domain_project(loop->domain, level);
 
   new_loop = cloog_loop_alloc(loop->state, new_domain, 0, NULL,
 			      NULL, copy, NULL);
-- 
2.43.0


From beed48fa3f88682284958e48cf0446ca919c4f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:15 +0000
Subject: [PATCH 03/32] fix: do not block statements with different scalar
 dates inside iterator loops

When scalar scattering dimensions differ, the statements may only be merged
if the original iterators are determined by the scattering dimensions.
---
 source/loop.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/source/loop.c b/source/loop.c
index ad6fb27..b47102e 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -2119,6 +2119,8 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
     int i;
     int cst = 0;
     int dim = 0;
+    int n;
+    int differ;
 
     for (i = 0; i < nb_scattdims; ++i) {
 	if (!scaldims[i]) {
@@ -2129,6 +2131,7 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
 	    break;
 	cst++;
     }
+    differ = i < nb_scattdims;
     for (i = i + 1; i < nb_scattdims; ++i) {
 	if (scaldims[i])
 	    continue;
@@ -2140,6 +2143,28 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
 	 */
 	dim++;
     }
+    /* If the constant dimensions differ, then the remaining (original)
+     * iterators should be completely determined by the scattering dimensions,
+     * since the blocks are going to be merged inside their loops.
+     */
+    n = cloog_domain_dimension(a->domain);
+    if (differ && dim < n) {
+	CloogConstraintSet *constraints;
+	CloogConstraint *eq;
+
+	if (!cloog_domain_isconvex(a->domain))
+	    return 0;
+	constraints = cloog_domain_constraints(a->domain);
+	for (; dim < n; ++dim) {
+	    eq = cloog_constraint_set_defining_equality(constraints, dim + 1);
+	    if (!cloog_constraint_is_valid(eq))
+		break;
+	    cloog_constraint_release(eq);
+	}
+	cloog_constraint_set_free(constraints);
+	if (dim < n)
+	    return 0;
+    }
     return 1;
 }
 
-- 
2.43.0


From fce3860c29ec4679de348746eea3002872571e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:19 +0000
Subject: [PATCH 04/32] fix: print bounded modulo guards in Fortran with a
 nonnegative remainder

The remainder of Fortran's MOD is negative for a negative dividend, so
that guards like MOD(I,3) <= 1 always held there.
---
 source/pprint.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/source/pprint.c b/source/pprint.c
index 6d85a5d..34b4449 100644
--- a/source/pprint.c
+++ b/source/pprint.c
@@ -265,9 +265,28 @@ void pprint_expr(struct cloogoptions *i, FILE *dst, struct clast_expr *e)
     }
 }
 
+/* Print a modulo whose value is going to be compared to a bound.
+ * clast_bin_mod always yields a nonnegative value, whereas the result
+ * of Fortran's MOD has the sign of its first operand.
+ */
+static void pprint_bounded_modulo_f(struct cloogoptions *i, FILE *dst,
+				    struct clast_binary *b)
+{
+    fprintf(dst, "MODULO(");
+    pprint_expr(i, dst, b->LHS);
+    fprintf(dst, ", ");
+    cloog_int_print(dst, b->RHS);
+    fprintf(dst, ")");
+}
+
 void pprint_equation(struct cloogoptions *i, FILE *dst, struct clast_equation *eq)
 {
-    pprint_expr(i, dst, eq->LHS);
+    if (i->language == CLOOG_LANGUAGE_FORTRAN && eq->sign != 0 &&
+	eq->LHS->type == clast_expr_bin &&
+	((struct clast_binary *) eq->LHS)->type == clast_bin_mod)
+	pprint_bounded_modulo_f(i, dst, (struct clast_binary *) eq->LHS);
+    else
+	pprint_expr(i, dst, eq->LHS);
     if (eq->sign == 0)
 	fprintf(dst, " == ");
     else if (eq->sign > 0)
-- 
2.43.0


From 998867a1c19eb3b1e5d08b5ac842cf6d1dd84d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:26 +0000
Subject: [PATCH 05/32] fix: separate the stride from the upper bound of a
 Fortran DO loop

---
 source/pprint.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/pprint.c b/source/pprint.c
index 34b4449..513e6e6 100644
--- a/source/pprint.c
+++ b/source/pprint.c
@@ -634,8 +634,10 @@ void pprint_for(struct cloogoptions *options, FILE *dst, int indent,
 	cloog_die("unbounded loops not allowed in FORTRAN.\n");
 
     if (options->language == CLOOG_LANGUAGE_FORTRAN) {
-	if (cloog_int_gt_si(f->stride, 1))
+	if (cloog_int_gt_si(f->stride, 1)) {
+	    fprintf(dst, ", ");
 	    cloog_int_print(dst, f->stride);
+	}
 	fprintf(dst,"\n");
     }
     else {
-- 
2.43.0


From de2c077870145ba222216cf4165921fe688d3750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:02 +0000
Subject: [PATCH 06/32] fix: only derive a stride from an invertible
 coefficient

When the coefficient of the iterator shares a factor with the stride, the
offset computed from it was meaningless and iterations were lost.
---
 source/isl/domain.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index b928ff9..596d65b 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -1781,7 +1781,8 @@ static void Euclid(cloog_int_t a, cloog_int_t b,
  * We first compute the gcd of the coefficients of the existentially
  * quantified variables and then remove any common factors it has
  * with the coefficient at the given level.
- * The result is the value of the stride and if it is not one,
+ * The result is the value of the stride and if it is not one
+ * and if the coefficient at the given level is invertible modulo the stride,
  * then it is possible to construct a CloogStride.
  * The constraint leading to the stride is stored in the CloogStride
  * as well a value (factor) such that the product of this value
@@ -1789,7 +1790,7 @@ static void Euclid(cloog_int_t a, cloog_int_t b,
  */
 static CloogStride *construct_stride(isl_constraint *c, int level)
 {
-	int i, n, sign;
+	int i, n, sign, invertible;
 	isl_val *v, *m, *gcd, *stride;
 	isl_val *v_copy, *m_copy, *gcd_copy;
 	cloog_int_t c_v, c_m, c_gcd, c_stride, c_factor;
@@ -1820,7 +1821,11 @@ static CloogStride *construct_stride(isl_constraint *c, int level)
 	gcd = isl_val_copy(gcd_copy);
 	stride = isl_val_div(gcd, v);
 
-	if (isl_val_is_zero(stride) || isl_val_is_one(stride))
+	v = isl_val_gcd(isl_val_copy(m_copy), isl_val_copy(stride));
+	invertible = isl_val_is_one(v);
+	isl_val_free(v);
+
+	if (isl_val_is_zero(stride) || isl_val_is_one(stride) || !invertible)
 		s = NULL;
 	else {
 		cloog_int_init(c_m);
-- 
2.43.0


From 959559bcd0ff8dee064ddfc1db030820b8d23e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:09 +0000
Subject: [PATCH 07/32] fix: guard the integrality of equalities generated as
 loops (-otl 0)

The division in the bounds of such a loop is only exact if the modulo guard
that precedes the corresponding assignment is generated as well.
---
 source/clast.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/clast.c b/source/clast.c
index 7283aa7..3b24bcb 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -1579,7 +1579,8 @@ static int insert_equation(CloogDomain *domain, CloogConstraint *upper,
   struct clast_expr *e;
   struct clast_assignment *ass;
 
-  if (!infos->options->otl)
+  /* The bounds of a pair of inequalities are rounded to integers. */
+  if (!infos->options->otl && cloog_constraint_is_valid(lower))
     return insert_equation_as_loop(domain, upper, lower, level, next, infos);
 
   if (!insert_modulo_guard(upper, lower, level, next, infos)) {
@@ -1589,6 +1590,9 @@ static int insert_equation(CloogDomain *domain, CloogConstraint *upper,
     return 0;
   }
 
+  if (!infos->options->otl)
+    return insert_equation_as_loop(domain, upper, lower, level, next, infos);
+
   if (cloog_constraint_is_valid(lower) ||
       !clast_equal_add(infos->equal, NULL, level, upper, infos))
   { /* Finally, the equality. */
-- 
2.43.0


From 8e5a2420f7bf4b17bfefbd383d519353af331ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:58 +0000
Subject: [PATCH 08/32] fix: fall back to the convex hull when the simple hull
 is unbounded (-sh)

With -sh 1, merging loops could generate a loop without bound from bounded
domains, since the simple hull of a bounded set may be unbounded.
---
 source/loop.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index b47102e..fc3f41d 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -1038,6 +1038,22 @@ static CloogDomain *bounding_domain(CloogDomain *dom, CloogOptions *options)
 }
 
 
+/* Return a convex domain including "dom" that is bounded at the given level
+ * if "dom" shares its bounds at this level, even if its simple hull is not.
+ */
+static CloogDomain *bounded_bounding_domain(CloogDomain *dom, int level,
+	CloogOptions *options)
+{
+    CloogDomain *hull = bounding_domain(dom, options);
+
+    if (options->sh && !cloog_domain_is_bounded(hull, level)) {
+	cloog_domain_free(hull);
+	hull = cloog_domain_convex(dom);
+    }
+    return hull;
+}
+
+
 /**
  * cloog_loop_merge function:
  * This function is the 'soft' version of loop_separate if we are looking for
@@ -1086,7 +1102,7 @@ CloogLoop *cloog_loop_merge(CloogLoop *loop, int level, CloogOptions *options)
 	    t2 = cloog_domain_intersection(first, temp);
 	    cloog_domain_free(first);
 
-	    new_domain = bounding_domain(t2, options);
+	    new_domain = bounded_bounding_domain(t2, level, options);
 	    cloog_domain_free(t2);
 
 	    if (cloog_domain_isempty(new_domain)) {
@@ -1100,7 +1116,7 @@ CloogLoop *cloog_loop_merge(CloogLoop *loop, int level, CloogOptions *options)
 	t2 = cloog_domain_intersection(splitter, temp);
 	cloog_domain_free(splitter);
 
-	new_domain = bounding_domain(t2, options);
+	new_domain = bounded_bounding_domain(t2, level, options);
 	cloog_domain_free(t2);
 
 	if (cloog_domain_isempty(new_domain)) {
-- 
2.43.0


From 776e9676ef0fa1131d677ddb928971f967ca297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:58 +0000
Subject: [PATCH 09/32] fix: do not release the caller's domain in
 cloog_domain_convex

isl_set_coalesce takes its argument: when the domain was shared, the caller's
reference was lost and the coalesced copy leaked.
---
 source/isl/domain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 596d65b..b2bf36f 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -135,8 +135,8 @@ CloogDomain * cloog_domain_copy(CloogDomain * domain)
 CloogDomain *cloog_domain_convex(CloogDomain *domain)
 {
 	isl_set *set = isl_set_from_cloog_domain(domain);
-  set = isl_set_coalesce(set);
-	set = isl_set_from_basic_set(isl_set_convex_hull(isl_set_copy(set)));
+	set = isl_set_coalesce(isl_set_copy(set));
+	set = isl_set_from_basic_set(isl_set_convex_hull(set));
 	return cloog_domain_from_isl_set(set);
 }
 
-- 
2.43.0


From 445095062f89c12086a180435aa17aa7b3f02001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:13 +0000
Subject: [PATCH 10/32] fix: use the shared equalities of a union context when
 simplifying

With a union context and merged loops (-f), guards could still refer to an
iterator that had been replaced by its value everywhere else.
---
 source/isl/domain.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index b2bf36f..12e870b 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -168,13 +168,18 @@ CloogDomain *cloog_domain_simple_convex(CloogDomain *domain)
  * of non-redundant constraints), that when intersected with polyhedral
  * domain (dom2) equals (dom1)intersect(dom2). The output is a new CloogDomain
  * structure with a polyhedral domain with the "redundant" constraints removed.
- * NB: the second domain is required not to be a union.
+ * The second domain is a union if the context of the program is a union.
+ * In this case, isl_set_gist may miss the equalities that are shared by all
+ * the elements of the union.
  */ 
 CloogDomain *cloog_domain_simplify(CloogDomain *dom1, CloogDomain *dom2)
 {
 	isl_set *set1 = isl_set_from_cloog_domain(dom1);
 	isl_set *set2 = isl_set_from_cloog_domain(dom2);
 	set1 = isl_set_gist(isl_set_copy(set1), isl_set_copy(set2));
+	if (isl_set_n_basic_set(set2) > 1)
+		set1 = isl_set_gist_basic_set(set1,
+				isl_set_affine_hull(isl_set_copy(set2)));
 	return cloog_domain_from_isl_set(set1);
 }
 
-- 
2.43.0


From cadb4224422721fc16f124759edefcb7fd696835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:15 +0000
Subject: [PATCH 11/32] fix: do not print statement blocks in Fortran (-block)

The option is documented to be disabled for Fortran, but printed braces.
---
 source/pprint.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/pprint.c b/source/pprint.c
index 513e6e6..645d5fe 100644
--- a/source/pprint.c
+++ b/source/pprint.c
@@ -676,6 +676,13 @@ void pprint_stmt_list(struct cloogoptions *options, FILE *dst, int indent,
                 fprintf(dst, "%*sS0\n", indent, "");
 	    continue;
         }
+	/* There are no statement blocks in FORTRAN. */
+	if (options->language == CLOOG_LANGUAGE_FORTRAN &&
+	    CLAST_STMT_IS_A(s, stmt_block)) {
+	    pprint_stmt_list(options, dst, indent,
+				((struct clast_block *)s)->body);
+	    continue;
+	}
 	fprintf(dst, "%*s", indent, "");
 	if (CLAST_STMT_IS_A(s, stmt_ass)) {
 	    pprint_assignment(options, dst, (struct clast_assignment *) s);
-- 
2.43.0


From e3e054ce60040ff8adb2956b0d295ea669f0fcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:39 +0000
Subject: [PATCH 12/32] fix: refuse option values that are not numbers

---
 source/options.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/options.c b/source/options.c
index 2dccd2f..788d044 100644
--- a/source/options.c
+++ b/source/options.c
@@ -303,14 +303,13 @@ void cloog_options_version()
  * - June 29th 2003: (debug) lack of argument now detected.
  */
 void cloog_options_set(int * option, int argv, char ** argc, int * number)
-{ char ** endptr ;
+{ char * endptr ;
   
   if (*number+1 >= argv)
     cloog_die("an option lacks of argument.\n");
 
-  endptr = NULL ;
-  *option = strtol(argc[*number+1],endptr,10) ;
-  if (endptr != NULL)
+  *option = strtol(argc[*number+1],&endptr,10) ;
+  if ((endptr == argc[*number+1]) || (*endptr != '\0'))
     cloog_die("value '%s' for option '%s' is not valid.\n",
 	      argc[*number+1], argc[*number]);
   *number = *number + 1 ;
-- 
2.43.0


From 3a8c8f703d69f6b160cfe1b1949c86be03aa8418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:39 +0000
Subject: [PATCH 13/32] fix: traverse blocks and assignments in clast_filter

---
 source/clast.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/source/clast.c b/source/clast.c
index 3b24bcb..311fbb3 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -2108,6 +2108,27 @@ void clast_filter(struct clast_stmt *node,
         free(stmts_next);
     }
 
+    if (CLAST_STMT_IS_A(node, stmt_block)) {
+        struct clast_block *block = (struct clast_block *) node;
+        clast_filter(block->body, filter, &loops_next,
+                &num_next_loops, &stmts_next, &num_next_stmts);
+        *nstmts = concat_if_new((void **)stmts, *nstmts, stmts_next, num_next_stmts, sizeof(int));
+        *nloops = concat_if_new((void **)loops, *nloops, loops_next, num_next_loops,
+                sizeof(struct clast_stmt *));
+        free(loops_next);
+        free(stmts_next);
+    }
+
+    if (CLAST_STMT_IS_A(node, stmt_block) || CLAST_STMT_IS_A(node, stmt_ass)) {
+        clast_filter(node->next, filter, &loops_next,
+                &num_next_loops, &stmts_next, &num_next_stmts);
+        *nstmts = concat_if_new((void **)stmts, *nstmts, stmts_next, num_next_stmts, sizeof(int));
+        *nloops = concat_if_new((void **)loops, *nloops, loops_next, num_next_loops,
+                sizeof(struct clast_stmt *));
+        free(loops_next);
+        free(stmts_next);
+    }
+
     if (CLAST_STMT_IS_A(node, stmt_user)) {
         struct clast_user_stmt *user_stmt = (struct clast_user_stmt *) node;
         // printf("user stmt: S%d\n", user_stmt->statement->number);
-- 
2.43.0


From 9edcf70f013e44a2706f9b49db98239445e35658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:40 +0000
Subject: [PATCH 14/32] fix: print the bounds of annotated loops in Fortran

---
 source/pprint.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/pprint.c b/source/pprint.c
index 645d5fe..df210aa 100644
--- a/source/pprint.c
+++ b/source/pprint.c
@@ -501,6 +501,9 @@ void pprint_guard(struct cloogoptions *options, FILE *dst, int indent,
 void pprint_for(struct cloogoptions *options, FILE *dst, int indent,
 		 struct clast_for *f)
 {
+    /* The annotations (and the variables they set) are only printed in C. */
+    int parallel = options->language == CLOOG_LANGUAGE_C ? f->parallel : 0;
+
     if (options->language == CLOOG_LANGUAGE_C) {
         if (f->time_var_name) {
             fprintf(dst, "IF_TIME(%s_start = cloog_util_rtclock());\n",
@@ -604,9 +607,9 @@ void pprint_for(struct cloogoptions *options, FILE *dst, int indent,
 
     if (f->LB) {
 	fprintf(dst, "%s=", f->iterator);
-        if (f->parallel & (CLAST_PARALLEL_OMP | CLAST_PARALLEL_MPI)) {
+        if (parallel & (CLAST_PARALLEL_OMP | CLAST_PARALLEL_MPI)) {
             fprintf(dst, "lbp");
-        }else if (f->parallel & CLAST_PARALLEL_VEC){
+        }else if (parallel & CLAST_PARALLEL_VEC){
             fprintf(dst, "lbv");
         }else{
 	pprint_expr(options, dst, f->LB);
@@ -623,9 +626,9 @@ void pprint_for(struct cloogoptions *options, FILE *dst, int indent,
 	if (options->language != CLOOG_LANGUAGE_FORTRAN)
 	    fprintf(dst,"%s<=", f->iterator);
 
-        if (f->parallel & (CLAST_PARALLEL_OMP | CLAST_PARALLEL_MPI)) {
+        if (parallel & (CLAST_PARALLEL_OMP | CLAST_PARALLEL_MPI)) {
             fprintf(dst, "ubp");
-        }else if (f->parallel & CLAST_PARALLEL_VEC){
+        }else if (parallel & CLAST_PARALLEL_VEC){
             fprintf(dst, "ubv");
         }else{
             pprint_expr(options, dst, f->UB);
-- 
2.43.0


From 462f4b2b0ec98560944f588bc6ff12dcda33e00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:40 +0000
Subject: [PATCH 15/32] fix: release the trip count when a loop cannot be
 unrolled

---
 source/isl/domain.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 12e870b..c73cf90 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -2075,6 +2075,7 @@ int cloog_domain_can_unroll(CloogDomain *domain, int level, cloog_int_t *n,
 		ccu.can_unroll = 0;
 	if (!ccu.can_unroll) {
 		isl_constraint_free(ccu.c);
+		isl_val_free(ccu.n);
 		return 0;
 	}
 
-- 
2.43.0


From ca4efd6b14b94f9e2f08e1164fa96c1b6f5d9226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:56 +0000
Subject: [PATCH 16/32] fix: restore the -l depth adjusted for a program

---
 source/program.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/program.c b/source/program.c
index 40709b8..5437f6e 100644
--- a/source/program.c
+++ b/source/program.c
@@ -1033,6 +1033,7 @@ CloogOptions * options ;
   struct rusage start, end ;
 #endif
   CloogLoop * loop ;
+  int l = options->l ;
 #ifdef CLOOG_MEMORY
   char status_path[MAX_STRING_VAL] ;
   FILE * status ;
@@ -1109,6 +1110,9 @@ CloogOptions * options ;
    
     program->loop = loop ;
   }
+  
+  /* The automatic settings above are for this program only. */
+  options->l = l ;
     
 #ifdef CLOOG_RUSAGE
   getrusage(RUSAGE_SELF, &end) ;
-- 
2.43.0


From 3077ab26738f9f8137178e53c092e57b8b4074aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:56 +0000
Subject: [PATCH 17/32] fix: do not wait for names past the end of the input

---
 source/names.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/names.c b/source/names.c
index 914c736..83991d7 100644
--- a/source/names.c
+++ b/source/names.c
@@ -269,10 +269,11 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
   char s[MAX_STRING], str[MAX_STRING], * c, **names = NULL;
 
   /* We first read name option. */
-  while (fgets(s,MAX_STRING,file) == 0) ;
-  while ((*s=='#' || *s=='\n') || (sscanf(s," %d",&option)<1))
-    if (fgets(s, MAX_STRING, file))
-      continue;
+  do
+  { if (fgets(s, MAX_STRING, file) == NULL)
+      cloog_die("Input error.\n");
+  }
+  while ((*s=='#' || *s=='\n') || (sscanf(s," %d",&option)<1));
   
   /* If there is no item to read, then return NULL. */
   if (nb_items == 0)
-- 
2.43.0


From 4997b15c4b90ab0eb7cf4fb682efaed5dfb6323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:56 +0000
Subject: [PATCH 18/32] fix: read names of any length

---
 source/names.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/source/names.c b/source/names.c
index 83991d7..804f4b1 100644
--- a/source/names.c
+++ b/source/names.c
@@ -41,6 +41,7 @@
 # include <stdlib.h>
 # include <stdio.h>
 # include <ctype.h>
+# include <string.h>
 # include "../include/cloog/cloog.h"
 
 
@@ -287,11 +288,6 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
     names = (char **)malloc(nb_items*sizeof(char *)) ;
     if (names == NULL) 
       cloog_die("memory overflow.\n");
-    for (i=0;i<nb_items;i++)
-    { names[i] = (char *)malloc(MAX_NAME*sizeof(char)) ;
-      if (names[i] == NULL) 
-	cloog_die("memory overflow.\n");
-    }
     
     do  /* Skip the comments, spaces and empty lines... */
     { c = fgets(s,MAX_STRING,file) ;
@@ -311,7 +307,10 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
       /* n is strlen(str). */
       if (sscanf(c,"%s%n",str,&n) == 0) 
         cloog_die("no names in input file.\n");
-      sscanf(str,"%s",names[i]) ;
+      names[i] = (char *)malloc((strlen(str)+1)*sizeof(char)) ;
+      if (names[i] == NULL) 
+	cloog_die("memory overflow.\n");
+      strcpy(names[i],str) ;
       c += n ;
     }
   }
-- 
2.43.0


From 5eda586e0ebf5c57ce080bad8a683112d8d8b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:56 +0000
Subject: [PATCH 19/32] fix: stop on domains and scatterings that cannot be
 read

---
 source/isl/domain.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index c73cf90..6d17437 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -445,6 +445,8 @@ CloogDomain *cloog_domain_read_context(CloogState *state, FILE *input)
 	set = isl_set_read_from_file(ctx, input);
 	set = isl_set_move_dims(set, isl_dim_param, 0,
 				isl_dim_set, 0, isl_set_dim(set, isl_dim_set));
+	if (!set)
+		cloog_die("Input error.\n");
 
 	return cloog_domain_from_isl_set(set);
 }
@@ -482,6 +484,8 @@ CloogDomain *cloog_domain_union_read(CloogState *state,
 		set = isl_set_move_dims(set, isl_dim_param, 0,
 			    isl_dim_set, dim - nb_parameters, nb_parameters);
 	}
+	if (!set || isl_set_dim(set, isl_dim_param) != nb_parameters)
+		cloog_die("Input error.\n");
 	return cloog_domain_from_isl_set(set);
 }
 
@@ -519,6 +523,8 @@ CloogScattering *cloog_domain_read_scattering(CloogDomain *domain, FILE *input)
 		scat = isl_map_move_dims(scat, isl_dim_in, 0,
 					isl_dim_out, n_scat, dim);
 	}
+	if (!scat || isl_map_dim(scat, isl_dim_param) != nparam)
+		cloog_die("Input error.\n");
 	return cloog_scattering_from_isl_map(scat);
 }
 
-- 
2.43.0


From d8dadbf371cd3c6a87d3158fc712fcaa9a9ffe8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:56 +0000
Subject: [PATCH 20/32] fix: handle missing matrices and matrix entries

---
 source/matrix.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/source/matrix.c b/source/matrix.c
index 0823e3c..6884e5a 100644
--- a/source/matrix.c
+++ b/source/matrix.c
@@ -101,18 +101,20 @@ void cloog_matrix_free(CloogMatrix * matrix)
 {
   int i;
   cloog_int_t *p;
-  int size = matrix->NbRows * matrix->NbColumns;
+  int size;
 
+  if (!matrix)
+    return;
+
+  size = matrix->NbRows * matrix->NbColumns;
   p = matrix->p_Init;
 
   for (i = 0; i < size; i++)
     cloog_int_clear(*p++);
 
-  if (matrix) {
-    free(matrix->p_Init);
-    free(matrix->p);
-    free(matrix);
-  }
+  free(matrix->p_Init);
+  free(matrix->p);
+  free(matrix);
 }
 
 
@@ -142,8 +144,10 @@ void cloog_matrix_print_structure(FILE *file, CloogMatrix *M,
  */
 void cloog_matrix_print(FILE* foo, CloogMatrix* m)
 {
-  if (!m)
+  if (!m) {
     fprintf(foo, "(null)\n");
+    return;
+  }
 
   fprintf(foo, "%u %u\n", m->NbRows, m->NbColumns);
   cloog_matrix_print_structure(foo, m, "", "");
@@ -202,7 +206,7 @@ CloogMatrix *cloog_matrix_read_of_size(FILE *input,
 			cloog_die("Input error.\n");
 		for (j = 0; j < n_col; ++j) {
 			n = sscanf(p, "%s%n", val, &offset);
-			if (!n)
+			if (n != 1)
 				cloog_die("Input error.\n");
 			cloog_int_read(M->p[i][j], val);
 			p += offset;
-- 
2.43.0


From fa8e576e9d1046169e01c844de739ab9e1ef1adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:56 +0000
Subject: [PATCH 21/32] fix: read the language after leading blanks

---
 source/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/input.c b/source/input.c
index 49106cc..4f94a6c 100644
--- a/source/input.c
+++ b/source/input.c
@@ -80,7 +80,7 @@ CloogInput *cloog_input_read(FILE *file, CloogOptions *options)
 	/* First of all, we read the language to use. */
 	if (!next_line(file, line, sizeof(line)))
 		cloog_die("Input error.\n");
-	if (sscanf(line, "%c", &language) != 1)
+	if (sscanf(line, " %c", &language) != 1)
 		cloog_die("Input error.\n");
    
 	if (language == 'f')
-- 
2.43.0


From 8f3c23521e9379cff4c1f5c6aa3f3c2debda2d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:24 +0000
Subject: [PATCH 22/32] fix: read all the columns of a scattering matrix

---
 source/isl/domain.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 6d17437..dd2d5bf 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -542,7 +542,8 @@ static struct isl_constraint *isl_constraint_read_from_matrix(
 {
 	struct isl_constraint *constraint;
 	int j;
-	int nvariables = isl_space_dim(dim, isl_dim_set);
+	int n_in = isl_space_dim(dim, isl_dim_in);
+	int nvariables = isl_space_dim(dim, isl_dim_out);
 	int nparam = isl_space_dim(dim, isl_dim_param);
 	isl_local_space *ls = isl_local_space_from_space(dim);
 
@@ -551,9 +552,15 @@ static struct isl_constraint *isl_constraint_read_from_matrix(
 	else
 		constraint = isl_inequality_alloc(ls);
 
-	for (j = 0; j < nvariables; ++j) {
+	for (j = 0; j < n_in; ++j) {
 		isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + j]);
-		isl_constraint_set_coefficient_val(constraint, isl_dim_out, j, val);
+		isl_constraint_set_coefficient_val(constraint, isl_dim_in, j, val);
+	}
+
+	nvariables += n_in;
+	for (j = n_in; j < nvariables; ++j) {
+		isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + j]);
+		isl_constraint_set_coefficient_val(constraint, isl_dim_out, j - n_in, val);
 	}
 
 	for (j = 0; j < nparam; ++j) {
-- 
2.43.0


From 0a3900a439c3b5066840acc967aee0d5f08fed7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:19 +0000
Subject: [PATCH 23/32] fix: write empty domains and scatterings so that they
 can be read back

---
 source/isl/domain.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index dd2d5bf..f2abd29 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -81,7 +81,13 @@ void cloog_domain_print_constraints(FILE *foo, CloogDomain *domain,
 	p = isl_printer_to_file(isl_set_get_ctx(set), foo);
 	if (print_number) {
 		p = isl_printer_set_output_format(p, ISL_FORMAT_EXT_POLYLIB);
-		p = isl_printer_print_set(p, set);
+		if (isl_set_n_basic_set(set) == 0) {
+			/* A union of no basic sets cannot be read back. */
+			bset = isl_basic_set_empty(isl_set_get_space(set));
+			p = isl_printer_print_basic_set(p, bset);
+			isl_basic_set_free(bset);
+		} else
+			p = isl_printer_print_set(p, set);
 	} else {
 		assert(isl_set_n_basic_set(set) == 1);
 		list = isl_set_get_basic_set_list(set);
@@ -102,7 +108,14 @@ void cloog_scattering_print_constraints(FILE *foo, CloogScattering *scattering)
 
 	p = isl_printer_to_file(isl_map_get_ctx(map), foo);
 	p = isl_printer_set_output_format(p, ISL_FORMAT_EXT_POLYLIB);
-	p = isl_printer_print_map(p, map);
+	if (isl_map_n_basic_map(map) == 0) {
+		/* A union of no basic maps cannot be read back. */
+		isl_basic_map *bmap;
+		bmap = isl_basic_map_empty(isl_map_get_space(map));
+		p = isl_printer_print_basic_map(p, bmap);
+		isl_basic_map_free(bmap);
+	} else
+		p = isl_printer_print_map(p, map);
 	isl_printer_free(p);
 }
 
-- 
2.43.0


From 8261f4825b20e0a693a8fb0e281592ef28319c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:59 +0000
Subject: [PATCH 24/32] fix: do not unroll a union from the bound of one of its
 members

---
 source/isl/domain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index f2abd29..aa1c599 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -2097,7 +2097,7 @@ int cloog_domain_can_unroll(CloogDomain *domain, int level, cloog_int_t *n,
 	*lb = NULL;
 	r = isl_set_foreach_basic_set(set, &basic_set_can_unroll, &ccu);
 	assert(r == 0);
-	if (!ccu.c)
+	if (!ccu.c || isl_set_n_basic_set(set) > 1)
 		ccu.can_unroll = 0;
 	if (!ccu.can_unroll) {
 		isl_constraint_free(ccu.c);
-- 
2.43.0


From 5ad7389d514e94edeb3838821fb0a4da68d78dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:59 +0000
Subject: [PATCH 25/32] fix: refuse option values that do not fit into an int

---
 source/options.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/options.c b/source/options.c
index 788d044..e4b580b 100644
--- a/source/options.c
+++ b/source/options.c
@@ -35,6 +35,8 @@
  ******************************************************************************/
 
 
+#include <errno.h>
+#include <limits.h>
 #include <stdarg.h>
 # include <stdlib.h>
 # include <stdio.h>
@@ -304,14 +306,18 @@ void cloog_options_version()
  */
 void cloog_options_set(int * option, int argv, char ** argc, int * number)
 { char * endptr ;
+  long value ;
   
   if (*number+1 >= argv)
     cloog_die("an option lacks of argument.\n");
 
-  *option = strtol(argc[*number+1],&endptr,10) ;
-  if ((endptr == argc[*number+1]) || (*endptr != '\0'))
+  errno = 0 ;
+  value = strtol(argc[*number+1],&endptr,10) ;
+  if ((endptr == argc[*number+1]) || (*endptr != '\0') ||
+      (errno == ERANGE) || (value < INT_MIN) || (value > INT_MAX))
     cloog_die("value '%s' for option '%s' is not valid.\n",
 	      argc[*number+1], argc[*number]);
+  *option = value ;
   *number = *number + 1 ;
 }
 
-- 
2.43.0


From 1d22674c238ae1ba655dd6721a6b9d2d58afad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:10 +0000
Subject: [PATCH 26/32] fix: report output that could not be written

---
 source/cloog.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cloog.c b/source/cloog.c
index 0a42a67..0f343ba 100644
--- a/source/cloog.c
+++ b/source/cloog.c
@@ -92,7 +92,8 @@ int main(int argv, char * argc[])
 
   cloog_options_free(options) ;
   cloog_state_free(state);
-  fclose(output) ;
+  if (ferror(output) || fclose(output))
+    cloog_die("can't write the output.\n");
   return 0;
 }
 
-- 
2.43.0


From 96e5ee1e8e6bddcb07d2b73cfc991c33bccdbb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:50 +0000
Subject: [PATCH 27/32] fix: do not ask an empty domain for its equalities

cloog_loop_equal_prefix asserted on a statement with an empty domain
when a scalar scattering dimension differed.
---
 source/loop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/loop.c b/source/loop.c
index fc3f41d..c90f852 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -2168,7 +2168,8 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
 	CloogConstraintSet *constraints;
 	CloogConstraint *eq;
 
-	if (!cloog_domain_isconvex(a->domain))
+	if (cloog_domain_isempty(a->domain) ||
+	    !cloog_domain_isconvex(a->domain))
 	    return 0;
 	constraints = cloog_domain_constraints(a->domain);
 	for (; dim < n; ++dim) {
-- 
2.43.0


From f304c1401979bf29dfef1c6873eb23de38d201a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:50 +0000
Subject: [PATCH 28/32] fix: number statements in compilable programs and print
 no S0 there

-compilable defines the macros S<number> only, but a statement with a
name was printed by its name; with -callable as well, a placeholder S0
without a macro was printed.
---
 source/pprint.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/pprint.c b/source/pprint.c
index df210aa..b6cfaa2 100644
--- a/source/pprint.c
+++ b/source/pprint.c
@@ -426,7 +426,8 @@ void pprint_user_stmt(struct cloogoptions *options, FILE *dst,
     int parenthesis_to_close = 0;
     struct clast_stmt *t;
 
-    if(options->callable) {
+    if ((options->callable || options->compilable) &&
+        options->language != CLOOG_LANGUAGE_FORTRAN) {
         fprintf(dst, "S%d", u->statement->number);
     } else {
         if (pprint_osl_body(options, dst, u))
@@ -675,7 +676,8 @@ void pprint_stmt_list(struct cloogoptions *options, FILE *dst, int indent,
     for ( ; s; s = s->next) {
         if (CLAST_STMT_IS_A(s, stmt_root))
         {
-            if(options->callable && s->next == NULL)
+            if (options->callable && !options->compilable &&
+                options->language != CLOOG_LANGUAGE_FORTRAN && s->next == NULL)
                 fprintf(dst, "%*sS0\n", indent, "");
 	    continue;
         }
-- 
2.43.0


From 402548a98e2e837c7327d58d2879e3ecf5333da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:50 +0000
Subject: [PATCH 29/32] fix: keep statement-wise depths from breaking the
 scattering

options->fs/ls were used as they are, while -f/-l are adjusted so that the
scattering is respected and no iteration is duplicated (unless -override).
---
 source/loop.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/loop.c b/source/loop.c
index c90f852..7609059 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -1960,6 +1960,12 @@ CloogLoop *cloog_loop_generate_general(CloogLoop *loop,
         first = options->f;
         last = options->l;
     }
+    /* Like the global ones, statement-wise depths must not break the
+     * scattering nor duplicate iterations (see cloog_program_generate).
+     */
+    else if (!options->override && (last < nb_scattdims || first > 1)) {
+        last = nb_scattdims;
+    }
 
   /* 3. Separate all projections into disjoint polyhedra. */
   if (level > 0 && cloog_loop_is_constant(loop, level)) {
-- 
2.43.0


From 57588c1e117ceeab579a1211729c903eb996011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:50 +0000
Subject: [PATCH 30/32] fix: keep default names identifiers past the end of the
 alphabet

---
 source/names.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/names.c b/source/names.c
index 804f4b1..8e2cce7 100644
--- a/source/names.c
+++ b/source/names.c
@@ -392,18 +392,23 @@ CloogNames * cloog_names_alloc()
  *   in the range [0, nb_items-1].
  * - first_item is the name of the first item (if prefix == NULL),
  *   the nb_items-1 following items will be the nb_items-1
- *   following letters in ASCII code.
+ *   following letters in ASCII code; past the end of the alphabet, the same
+ *   letters are used again, followed by an integer.
  **
  * - September 9th 2002 : first version, extracted from cloog_names_generate.
  */
 char ** cloog_names_generate_items(int nb_items, const char * prefix,
     char first_item)
 { int i ;
+  int nb_letters = nb_items;
   char ** names ;
   
   if (nb_items == 0)
   return NULL ;
     
+  if (prefix == NULL && isalpha(first_item))
+    nb_letters = (islower(first_item) ? 'z' : 'Z') - first_item + 1;
+
   names = (char **)malloc(nb_items*sizeof(char *)) ;
   if (names == NULL) 
     cloog_die("memory overflow.\n");
@@ -411,8 +416,10 @@ char ** cloog_names_generate_items(int nb_items, const char * prefix,
   { names[i] = (char *)malloc(MAX_NAME*sizeof(char)) ;
     if (names[i] == NULL) 
       cloog_die("memory overflow.\n");
-    if (prefix == NULL)
+    if (prefix == NULL && i < nb_letters)
     sprintf(names[i],"%c",first_item+i) ;
+    else if (prefix == NULL)
+      sprintf(names[i], "%c%d", first_item + i%nb_letters, i/nb_letters);
     else
       sprintf(names[i], "%s%d", prefix, 1+i);
   }
-- 
2.43.0


From 3dd719e7713e3db525cc3ab707297ffe70c774eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:51 +0000
Subject: [PATCH 31/32] fix: initialise the reference count in
 cloog_names_generate

---
 source/names.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/names.c b/source/names.c
index 8e2cce7..ed57f55 100644
--- a/source/names.c
+++ b/source/names.c
@@ -460,6 +460,7 @@ CloogNames * cloog_names_generate(
   if (names == NULL) 
     cloog_die("memory overflow.\n");
   
+  names->references    = 1;
   names->nb_scalars    = nb_scalars ;
   names->nb_scattering = nb_scattering ;
   names->nb_parameters = nb_parameters ;
-- 
2.43.0


From b1e74551fa802738730c12f712ac7e38516e149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:56 +0000
Subject: [PATCH 32/32] fix: merge disjoint loops that have no textual order

Disjoint domains may be executed in opposite orders for different
iterations of the outer loops (for instance lines that cross between
integer points), in which case no permutation of the loops is right.
---
 source/loop.c | 68 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/source/loop.c b/source/loop.c
index 7609059..8de6808 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -65,6 +65,8 @@ static CloogLoop *cloog_loop_propagate_lower_bound(CloogLoop *loop, int level);
 static CloogLoop * cloog_loop_separate(CloogLoop * loop);
 static CloogLoop *cloog_loop_merge(CloogLoop *loop, int level,
     CloogOptions *options);
+static CloogLoop *cloog_loop_merge_unordered(CloogLoop *loop, int level,
+    CloogOptions *options);
 static CloogLoop *cloog_loop_nest(CloogLoop *loop, CloogDomain *context,
     int level);
 static void cloog_loop_stride(CloogLoop * loop, int level);
@@ -1975,6 +1977,7 @@ CloogLoop *cloog_loop_generate_general(CloogLoop *loop,
     res = cloog_loop_merge(loop, level, options);
     }else{
     res = cloog_loop_separate(loop);
+    res = cloog_loop_merge_unordered(res, level, options);
     separate = 1;
   }
     
@@ -2492,6 +2495,71 @@ static int extract_component(CloogLoop **loop_array, int *list, CloogLoop **res)
 }
 
 
+/* Check whether for any fixed iteration of the outer loops, there is an
+ * iteration of loop1 at the given level after an iteration of loop2.
+ */
+static int domain_follows(CloogLoop *loop1, CloogLoop *loop2,
+	int level, int scalar, int *scaldims, int nb_scattdims, int def)
+{
+    return cloog_domain_follows(loop1->domain, loop2->domain, level) > 0;
+}
+
+
+/* Disjoint loops may still be impossible to put in a textual order, for
+ * instance if one of them is to be executed before the other for some
+ * iterations of the outer loops and after it for other ones.
+ * Merge the loops of each group of loops that has no textual order,
+ * leaving it to the inner levels to tell their iterations apart.
+ */
+static CloogLoop *cloog_loop_merge_unordered(CloogLoop *loop, int level,
+	CloogOptions *options)
+{
+    int i, n, nb_loops;
+    CloogLoop *tmp, *res, **res_next;
+    CloogLoop **loop_array;
+    struct cloog_loop_sort *s;
+
+    if (level == 0 || !loop || !loop->next)
+	return loop;
+
+    nb_loops = cloog_loop_count(loop);
+
+    loop_array = (CloogLoop **)malloc(nb_loops * sizeof(CloogLoop *));
+    assert(loop_array);
+
+    for (i = 0, tmp = loop; i < nb_loops; i++, tmp = tmp->next)
+	loop_array[i] = tmp;
+
+    s = cloog_loop_sort_alloc(nb_loops);
+    for (i = nb_loops - 1; i >= 0; --i) {
+	if (s->node[i].index >= 0)
+	    continue;
+	cloog_loop_components_tarjan(s, loop_array, i, level, 0, NULL, 0,
+					&domain_follows);
+    }
+
+    res = loop;
+    res_next = &res;
+    if (s->op == 2 * nb_loops)
+	nb_loops = 0;
+    for (i = 0; nb_loops; i += n + 1, nb_loops -= n) {
+	n = extract_component(loop_array, &s->order[i], &tmp);
+	if (n > 1) {
+	    tmp = cloog_loop_restrict_inner(tmp);
+	    tmp = cloog_loop_merge(tmp, level, options);
+	}
+	*res_next = tmp;
+	while (*res_next)
+	    res_next = &(*res_next)->next;
+    }
+
+    cloog_loop_sort_free(s);
+    free(loop_array);
+
+    return res;
+}
+
+
 /**
  * Call cloog_loop_generate_scalar or cloog_loop_generate_general
  * on each of the strongly connected components in the list of CloogLoops
-- 
2.43.0

