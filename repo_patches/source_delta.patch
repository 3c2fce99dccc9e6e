From 8452eb82ef591183225f4a5676df682ca571a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 01/74] fix: box: bottom destination of assign/substitute gives
 bottom; best flag not claimed when intersecting with dest

---
 box/box_assign.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/box/box_assign.c b/box/box_assign.c
index e7f30b3..00e5a0b 100644
--- a/box/box_assign.c
+++ b/box/box_assign.c
@@ -6,6 +6,7 @@
 #include <stdio.h>
 
 #include "box_internal.h"
+#include "box_representation.h"
 #include "box_constructor.h"
 #include "box_assign.h"
 
@@ -28,9 +29,11 @@ box_t* box_assign_linexpr_array(ap_manager_t* man,
   
   exact = true;
   if (a->p==NULL || (dest && dest->p==NULL)){
+    res = destructive ? a : box_copy(man,a);
+    box_set_bottom(res);
     man->result.flag_best = true;
     man->result.flag_exact = true;
-    return destructive ? a : box_copy(man,a);
+    return res;
   }
   if (size==1){
       res = destructive ? a : box_copy(man,a);
@@ -47,7 +50,7 @@ box_t* box_assign_linexpr_array(ap_manager_t* man,
   }
   if (dest)
     res = box_meet(man,true,res,dest);
-  man->result.flag_best = size==1 && exact;
+  man->result.flag_best = size==1 && exact && dest==NULL;
   man->result.flag_exact = false;
   return res;
 }
@@ -77,6 +80,7 @@ box_t* box_assign_texpr(ap_manager_t* man,
 
   res = destructive ? a : box_copy(man,a);
   if (a->p==NULL || (dest!=NULL && dest->p==NULL)){
+    box_set_bottom(res);
     man->result.flag_best = true;
     man->result.flag_exact = true;
     return res;
@@ -102,9 +106,11 @@ box_t* box_assign_texpr_array(ap_manager_t* man,
   box_internal_t* intern = man->internal;
   
   if (a->p==NULL || (dest && dest->p==NULL)){
+    res = destructive ? a : box_copy(man,a);
+    box_set_bottom(res);
     man->result.flag_best = true;
     man->result.flag_exact = true;
-    return destructive ? a : box_copy(man,a);
+    return res;
   }
   if (size==1){
     res = destructive ? a : box_copy(man,a);
-- 
2.43.0


From 2590286b28eef0fd613247364e84155d619b6ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 02/74] fix: box: flags of add_ray_array set after the copy;
 meet_lincons_array best only for one non-strict linear constraint

---
 box/box_meetjoin.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/box/box_meetjoin.c b/box/box_meetjoin.c
index 813bc95..d0a9158 100644
--- a/box/box_meetjoin.c
+++ b/box/box_meetjoin.c
@@ -150,9 +150,9 @@ box_t* box_add_ray_array(ap_manager_t* man,
   box_t* res;
   box_internal_t* intern = (box_internal_t*)man->internal;
 
+  res = destructive ? a : box_copy(man,a);
   man->result.flag_best = true;
   man->result.flag_exact = false;
-  res = destructive ? a : box_copy(man,a);
   if (a->p==NULL){
     man->result.flag_exact = true;
     return res;
@@ -185,7 +185,11 @@ box_t* box_meet_lincons_array(ap_manager_t* man,
     man->result.flag_exact = true;
   }
   else {
-    man->result.flag_best = array->size==1;
+    /* best for one non-strict linear constraint with scalar coefficients */
+    man->result.flag_best =
+      array->size==1 &&
+      (array->p[0].constyp==AP_CONS_EQ || array->p[0].constyp==AP_CONS_SUPEQ) &&
+      ap_linexpr0_is_linear(array->p[0].linexpr0);
     man->result.flag_exact = false;
     kmax = man->option.funopt[AP_FUNID_MEET_LINCONS_ARRAY].algorithm;
     if (kmax<1) kmax=2;
-- 
2.43.0


From a128229a49cef7a9e5e9b7995b04fbee0da11ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 03/74] fix: box: fold is not exact

---
 box/box_otherops.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/box/box_otherops.c b/box/box_otherops.c
index 8db19ac..e03ef78 100644
--- a/box/box_otherops.c
+++ b/box/box_otherops.c
@@ -117,6 +117,8 @@ box_t* box_fold(ap_manager_t* man,
   }
   res = box_remove_dimensions(man,true,res,&dimchange);
   ap_dimchange_clear(&dimchange);
+  man->result.flag_best = true;
+  man->result.flag_exact = false;
   return res;
 }
 
-- 
2.43.0


From 7e5ffdeaa70bf1b6a1fdad3d93b2af3456d9e609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 04/74] fix: itv: outward rounding of bounds deduced from
 constraints with interval coefficients

---
 itv/itv_linearize.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 5864539..8fb4b32 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -245,10 +245,10 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 			  intern->boxize_lincons_itv->sup);
 	      } else { /* 1B */
 		/* We compute -E/m */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_itv->inf);
 		bound_div(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_eval->sup,
-			  intern->boxize_lincons_itv->inf);
-		bound_neg(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_bound);
 	      }
 	    }
@@ -260,10 +260,10 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 			  intern->boxize_lincons_itv->inf);
 	      } else { /* 4B */
 		/* We compute -e/M */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_itv->sup);
 		bound_div(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_eval->inf,
-			  intern->boxize_lincons_itv->sup);
-		bound_neg(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_bound);
 	      }
 	    }
@@ -291,10 +291,10 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 	    if (sgnitv<0){ /* 2 */
 	      if (sgnE>=0){ /* 2B */
 		/* We compute -E/M */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_itv->sup);
 		bound_div(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_eval->sup,
-			  intern->boxize_lincons_itv->sup);
-		bound_neg(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_bound);
 	      } else { /* 2A */
 		/* We compute E/m */
@@ -306,10 +306,10 @@ static bool itv_boxize_lincons(itv_internal_t* intern,
 	    else { /* 3 */
 	      if (sgne>=0){ /* 3B */
 		/* We compute -e/m */
+		bound_neg(intern->boxize_lincons_bound,
+			  intern->boxize_lincons_itv->inf);
 		bound_div(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_eval->inf,
-			  intern->boxize_lincons_itv->inf);
-		bound_neg(intern->boxize_lincons_bound,
 			  intern->boxize_lincons_bound);
 	      }
 	      else { /* 3A */
-- 
2.43.0


From 6f0a9bdecbe0793c2ee1a53f7e10e78b20029324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 05/74] fix: itv: inverted test on the modulus of constant
 EQMOD constraints

---
 itv/itv_linexpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itv/itv_linexpr.c b/itv/itv_linexpr.c
index 1231e22..9eb2e98 100644
--- a/itv/itv_linexpr.c
+++ b/itv/itv_linexpr.c
@@ -562,7 +562,7 @@ tbool_t ITVFUN(itv_eval_cstlincons)(itv_internal_t* intern,
       if (bound_sgn(cst->sup)==0){
 	res = tbool_true;
       }
-      else if (num_cmp_int(lincons->num,0)){
+      else if (num_cmp_int(lincons->num,0)==0){
 	res = (bound_sgn(cst->sup)==0) ? tbool_true : tbool_top;
       }
       else {
-- 
2.43.0


From 0d071d512cbac7d750dff7ff4c46c8433dceee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 06/74] fix: num: odd powers and roots of infinite bounds keep
 their sign

---
 num/bound_def.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/num/bound_def.h b/num/bound_def.h
index 0769e56..0d3aefe 100644
--- a/num/bound_def.h
+++ b/num/bound_def.h
@@ -364,8 +364,9 @@ static inline void bound_sqrt(bound_t up, bound_t down, bound_t b)
 static inline void bound_pow(bound_t up, bound_t down, bound_t b, unsigned long n)
 {
   if (bound_infty(b)) {
-    bound_set_infty(up, 1);
-    bound_set_infty(down, 1);
+    int sgn = (n & 1) ? bound_sgn(b) : 1;
+    bound_set_infty(up, sgn);
+    bound_set_infty(down, sgn);
   }
   else if (num_pow(bound_numref(up), bound_numref(down), bound_numref(b), n)) {
     bound_set_infty(up,1);
@@ -380,8 +381,9 @@ static inline void bound_pow(bound_t up, bound_t down, bound_t b, unsigned long
 static inline void bound_root(bound_t up, bound_t down, bound_t b, unsigned long n)
 {
   if (bound_infty(b)) {
-    bound_set_infty(up, 1);
-    bound_set_infty(down, 1);
+    int sgn = (n & 1) ? bound_sgn(b) : 1;
+    bound_set_infty(up, sgn);
+    bound_set_infty(down, sgn);
   }
   else {
     num_root(bound_numref(up), bound_numref(down), bound_numref(b), n);
-- 
2.43.0


From b7a4bece0dc0679cc93782b2e297a30b82ef7fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 07/74] fix: num: downward rounding of native floating-point
 powers

---
 num/numflt_native.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/num/numflt_native.h b/num/numflt_native.h
index dbc1d05..5c3300b 100644
--- a/num/numflt_native.h
+++ b/num/numflt_native.h
@@ -160,14 +160,16 @@ static inline int  numflt_pow(numflt_t up, numflt_t down, numflt_t b, unsigned l
 {
   /* we cannot rely on pow, we implement a simple fast power */
   numflt_native u, d, fu, fd;
+  /* volatile, as cancelling the negations would change the rounding of d */
+  volatile numflt_native t;
   int sign;
   if (*b < 0) { fu = fd = -*b; sign = n&1;}
   else { fu = fd = *b; sign = 0; }
   u = d = 1;
   while (n) {
-    if (n & 1) { u *= fu; d = - ((-d) * fd); }
+    if (n & 1) { u *= fu; t = -d; t = t * fd; d = -t; }
     fu = fu * fu;
-    fd = - ((-fd) * fd);
+    t = -fd; t = t * fd; fd = -t;
     n >>= 1;
   }
   if (sign) {
-- 
2.43.0


From 7963aa4d143170cbaf7775c0547d1ec67f550e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 08/74] fix: octagons: sat_lincons reports incompleteness for
 EQMOD and DISEQ

---
 octagons/oct_predicate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/octagons/oct_predicate.c b/octagons/oct_predicate.c
index 8240d29..b92dbb3 100644
--- a/octagons/oct_predicate.c
+++ b/octagons/oct_predicate.c
@@ -231,6 +231,7 @@ bool oct_sat_lincons(ap_manager_t* man, oct_t* a,
       /* skipped */
     case AP_CONS_EQMOD:
     case AP_CONS_DISEQ:
+      flag_incomplete;
       return false;
 
       /* handled */
-- 
2.43.0


From 9bee08fdc9b0184e74353879fb832450dcd41ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 09/74] fix: num: bound_to_float rounds upwards whatever the
 rounding mode

---
 num/bound_def.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/num/bound_def.h b/num/bound_def.h
index 0d3aefe..e7052ea 100644
--- a/num/bound_def.h
+++ b/num/bound_def.h
@@ -398,7 +398,9 @@ static inline void bound_to_float(bound_t a, bound_t b)
   else {
     double d;
     double_set_num(&d,bound_numref(b));
-    d = (float)d;
+    /* rounds upwards, whatever the current rounding mode */
+    float f = (float)d;
+    d = (f<d) ? nextafterf(f,1./0.) : f;
     if (d == 1./0.) {
       bound_set_infty(a,1);
     }
-- 
2.43.0


From ded6d31d3f34f1202789b03ac79e6d144cddde20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 10/74] fix: newpolka: destructive meet when minimisation
 discovers that the argument is empty

---
 newpolka/pk_meetjoin.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/newpolka/pk_meetjoin.c b/newpolka/pk_meetjoin.c
index 745badb..2fff052 100644
--- a/newpolka/pk_meetjoin.c
+++ b/newpolka/pk_meetjoin.c
@@ -302,6 +302,9 @@ void poly_meet(bool meet,
 	pk->exn = AP_EXC_NONE;
 	goto _poly_meet_entry0;
       }
+      /* Particular cases (emptiness may have been discovered) */
+      if (poly_meet_particularcases(meet,lazy,man,po,pa,pb))
+	return;
     }
     /* Now, pa is the start polyhedron */
     poly_obtain_satC(pa);
-- 
2.43.0


From 4aa2a07cda9c052fd05d1f6e2a0850f8e23df32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 11/74] fix: newpolka: precision flags of assignments, meet
 with constraints and fold

---
 newpolka/pk_assign.c     | 14 +++++++++-----
 newpolka/pk_expandfold.c |  2 +-
 newpolka/pk_meetjoin.c   | 20 ++++++++++++++++++--
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/newpolka/pk_assign.c b/newpolka/pk_assign.c
index d5ab720..32202ad 100644
--- a/newpolka/pk_assign.c
+++ b/newpolka/pk_assign.c
@@ -580,7 +580,7 @@ pk_t* poly_asssub_linexpr_array(bool assign,
   /* Is the result exact or best ? */
   if (pk->funopt->flag_best_wanted || pk->funopt->flag_exact_wanted){
     size_t i;
-    man->result.flag_best = true;
+    man->result.flag_best = ap_linexpr0_array_is_linear(texpr,size);
     for (i=0;i<size;i++){
       if (tdim[i] < pa->intdim || !ap_linexpr0_is_real(texpr[i], pa->intdim)){
 	man->result.flag_best = false;
@@ -590,7 +590,8 @@ pk_t* poly_asssub_linexpr_array(bool assign,
     man->result.flag_exact = man->result.flag_best;
   }
   else {
-    man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
+    man->result.flag_best = man->result.flag_exact =
+      (pa->intdim==0) && ap_linexpr0_array_is_linear(texpr,size);
   }
   return po;
 }
@@ -655,10 +656,11 @@ pk_t* poly_asssub_linexpr(bool assign,
     man->result.flag_best = man->result.flag_exact =
       (dim < pa->intdim || !ap_linexpr0_is_real(linexpr, pa->intdim)) ?
       false :
-      true;
+      ap_linexpr0_is_linear(linexpr);
   }
   else {
-    man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
+    man->result.flag_best = man->result.flag_exact =
+      (pa->intdim==0) && ap_linexpr0_is_linear(linexpr);
   }
   return po;
 }
@@ -738,7 +740,9 @@ pk_t* poly_asssub_texpr_array(bool assign,
   }
   /* Is the result exact or best ? */
   if (pk->funopt->flag_best_wanted || pk->funopt->flag_exact_wanted){
-    man->result.flag_best = ap_texpr0_array_is_interval_linear(texpr,size);
+    man->result.flag_best =
+      ap_texpr0_array_is_scalar(texpr,size) &&
+      ap_texpr0_array_is_interval_linear(texpr,size);
     man->result.flag_exact = man->result.flag_best;
   }
   else {
diff --git a/newpolka/pk_expandfold.c b/newpolka/pk_expandfold.c
index 5fd3e74..c7fe8ce 100644
--- a/newpolka/pk_expandfold.c
+++ b/newpolka/pk_expandfold.c
@@ -317,7 +317,7 @@ pk_t* pk_fold(ap_manager_t* man,
   }
 
   man->result.flag_best = (intdimsup==0);
-  man->result.flag_exact = (intdimsup==0);
+  man->result.flag_exact = (size<=1);
   assert(poly_check(pk,po));
   return po;
 }
diff --git a/newpolka/pk_meetjoin.c b/newpolka/pk_meetjoin.c
index 2fff052..60584de 100644
--- a/newpolka/pk_meetjoin.c
+++ b/newpolka/pk_meetjoin.c
@@ -528,7 +528,8 @@ void poly_meet_itv_lincons_array(bool lazy,
 				 itv_lincons_array_t* array)
 {
   pk_matrix_t* mat;
-  bool quasilinear;
+  bool quasilinear,exact;
+  size_t i;
   pk_internal_t* pk = (pk_internal_t*)man->internal;
 
   quasilinear = itv_lincons_array_is_quasilinear(array);
@@ -554,6 +555,21 @@ void poly_meet_itv_lincons_array(bool lazy,
     return;
   }
 
+  /* is it possible to represent exactly the constraints ? */
+  exact = quasilinear;
+  for (i=0; exact && i<array->size; i++){
+    switch (array->p[i].constyp){
+    case AP_CONS_EQ:
+    case AP_CONS_SUPEQ:
+      break;
+    case AP_CONS_SUP:
+      exact = pk->strict;
+      break;
+    default:
+      exact = false;
+      break;
+    }
+  }
   /* quasilinearize if needed */
   if (!quasilinear){
     itv_t* env = pk_matrix_to_box(pk,pa->F);
@@ -562,7 +578,7 @@ void poly_meet_itv_lincons_array(bool lazy,
   }
   itv_linearize_lincons_array(pk->itv,array,true);
   itv_lincons_array_reduce_integer(pk->itv,array,po->intdim);
-  bool exact = pk_matrix_set_itv_lincons_array(pk,&mat,array,po->intdim,po->realdim,true);
+  pk_matrix_set_itv_lincons_array(pk,&mat,array,po->intdim,po->realdim,true);
   pk_matrix_sort_rows(pk,mat);
   if (!lazy) poly_obtain_satC(pa);
   poly_meet_matrix(true,lazy,man,po,pa,mat);
-- 
2.43.0


From 398e564c7db3df1e4183e6a64cec2c3a573cadb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 12/74] fix: pkeq: interval coefficients in assignments and
 substitutions, of_box emptiness, precision flags

---
 newpolka/pkeq.c | 67 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/newpolka/pkeq.c b/newpolka/pkeq.c
index fbe6e99..1d7a654 100644
--- a/newpolka/pkeq.c
+++ b/newpolka/pkeq.c
@@ -84,6 +84,8 @@ void equality_reduce(ap_manager_t* man, pkeq_t* po)
     if (po->C->nbrows > po->nbeq + 1){
       pk_internal_t* pk = (pk_internal_t*)man->internal;
 
+      /* inequalities are dropped */
+      man->result.flag_exact = false;
       po->C->nbrows = po->nbeq + 1;
       pk_matrix_fill_constraint_top(pk,po->C,po->nbeq);
       pk_matrix_reduce(po->C);
@@ -154,7 +156,7 @@ pkeq_t* pkeq_of_box(ap_manager_t* man,
   size_t row,dim;
   pkeq_t* po;
   itv_t itv;
-  bool ok;
+  bool ok,exact;
 
   pk_internal_t* pk = pk_init_from_manager(man,AP_FUNID_OF_BOX);
   pk_internal_realloc_lazy(pk,intdim+realdim);
@@ -169,28 +171,38 @@ pkeq_t* pkeq_of_box(ap_manager_t* man,
   /* constraints */
   row = 0;
   itv_init(itv);
-  ok = false;
+  exact = true;
   for (i=0; i<dim; i++){
     itv_set_ap_interval(pk->itv,itv,array[i]);
-    if (itv_is_point(pk->itv,itv)){
+    ok = true;
+    if (itv_is_bottom(pk->itv,itv)){
+      ok = false;
+    }
+    else if (itv_is_point(pk->itv,itv)){
       ok = vector_set_dim_bound(pk,po->C->p[row],
 				 (ap_dim_t)i, bound_numref(itv->sup), 0,
 				 intdim,realdim,
 				 true);
-      if (!ok){
-	pk_matrix_free(po->C);
-	po->C = NULL;
-	return po;
-      }
       row++;
     }
+    else if (!itv_is_top(itv)){
+      exact = false;
+    }
+    if (!ok){
+      itv_clear(itv);
+      pk_matrix_free(po->C);
+      po->C = NULL;
+      man->result.flag_exact = man->result.flag_best = true;
+      return po;
+    }
   }
   itv_clear(itv);
   pk_matrix_fill_constraint_top(pk,po->C,row);
   po->C->nbrows = pk->dec - 1 + row;
   pk_matrix_reduce(po->C);
   pk_canonicalize(man,po);
-  man->result.flag_exact = man->result.flag_best = true;
+  man->result.flag_best = true;
+  man->result.flag_exact = exact;
   return po;
 }
 
@@ -338,9 +350,7 @@ pkeq_t* equality_asssub_linexpr(bool assign,
     return destructive ? pa : pk_bottom(man,pa->intdim,pa->realdim);
   }
   /* Choose the right technique */
-  switch (linexpr->cst.discr){
-  case AP_COEFF_SCALAR:
-    {
+  if (ap_linexpr0_is_linear(linexpr)){
       po = poly_asssub_linexpr_det(assign,man,destructive,pa,dim,linexpr);
       poly_chernikova(man,po,"of the result");
       if (pk->exn) goto _equality_asssub_linexpr_error;
@@ -356,13 +366,10 @@ pkeq_t* equality_asssub_linexpr(bool assign,
       else {
 	man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
       }
-    }
-    break;
-  case AP_COEFF_INTERVAL:
+  }
+  else {
     po = pkeq_forget_array(man,destructive,pa,&dim,1,false);
-    break;
-  default:
-    abort();
+    man->result.flag_best = man->result.flag_exact = false;
   }
   return po;
  _equality_asssub_linexpr_error:
@@ -404,7 +411,7 @@ pkeq_t* equality_asssub_linexpr_array(bool assign,
   tdimforget = malloc(size*sizeof(ap_dim_t));
   sizeforget = 0;
   for (i=0; i<size; i++){
-    if (texpr[i]->cst.discr==AP_COEFF_SCALAR){
+    if (ap_linexpr0_is_linear(texpr[i])){
       tdimp[sizep] = tdim[i];
       texprp[sizep] = texpr[i];
       sizep++;
@@ -414,12 +421,18 @@ pkeq_t* equality_asssub_linexpr_array(bool assign,
     }
   }
   if (sizep>0){
-    po = poly_asssub_linexpr_array_det(assign,man,destructive,pa,tdimp,texprp,sizep);
+    if (!assign && sizeforget){
+      /* the forgotten dimensions of the postcondition are removed first */
+      pa = pkeq_forget_array(man,destructive,pa,tdimforget,sizeforget,false);
+    }
+    po = poly_asssub_linexpr_array_det(assign,man,
+				       destructive || (!assign && sizeforget),
+				       pa,tdimp,texprp,sizep);
     poly_chernikova(man,po,"of the result");
     if (pk->exn) goto _equality_asssub_linexpr_array_error;
     equality_reduce(man,po);
     if (pk->exn) goto _equality_asssub_linexpr_array_error;
-    if (sizeforget){
+    if (assign && sizeforget){
       po = pkeq_forget_array(man,true,po,tdimforget,sizeforget,false);
     }
   }
@@ -428,7 +441,7 @@ pkeq_t* equality_asssub_linexpr_array(bool assign,
   }
   /* Is the result exact or best ? */
   if (pk->funopt->flag_best_wanted || pk->funopt->flag_exact_wanted){
-    man->result.flag_best = true;
+    man->result.flag_best = (sizeforget==0);
     for (i=0;i<size;i++){
       if (tdim[i] < pa->intdim || !ap_linexpr0_is_real(texpr[i], pa->intdim)){
 	man->result.flag_best = false;
@@ -438,7 +451,7 @@ pkeq_t* equality_asssub_linexpr_array(bool assign,
     man->result.flag_exact = man->result.flag_best;
   }
   else {
-    man->result.flag_best = man->result.flag_exact = (pa->intdim==0);
+    man->result.flag_best = man->result.flag_exact = (pa->intdim==0 && sizeforget==0);
   }
   free(tdimp);
   free(texprp); 
@@ -470,7 +483,11 @@ pkeq_t* pkeq_assign_linexpr_array(ap_manager_t* man,
     equality_asssub_linexpr_array(true,
 				  man,destructive,pa,tdim,texpr,size);
   if (pb!=NULL){
+    bool best = man->result.flag_best;
+    bool exact = man->result.flag_exact;
     po = pkeq_meet(man,true,po,pb);
+    man->result.flag_best = man->result.flag_best && best;
+    man->result.flag_exact = man->result.flag_exact && exact;
   }
   return po;
 }
@@ -491,7 +508,11 @@ pkeq_t* pkeq_substitute_linexpr_array(ap_manager_t* man,
     equality_asssub_linexpr_array(false,
 				  man,destructive,pa,tdim,texpr,size);
   if (pb!=NULL){
+    bool best = man->result.flag_best;
+    bool exact = man->result.flag_exact;
     po = pkeq_meet(man,true,po,pb);
+    man->result.flag_best = man->result.flag_best && best;
+    man->result.flag_exact = man->result.flag_exact && exact;
   }
   return po;
 }
-- 
2.43.0


From fdc505cc42d01d5daf6c699f166d3d9aa37d2a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 13/74] fix: itv: expressions whose constant becomes an
 interval are not scalar any more

---
 itv/itv_linearize.c | 1 +
 itv/itv_linexpr.c   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 8fb4b32..940cb69 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -541,6 +541,7 @@ bool ITVFUN(itv_quasilinearize_linexpr)(itv_internal_t* intern, itv_linexpr_t* l
       /* If a variable has a constant value, simplification */
       itv_mul_num(itv,itv,bound_numref(env[dim]->sup));
       itv_add(linexpr->cst,linexpr->cst,itv);
+      linexpr->equality = linexpr->equality && itv_is_point(intern,linexpr->cst);
 
       size--;
       itv_linterm_t tmp = linexpr->linterm[i];
diff --git a/itv/itv_linexpr.c b/itv/itv_linexpr.c
index 9eb2e98..4d783bc 100644
--- a/itv/itv_linexpr.c
+++ b/itv/itv_linexpr.c
@@ -331,6 +331,7 @@ void ITVFUN(itv_linexpr_scale)(itv_internal_t* intern,
     return;
   }
   itv_mul(intern,expr->cst,expr->cst,coeff);
+  expr->equality = expr->equality && itv_is_point(intern,expr->cst);
   if (itv_is_top(expr->cst)){
     itv_linexpr_reinit(expr,0);
     return;
@@ -352,6 +353,7 @@ void ITVFUN(itv_linexpr_div)(itv_internal_t* intern,
   itv_ptr pitv;
 
   itv_div(intern,expr->cst,expr->cst,coeff);
+  expr->equality = expr->equality && itv_is_point(intern,expr->cst);
   itv_linexpr_ForeachLinterm(expr,i,dim,pitv,peq){
     itv_div(intern,pitv,pitv,coeff);
     *peq = *peq /* speed-up */ && itv_is_point(intern,pitv);
-- 
2.43.0


From 363777eeeb157071796d9d0221d1f692a24766d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 14/74] fix: ppl: flags, strict tests and hash of polyhedra;
 congruence modulus of rational constraints

---
 ppl/ppl_poly.cc | 26 +++++++++++++++++++-------
 ppl/ppl_user.cc |  5 +++--
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/ppl/ppl_poly.cc b/ppl/ppl_poly.cc
index 189ac84..619f153 100644
--- a/ppl/ppl_poly.cc
+++ b/ppl/ppl_poly.cc
@@ -234,8 +234,8 @@ int ap_ppl_poly_hash(ap_manager_t* man, PPL_Poly* a)
 {
   man->result.flag_exact = man->result.flag_best = true;
   try {
-    (void)a->p->minimized_constraints();
-    return a->p->total_memory_in_bytes();
+    /* must not depend on the internal representation */
+    return a->p->space_dimension()*31 + a->p->affine_dimension();
   }
   CATCH_WITH_VAL(AP_FUNID_HASH,0);
 }
@@ -479,14 +479,12 @@ bool ap_ppl_poly_sat_lincons(ap_manager_t* man, PPL_Poly* a,
 	}
 	assert (!bound_infty(lincons.linexpr.cst->inf));
 	exact = ap_ppl_of_itv_linexpr(l,den,&lincons.linexpr,-1) && exact;
-	itv_lincons_clear(&lincons);
 	switch (lincons.constyp){
 	case AP_CONS_SUPEQ:
 	  r = (l>=0); 
           break;
 	case AP_CONS_SUP:
-          if (intern->strict) r = (l>0);
-          else { exact = false; r = (l>=0); }
+	  r = (l>0);
 	  break;
 	case AP_CONS_EQMOD:
 	  exact = exact && (num_sgn(lincons.num)==0);
@@ -497,6 +495,7 @@ bool ap_ppl_poly_sat_lincons(ap_manager_t* man, PPL_Poly* a,
 	default:
 	  assert(0);
 	}
+	itv_lincons_clear(&lincons);
 	break;
       default:
 	man->result.flag_exact = man->result.flag_best = false;
@@ -789,8 +788,13 @@ PPL_Poly* ap_ppl_poly_meet_lincons_array(ap_manager_t* man,
     }
     itv_lincons_array_init(&array2,array->size);
     exact = itv_lincons_array_set_ap_lincons0_array(intern->itv, &array2, array) && exact;
+    /* DISEQ and EQMOD constraints are dropped by the linearization */
+    for (size_t i=0;i<array2.size;i++)
+      if (array2.p[i].constyp==AP_CONS_DISEQ || array2.p[i].constyp==AP_CONS_EQMOD)
+	exact = false;
     if (!itv_lincons_array_is_quasilinear(&array2)){
       itv_t* env = ap_ppl_poly_to_itv_array(a);
+      exact = false;
       exact = itv_quasilinearize_lincons_array(intern->itv,&array2,env,true) && exact;
       itv_array_free(env,a->p->space_dimension());
     }
@@ -882,7 +886,11 @@ PPL_Poly* ap_ppl_poly_assign_linexpr_array(ap_manager_t* man,
     CATCH_WITH_POLY(AP_FUNID_ASSIGN_LINEXPR_ARRAY,org);
   }
   else {
-    return (PPL_Poly*)ap_generic_assign_linexpr_array(man,destructive,org,tdim,texpr,size,dest);
+    PPL_Poly* r =
+      (PPL_Poly*)ap_generic_assign_linexpr_array(man,destructive,org,tdim,texpr,size,dest);
+    if (!exact)
+      man->result.flag_exact = man->result.flag_best = false;
+    return r;
   }
 }
 
@@ -923,7 +931,11 @@ PPL_Poly* ap_ppl_poly_substitute_linexpr_array(ap_manager_t* man,
     CATCH_WITH_POLY(AP_FUNID_SUBSTITUTE_LINEXPR_ARRAY,org);
   }
   else {
-    return (PPL_Poly*)ap_generic_substitute_linexpr_array(man,destructive,org,tdim,texpr,size,dest);
+    PPL_Poly* r =
+      (PPL_Poly*)ap_generic_substitute_linexpr_array(man,destructive,org,tdim,texpr,size,dest);
+    if (!exact)
+      man->result.flag_exact = man->result.flag_best = false;
+    return r;
   }
 }
 
diff --git a/ppl/ppl_user.cc b/ppl/ppl_user.cc
index 210b5ed..19d0aa3 100644
--- a/ppl/ppl_user.cc
+++ b/ppl/ppl_user.cc
@@ -260,7 +260,7 @@ bool ap_ppl_of_box(Constraint_System& r, ap_interval_t** a, size_t intdim, size_
       exact =
 	!ap_mpq_set_scalar(mpq,a[i]->inf,GMP_RNDD) && exact;
       if (i<intdim){
-	mpz_fdiv_q(mpq_numref(mpq),mpq_numref(mpq),mpq_denref(mpq));
+	mpz_cdiv_q(mpq_numref(mpq),mpq_numref(mpq),mpq_denref(mpq));
 	mpz_set_ui(mpq_denref(mpq),1);
       }
       r.insert( Constraint( temp.get_den() * Variable(i) >= temp.get_num() ));
@@ -474,7 +474,8 @@ bool ap_ppl_of_itv_lincons(Congruence& r, mpz_class& den, itv_lincons_t* c)
     else {
       mpq_class mod;
       num_set(mod.get_mpq_t(),c->num);
-      r = ( l * mod.get_den() %= 0) / mod.get_num();
+      mpz_class num = mod.get_num() * den;
+      r = ( l * mod.get_den() %= 0) / num;
     }
     break;
   default:
-- 
2.43.0


From db267c4a166d6187264c9d696cb82b8f510a68c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 15/74] fix: ppl: grids: bounds and inequality tests, empty
 grids, constant constraints, hash

---
 ppl/ppl_grid.cc | 65 ++++++++++++++++++++++++++++++++++---------------
 ppl/ppl_user.cc | 16 ++++++++++++
 2 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index 8f4a651..10fe983 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -65,6 +65,8 @@ void PPL_Grid::reduce()
 
 void PPL_Grid::forget_dim(size_t dim)
 {
+  /* generators cannot be added to an empty grid */
+  if (p->is_empty()) return;
 #ifndef PPL_0_9
   if (intdim>dim) p->add_grid_generator(Grid_Generator::parameter(Variable(dim)));
   else p->add_grid_generator(Grid_Generator::grid_line(Variable(dim)));
@@ -144,6 +146,32 @@ static void ap_ppl_grid_bound_dim(ap_interval_t* r,PPL_Grid* a,int dim)
   else ap_scalar_set_infty(r->inf,-1);
 }
 
+/* is the expression l constant on the (non-empty) grid ? If so, n/d is its value */
+/* the constant part of l is added afterwards as PPL 1.2 does not scale it */
+static bool ap_ppl_grid_constant(PPL_Grid* a, const Linear_Expression& l,
+				 Coefficient& n, Coefficient& d)
+{
+  bool ok;
+  Coefficient cst = l.inhomogeneous_term();
+  Linear_Expression h = l;
+  h -= cst;
+  if (!a->p->maximize(h,n,d,ok)) return false;
+  n += cst*d;
+  return true;
+}
+
+/* constraints of a grid */
+/* PPL may return no congruence at all for (copies of) empty grids */
+static ap_lincons0_array_t ap_ppl_grid_constraints(PPL_Grid* a)
+{
+  if (a->p->is_empty()) {
+    ap_lincons0_array_t ar = ap_lincons0_array_make(1);
+    ar.p[0] = ap_lincons0_make_unsat();
+    return ar;
+  }
+  return ap_ppl_to_lincons_array(a->p->congruences());
+}
+
 static itv_t* ap_ppl_grid_to_itv_array(PPL_Grid* a)
 {
   Coefficient sup_n,sup_d;
@@ -258,14 +286,8 @@ int ap_ppl_grid_hash(ap_manager_t* man, PPL_Grid* a)
   man->result.flag_exact = man->result.flag_best = true;
   try {
     ((PPL_Grid*)a)->reduce();
-    /* the calls force in-place minimisation */
-    (void)a->p->minimized_congruences();
-#ifndef PPL_0_9
-    (void)a->p->minimized_grid_generators();
-#else
-    (void)a->p->minimized_generators();
-#endif
-    return a->p->total_memory_in_bytes();
+    /* must not depend on the internal representation */
+    return a->p->space_dimension()*31 + a->p->affine_dimension();
   }
   CATCH_WITH_VAL(AP_FUNID_HASH,0);
 }
@@ -321,7 +343,7 @@ void ap_ppl_grid_fdump(FILE* stream, ap_manager_t* man, PPL_Grid* a)
   try {
     /* dump constraints */
     fprintf(stream,"constraints: ");
-    ap_lincons0_array_t ar = ap_ppl_to_lincons_array(a->p->congruences());
+    ap_lincons0_array_t ar = ap_ppl_grid_constraints(a);
     ap_lincons0_array_fprint(stream,&ar,NULL);
     ap_lincons0_array_clear(&ar);
     /* dump generators */
@@ -511,15 +533,19 @@ bool ap_ppl_grid_sat_lincons(ap_manager_t* man, PPL_Grid* a,
 	}
 	assert (!bound_infty(lincons.linexpr.cst->inf));
 	exact = ap_ppl_of_itv_linexpr(l,den,&lincons.linexpr,-1) && exact;
-	itv_lincons_clear(&lincons);
 	switch (lincons.constyp){
 	case AP_CONS_SUPEQ:
-	  r = (l>=0); 
-          break;
 	case AP_CONS_SUP:
-          exact = false;
-          r = (l>=0); 
-          break;
+	  {
+	    /* the expression is either constant or unbounded on the grid */
+	    Coefficient n,d;
+	    bool ok = ap_ppl_grid_constant(a,l,n,d) &&
+	      (lincons.constyp==AP_CONS_SUP ? sgn(n)>0 : sgn(n)>=0);
+	    itv_lincons_clear(&lincons);
+	    if (!exact)
+	      man->result.flag_exact = man->result.flag_best = false;
+	    return ok;
+	  }
 	case AP_CONS_EQMOD:
 	  exact = exact && (num_sgn(lincons.num)==0);
           // fall through
@@ -529,6 +555,7 @@ bool ap_ppl_grid_sat_lincons(ap_manager_t* man, PPL_Grid* a,
 	default:
 	  assert(0);
 	}
+	itv_lincons_clear(&lincons);
 	break;
       default:
 	man->result.flag_exact = man->result.flag_best = false;
@@ -625,8 +652,8 @@ ap_interval_t* ap_ppl_grid_bound_linexpr(ap_manager_t* man,
 	  ap_scalar_set_infty(r->sup,1);
 	}
 	else {
-	  ap_ppl_of_linexpr(intern->itv,l,den,expr,1);
-	  if (a->p->maximize(l,sup_n,sup_d,ok)) {
+	  ap_ppl_of_itv_linexpr(l,den,&linexpr,1);
+	  if (ap_ppl_grid_constant(a,l,sup_n,sup_d)) {
 	    sup_d *= den;
 	    ap_ppl_mpz2_to_scalar(r->sup,sup_n,sup_d);
 	  }
@@ -640,7 +667,7 @@ ap_interval_t* ap_ppl_grid_bound_linexpr(ap_manager_t* man,
 	  if (!itv_linexpr_is_scalar(&linexpr)){
 	    ap_ppl_of_itv_linexpr(l,den,&linexpr,-1);
 	  }
-	  if (a->p->minimize(l,sup_n,sup_d,ok)) {
+	  if (ap_ppl_grid_constant(a,l,sup_n,sup_d)) {
 	    sup_d *= den;
 	    ap_ppl_mpz2_to_scalar(r->inf,sup_n,sup_d);
 	  }
@@ -686,7 +713,7 @@ ap_lincons0_array_t ap_ppl_grid_to_lincons_array(ap_manager_t* man,
 {
   man->result.flag_exact = man->result.flag_best = true;
   try {
-    return ap_ppl_to_lincons_array(a->p->congruences());
+    return ap_ppl_grid_constraints(a);
   }
   CATCH_WITH_VAL(AP_FUNID_TO_LINCONS_ARRAY,ap_lincons0_array_make(0));
 }
diff --git a/ppl/ppl_user.cc b/ppl/ppl_user.cc
index 19d0aa3..56a1a52 100644
--- a/ppl/ppl_user.cc
+++ b/ppl/ppl_user.cc
@@ -459,6 +459,22 @@ bool ap_ppl_of_itv_lincons(Congruence& r, mpz_class& den, itv_lincons_t* c)
     throw cannot_convert();
   }
   ap_ppl_of_itv_linexpr(l,den,&c->linexpr,1);
+  if (c->linexpr.size==0) {
+    /* constant inequality */
+    int s = sgn(l.inhomogeneous_term());
+    bool sat;
+    switch (c->constyp) {
+    case AP_CONS_SUPEQ: sat = s>=0; break;
+    case AP_CONS_SUP:   sat = s>0; break;
+    case AP_CONS_DISEQ: sat = s!=0; break;
+    default:            sat = true; break;
+    }
+    if (!sat) { r = Congruence::zero_dim_false(); return true; }
+    if (c->constyp==AP_CONS_SUPEQ || c->constyp==AP_CONS_SUP || c->constyp==AP_CONS_DISEQ) {
+      r = Congruence::zero_dim_integrality();
+      return true;
+    }
+  }
   switch (c->constyp) {
   case AP_CONS_SUPEQ:
   case AP_CONS_SUP:
-- 
2.43.0


From 7a5a0d431ff3efeec959c07ba36860c6340270af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 16/74] fix: itv_snprint overwrote the upper bound with the
 closing bracket

---
 itv/itv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itv/itv.c b/itv/itv.c
index 6488a14..f20c234 100644
--- a/itv/itv.c
+++ b/itv/itv.c
@@ -681,7 +681,7 @@ int ITVFUN(itv_snprint)(char* s, size_t size, itv_t a)
     num_clear(num);
   }
   count += snprintf(s+count,size-count,",");
-  bound_snprint(s+count,size-count,a->sup);
+  count += bound_snprint(s+count,size-count,a->sup);
   count += snprintf(s+count,size-count,"]");
   return count;
 }
-- 
2.43.0


From 1f8a7e5c769d0f4fe0e0e2245a201bf95d168c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 17/74] fix: ap_coeff_set_itv rounded the lower bound of
 inexact points upwards

---
 itv/itv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/itv/itv.c b/itv/itv.c
index f20c234..e0a9169 100644
--- a/itv/itv.c
+++ b/itv/itv.c
@@ -752,8 +752,8 @@ bool ITVFUN(ap_coeff_set_itv)(itv_internal_t* intern,
       ap_coeff_reinit(a,AP_COEFF_INTERVAL,
 		      intern->ap_conversion_scalar->discr);
       ap_scalar_set(a->val.interval->sup, intern->ap_conversion_scalar);
-      bound_neg(intern->ap_conversion_bound, b->inf); /* we now it is finite */
-      ap_scalar_set_bound(a->val.interval->inf, intern->ap_conversion_bound);
+      ap_scalar_set_bound(a->val.interval->inf, b->inf); /* we know it is finite */
+      ap_scalar_neg(a->val.interval->inf, a->val.interval->inf);
       return false;
     }
   }
-- 
2.43.0


From c3b9abdf94e2310f6f79e6cecd35e92b63c2a4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 18/74] fix: unsound inverse images of integer and float
 rounding around 0 (itv_untrunc, itv_from_int, itv_from_float,
 itv_from_double)

---
 itv/itv.h | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/itv/itv.h b/itv/itv.h
index a51d157..af43e17 100644
--- a/itv/itv.h
+++ b/itv/itv.h
@@ -616,32 +616,30 @@ static inline void itv_untrunc(itv_t a, itv_t b)
   /* trunc(x) = ceil(x) if x < 0, floor(x) if x > 0 */
   bound_floor(a->inf,b->inf);
   bound_floor(a->sup,b->sup);
-  if (bound_sgn(a->inf) > 0) bound_add_uint(a->inf,a->inf,1);
-  if (bound_sgn(a->sup) > 0) bound_add_uint(a->sup,a->sup,1);
+  if (bound_sgn(a->inf) >= 0) bound_add_uint(a->inf,a->inf,1);
+  if (bound_sgn(a->sup) >= 0) bound_add_uint(a->sup,a->sup,1);
 }
 
 static inline void itv_from_int(itv_t a, itv_t b)
 {
-  /* [a,b] -> [floor(a),ceil(b)] */
-  bound_ceil(a->sup,b->sup);
-  bound_ceil(a->inf,b->inf);
+  /* [a,b] -> [ceil(a)-1,floor(b)+1] */
+  bound_floor(a->sup,b->sup);
+  bound_floor(a->inf,b->inf);
+  bound_add_uint(a->sup,a->sup,1);
+  bound_add_uint(a->inf,a->inf,1);
 }
 
 static inline void itv_from_float(itv_t a, itv_t b)
 {
-  /* special case to ensure that signs are respected */
-  if (bound_sgn(b->sup)==0) bound_set(a->sup,b->sup);
-  else bound_next_float(a->sup,b->sup);
-  if (bound_sgn(b->inf)==0) bound_set(a->inf,b->inf);
-  else bound_next_float(a->inf,b->inf);
+  /* also for zero bounds: small numbers of the opposite sign may round to 0 */
+  bound_next_float(a->sup,b->sup);
+  bound_next_float(a->inf,b->inf);
 }
 
 static inline void itv_from_double(itv_t a, itv_t b)
 {
-  if (bound_sgn(b->sup)==0) bound_set(a->sup,b->sup);
-  else bound_next_double(a->sup,b->sup);
-  if (bound_sgn(b->inf)==0) bound_set(a->inf,b->inf);
-  else bound_next_double(a->inf,b->inf);
+  bound_next_double(a->sup,b->sup);
+  bound_next_double(a->inf,b->inf);
 }
 
 
-- 
2.43.0


From d71644cdd8c30092df8cb4c014c2c6d3f7e0b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 19/74] fix: numrat_snprint printed the numerator as
 denominator

---
 num/numrat_native.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/num/numrat_native.h b/num/numrat_native.h
index 7e564c0..331ae3e 100644
--- a/num/numrat_native.h
+++ b/num/numrat_native.h
@@ -326,7 +326,7 @@ static inline int numrat_snprint(char* s, size_t size, numrat_t a)
   else {
     res = numint_snprint(s,size,a->n);
     res += snprintf(s+res,size-res,"/");
-    res += numint_snprint(s+res,size-res,a->n);
+    res += numint_snprint(s+res,size-res,a->d);
   }
   return res;
 }
-- 
2.43.0


From 5f57fbacfd393e9fffbeff5215a0c1d13af352be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 20/74] fix: numrat_root rounded the denominators of negative
 numbers the wrong way

---
 num/numrat_mpq.h    | 4 +++-
 num/numrat_native.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/num/numrat_mpq.h b/num/numrat_mpq.h
index 6c2be77..c4bb2ea 100644
--- a/num/numrat_mpq.h
+++ b/num/numrat_mpq.h
@@ -186,8 +186,10 @@ static inline int numrat_pow(numrat_t up, numrat_t down, numrat_t b, unsigned lo
 
 static inline void numrat_root(numrat_t up, numrat_t down, numrat_t b, unsigned long int n)
 {
+  bool neg = mpq_sgn(b)<0;
   numint_root(numrat_numref(up), numrat_numref(down), numrat_numref(b), n);
-  numint_root(numrat_denref(down), numrat_denref(up), numrat_denref(b), n);
+  if (neg) numint_root(numrat_denref(up), numrat_denref(down), numrat_denref(b), n);
+  else numint_root(numrat_denref(down), numrat_denref(up), numrat_denref(b), n);
   numrat_canonicalize(up);
   numrat_canonicalize(down);
 }
diff --git a/num/numrat_native.h b/num/numrat_native.h
index 331ae3e..22256ec 100644
--- a/num/numrat_native.h
+++ b/num/numrat_native.h
@@ -239,8 +239,10 @@ static inline int numrat_pow(numrat_t up, numrat_t down, numrat_t b, unsigned lo
 
 static inline void numrat_root(numrat_t up, numrat_t down, numrat_t b, unsigned long int n)
 {
+  bool neg = numint_sgn(b->n)<0;
   numint_root(up->n, down->n, b->n, n);
-  numint_root(down->d, up->d, b->d, n);
+  if (neg) numint_root(up->d, down->d, b->d, n);
+  else numint_root(down->d, up->d, b->d, n);
   numrat_canonicalize(up);
   numrat_canonicalize(down);
 }
-- 
2.43.0


From a57e3691a680e8efd054222beaf1894a4d5534dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 21/74] fix: bound_abs and bound_mul_2exp ignored the infinity
 flag of structured bounds

---
 num/bound_def.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/num/bound_def.h b/num/bound_def.h
index e7052ea..9a7b9fd 100644
--- a/num/bound_def.h
+++ b/num/bound_def.h
@@ -237,7 +237,10 @@ static inline void bound_neg(bound_t a, bound_t b)
   else { num_neg(bound_numref(a),bound_numref(b)); _bound_inf(a); }
 }
 static inline void bound_abs(bound_t a, bound_t b)
-{ num_abs(bound_numref(a),bound_numref(b)); }
+{
+  if (bound_infty(b)) bound_set_infty(a,1);
+  else { num_abs(bound_numref(a),bound_numref(b)); _bound_inf(a); }
+}
 static inline void bound_add(bound_t a, bound_t b, bound_t c)
 {
   if (bound_infty(b)) bound_set_infty(a,bound_sgn(b));
@@ -477,7 +480,7 @@ static inline void bound_next_double(bound_t a, bound_t b)
 static inline void bound_mul_2exp(bound_t a, bound_t b, int c)
 {
   if (bound_infty(b)) bound_set_infty(a,bound_sgn(b));
-  else { num_mul_2exp(bound_numref(a),bound_numref(b),c); }
+  else { num_mul_2exp(bound_numref(a),bound_numref(b),c); _bound_inf(a); }
 }
 
 
-- 
2.43.0


From eb506bebca07af8e8c133eab5b852614c80ecf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 22/74] fix: MPFR numbers were serialized with the size in
 place of the exponent

---
 num/numflt_mpfr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/num/numflt_mpfr.h b/num/numflt_mpfr.h
index 5ffc470..62ced03 100644
--- a/num/numflt_mpfr.h
+++ b/num/numflt_mpfr.h
@@ -312,7 +312,7 @@ static inline size_t numflt_serialize(void* dst, numflt_t src)
   assert(((unsigned)count)==count);
   assert(((int)e)==e);
   num_dump_word32((char*)dst+1,(unsigned)count);
-  num_dump_word32((char*)dst+5,(unsigned)count);
+  num_dump_word32((char*)dst+5,(unsigned)(int)e);
   return count+9;
 
 }
-- 
2.43.0


From b9eb747666963c013e094ef84d0e4d6c4f8f94ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 23/74] fix: conversions of MPZ/MPQ to native floats claimed
 exactness on overflow and underflow

---
 num/numflt_native.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/num/numflt_native.h b/num/numflt_native.h
index 5c3300b..3c9d5c0 100644
--- a/num/numflt_native.h
+++ b/num/numflt_native.h
@@ -286,10 +286,11 @@ static inline bool numflt_set_mpz_tmp(numflt_t a, mpz_t b, mpfr_t mpfr)
   int res = mpfr_set_z(mpfr,b,GMP_RNDU);
 #if defined(NUMFLT_DOUBLE)
   *a = mpfr_get_d(mpfr,GMP_RNDU);/* Normally, exact conversion here (unless overfloww) */
+  return (res==0) && !mpfr_cmp_d(mpfr,*a);
 #else
   *a = mpfr_get_ld(mpfr,GMP_RNDU);/* Normally, exact conversion here (unless overfloww) */
+  return (res==0) && !mpfr_cmp_ld(mpfr,*a);
 #endif
-  return (res==0);
 }
 static inline bool numflt_set_mpz(numflt_t a, mpz_t b)
 {
@@ -306,10 +307,11 @@ static inline bool numflt_set_mpq_tmp(numflt_t a, mpq_t b, mpfr_t mpfr)
   int res = mpfr_set_q(mpfr,b,GMP_RNDU);
 #if defined(NUMFLT_DOUBLE)
   *a = mpfr_get_d(mpfr,GMP_RNDU);/* Normally, exact conversion here (unless overfloww) */
+  return (res==0) && !mpfr_cmp_d(mpfr,*a);
 #else
   *a = mpfr_get_ld(mpfr,GMP_RNDU);/* Normally, exact conversion here (unless overfloww) */
+  return (res==0) && !mpfr_cmp_ld(mpfr,*a);
 #endif
-  return (res==0);
 }
 static inline bool numflt_set_mpq(numflt_t a, mpq_t b)
 {
-- 
2.43.0


From d45e9c9d3bc98a4cd7be2fd436c5e68d4f3456ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 24/74] fix: ap_scalar_set_infty with sign 0 gave an infinite
 MPFR scalar

---
 apron/ap_scalar.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index 5f1ed9d..b9da1c1 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -176,7 +176,8 @@ void ap_scalar_set_infty(ap_scalar_t* scalar, int sgn)
     scalar->val.dbl = sgn>0 ? (double)1.0/(double)0.0 : (sgn < 0 ? -(double)1.0/(double)0.0 : 0.0);
     break;
   case AP_SCALAR_MPFR:
-    mpfr_set_inf(scalar->val.mpfr,sgn);
+    if (sgn) mpfr_set_inf(scalar->val.mpfr,sgn);
+    else mpfr_set_ui(scalar->val.mpfr,0,GMP_RNDN);
     break;
   default:
     abort();
-- 
2.43.0


From f92238f76d447e339abc4d5e536ec70811247684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 25/74] fix: ap_double_set_scalar returned the opposite sign
 for MPFR and claimed exactness on overflow

---
 apron/ap_scalar.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index b9da1c1..6f67a85 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -228,7 +228,8 @@ int ap_double_set_scalar(double* k, ap_scalar_t* scalar, mp_rnd_t round)
       mpfr_t mpfr;
       mpfr_init2(mpfr,53);
       int res = mpfr_set_q(mpfr,scalar->val.mpq,round);
-      *k = mpfr_get_d(mpfr,round); /* normally, exact */
+      *k = mpfr_get_d(mpfr,round); /* exact unless overflow or underflow */
+      if (mpfr_cmp_d(mpfr,*k)) res = -mpfr_cmp_d(mpfr,*k);
       mpfr_clear(mpfr);
       return res;
     }
@@ -237,7 +238,7 @@ int ap_double_set_scalar(double* k, ap_scalar_t* scalar, mp_rnd_t round)
     return 0;
   case AP_SCALAR_MPFR:
     *k = mpfr_get_d(scalar->val.mpfr,round);
-    return mpfr_cmp_d(scalar->val.mpfr,*k);
+    return -mpfr_cmp_d(scalar->val.mpfr,*k);
   default:
     abort();
   }
-- 
2.43.0


From 193f48ce039574618fdcfd9c63e42636b6bde310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 26/74] fix: ap_scalar_hash differed for equal scalars of
 different representations

---
 apron/ap_scalar.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/apron/ap_scalar.c b/apron/ap_scalar.c
index 6f67a85..4c41aa7 100644
--- a/apron/ap_scalar.c
+++ b/apron/ap_scalar.c
@@ -462,16 +462,12 @@ long ap_scalar_hash(ap_scalar_t* a)
   if (infty<0) return LONG_MIN;
   else if (infty>0) return LONG_MAX;
   else {
-    switch (a->discr){
-    case AP_SCALAR_MPQ:
-      return mpz_get_si(mpq_numref(a->val.mpq))/mpz_get_ui(mpq_denref(a->val.mpq));
-    case AP_SCALAR_DOUBLE:
-      return (int)(a->val.dbl);
-    case AP_SCALAR_MPFR:
-      return mpfr_get_si(a->val.mpfr,GMP_RNDU); /* XXX improve this */
-    default:
-      abort();
-    }
+    /* equal scalars of different types have the same hash code */
+    double d;
+    ap_double_set_scalar(&d,a,GMP_RNDZ);
+    if (d>=(double)LONG_MAX) return LONG_MAX;
+    if (d<=(double)LONG_MIN) return LONG_MIN;
+    return (long)d;
   }
 }
 
-- 
2.43.0


From 7701cdb82bdb1032b8f3518c1c0cf0ce347cc58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 27/74] fix: ap_coeff_equal_int answered the opposite of
 equality

---
 apron/ap_coeff.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apron/ap_coeff.c b/apron/ap_coeff.c
index 001c055..bcc2d8e 100644
--- a/apron/ap_coeff.c
+++ b/apron/ap_coeff.c
@@ -312,9 +312,9 @@ bool ap_coeff_equal_int(ap_coeff_t* coeff, int i)
 {
   switch (coeff->discr){
   case AP_COEFF_SCALAR:
-    return ap_scalar_equal_int(coeff->val.scalar,i)==0;
+    return ap_scalar_equal_int(coeff->val.scalar,i);
   case AP_COEFF_INTERVAL:
-    return (ap_scalar_equal_int(coeff->val.interval->inf,i)==0) && (ap_scalar_equal_int(coeff->val.interval->sup,i)==0);
+    return ap_scalar_equal_int(coeff->val.interval->inf,i) && ap_scalar_equal_int(coeff->val.interval->sup,i);
   default:
     abort();
   }
-- 
2.43.0


From 369daf4177a6a24d08ae6a71e964735e58ca15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 28/74] fix: ap_interval_cmp was inconsistent on empty
 intervals

---
 apron/ap_interval.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/apron/ap_interval.c b/apron/ap_interval.c
index c2d8990..ba25254 100644
--- a/apron/ap_interval.c
+++ b/apron/ap_interval.c
@@ -140,18 +140,13 @@ int ap_interval_cmp(ap_interval_t* itv1, ap_interval_t* itv2)
 {
   int sinf = ap_scalar_cmp(itv1->inf,itv2->inf);
   int ssup = ap_scalar_cmp(itv1->sup,itv2->sup);
+  bool b1 = ap_interval_is_bottom(itv1);
+  bool b2 = ap_interval_is_bottom(itv2);
 
-  if (sinf==0 && ssup==0) return 0;
-  else if (sinf>=0 && ssup<=0) return -1;
-  else if (sinf<=0 && ssup>=0) return 1;
-  else {
-    bool b1 = ap_interval_is_bottom(itv1);
-    bool b2 = ap_interval_is_bottom(itv2);
-    if (b1 && b2) return 0;
-    else if (b1) return -1;
-    else if (b2) return 1;
-    else return sinf > 0 ? 2 : -2;
-  }
+  if ((sinf==0 && ssup==0) || (b1 && b2)) return 0;
+  else if (b1 || (sinf>=0 && ssup<=0)) return -1;
+  else if (b2 || (sinf<=0 && ssup>=0)) return 1;
+  else return sinf > 0 ? 2 : -2;
 }
 bool ap_interval_equal(ap_interval_t* itv1, ap_interval_t* itv2)
 {  
-- 
2.43.0


From 49f02c30518cb104cb5e1ac8430523c12670ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 29/74] fix: ap_linexpr0_hash depended on the representation
 and modified sparse expressions

---
 apron/ap_linexpr0.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 11d8e35..44d0136 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -749,23 +749,21 @@ ap_linexpr0_permute_dimensions_with(ap_linexpr0_t* expr,
 
 long ap_linexpr0_hash(ap_linexpr0_t* expr)
 {
-  if (expr->size==0){
-    return ap_coeff_hash(&expr->cst);
-  }
-  else {
-    ap_coeff_t* pcoeff;
-    size_t i,dec;
-    long res,res1;
-    res = expr->size << 8;
-    dec = 0;
-    for (i=0; i<expr->size; i += (expr->size+7)/8){
-      pcoeff = ap_linexpr0_coeffref(expr,i);
-      res1 = (pcoeff==NULL) ? 0 : ap_coeff_hash(pcoeff);
-      res += res1<<dec;
-      dec++;
-    }
-    return res;
+  /* The result depends only on the non-zero coefficients, and not on the
+     representation: equal expressions have equal hash codes */
+  size_t i;
+  ap_dim_t dim;
+  ap_coeff_t* coeff;
+  unsigned long res;
+
+  ap_coeff_reduce(&expr->cst);
+  res = (unsigned long)ap_coeff_hash(&expr->cst);
+  ap_linexpr0_ForeachLinterm(expr,i,dim,coeff){
+    ap_coeff_reduce(coeff);
+    if (!ap_coeff_zero(coeff))
+      res = 31*res + 7*(unsigned long)ap_coeff_hash(coeff) + dim;
   }
+  return (long)res;
 }
 bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
 		       ap_linexpr0_t* expr2)
-- 
2.43.0


From d785ffcceca7f169843fdeea7b50fbc5d1c40bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 30/74] fix: ap_linexpr0_compare never returned a negative
 result

---
 apron/ap_linexpr0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 44d0136..491a029 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -822,7 +822,7 @@ bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
 int ap_linexpr0_compare(ap_linexpr0_t* expr1,
 			ap_linexpr0_t* expr2)
 {
-  bool res;
+  int res;
   size_t i1,i2;
   ap_dim_t dim1,dim2;
   ap_coeff_t* coeff1;
-- 
2.43.0


From a69e56d2c8bcf6eaef2e269dd78668db7176395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 31/74] fix: ap_linexpr0_equal and ap_linexpr0_compare
 dereferenced NULL on free slots of sparse expressions

---
 apron/ap_linexpr0.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 491a029..4b056ac 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -805,7 +805,7 @@ bool ap_linexpr0_equal(ap_linexpr0_t* expr1,
     }
     if (dim1==dim2){
       i1++; i2++;
-      res = ap_coeff_equal(coeff1,coeff2);
+      res = dim1==AP_DIM_MAX || ap_coeff_equal(coeff1,coeff2); /* AP_DIM_MAX: free slots */
     }
     else if (dim1<dim2){
       i1++;
@@ -860,7 +860,8 @@ int ap_linexpr0_compare(ap_linexpr0_t* expr1,
     }
     if (dim1==dim2){
       i1++; i2++;
-      res = ap_coeff_cmp(coeff1,coeff2);
+      if (dim1!=AP_DIM_MAX) /* not a free slot */
+	res = ap_coeff_cmp(coeff1,coeff2);
     }
     else if (dim1<dim2){
       i1++;
-- 
2.43.0


From b482108869eeabcab19f6cbe6b681b08f37b0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 32/74] fix: ap_lincons0_array_type never lowered its result

---
 apron/ap_lincons0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_lincons0.c b/apron/ap_lincons0.c
index 5dfd70f..5dd01da 100644
--- a/apron/ap_lincons0.c
+++ b/apron/ap_lincons0.c
@@ -236,7 +236,7 @@ ap_linexpr_type_t ap_lincons0_array_type(ap_lincons0_array_t* array)
   for (i=0; i<array->size; i++){
     ap_linexpr_type_t type = ap_linexpr0_type(array->p[i].linexpr0);
     if (type < res)
-      type = res;
+      res = type;
     if (res==AP_LINEXPR_INTLINEAR)
       break;
   }
-- 
2.43.0


From fec9374d54510b631ff08c40746f1551501b44fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 33/74] fix: ap_lincons0_is_sat accepted a disequality that an
 interval constant may falsify

---
 apron/ap_lincons0.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apron/ap_lincons0.c b/apron/ap_lincons0.c
index 5dd01da..5ae0a06 100644
--- a/apron/ap_lincons0.c
+++ b/apron/ap_lincons0.c
@@ -146,8 +146,8 @@ bool ap_lincons0_is_sat(ap_lincons0_t* cons)
           ap_scalar_sgn(expr->cst.val.interval->sup)==0;
       case AP_CONS_DISEQ:
         return
-          ap_scalar_sgn(expr->cst.val.interval->inf)<0 ||
-          ap_scalar_sgn(expr->cst.val.interval->sup)>0;
+          ap_scalar_sgn(expr->cst.val.interval->inf)>0 ||
+          ap_scalar_sgn(expr->cst.val.interval->sup)<0;
       case AP_CONS_SUPEQ:
 	return 
           ap_scalar_sgn(expr->cst.val.interval->inf)>=0;
-- 
2.43.0


From b5f090d91b7a9ce7743be35046eab53d6833b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 34/74] fix: ap_lincons0_is_unsat rejected satisfiable
 congruences and interval disequalities

---
 apron/ap_lincons0.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/apron/ap_lincons0.c b/apron/ap_lincons0.c
index 5ae0a06..8e292f9 100644
--- a/apron/ap_lincons0.c
+++ b/apron/ap_lincons0.c
@@ -67,8 +67,10 @@ bool ap_lincons0_is_unsat(ap_lincons0_t* cons)
       sgn = ap_scalar_sgn(expr->cst.val.scalar);
       switch(cons->constyp){
       case AP_CONS_EQ:
-      case AP_CONS_EQMOD:
 	return (sgn!=0);
+      case AP_CONS_EQMOD:
+	/* with a non-zero modulus, a non-zero constant may be a multiple of it */
+	return (sgn!=0) && (cons->scalar==NULL || ap_scalar_sgn(cons->scalar)==0);
       case AP_CONS_DISEQ:
 	return (sgn==0);
       case AP_CONS_SUPEQ:
@@ -81,15 +83,18 @@ bool ap_lincons0_is_unsat(ap_lincons0_t* cons)
     case AP_COEFF_INTERVAL:
       sgn = ap_scalar_sgn(expr->cst.val.interval->sup);
       switch(cons->constyp){
-      case AP_CONS_EQ:
       case AP_CONS_EQMOD:
+	if (cons->scalar!=NULL && ap_scalar_sgn(cons->scalar)!=0)
+	  return false;
+	/* fall through */
+      case AP_CONS_EQ:
 	return
 	  sgn < 0 ||
 	  ap_scalar_sgn(expr->cst.val.interval->inf)>0;
       case AP_CONS_DISEQ:
 	return
-	  sgn>=0 &&
-	  ap_scalar_sgn(expr->cst.val.interval->inf)<=0;
+	  sgn==0 &&
+	  ap_scalar_sgn(expr->cst.val.interval->inf)==0;
       case AP_CONS_SUPEQ:
 	return sgn<0;
       case AP_CONS_SUP:
-- 
2.43.0


From 807f9b7d16063b7eb70a72b120391ead8484c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 35/74] fix: ap_environment_lce_array sorted its input, lost
 references and mishandled incompatible environments

---
 apron/ap_environment.c | 43 ++++++++++++++----------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index d679c0a..ca3db5f 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -888,13 +888,6 @@ ap_environment_t* ap_environment_lce(ap_environment_t* env1,
   the array (*ptdimchange)[0] with malloc.
 
 */
-static int env_cmp(const void* a, const void* b)
-{
-  ap_environment_t* pa = *((ap_environment_t*const*)a);
-  ap_environment_t* pb = *((ap_environment_t*const*)b);
-  return (pa>pb ? 1 : (pa==pb ? 0 : -1));
-}
-
 ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
 					   size_t size,
 					   ap_dimchange_t*** ptdimchange)
@@ -909,30 +902,22 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
 
   assert(size>=1);
 
-  qsort(tenv,size,sizeof(ap_environment_t*),env_cmp);
-  /* remove doublons */
-  for(i=0;i<size-1;i++){
-    if (tenv[i]==tenv[i+1]){
-      if (i<size-2){
-	memmove(&tenv[i+1],&tenv[i+2],(size-i-2)*sizeof(ap_environment_t*));
-      }
-      size--;
-    }
-  }
-  if (size==1){
-    *ptdimchange = malloc(sizeof(ap_dim_t*));
-    (*ptdimchange)[0] = NULL;
-    return tenv[0];
+  /* are all environments the same ? */
+  i = 1;
+  while (i<size && ap_environment_is_eq(tenv[0],tenv[i])) i++;
+  if (i==size){
+    *ptdimchange = NULL;
+    return ap_environment_copy(tenv[0]);
   }
   if (size==2){
-    if (ap_environment_is_eq(tenv[0],tenv[1])){
+    ap_environment_t* env;
+    *ptdimchange = malloc(2*sizeof(ap_dimchange_t*));
+    env = ap_environment_lce(tenv[0],tenv[1],&(*ptdimchange)[0],&(*ptdimchange)[1]);
+    if (env==NULL){
+      free(*ptdimchange);
       *ptdimchange = NULL;
-      return tenv[0];
-    }
-    else {
-      *ptdimchange = malloc(2*sizeof(ap_dimchange_t*));
-      return ap_environment_lce(tenv[0],tenv[1],&(*ptdimchange)[0],&(*ptdimchange)[1]);
     }
+    return env;
   }
 
   /* Compute env */
@@ -978,7 +963,7 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
     }
   }
   free(tdenv);
-  if (j>0){
+  if (j>=0){
     env_clear(&denv.envint);
     env_clear(&denv.envreal);
     if (!change){
@@ -991,7 +976,7 @@ ap_environment_t* ap_environment_lce_array(ap_environment_t** tenv,
     ap_environment_t* env = environment_of_denv(&denv);
     if (ap_environment_check(env)){
       for (i=0;i<size;i++){
-	if ((*ptdimchange)[i]) free((*ptdimchange)[i]);
+	if ((*ptdimchange)[i]) ap_dimchange_free((*ptdimchange)[i]);
       }
       free(*ptdimchange);
       *ptdimchange=NULL;
-- 
2.43.0


From b62c9d1f40259fa72945dbeab08130ad66a274bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 36/74] fix: env_lce_dimchange overflowed the dimension change
 of an environment that is not included in the other

---
 apron/ap_environment.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index ca3db5f..d62001b 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -308,6 +308,7 @@ static bool env_lce_dimchange(env_t* e1, env_t* e,
       if (sgn<0) return true;
       if (sgn==0) break;
       /* here, a new dimension to insert */
+      if (k1>=e->size-e1->size) return true;
       dimchange1->dim[offsetwrite+k1] = offsetread+i1;
       k1++;
     }
-- 
2.43.0


From 7ad91a75058496fc7ff9aa643afea69e30dc8b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 37/74] fix: ap_environment_rename left the permutation
 uninitialised on error and leaked duplicate variables

---
 apron/ap_environment.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index d62001b..1cc72a5 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -1015,8 +1015,11 @@ ap_environment_t* ap_environment_rename(ap_environment_t* env,
     ap_dim_t dim = ap_environment_dim_of_var(env,tvar1[j]);
     if (dim==AP_DIM_MAX){
       ap_environment_free(res);
+      perm->dim = NULL;
+      perm->size = 0;
       return NULL;
     }
+    if (res->var_of_dim[dim]) ap_var_operations->free(res->var_of_dim[dim]);
     res->var_of_dim[dim] = ap_var_operations->copy(tvar2[j]);
   }
   for (i=0; i<nbdims; i++){
-- 
2.43.0


From 5735fb396c42a5cdebf34bd847519235371c45b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 38/74] fix: ap_abstract1_of_box freed the interval array with
 the wrong size on an unknown variable

---
 apron/ap_abstract1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 07fea65..9241aff 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -366,7 +366,7 @@ ap_abstract1_t ap_abstract1_of_box(ap_manager_t* man,
     ap_dim_t dim = ap_environment_dim_of_var(env,tvar[i]);
     if (dim==AP_DIM_MAX){
       ap_abstract1_raise_invalid_var(man,AP_FUNID_OF_BOX,tvar[i]);
-      ap_interval_array_free(itv,size);
+      ap_interval_array_free(itv,env->intdim+env->realdim);
       return ap_abstract1_top(man,env);
     }
     ap_interval_set(itv[dim],tinterval[i]);
-- 
2.43.0


From c4425e6e06ea1867f701793f0cfba029760a95e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 39/74] fix: destructive level-1 operations leaked a reference
 when the environment did not change

---
 apron/ap_abstract1.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 9241aff..9fa97fc 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -59,19 +59,9 @@ ap_abstract1_t ap_abstract1_consres2(bool destructive, ap_abstract1_t* a,
 				     ap_environment_t* env)
 {
   ap_abstract1_t res;
-  if (destructive){
-    if (value==a->abstract0 && env==a->env)
-      res = *a;
-    else {
-      res.abstract0 = value;
-      res.env = env;
-      ap_environment_free(a->env);
-    }
-  }
-  else {
-    res.abstract0 = value;
-    res.env = env;
-  }
+  if (destructive) ap_environment_free(a->env);
+  res.abstract0 = value;
+  res.env = env;
   return res;
 }
 
-- 
2.43.0


From 15553dd0ccb082332253fd851d11f8216d4a5077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 40/74] fix: ap_abstract1_expand expanded before checking the
 new names, freeing the value twice on a clash

---
 apron/ap_abstract1.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 9fa97fc..b330f13 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -1112,9 +1112,6 @@ ap_abstract1_t ap_abstract1_expand(ap_manager_t* man,
     if (destructive) ap_abstract1_clear(man,a);
     return res;
   }
-  /* Doing the expansion at level 0 */
-  value = ap_abstract0_expand(man,destructive,a->abstract0,dim,size);
-
   /* Building the resulting environment and permutation to apply */
   nenv =
     (dim<a->env->intdim) ?
@@ -1127,6 +1124,9 @@ ap_abstract1_t ap_abstract1_expand(ap_manager_t* man,
     goto ap_abstract1_expand_exit;
   }
 
+  /* Doing the expansion at level 0 */
+  value = ap_abstract0_expand(man,destructive,a->abstract0,dim,size);
+
   /* Apply permutation and return */
   value = ap_abstract0_permute_dimensions(man,true,value,&perm);
   ap_dimperm_clear(&perm);
-- 
2.43.0


From 6460c41dcd49f16504c3aa9ef82e205ce0e16307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 41/74] fix: ap_abstract1 linearisation passed the untyped
 value instead of the abstract value, and could return its argument

---
 apron/ap_abstract1.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index b330f13..6672980 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -1447,11 +1447,15 @@ ap_linexpr1_t ap_abstract1_quasilinear_of_intlinear (ap_manager_t* man, ap_abstr
     }
     linexpr0 = ap_linexpr0_add_dimensions(expr->linexpr0,dimchange);
   }
-  res.linexpr0 = ap_quasilinearize_linexpr0(man,a->abstract0->value,linexpr0,&exact,discr);
+  res.linexpr0 = ap_quasilinearize_linexpr0(man,a->abstract0,linexpr0,&exact,discr);
   res.env = ap_environment_copy(a->env);
   if (dimchange){
     ap_dimchange_free(dimchange);
-    ap_linexpr0_free(linexpr0);
+    if (res.linexpr0!=linexpr0) ap_linexpr0_free(linexpr0);
+  }
+  else if (res.linexpr0==linexpr0){
+    /* an expression that needs no modification is returned itself */
+    res.linexpr0 = ap_linexpr0_copy(linexpr0);
   }
   return res;
  ap_abstract1_quasilinear_of_intlinear_exit:
@@ -1487,7 +1491,7 @@ ap_linexpr1_t ap_abstract1_intlinear_of_tree(ap_manager_t* man, ap_abstract1_t*
     }
     texpr0 = ap_texpr0_add_dimensions(expr->texpr0,dimchange);
   }
-  res.linexpr0 = ap_intlinearize_texpr0(man,a->abstract0->value,texpr0,&exact,discr,quasilinearize);
+  res.linexpr0 = ap_intlinearize_texpr0(man,a->abstract0,texpr0,&exact,discr,quasilinearize);
   res.env = ap_environment_copy(a->env);
   if (dimchange){
     ap_dimchange_free(dimchange);
-- 
2.43.0


From 01d0bebfce24f53f5694ec4f4e1768dba6700158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 42/74] fix: ap_abstract1_deserialize_raw and meet/join of
 empty arrays leaked an environment

---
 apron/ap_abstract1.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index 6672980..d935579 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -309,7 +309,10 @@ ap_abstract1_t ap_abstract1_deserialize_raw(ap_manager_t* man, void* ptr, size_t
   (void)ptr;
   (void)size;
   ap_manager_raise_exception(man,AP_EXC_NOT_IMPLEMENTED,AP_FUNID_DESERIALIZE_RAW,"");
-  return ap_abstract1_top(man,ap_environment_alloc_empty());
+  ap_environment_t* env = ap_environment_alloc_empty();
+  ap_abstract1_t res = ap_abstract1_top(man,env);
+  ap_environment_free(env);
+  return res;
 }
 
 
@@ -670,7 +673,9 @@ ap_abstract1_t ap_abstract1_meetjoin_array(ap_funid_t funid, ap_manager_t* man,
     free(ntab);
   }
   else {
-    res = ap_abstract1_top(man, size==0 ? ap_environment_alloc_empty() : tab[0].env);
+    ap_environment_t* env = size==0 ? ap_environment_alloc_empty() : ap_environment_copy(tab[0].env);
+    res = ap_abstract1_top(man,env);
+    ap_environment_free(env);
   }
   return res;
 }
-- 
2.43.0


From 3dddac497ef0e35c5726c8ab2407c5c0745c08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 43/74] fix: PPL grids: adding projected dimensions to a grid
 without dimensions left them unconstrained

---
 ppl/ppl_grid.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index 10fe983..0781b45 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -1121,7 +1121,12 @@ PPL_Grid* ap_ppl_grid_add_dimensions(ap_manager_t* man,
   try {
     PPL_Grid* r = destructive ? a : new PPL_Grid(*a);
     /* add dimensions */
-    if (project) r->p->add_space_dimensions_and_project(adddim);
+    if (project && olddim==0) {
+      /* PPL forgets to project when adding to a grid without dimension */
+      r->p->add_space_dimensions_and_embed(adddim);
+      for (size_t k=0;k<adddim;k++) r->p->add_congruence((Variable(k) %= 0) / 0);
+    }
+    else if (project) r->p->add_space_dimensions_and_project(adddim);
     else r->p->add_space_dimensions_and_embed(adddim);
     /* reorder dimensions */
     ap_ppl_map map = ap_ppl_map(olddim+adddim,olddim+adddim);
-- 
2.43.0


From 1e00378e75d611e6bbb05ab85432f1824bf9cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 44/74] fix: linearising a power did not round its result

---
 itv/itv_linearize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 940cb69..5104435 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -1441,6 +1441,7 @@ ap_texpr0_node_intlinearize(itv_internal_t* intern,
     }
     else {
       itv_pow(intern,ires,ires,i1);
+      itv_round(ires,ires,n->type,n->dir);
       itv_linexpr_reinit(lres,0);
       itv_set(lres->cst,ires);
       lres->equality = itv_is_point(intern,lres->cst);
-- 
2.43.0


From 6bf968b8a35464ec514b635aba7caee1da1ac068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 45/74] fix: backward refinement of a power ignored the
 rounding

---
 itv/itv_linearize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index 5104435..bc51b33 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -1924,7 +1924,7 @@ itv_refine_ap_texpr0_node(itv_internal_t* intern,
     /* keep right argument */
     itv_set(arg2r, arg2);
     /* refine left argument */
-    itv_inv_pow(intern, arg1r, arg1, res, arg2);
+    itv_inv_pow(intern, arg1r, arg1, intern->eval_itv3, arg2);
     itv_meet(intern, arg1r, arg1r, arg1);
     break;
 
-- 
2.43.0


From 7310301154efadd3cfc8c72472ae413dd7d8e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 46/74] fix: itv_subst_ap_texpr0_array confused positions and
 dimensions

---
 itv/itv_linearize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index bc51b33..fb7b62e 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -2120,7 +2120,7 @@ ITVFUN(itv_subst_ap_texpr0_array)(itv_internal_t* intern,
     d[dim[i]] = 1;
   }
   for (i=0; i<intdim+realdim; i++) {
-    if (d[dim[i]]) continue;
+    if (d[i]) continue;
     itv_meet(intern, res[i], res[i], arg[i]);
   }
   free(d);
@@ -2132,7 +2132,7 @@ ITVFUN(itv_subst_ap_texpr0_array)(itv_internal_t* intern,
   for (n=0; n<max_iter; n++) {
     bool stable = true;
     for (i=0; i<size; i++) {
-      if (itv_refine_expr(intern, tab[i], arg[i], res, intdim)) {
+      if (itv_refine_expr(intern, tab[i], arg[dim[i]], res, intdim)) {
 	stable = false;
       }
     }
-- 
2.43.0


From 3f176c6e6a516b66f2c5b9f633f209459ee30cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 47/74] fix: power of native integers missed overflows, and
 gave none for 0 and small results

---
 num/numint_native.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/num/numint_native.h b/num/numint_native.h
index 01ee43b..9d0f95f 100644
--- a/num/numint_native.h
+++ b/num/numint_native.h
@@ -173,11 +173,11 @@ static inline int numint_pow(numint_t up, numint_t down, numint_t b, unsigned lo
   numint_native r = 1;
   numint_native f = *b;
   while (n) {
-    if (n & 1) r *= f;
-    f *= f;
-    if (f <= 0) return 1;
+    if ((n & 1) && __builtin_mul_overflow(r,f,&r)) return 1;
     n >>= 1;
+    if (n && __builtin_mul_overflow(f,f,&f)) return 1;
   }
+  if (r<=-NUMINT_MAX || r>=NUMINT_MAX) return 1; /* reserved for infinities */
   *up = r;
   *down = *up;
   return 0;
-- 
2.43.0


From 842f5bf5859f27c60b2d4fe3f22e5796583aeba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 48/74] fix: intlinearize of one linear expression used its
 workspace after freeing it

---
 apron/ap_linearize_aux.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apron/ap_linearize_aux.c b/apron/ap_linearize_aux.c
index 0e7e2e7..04f2b8e 100644
--- a/apron/ap_linearize_aux.c
+++ b/apron/ap_linearize_aux.c
@@ -231,7 +231,8 @@ ITVFUN(ap_quasilinearize_lincons0_array)(ap_manager_t* man,
   exact = quasilinearize_alloc(man,abs,&intern,&lincons,&env,&dim);
   itv_lincons_array_init(&tlincons,array->size);
   exact = itv_lincons_array_set_ap_lincons0_array(intern,&tlincons,array) && exact;
-  exact = itv_quasilinearize_lincons_array(intern,&tlincons,env,meet);
+  exact = itv_quasilinearize_lincons_array(intern,&tlincons,env,meet)
+    && exact;
   if (linearize) 
     itv_linearize_lincons_array(intern,&tlincons,meet);
   res = ap_lincons0_array_make(tlincons.size);
@@ -240,6 +241,7 @@ ITVFUN(ap_quasilinearize_lincons0_array)(ap_manager_t* man,
   }
   itv_lincons_array_clear(&tlincons);
   quasilinearize_free(intern,&lincons,env,dim);
+  *pexact = exact;
   return res;
 }
 
-- 
2.43.0


From 350cfe1f4a2f0f2f1488916f3c0d0eb4b8de0152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 49/74] fix: quasilinearize of a constraint array did not
 report whether it was exact

---
 apron/ap_linearize_aux.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/apron/ap_linearize_aux.c b/apron/ap_linearize_aux.c
index 04f2b8e..6862611 100644
--- a/apron/ap_linearize_aux.c
+++ b/apron/ap_linearize_aux.c
@@ -302,13 +302,11 @@ ITVFUN(ap_intlinearize_texpr0_intlinear)(ap_manager_t* man,
   intern = itv_internal_alloc();
   itv_linexpr_init(&linexpr,0);
   exc = itv_intlinearize_ap_texpr0_intlinear(intern,&linexpr,expr);
-  itv_internal_free(intern);
-  if (exc){
-    itv_linexpr_clear(&linexpr);
-    return NULL;
-  }
-  ap_linexpr0_set_itv_linexpr(intern,&res,&linexpr);
+  res = NULL;
+  if (!exc)
+    ap_linexpr0_set_itv_linexpr(intern,&res,&linexpr);
   itv_linexpr_clear(&linexpr);
+  itv_internal_free(intern);
   return res;
 }
 
-- 
2.43.0


From 05dbcbdf8a8075e2bc919d029c066ef4c856ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 50/74] fix: generic quasi-linear meet passed a raw value as an
 abstract value

---
 apron/ap_generic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apron/ap_generic.c b/apron/ap_generic.c
index 761a197..48e2db6 100644
--- a/apron/ap_generic.c
+++ b/apron/ap_generic.c
@@ -160,6 +160,7 @@ ap_generic_meet_quasilinearize_lincons_array(ap_manager_t* man,
   void* res;
   void* (*copy)(ap_manager_t*,void*) = man->funptr[AP_FUNID_COPY];
   bool (*is_bottom)(ap_manager_t*,void*) = man->funptr[AP_FUNID_IS_BOTTOM];
+  ap_abstract0_t a0;
 
   man->result.flag_exact = man->result.flag_best = true;
 
@@ -167,7 +168,9 @@ ap_generic_meet_quasilinearize_lincons_array(ap_manager_t* man,
     res = destructive ? abs : copy(man,abs);
   }
   else {
-    array2 = ap_quasilinearize_lincons0_array(man,abs,array,&exact,
+    a0.value = abs;
+    a0.man = man;
+    array2 = ap_quasilinearize_lincons0_array(man,&a0,array,&exact,
 					      discr,linearize,true);
     res = meet_lincons_array(man,destructive,abs,&array2);
     if (!exact){
-- 
2.43.0


From 56f70a0d3a75d216079ce9ebb05759ead1d379c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:00 +0000
Subject: [PATCH 51/74] fix: define the declared
 ap_abstract0_ppl_grid_widening_thresholds

---
 ppl/ppl_grid.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ppl/ppl_grid.cc b/ppl/ppl_grid.cc
index 0781b45..6220048 100644
--- a/ppl/ppl_grid.cc
+++ b/ppl/ppl_grid.cc
@@ -1275,6 +1275,20 @@ PPL_Grid* ap_ppl_grid_widening_threshold(ap_manager_t* man,
   CATCH_WITH_GRID(AP_FUNID_WIDENING,a1);
 }
 
+ap_abstract0_t*
+ap_abstract0_ppl_grid_widening_thresholds(ap_manager_t* man,
+					  ap_abstract0_t* a1,
+					  ap_abstract0_t* a2,
+					  ap_lincons0_array_t* array)
+{
+  arg_assert(man->library==a1->man->library &&
+	     man->library==a2->man->library,
+	     return ap_ppl_invalid_abstract0(man,a1);,
+	     AP_FUNID_WIDENING);
+  man->result.flag_exact = man->result.flag_best = false;
+  return ap_ppl_make_abstract0(man,ap_ppl_grid_widening_threshold(man,(PPL_Grid*)a1->value,(PPL_Grid*)a2->value,array));
+}
+
 extern "C"
 PPL_Grid* ap_ppl_grid_closure(ap_manager_t* man, bool destructive, PPL_Grid* a)
 {
-- 
2.43.0


From c08016e9238b0a703f84d338fe897ab174dd7313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 52/74] fix: define the declared ap_manager_get_exception and
 ap_manager_get_exclog

---
 apron/ap_manager.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apron/ap_manager.c b/apron/ap_manager.c
index 1061e86..4c0cd94 100644
--- a/apron/ap_manager.c
+++ b/apron/ap_manager.c
@@ -214,6 +214,10 @@ ap_funopt_t ap_manager_get_funopt(ap_manager_t* man, ap_funid_t funid)
 }
 bool ap_manager_get_abort_if_exception(ap_manager_t* man, ap_exc_t exn)
 { return man->option.abort_if_exception[exn]; }
+ap_exc_t ap_manager_get_exception(ap_manager_t* man)
+{ return man->result.exn; }
+ap_exclog_t* ap_manager_get_exclog(ap_manager_t* man)
+{ return man->result.exclog; }
 bool ap_manager_get_flag_exact(ap_manager_t* man)
 { return man->result.flag_exact; }
 bool ap_manager_get_flag_best(ap_manager_t* man)
-- 
2.43.0


From 06038c9a5bdbebbf686699aec5771f6835c4c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 53/74] fix: sparse expressions on abstract values without
 dimensions were rejected

---
 apron/ap_abstract0.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index a5cd333..429084a 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -243,7 +243,7 @@ ap_dim_t ap_abstract0_check_linexpr_check(ap_dimension_t dimension,
   ap_dim_t dim;
 
   nbdims = dimension.intdim+dimension.realdim;
-  dim = 0;
+  dim = AP_DIM_MAX;
   switch (expr->discr){
   case AP_LINEXPR_DENSE:
     if (expr->size > nbdims){
@@ -264,7 +264,6 @@ ap_dim_t ap_abstract0_check_linexpr_check(ap_dimension_t dimension,
 	break;
       }
     }
-    if (!dim) dim = AP_DIM_MAX;
     break;
   default:
     abort();
-- 
2.43.0


From 66cbb75efec8a451fc4e504842136a649e6d1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 54/74] fix: dimension changes were not fully checked (first
 pair, real dimensions among the integer ones)

---
 apron/ap_abstract0.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 429084a..842b191 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -467,16 +467,16 @@ bool ap_abstract0_check_ap_dimchange_add(ap_funid_t funid, ap_manager_t* man,
   size = dimchange->intdim+dimchange->realdim;
   if (res && size>0){
     /* Check sortedness */
-    ap_dim_t dim = 0;
     for (i=1; i<size; i++){
-      if (dim>dimchange->dim[i]){
+      if (dimchange->dim[i-1]>dimchange->dim[i]){
 	res = false;
 	break;
-      } else {
-	dim = dimchange->dim[i];
       }
     }
     res = res && dimchange->dim[size-1]<=dimension.intdim+dimension.realdim;
+    /* Real dimensions are inserted after the integer ones */
+    if (dimchange->realdim>0)
+      res = res && dimchange->dim[dimchange->intdim]>=dimension.intdim;
   }
   if (!res){
     ap_manager_raise_exception(man,
@@ -502,16 +502,16 @@ bool ap_abstract0_check_ap_dimchange_remove(ap_funid_t funid, ap_manager_t* man,
   size = dimchange->intdim+dimchange->realdim;
   if (res && size>0){
     /* Check sortedness */
-    ap_dim_t dim = 0;
-    for (i=1; i<dimchange->intdim+dimchange->realdim; i++){
-      if (dim>=dimchange->dim[i]){
+    for (i=1; i<size; i++){
+      if (dimchange->dim[i-1]>=dimchange->dim[i]){
 	res = false;
 	break;
-      } else {
-	dim = dimchange->dim[i];
       }
     }
     res = res && dimchange->dim[size-1]<dimension.intdim+dimension.realdim;
+    /* The other dimensions are real ones */
+    if (dimchange->realdim>0)
+      res = res && dimchange->dim[dimchange->intdim]>=dimension.intdim;
   }
   if (!res){
     ap_manager_raise_exception(man,
-- 
2.43.0


From 6e14023eaf1cc492c557584c04335491a6b4d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 55/74] fix: a permutation with repeated dimensions was
 accepted

---
 apron/ap_abstract0.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 842b191..7784179 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -528,12 +528,16 @@ bool ap_abstract0_check_dimperm(ap_funid_t funid, ap_manager_t* man,
   size_t size = dimension.intdim+dimension.realdim;
   bool res = (dimension.intdim+dimension.realdim==perm->size);
   if (res){
+    /* each dimension should appear exactly once */
+    bool* seen = calloc(size+1,sizeof(bool));
     for (i=0; i<perm->size; i++){
-      if (perm->dim[i]>=size){
+      if (perm->dim[i]>=size || seen[perm->dim[i]]){
 	res = false;
 	break;
       }
+      seen[perm->dim[i]] = true;
     }
+    free(seen);
   }
   if (!res){
     ap_manager_raise_exception(man,
-- 
2.43.0


From 5f623802828e1010808b2ccbb898c929bd7f7400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 56/74] fix: ap_abstract0_dimension called the function of the
 given manager on a value of another one

---
 apron/ap_abstract0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 7784179..ca509bf 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -722,7 +722,7 @@ ap_abstract0_t* ap_abstract0_of_box(ap_manager_t* man,
 ap_dimension_t ap_abstract0_dimension(ap_manager_t* man, ap_abstract0_t* a)
 {
   ap_abstract0_checkman1(AP_FUNID_DIMENSION,man,a);
-  ap_dimension_t (*ptr)(ap_manager_t*,void*) = man->funptr[AP_FUNID_DIMENSION];
+  ap_dimension_t (*ptr)(ap_manager_t*,void*) = a->man->funptr[AP_FUNID_DIMENSION];
   return ptr(a->man,a->value);
 }
 
-- 
2.43.0


From 5ed86bd73862b18c3c730b34a2e69d2a79a50e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:55 +0000
Subject: [PATCH 57/74] fix: default result of fold with invalid arguments had
 wrong dimensions

---
 apron/ap_abstract0.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index ca509bf..10e4501 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -548,6 +548,15 @@ bool ap_abstract0_check_dimperm(ap_funid_t funid, ap_manager_t* man,
   return res;
 }
 
+/* Default result of an operation that has raised an exception: top, which is
+   neither exact nor best (calling top resets the flags) */
+static ap_abstract0_t* ap_abstract0_exc_top(ap_manager_t* man, size_t intdim, size_t realdim)
+{
+  ap_abstract0_t* res = ap_abstract0_top(man,intdim,realdim);
+  man->result.flag_exact = man->result.flag_best = false;
+  return res;
+}
+
 /* ********************************************************************** */
 /* I. General management */
 /* ********************************************************************** */
@@ -1381,9 +1390,13 @@ ap_abstract0_t* ap_abstract0_fold(ap_manager_t* man,
   else {
   _ap_abstract0_fold_exc:
     if (destructive) _ap_abstract0_free(a);
-    return ap_abstract0_top(man,
-			    dimension.intdim - ( (size>0 && tdim[0]<dimension.intdim) ? (size-1) : 0),
-			    dimension.realdim - ( (size>0 && tdim[0]<dimension.intdim) ? 0 : (size-1)));
+    if (size>1){
+      size_t* pdim = tdim[0]<dimension.intdim ? &dimension.intdim : &dimension.realdim;
+      *pdim = *pdim>=size-1 ? *pdim-(size-1) : 0;
+    }
+    return ap_abstract0_exc_top(man,
+			    dimension.intdim,
+			    dimension.realdim);
   }
 }
 /* ============================================================ */
-- 
2.43.0


From 2e0fd856d032c67d8dd69b98f66384e1e4ab1b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 58/74] fix: the default result of an invalid call was flagged
 exact and best (level 0)

---
 apron/ap_abstract0.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/apron/ap_abstract0.c b/apron/ap_abstract0.c
index 10e4501..2939d2d 100644
--- a/apron/ap_abstract0.c
+++ b/apron/ap_abstract0.c
@@ -573,7 +573,7 @@ ap_abstract0_t* ap_abstract0_copy(ap_manager_t* man, ap_abstract0_t* a)
   }
   else {
     ap_dimension_t dimension = _ap_abstract0_dimension(a);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -961,7 +961,7 @@ ap_abstract0_t* ap_abstract0_meetjoin(ap_funid_t funid,
   else {
     ap_dimension_t dimension = _ap_abstract0_dimension(a1);
     if (destructive) _ap_abstract0_free(a1);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -991,7 +991,7 @@ ap_abstract0_t* ap_abstract0_meetjoin_array(ap_funid_t funid, ap_manager_t* man,
     if (size>0){
       dimension = _ap_abstract0_dimension(tab[0]);
     }
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -1016,7 +1016,7 @@ ap_abstract0_t* ap_abstract0_meet_lincons_array(ap_manager_t* man,
   }
   else {
     if (destructive) _ap_abstract0_free(a);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -1035,7 +1035,7 @@ ap_abstract0_t* ap_abstract0_meet_tcons_array(ap_manager_t* man,
   }
   else {
     if (destructive) _ap_abstract0_free(a);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -1054,7 +1054,7 @@ ap_abstract0_t* ap_abstract0_add_ray_array(ap_manager_t* man,
   }
   else {
     if (destructive) _ap_abstract0_free(a);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -1096,7 +1096,7 @@ ap_abstract0_t* ap_abstract0_asssub_linexpr_array(ap_funid_t funid,
     }
     else {
       if (destructive) _ap_abstract0_free(a);
-      return ap_abstract0_top(man,
+      return ap_abstract0_exc_top(man,
 			      dimension.intdim,
 			      dimension.realdim);
     }
@@ -1156,7 +1156,7 @@ ap_abstract0_t* ap_abstract0_asssub_texpr_array(ap_funid_t funid,
     }
     else {
       if (destructive) _ap_abstract0_free(a);
-      return ap_abstract0_top(man,
+      return ap_abstract0_exc_top(man,
 			      dimension.intdim,
 			      dimension.realdim);
     }
@@ -1213,7 +1213,7 @@ ap_abstract0_t* ap_abstract0_forget_array(ap_manager_t* man,
     }
     else {
       if (destructive) _ap_abstract0_free(a);
-      return ap_abstract0_top(man,
+      return ap_abstract0_exc_top(man,
 			      dimension.intdim,
 			      dimension.realdim);
     }
@@ -1248,7 +1248,7 @@ ap_abstract0_t* ap_abstract0_add_dimensions(ap_manager_t* man,
     }
     else {
       if (destructive) _ap_abstract0_free(a);
-      return ap_abstract0_top(man,
+      return ap_abstract0_exc_top(man,
 			      dimension.intdim+dimchange->intdim,
 			      dimension.realdim+dimchange->realdim);
     }
@@ -1277,7 +1277,7 @@ ap_abstract0_t* ap_abstract0_remove_dimensions(ap_manager_t* man,
     }
     else {
       if (destructive) _ap_abstract0_free(a);
-      return ap_abstract0_top(man,
+      return ap_abstract0_exc_top(man,
 			      dimension.intdim>=dimchange->intdim ? dimension.intdim-dimchange->intdim : 0,
 			      dimension.realdim>=dimchange->realdim ? dimension.realdim-dimchange->realdim : 0);
     }
@@ -1297,7 +1297,7 @@ ap_abstract0_t* ap_abstract0_permute_dimensions(ap_manager_t* man,
   }
   else {
     if (destructive) _ap_abstract0_free(a);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -1330,7 +1330,7 @@ ap_abstract0_t* ap_abstract0_expand(ap_manager_t* man,
     }
     else {
       if (destructive) _ap_abstract0_free(a);
-      return ap_abstract0_top(man,
+      return ap_abstract0_exc_top(man,
 			      dimension.intdim + (dim<dimension.intdim ? n : 0),
 			      dimension.realdim + (dim<dimension.intdim ? 0 : n));
     }
@@ -1413,7 +1413,7 @@ ap_abstract0_t* ap_abstract0_widening(ap_manager_t* man,
   }
   else {
     ap_dimension_t dimension = _ap_abstract0_dimension(a1);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -1432,7 +1432,7 @@ ap_abstract0_t* ap_abstract0_closure(ap_manager_t* man, bool destructive, ap_abs
   }
   else {
     if (destructive) _ap_abstract0_free(a);
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
@@ -1576,7 +1576,7 @@ ap_abstract0_t* ap_abstract0_widening_threshold(ap_manager_t* man,
     return ap_abstract0_cons(man,value);
   }
   else {
-    return ap_abstract0_top(man,
+    return ap_abstract0_exc_top(man,
 			    dimension.intdim,
 			    dimension.realdim);
   }
-- 
2.43.0


From 274e6f02fa80abf4f2e0c2fc0b1fa7565d71c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:07 +0000
Subject: [PATCH 59/74] fix: the default result of an invalid call was flagged
 exact and best (level 1)

---
 apron/ap_abstract1.c | 71 +++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index d935579..f75072b 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -65,6 +65,34 @@ ap_abstract1_t ap_abstract1_consres2(bool destructive, ap_abstract1_t* a,
   return res;
 }
 
+/* Default results of an operation that has raised an exception: top, or the
+   argument itself. They are neither exact nor best. */
+static ap_abstract1_t ap_abstract1_exc_top(ap_manager_t* man, ap_environment_t* env)
+{
+  ap_abstract1_t res = ap_abstract1_top(man,env);
+  man->result.flag_exact = man->result.flag_best = false;
+  return res;
+}
+/* Same, discarding the argument if destructive */
+static ap_abstract1_t ap_abstract1_exc_res(ap_manager_t* man,
+					   bool destructive, ap_abstract1_t* a,
+					   ap_environment_t* env)
+{
+  ap_abstract1_t res;
+  ap_environment_copy(env);
+  if (destructive) ap_abstract1_clear(man,a);
+  res = ap_abstract1_exc_top(man,env);
+  ap_environment_free(env);
+  return res;
+}
+static ap_abstract1_t ap_abstract1_exc_arg(ap_manager_t* man,
+					   bool destructive, ap_abstract1_t* a)
+{
+  ap_abstract1_t res = destructive ? *a : ap_abstract1_copy(man,a);
+  man->result.flag_exact = man->result.flag_best = false;
+  return res;
+}
+
 void ap_abstract1_raise_invalid_var(ap_manager_t* man,
 				    ap_funid_t funid,
 				    ap_var_t var)
@@ -360,7 +388,7 @@ ap_abstract1_t ap_abstract1_of_box(ap_manager_t* man,
     if (dim==AP_DIM_MAX){
       ap_abstract1_raise_invalid_var(man,AP_FUNID_OF_BOX,tvar[i]);
       ap_interval_array_free(itv,env->intdim+env->realdim);
-      return ap_abstract1_top(man,env);
+      return ap_abstract1_exc_top(man,env);
     }
     ap_interval_set(itv[dim],tinterval[i]);
   }
@@ -644,8 +672,7 @@ ap_abstract1_t ap_abstract1_meetjoin(ap_funid_t funid, ap_manager_t* man, bool d
     res = ap_abstract1_consres(destructive, a1, value);
   }
   else {
-    res = ap_abstract1_top(man,a1->env);
-    if (destructive) ap_abstract1_clear(man,a1);
+    res = ap_abstract1_exc_res(man,destructive,a1,a1->env);
   }
   return res;
 }
@@ -674,7 +701,7 @@ ap_abstract1_t ap_abstract1_meetjoin_array(ap_funid_t funid, ap_manager_t* man,
   }
   else {
     ap_environment_t* env = size==0 ? ap_environment_alloc_empty() : ap_environment_copy(tab[0].env);
-    res = ap_abstract1_top(man,env);
+    res = ap_abstract1_exc_top(man,env);
     ap_environment_free(env);
   }
   return res;
@@ -705,7 +732,7 @@ ap_abstract1_t ap_abstract1_meet_lincons_array(ap_manager_t* man,
 				 AP_EXC_INVALID_ARGUMENT,
 				 AP_FUNID_MEET_LINCONS_ARRAY,
 				 "environment of array of constraints is not a subset of the environment of the abstract value");
-      res = destructive ? *a : ap_abstract1_copy(man,a);
+      res = ap_abstract1_exc_arg(man,destructive,a);
       return res;
     }
     array0 = ap_lincons0_array_add_dimensions(&array->lincons0_array,dimchange);
@@ -738,7 +765,7 @@ ap_abstract1_t ap_abstract1_meet_tcons_array(ap_manager_t* man,
 				 AP_EXC_INVALID_ARGUMENT,
 				 AP_FUNID_MEET_TCONS_ARRAY,
 				 "environment of array of constraints is not a subset of the environment of the abstract value");
-      res = destructive ? *a : ap_abstract1_copy(man,a);
+      res = ap_abstract1_exc_arg(man,destructive,a);
       return res;
     }
     array0 = ap_tcons0_array_add_dimensions(&array->tcons0_array,dimchange);
@@ -771,8 +798,7 @@ ap_abstract1_t ap_abstract1_add_ray_array(ap_manager_t* man,
 				 AP_EXC_INVALID_ARGUMENT,
 				 AP_FUNID_ADD_RAY_ARRAY,
 				 "environment of array of generators is not a subset of the environment of the abstract value");
-      res = ap_abstract1_top(man,a->env);
-      if (destructive) ap_abstract1_clear(man,a);
+      res = ap_abstract1_exc_res(man,destructive,a,a->env);
       return res;
     }
     array0 = ap_generator0_array_add_dimensions(&array->generator0_array,dimchange);
@@ -848,8 +874,7 @@ ap_abstract1_t ap_abstract1_asssub_linexpr_array(ap_funid_t funid,
     }
     else {
     ap_abstract1_asssub_linexpr_array_exit:
-      res = ap_abstract1_top(man,a->env);
-      if (destructive) ap_abstract1_clear(man,a);
+      res = ap_abstract1_exc_res(man,destructive,a,a->env);
     }
     if (tlinexpr0!=NULL){
       size_t j;
@@ -934,8 +959,7 @@ ap_abstract1_t ap_abstract1_asssub_texpr_array(ap_funid_t funid,
     }
     else {
     ap_abstract1_asssub_texpr_array_exit:
-      res = ap_abstract1_top(man,a->env);
-      if (destructive) ap_abstract1_clear(man,a);
+      res = ap_abstract1_exc_res(man,destructive,a,a->env);
     }
     if (ttexpr0!=NULL){
       size_t j;
@@ -980,8 +1004,7 @@ ap_abstract1_t ap_abstract1_forget_array(ap_manager_t* man,
     tdim[i] = ap_environment_dim_of_var(a->env,tvar[i]);
     if (tdim[i]==AP_DIM_MAX){
       ap_abstract1_raise_invalid_var(man,AP_FUNID_FORGET_ARRAY,tvar[i]);
-      res = ap_abstract1_top(man,a->env);
-      if (destructive) ap_abstract1_clear(man,a);
+      res = ap_abstract1_exc_res(man,destructive,a,a->env);
       goto ap_abstract1_forget_array_exit;
     }
   }
@@ -1010,8 +1033,7 @@ ap_abstract1_t ap_abstract1_change_environment(ap_manager_t* man,
     ap_manager_raise_exception(man,AP_EXC_INVALID_ARGUMENT,
 			       AP_FUNID_CHANGE_ENVIRONMENT,
 			       "the abstract value and the new environment are incompatible");
-    res = ap_abstract1_top(man,nenv);
-    if (destructive) ap_abstract1_clear(man,a);
+    res = ap_abstract1_exc_res(man,destructive,a,nenv);
     return res;
   }
   value = ap_abstract0_apply_dimchange2(man,destructive,a->abstract0,dimchange2,project);
@@ -1075,8 +1097,7 @@ ap_abstract1_t ap_abstract1_rename_array(ap_manager_t* man,
 			       AP_EXC_INVALID_ARGUMENT,
 			       AP_FUNID_RENAME_ARRAY,
 			       "renaming specification invalid");
-    res = ap_abstract1_top(man,a->env);
-    if (destructive) ap_abstract1_clear(man,a);
+    res = ap_abstract1_exc_res(man,destructive,a,a->env);
   }
   else {
     value = ap_abstract0_permute_dimensions(man,destructive,a->abstract0,&perm);
@@ -1113,8 +1134,7 @@ ap_abstract1_t ap_abstract1_expand(ap_manager_t* man,
   if (dim==AP_DIM_MAX){
     ap_abstract1_raise_invalid_var(man,AP_FUNID_EXPAND,var);
   ap_abstract1_expand_exit:
-    res = ap_abstract1_top(man,a->env);
-    if (destructive) ap_abstract1_clear(man,a);
+    res = ap_abstract1_exc_res(man,destructive,a,a->env);
     return res;
   }
   /* Building the resulting environment and permutation to apply */
@@ -1264,7 +1284,7 @@ ap_abstract1_t ap_abstract1_widening(ap_manager_t* man,
     res.env = ap_environment_copy(a1->env);
   }
   else {
-    res = ap_abstract1_top(man,a1->env);
+    res = ap_abstract1_exc_top(man,a1->env);
   }
   return res;
 }
@@ -1292,7 +1312,7 @@ environment of array of constraints is not a subset \
 of the environment of the abstract value\
 "
 				 );
-      res = ap_abstract1_top(man,a1->env);
+      res = ap_abstract1_exc_top(man,a1->env);
       return res;
     }
     array0 = ap_lincons0_array_add_dimensions(&array->lincons0_array,dimchange);
@@ -1302,7 +1322,7 @@ of the environment of the abstract value\
     res = ap_abstract1_cons(value,a1->env);
   }
   else {
-    res = ap_abstract1_top(man,a1->env);
+    res = ap_abstract1_exc_top(man,a1->env);
   }
   if (dimchange){
     ap_dimchange_free(dimchange);
@@ -1397,10 +1417,7 @@ ap_abstract1_t ap_abstract1_unify(ap_manager_t* man,
 			      "\
 ap_abstract1_unify: a variable is defined with different types \
 in the two abstract values");
-   if (destructive)
-     return *a1;
-   else
-     return ap_abstract1_copy(man,a1);
+   return ap_abstract1_exc_arg(man,destructive,a1);
   }
   assert(dimchange1 || dimchange2);
 
-- 
2.43.0


From 1f12a4635fafc67d7e676cd51fe4b075b416218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:07 +0000
Subject: [PATCH 60/74] fix: level-1 fold accepted repeated and mixed-type
 variables, and a single unknown one

---
 apron/ap_abstract1.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/apron/ap_abstract1.c b/apron/ap_abstract1.c
index f75072b..a6319dd 100644
--- a/apron/ap_abstract1.c
+++ b/apron/ap_abstract1.c
@@ -1181,12 +1181,7 @@ ap_abstract1_t ap_abstract1_fold(ap_manager_t* man,
     ap_manager_raise_exception(man,AP_EXC_INVALID_ARGUMENT,AP_FUNID_FOLD,
 			       "array of variables to fold of size 0");
   ap_abstract1_fold_exit:
-    res = ap_abstract1_top(man,a->env);
-    if (destructive) ap_abstract1_clear(man,a);
-    return res;
-  }
-  else if (size==1){
-    res = destructive ? *a : ap_abstract1_copy(man,a);
+    res = ap_abstract1_exc_res(man,destructive,a,a->env);
     return res;
   }
 
@@ -1196,6 +1191,10 @@ ap_abstract1_t ap_abstract1_fold(ap_manager_t* man,
     ap_abstract1_raise_invalid_var(man,AP_FUNID_FOLD,tvar[0]);
     goto ap_abstract1_fold_exit;
   }
+  if (size==1){
+    res = destructive ? *a : ap_abstract1_copy(man,a);
+    return res;
+  }
   nenv = ap_environment_remove(a->env, &tvar[1], size-1);
   if (nenv==NULL){
     ap_manager_raise_exception(man,AP_EXC_INVALID_ARGUMENT,AP_FUNID_FOLD,
@@ -1215,6 +1214,17 @@ ap_abstract1_t ap_abstract1_fold(ap_manager_t* man,
   }
   /* Sort the array of dimensions */
   qsort(tdim,size,sizeof(ap_dim_t),compar_dim);
+  /* The variables should be distinct and of the same type */
+  for (i=1; i<size; i++){
+    if (tdim[i-1]==tdim[i] ||
+	(tdim[i-1]<a->env->intdim && tdim[i]>=a->env->intdim)){
+      ap_manager_raise_exception(man,AP_EXC_INVALID_ARGUMENT,AP_FUNID_FOLD,
+				 "the variables to fold should be distinct and of the same type");
+      free(tdim);
+      ap_environment_free(nenv);
+      goto ap_abstract1_fold_exit;
+    }
+  }
   /* Compute the permutation for "exchanging" dim and tdim[0] if necessary  */
   if (dim!=tdim[0]){
     size_t rank;
-- 
2.43.0


From e54d6f26ed8c9936eb25708201d2dc443dde5730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 61/74] fix: newpolka: vector_set_linexpr_bound freed neither
 of its constants

---
 newpolka/pk_user.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/newpolka/pk_user.c b/newpolka/pk_user.c
index f7a2198..604e07a 100644
--- a/newpolka/pk_user.c
+++ b/newpolka/pk_user.c
@@ -130,6 +130,7 @@ bool vector_set_linexpr_bound(pk_internal_t* pk,
   vector_normalize(pk,vec,size);
   if (integer) vector_normalize_constraint_int(pk,vec,intdim,realdim);
 
+  numint_clear(cst);
   return true;
 }
 
-- 
2.43.0


From 02a93d50b254b5754308bb1c05c7257d027180b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 62/74] fix: newpolka: satmat_resize_rows overwrote (and
 leaked) the rows it already had between nbrows and _maxrows

---
 newpolka/pk_satmat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newpolka/pk_satmat.c b/newpolka/pk_satmat.c
index 4d87e38..97a2354 100644
--- a/newpolka/pk_satmat.c
+++ b/newpolka/pk_satmat.c
@@ -65,7 +65,7 @@ void satmat_resize_rows(satmat_t* sat, size_t nbrows)
 
   if (nbrows > sat->_maxrows){
     sat->p = (bitstring_t**)realloc(sat->p, nbrows * sizeof(bitstring_t*));
-    for (i=sat->nbrows; i<nbrows; i++){
+    for (i=sat->_maxrows; i<nbrows; i++){
       sat->p[i] = bitstring_alloc(sat->nbcolumns);
     }
   }
-- 
2.43.0


From 4f80bc6b9f0bb88793fd0a25e25874f3aee2fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 63/74] fix: ap_environment_remove leaked the other half of the
 environment when removing fails

---
 apron/ap_environment.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apron/ap_environment.c b/apron/ap_environment.c
index 1cc72a5..dca59cd 100644
--- a/apron/ap_environment.c
+++ b/apron/ap_environment.c
@@ -560,6 +560,8 @@ ap_environment_t* ap_environment_remove(ap_environment_t* env,
   denv2.envreal = env_remove(&denv1.envreal, tvarreal, realdim);
   if (denv2.envint.size==UINT_MAX ||
       denv2.envreal.size==UINT_MAX){
+    if (denv2.envint.size!=UINT_MAX) env_clear(&denv2.envint);
+    if (denv2.envreal.size!=UINT_MAX) env_clear(&denv2.envreal);
     res = NULL;
   } else {
     res = environment_of_denv(&denv2);
-- 
2.43.0


From de11a147543616837a141845ff20294285728ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 64/74] fix: itv: linearisation of a product of two
 non-constant expressions leaked an interval

---
 itv/itv_linearize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/itv/itv_linearize.c b/itv/itv_linearize.c
index fb7b62e..7dc342c 100644
--- a/itv/itv_linearize.c
+++ b/itv/itv_linearize.c
@@ -947,6 +947,7 @@ ap_texpr0_node_intlinearize_linear(itv_internal_t* intern,
     }
     else {
       exc = true;
+      itv_clear(i1);
       break;
     }
     if (n->op==AP_TEXPR_DIV){
-- 
2.43.0


From 71a77354922f8b90f4fe8cec56cc64142f5f83c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:48 +0000
Subject: [PATCH 65/74] fix: apronxx: operator< and operator> of abstract
 values were the negation of the converse inclusion, not strict inclusion
 (level 0)

---
 apronxx/apxx_abstract0_inline.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apronxx/apxx_abstract0_inline.hh b/apronxx/apxx_abstract0_inline.hh
index f1ac046..6059c3f 100644
--- a/apronxx/apxx_abstract0_inline.hh
+++ b/apronxx/apxx_abstract0_inline.hh
@@ -432,12 +432,12 @@ inline bool operator>= (const abstract0& x, const abstract0& y)
 
 inline bool operator> (const abstract0& x, const abstract0& y)
 {
-  return !(x<=y);
+  return y<=x && !(x<=y);
 }
 
 inline bool operator< (const abstract0& x, const abstract0& y)
 {
-  return !(y<=x);
+  return x<=y && !(y<=x);
 }
 
 
-- 
2.43.0


From 75013a987b2a351cab5a37a0ddfd455b25c16f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:49 +0000
Subject: [PATCH 66/74] fix: apronxx: operator< and operator> of abstract
 values were the negation of the converse inclusion, not strict inclusion
 (level 1)

---
 apronxx/apxx_abstract1_inline.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apronxx/apxx_abstract1_inline.hh b/apronxx/apxx_abstract1_inline.hh
index 59ab3ac..c16b49f 100644
--- a/apronxx/apxx_abstract1_inline.hh
+++ b/apronxx/apxx_abstract1_inline.hh
@@ -533,12 +533,12 @@ inline bool operator>= (const abstract1& x, const abstract1& y)
 
 inline bool operator> (const abstract1& x, const abstract1& y)
 {
-  return !(x<=y);
+  return y<=x && !(x<=y);
 }
 
 inline bool operator< (const abstract1& x, const abstract1& y)
 {
-  return !(y<=x);
+  return x<=y && !(y<=x);
 }
 
 
-- 
2.43.0


From e05ba680415c6d7870c034b6c3951d2773374b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:18 +0000
Subject: [PATCH 67/74] fix: apronxx: cmp(int, scalar) returned the order of
 the scalar with respect to the integer

---
 apronxx/apxx_scalar_inline.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apronxx/apxx_scalar_inline.hh b/apronxx/apxx_scalar_inline.hh
index 9c9084a..88e8a36 100644
--- a/apronxx/apxx_scalar_inline.hh
+++ b/apronxx/apxx_scalar_inline.hh
@@ -376,7 +376,7 @@ inline bool operator!=(const scalar& a, int b)
 
 inline scalar::order cmp(int a, const scalar& b)         
 { 
-  return (scalar::order) ap_scalar_cmp_int(const_cast<ap_scalar_t*>(&b.c), a); 
+  return (scalar::order) -ap_scalar_cmp_int(const_cast<ap_scalar_t*>(&b.c), a); 
 }
 
 inline bool operator>=(int a, const scalar& b) 
-- 
2.43.0


From 03da0670d3950e86b022f830c8d92f9c8817938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:16 +0000
Subject: [PATCH 68/74] fix: ap_linexpr0_minimize kept an empty term block that
 nobody releases when no term is left

---
 apron/ap_linexpr0.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apron/ap_linexpr0.c b/apron/ap_linexpr0.c
index 4b056ac..bc7f924 100644
--- a/apron/ap_linexpr0.c
+++ b/apron/ap_linexpr0.c
@@ -100,7 +100,7 @@ void ap_linexpr0_minimize(ap_linexpr0_t* e)
 	nsize++;
     }
     if (nsize!=e->size){
-      ap_linterm_t* linterm = malloc(nsize*sizeof(ap_linterm_t));
+      ap_linterm_t* linterm = nsize ? malloc(nsize*sizeof(ap_linterm_t)) : NULL;
       j = 0;
       for (i=0; i<e->size; i++){
 	ap_coeff_t* p = &e->p.linterm[i].coeff;
-- 
2.43.0


From c3bb8a8f75e3d4f003967cd370fcfe97fd7d00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:34 +0000
Subject: [PATCH 69/74] fix: newpolka: meets and ray additions fall back to
 lazy when minimisation of an argument runs out of space

---
 newpolka/pk_meetjoin.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/newpolka/pk_meetjoin.c b/newpolka/pk_meetjoin.c
index 60584de..d65daaa 100644
--- a/newpolka/pk_meetjoin.c
+++ b/newpolka/pk_meetjoin.c
@@ -244,7 +244,7 @@ void poly_meet(bool meet,
   _poly_meet_entry0:
     poly_obtain_sorted_C(pk,pa);
     poly_obtain_sorted_C(pk,pb);
-    poly_meet_matrix(meet,lazy,man,po,pa,pb->C);
+    poly_meet_matrix(meet,true,man,po,pa,pb->C);
   }
   /* strict behaviour */
   else {
@@ -382,6 +382,7 @@ pk_t* poly_meet_array(bool meet,
 	  if (!meet) poly_dual(poly);
 	  return poly;
 	}
+	lazy = true; /* no minimal representation of an argument */
       }
       if (!po[i]->C){
 	/* one polyhedron is empty */
@@ -547,6 +548,7 @@ void poly_meet_itv_lincons_array(bool lazy,
       poly_set_top(pk,po);
       return;
     }
+    lazy = true; /* no minimal representation of the argument */
   }
   /* if pa is bottom, return bottom */
   if ( !pa->C && !pa->F){
@@ -572,7 +574,13 @@ void poly_meet_itv_lincons_array(bool lazy,
   }
   /* quasilinearize if needed */
   if (!quasilinear){
-    itv_t* env = pk_matrix_to_box(pk,pa->F);
+    itv_t* env;
+    if (pa->F)
+      env = pk_matrix_to_box(pk,pa->F);
+    else {
+      env = itv_array_alloc(pa->intdim+pa->realdim);
+      for (i=0; i<pa->intdim+pa->realdim; i++) itv_set_top(env[i]);
+    }
     itv_quasilinearize_lincons_array(pk->itv,array,env,true);
     itv_array_free(env,pa->intdim+pa->realdim);
   }
@@ -725,6 +733,7 @@ void poly_add_ray_array(bool lazy,
       poly_set_top(pk,po);
       return;
     }
+    lazy = true; /* no minimal representation of the argument */
   }
   /* if pa is bottom, return bottom */
   if ( !pa->C && !pa->F){
-- 
2.43.0


From 106e53a66b4de486fd19a379801c91bd178a7de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:34 +0000
Subject: [PATCH 70/74] fix: newpolka: pk_hash returns after a failed
 minimisation instead of reading a missing representation

---
 newpolka/pk_representation.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/newpolka/pk_representation.c b/newpolka/pk_representation.c
index ec6a870..6d270da 100644
--- a/newpolka/pk_representation.c
+++ b/newpolka/pk_representation.c
@@ -368,6 +368,10 @@ int pk_hash(ap_manager_t* man, pk_t* po)
   poly_chernikova3(man,po,NULL);
   assert(poly_check(pk,po));
   res = 5*po->intdim + 7*po->realdim;
+  if (pk->exn){
+    pk->exn = AP_EXC_NONE;
+    return res;
+  }
   if (po->C!=NULL){
     res += po->C->nbrows*11 +  po->F->nbrows*13;
     for (i=0; i<po->C->nbrows; i += (po->C->nbrows+3)/4){
-- 
2.43.0


From 35f3036a43327267afee9ef6b10bbd8e9a9c86ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:34 +0000
Subject: [PATCH 71/74] fix: newpolka: do not dualise the fallback top of a
 substitution that ran out of space

---
 newpolka/pk_assign.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newpolka/pk_assign.c b/newpolka/pk_assign.c
index 32202ad..e394efb 100644
--- a/newpolka/pk_assign.c
+++ b/newpolka/pk_assign.c
@@ -471,6 +471,7 @@ pk_t* poly_asssub_linexpr_array_det(bool assign,
     pk->exn = AP_EXC_NONE;
     man->result.flag_best = man->result.flag_exact = false;
     poly_set_top(pk,po);
+    if (!assign) poly_dual(po);
     goto _poly_asssub_linexpr_array_det_exit;
   }
   /* Return empty if empty */
@@ -789,6 +790,7 @@ pk_t* poly_asssub_linexpr_det(bool assign,
     if (pk->exn){
       pk->exn = AP_EXC_NONE;
       poly_set_top(pk,po);
+      if (!assign) poly_dual(po);
       man->result.flag_best = man->result.flag_exact = false;
       goto  _poly_asssub_linear_linexpr_exit;
     }
-- 
2.43.0


From 597753a0cf353398b2ed27357745565052ae2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:34 +0000
Subject: [PATCH 72/74] fix: newpolka: sign of the upper bound in
 vector_set_linexpr_bound

---
 newpolka/pk_user.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/newpolka/pk_user.c b/newpolka/pk_user.c
index 604e07a..4fad60a 100644
--- a/newpolka/pk_user.c
+++ b/newpolka/pk_user.c
@@ -118,7 +118,7 @@ bool vector_set_linexpr_bound(pk_internal_t* pk,
   numint_init(cst);
   numint_mul(cst,numrat_numref(numrat),vec[0]);
   if (mode>=0){
-    numint_sub(vec[polka_cst],vec[polka_cst],cst);
+    numint_sub(vec[polka_cst],cst,vec[polka_cst]);
     for (i=pk->dec; i<size; i++){
       numint_neg(vec[i],vec[i]);
     }
-- 
2.43.0


From aebd0be1365acfdbc25eda9043c3e391cf088c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:34 +0000
Subject: [PATCH 73/74] fix: newpolka: reset the epsilon coefficient of rounded
 strict constraints

---
 newpolka/pk_approximate.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/newpolka/pk_approximate.c b/newpolka/pk_approximate.c
index 8fe5ff4..385b4c9 100644
--- a/newpolka/pk_approximate.c
+++ b/newpolka/pk_approximate.c
@@ -304,6 +304,7 @@ bool pk_matrix_approximate_constraint_1x(pk_internal_t* pk, pk_matrix_t* C, pk_m
 	/* C. Compute new constant coefficient */
 	numint_set_int(vec[0],1);
 	numint_set_int(vec[polka_cst],0);
+	if (pk->strict) numint_set_int(vec[polka_eps],0);
 	pk_matrix_bound_vector(pk,itv,vec,F);
 	finite = !bound_infty(itv->inf);
 	if (finite){
@@ -336,6 +337,7 @@ bool pk_matrix_approximate_constraint_1x(pk_internal_t* pk, pk_matrix_t* C, pk_m
 	  /* G. Compute new constant coefficient */
 	  numint_set_int(vec[0],1);
 	  numint_set_int(vec[polka_cst],0);
+	  if (pk->strict) numint_set_int(vec[polka_eps],0);
 	  pk_matrix_bound_vector(pk,itv,vec,F);
 	  finite = !bound_infty(itv->inf);
 	  if (finite){
-- 
2.43.0


From 46a5c52a6d09ba7f7953bad02236f546a6827546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:34 +0000
Subject: [PATCH 74/74] fix: box: negative algorithm option made
 meet_lincons_array loop without end

---
 box/box_meetjoin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box/box_meetjoin.c b/box/box_meetjoin.c
index d0a9158..67bd879 100644
--- a/box/box_meetjoin.c
+++ b/box/box_meetjoin.c
@@ -175,7 +175,7 @@ box_t* box_meet_lincons_array(ap_manager_t* man,
 {
   bool empty = false;
   box_t* res;
-  size_t kmax;
+  int kmax;
   itv_lincons_array_t tlincons;
   box_internal_t* intern = (box_internal_t*)man->internal;
 
-- 
2.43.0

