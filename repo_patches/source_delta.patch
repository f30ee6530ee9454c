From 0cf5b5d7b92f2c9c71acc018e81eda4a4a1644e6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:30 +0000
Subject: [PATCH 01/27] fix: declare _Integer_1 in SIMD code that writes
 x**(-1/2), x**(-3/2), x**(-5/2) as quotients

---
 nrpy/helpers/simd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nrpy/helpers/simd.py b/nrpy/helpers/simd.py
index 78606c9..5a32f4c 100644
--- a/nrpy/helpers/simd.py
+++ b/nrpy/helpers/simd.py
@@ -338,6 +338,13 @@ def expr_convert_to_simd_intrins(
         if func == Pow:
             one = Symbol(prefix + "_Integer_1")
             exponent = lookup_rational(args[1])
+            if exponent in (-Rational(1, 2), -Rational(3, 2), -Rational(5, 2)):
+                # These are written as quotients 1/(...), so 1 must be declared.
+                if sympify(1) not in map_rat_to_sym:
+                    symbol_to_Rational_dict[one], map_rat_to_sym[sympify(1)] = (
+                        S.One,
+                        one,
+                    )
             if exponent in (Rational(1, 2), 0.5):
                 subtree.expr = SqrtSIMD(args[0])
                 subtree.children.pop(1)
-- 
2.43.0


From 1afff7c146c16b147c6088ec2c386c3c1f2d951a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:30 +0000
Subject: [PATCH 02/27] fix: NegFusedMulSubSIMD on SSE2 with FMA computed a*b-c
 instead of -a*b-c

---
 nrpy/helpers/simd_intrinsics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nrpy/helpers/simd_intrinsics.h b/nrpy/helpers/simd_intrinsics.h
index 5780cca..9fef199 100644
--- a/nrpy/helpers/simd_intrinsics.h
+++ b/nrpy/helpers/simd_intrinsics.h
@@ -161,8 +161,8 @@
 // Note: There are no mainstream non-AVX+ chips that have FMA, but we include these for completeness.
 #define FusedMulAddSIMD(a, b, c) _mm_fmadd_pd((a), (b), (c))
 #define FusedMulSubSIMD(a, b, c) _mm_fmsub_pd((a), (b), (c))
-#define NegFusedMulAddSIMD(a, b, c) _mm_sub_pd((c), _mm_mul_pd((a), (b)))                                   // c - a*b
-#define NegFusedMulSubSIMD(a, b, c) _mm_sub_pd((c), _mm_sub_pd((c), _mm_sub_pd(_mm_mul_pd((a), (b)), (c)))) // -a*b - c = c - (c + a*b + c)
+#define NegFusedMulAddSIMD(a, b, c) _mm_fnmadd_pd((a), (b), (c)) // c - a*b
+#define NegFusedMulSubSIMD(a, b, c) _mm_fnmsub_pd((a), (b), (c)) // -a*b - c
 #else
 // Fused Multiply-Add/Subtract Operations without FMA
 #define FusedMulAddSIMD(a, b, c) _mm_add_pd(_mm_mul_pd((a), (b)), (c))    // a*b + c
-- 
2.43.0


From aab7ccea19923f413283eab0ab80d70585ce6bc9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:30 +0000
Subject: [PATCH 03/27] fix: cse_preprocess declares _Integer_1 when it
 rewrites (-1)^even

---
 nrpy/helpers/cse_preprocess_postprocess.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nrpy/helpers/cse_preprocess_postprocess.py b/nrpy/helpers/cse_preprocess_postprocess.py
index 4f9eea6..eb46786 100644
--- a/nrpy/helpers/cse_preprocess_postprocess.py
+++ b/nrpy/helpers/cse_preprocess_postprocess.py
@@ -222,6 +222,11 @@ def cse_preprocess(
                         changed_expr = True
             if changed_expr:
                 expr = tree.reconstruct()
+                if _One_ in expr.free_symbols and sp.S.One not in map_rat_to_sym:
+                    symbol_to_Rational_dict[_One_], map_rat_to_sym[sp.S.One] = (
+                        sp.S.One,
+                        _One_,
+                    )
 
         # Replace any remaining ones with symbol _One_ after partial factoring
         if factor or negative:
-- 
2.43.0


From 1dc3d5de18c0a0ecf17153c72e2edfff10f0772b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:41 +0000
Subject: [PATCH 04/27] fix: c_codegen with postproc_substitution_dict and CSE
 assigned into a tuple

---
 nrpy/c_codegen.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index c464d6d..ec977ae 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -592,8 +592,12 @@ def c_codegen(
                 )
             else:
                 if CCGParams.postproc_substitution_dict:
-                    common_subexpression[1] = apply_substitution_dict(
-                        common_subexpression[1], CCGParams.postproc_substitution_dict
+                    common_subexpression = (
+                        common_subexpression[0],
+                        apply_substitution_dict(
+                            common_subexpression[1],
+                            CCGParams.postproc_substitution_dict,
+                        ),
                     )
                 outstring += (
                     full_type_string
-- 
2.43.0


From e556ff7a274ab8fe5ebe0f13b2582f33960a121a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:41 +0000
Subject: [PATCH 05/27] fix: keep _NegativeOne_ declared when a SIMD CSE
 temporary uses it

---
 nrpy/c_codegen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index ec977ae..1e20733 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -577,6 +577,7 @@ def c_codegen(
 
         # Processing common subexpressions and results from cse_postprocess
         # cse_results[0] contains common subexpression definitions, does not specify varnames.
+        CSE_vars_use_NegativeOne = False
         for common_subexpression in cse_results[0]:
             full_type_string = f"const {CCGParams.fp_type_alias} "
             if CCGParams.enable_simd:
@@ -587,6 +588,9 @@ def c_codegen(
                     CCGParams.simd_find_more_FMAsFMSs,
                     debug=CCGParams.simd_debug,
                 )
+                CSE_vars_use_NegativeOne |= f"{varprefix}_NegativeOne_" in {
+                    str(symb) for symb in simd_expr.free_symbols
+                }
                 outstring += (
                     f"{full_type_string}{common_subexpression[0]} = {simd_expr};\n"
                 )
@@ -628,7 +632,8 @@ def c_codegen(
                     CCGParams.symbol_to_Rational_dict,
                     varprefix,
                     CCGParams.simd_find_more_FMAsFMSs,
-                    clean_NegativeOnes_after_processing=CCGParams.simd_clean_NegativeOnes_after_processing,
+                    clean_NegativeOnes_after_processing=CCGParams.simd_clean_NegativeOnes_after_processing
+                    and not CSE_vars_use_NegativeOne,
                     debug=CCGParams.simd_debug,
                 )
                 outstring += f"{varnames_excluding_SCALAR_TMPs[i]} = {simd_expr};\n"
-- 
2.43.0


From 4a6a1773f2ca6a503ff37f9ea9c832383533c74b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:04 +0000
Subject: [PATCH 06/27] fix: read gridfunctions that appear only in the upwind
 control vector

---
 nrpy/c_codegen.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index 1e20733..cf5fb81 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -420,6 +420,16 @@ def c_codegen(
         for i, deriv_op in enumerate(list_of_deriv_operators):
             fdcoeffs[i], fdstencl[i] = deriv_operator_dict[deriv_op]
 
+        # Gridfunctions that appear only in the upwind control vector must be read as well
+        if isinstance(CCGParams.upwind_control_vec, list):
+            for deriv_op in superfast_uniq(list_of_deriv_operators):
+                if deriv_op.startswith("dupD"):
+                    free_symbols_list.extend(
+                        sp.sympify(
+                            CCGParams.upwind_control_vec[int(deriv_op[-1])]
+                        ).free_symbols
+                    )
+
         read_from_memory_C_code = fin.read_gfs_from_memory(
             list_of_base_gridfunction_names_in_derivs,
             fdstencl,
-- 
2.43.0


From cc8d7b9da9feea590a24c50c450d199547fb56b2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:51 +0000
Subject: [PATCH 07/27] fix: Euler MoL code referred to the non-existent
 k_odd_gfs

---
 nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py | 10 ++++++++--
 nrpy/infrastructures/superB/superB/superB_pup.py |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
index 4bdbff9..336eef1 100644
--- a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
+++ b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
@@ -136,7 +136,10 @@ def generate_gridfunction_names(
                 # Need k_odd for k_1,3,5... and k_even for k_2,4,6...
                 non_y_n_gridfunctions_list.extend(["k_odd_gfs", "k_even_gfs"])
             diagnostic_gridfunctions_point_to = "y_nplus1_running_total_gfs"
-            diagnostic_gridfunctions2_point_to = "k_odd_gfs"
+            # Euler has no second scratch gridfunction group
+            diagnostic_gridfunctions2_point_to = (
+                "k_odd_gfs" if MoL_method != "Euler" else None
+            )
 
     non_y_n_gridfunctions_list.append("auxevol_gfs")
 
@@ -207,7 +210,10 @@ def register_CFunction_MoL_malloc(
         )
 
     body += f"\ngridfuncs->diagnostic_output_gfs  = gridfuncs->{diagnostic_gridfunctions_point_to};\n"
-    body += f"gridfuncs->diagnostic_output_gfs2 = gridfuncs->{diagnostic_gridfunctions2_point_to};\n"
+    if diagnostic_gridfunctions2_point_to is not None:
+        body += f"gridfuncs->diagnostic_output_gfs2 = gridfuncs->{diagnostic_gridfunctions2_point_to};\n"
+    else:
+        body += "gridfuncs->diagnostic_output_gfs2 = NULL;\n"
 
     cfc.register_CFunction(
         includes=includes,
diff --git a/nrpy/infrastructures/superB/superB/superB_pup.py b/nrpy/infrastructures/superB/superB/superB_pup.py
index 796b5af..28d3f54 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup.py
+++ b/nrpy/infrastructures/superB/superB/superB_pup.py
@@ -229,7 +229,10 @@ void pup_MoL_gridfunctions_struct(PUP::er &p, MoL_gridfunctions_struct &gridfunc
         )
     # In superB, allocate separate memory to diagnostic_output_gfs
     prefunc += "gridfuncs.diagnostic_output_gfs  = (REAL *restrict)malloc(sizeof(REAL) * NUM_EVOL_GFS * Nxx_plus_2NGHOSTS_tot);\n"
-    prefunc += f"gridfuncs.diagnostic_output_gfs2 = gridfuncs.{diagnostic_gridfunctions2_point_to};\n"
+    if diagnostic_gridfunctions2_point_to is not None:
+        prefunc += f"gridfuncs.diagnostic_output_gfs2 = gridfuncs.{diagnostic_gridfunctions2_point_to};\n"
+    else:
+        prefunc += "gridfuncs.diagnostic_output_gfs2 = NULL;\n"
     prefunc += """
   }"""
     for gridfunctions in gridfunctions_list:
-- 
2.43.0


From 502df355a3a7f2522f2be70d5e64d035bfd8f572 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:51 +0000
Subject: [PATCH 08/27] fix: superB MoL dropped the boundary-condition step for
 non-diagonal methods and RK3's k2

---
 nrpy/infrastructures/superB/MoL.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index 502db8e..e300ea2 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -587,6 +587,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     + Butcher[3][2] * k2_or_y_nplus_a32_k2_gfs * dt,
                     Butcher[2][2] * k2_or_y_nplus_a32_k2_gfs * dt + y_n_gfs,
                 ],
+                post_rhs_bcs_str=post_rhs_bcs_str,
                 post_rhs_output_list=[
                     k2_or_y_nplus_a32_k2_gfs,
                     k1_or_y_nplus_a21_k1_or_y_nplus1_running_total_gfs,
@@ -683,6 +684,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     rhs_output_expr=rhs_output,
                     RK_lhs_list=[RK_lhs],
                     RK_rhs_list=[RK_rhs],
+                    post_rhs_bcs_str=post_rhs_bcs_str,
                     post_rhs_output_list=[post_rhs_output],
                     enable_simd=enable_simd,
                     gf_aliases=gf_aliases,
-- 
2.43.0


From 27473376912a58bcdf166410d256179e27131bc4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:51 +0000
Subject: [PATCH 09/27] fix: superB MoL's Euler step had no case label and
 never executed

---
 nrpy/infrastructures/superB/MoL.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index e300ea2..507d7bb 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -700,6 +700,10 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
             if (
                 MoL_method == "Euler"
             ):  # Euler's method doesn't require any k_i, and gets its own unique algorithm
+                body += """
+          case RK_SUBSTEP_K1:
+          {
+"""
                 body += single_RK_substep_input_symbolic(
                     comment_block="// ***Euler timestepping only requires one RHS evaluation***",
                     substep_time_offset_dt=Butcher[0][0],
@@ -714,6 +718,9 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     gf_aliases=gf_aliases,
                     post_rhs_string=post_rhs_string,
                 )
+                body += """
+          break;
+          }"""
             else:
                 for s in range(num_steps):
                     # If we're on the first step (s=0), we use y_n gridfunction as input.
-- 
2.43.0


From 1e3a6078a374f232c68d56a94283017b3ba6aa49 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:20 +0000
Subject: [PATCH 10/27] fix: balance braces in Cart_to_xx when relative_to is
 global_grid_center

---
 nrpy/infrastructures/BHaH/xx_tofrom_Cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
index 81395e8..6199a59 100644
--- a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
+++ b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
@@ -64,8 +64,8 @@ def register_CFunction__Cart_to_xx_and_nearest_i0i1i2(
   Cartx -= Cart_originx;
   Carty -= Cart_originy;
   Cartz -= Cart_originz;
-  {
 """
+    body += "  {\n"
     if "theta_adj" in CoordSystem:
         body += ccg.c_codegen(
             [rfm.Cart_to_xx[0], rfm.Cart_to_xx[1], rfm.Cart_to_xx[2]],
-- 
2.43.0


From 99f6544893a2b1ec63a9dc2e800b7cde6a466b12 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:13 +0000
Subject: [PATCH 11/27] fix: set NUMGRIDS before setting the params of all
 NUMGRIDS grids to default

---
 .../BHaH/numerical_grids_and_timestep.py               | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py b/nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py
index 0766905..0218e38 100644
--- a/nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py
+++ b/nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py
@@ -248,15 +248,15 @@ def register_CFunction_numerical_grids_and_timestep(
     cfunc_type = "void"
     name = "numerical_grids_and_timestep"
     params = "commondata_struct *restrict commondata, griddata_struct *restrict griddata, bool calling_for_first_time"
-    body = r"""
-  // Step 1.a: Set each CodeParameter in griddata.params to default, for MAXNUMGRIDS grids.
-  params_struct_set_to_default(commondata, griddata);"""
-    body += rf"""
+    body = rf"""
   // Independent grids
   int Nx[3] = {{ -1, -1, -1 }};
 
-  // Step 1.b: Set commondata->NUMGRIDS to number of CoordSystems we have
+  // Step 1.a: Set commondata->NUMGRIDS to number of CoordSystems we have
   commondata->NUMGRIDS = {len(list_of_CoordSystems)};
+
+  // Step 1.b: Set each CodeParameter in griddata.params to default, for all NUMGRIDS grids.
+  params_struct_set_to_default(commondata, griddata);
 """
     if gridding_approach == "independent grid(s)":
         body += """
-- 
2.43.0


From c62ddd5235969c513dab1c9e7a2c842d07b6118f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 12/27] fix: register all components of vectors whose dimension
 is not 3

---
 nrpy/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index de95448..ba8c5dd 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -890,7 +890,7 @@ def register_gridfunctions_for_single_rank1(
 
     # Step 2: Register each gridfunction
     gf_list = []
-    for i in range(3):
+    for i in range(dimension):
         gf_list += [str(IDX_OBJ_TMP[i])]
     # Manually adjust kwargs so that basename is not checked (we're not passing the basename!),
     # and rank is set to 1.
-- 
2.43.0


From 9101079b3c6af2e6192f86985a84558e85e2132d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 13/27] fix: parity types of 4-vectors (time component is a
 scalar)

---
 nrpy/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index ba8c5dd..d0a2d90 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -204,7 +204,9 @@ class GridFunction:
                     if gf.rank == 0:
                         parity_type.append(0)
                     elif gf.rank == 1:
-                        parity_type.append(int(gf.name[-1]) + 1)
+                        # The time component of a 4-vector is a scalar.
+                        offset = 0 if gf.dimension == 4 else 1
+                        parity_type.append(int(gf.name[-1]) + offset)
                     elif gf.rank == 2:
                         idx0 = gf.name[-2]
                         idx1 = gf.name[-1]
-- 
2.43.0


From 28d713f01c304fc2b5bc18444e04af89291f21c6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 14/27] fix: register rank-N gridfunctions in a deterministic
 order

---
 nrpy/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index d0a2d90..fe14765 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -1064,7 +1064,7 @@ def register_gridfunctions_for_single_rankN(
         for sublist in flatten_list(IDX_OBJ_TMP)
         for item in (sublist if isinstance(sublist, list) else [sublist])
     ]
-    unique_gf_list = list(set(map(str, flat_list)))
+    unique_gf_list = list(dict.fromkeys(map(str, flat_list)))
 
     # Manually adjust kwargs for registration
     kwargs["is_basename"] = False
-- 
2.43.0


From e85aa73a90ad8210a22d985137a13c6fff42950f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:52 +0000
Subject: [PATCH 15/27] fix: read bool parameters from parameter files and the
 command line

---
 .../BHaH/cmdline_input_and_parfiles.py                | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 515a98a..513e0d0 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -134,7 +134,7 @@ static void print_usage() {{
 #define MAX_ARRAY_SIZE 100 // Adjust as needed
 
 // Parameter types
-typedef enum { PARAM_REAL, PARAM_INT, PARAM_CHARARRAY, PARAM_REAL_ARRAY, PARAM_INT_ARRAY } param_type;
+typedef enum { PARAM_REAL, PARAM_INT, PARAM_BOOL, PARAM_CHARARRAY, PARAM_REAL_ARRAY, PARAM_INT_ARRAY } param_type;
 
 // Parameter descriptor struct
 typedef struct {
@@ -180,6 +180,9 @@ param_descriptor param_table[] = {
             elif cparam_type == "REAL":
                 param_type = "PARAM_REAL"
                 found_REAL = True
+            elif cparam_type == "bool":
+                param_type = "PARAM_BOOL"
+                found_boolean = True
             elif "char" in cparam_type and "[" in cparam_type and "]" in cparam_type:
                 param_type = "PARAM_CHARARRAY"
                 buffer_size = int(cparam_type.split("[")[1].split("]")[0])
@@ -568,6 +571,12 @@ static void read_boolean(const char *value, bool *result, const char *param_name
                 f'            read_integer(values_array[0], &commondata->{param_name}, "{param_name}");\n'
                 f"        }}\n"
             )
+        elif param_type == "PARAM_BOOL":
+            assignment_code += (
+                f"        {prefix} (param_desc->index == {index}) {{\n"
+                f'            read_boolean(values_array[0], &commondata->{param_name}, "{param_name}");\n'
+                f"        }}\n"
+            )
         elif param_type == "PARAM_CHARARRAY":
             # buffer_size is used instead of array_size
             assignment_code += (
-- 
2.43.0


From 908b7cc0fcda2b42f4255cf7f87f95cf8c883f45 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:52 +0000
Subject: [PATCH 16/27] fix: reject integer parameter values outside the range
 of int

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 513e0d0..677e4e1 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -323,7 +323,7 @@ static void read_integer(const char *value, int *result, const char *param_name)
   errno = 0; // To detect overflow
   long int_val = strtol(value, &endptr, 10);
 
-  if (endptr == value || *endptr != '\0' || errno == ERANGE) {
+  if (endptr == value || *endptr != '\0' || errno == ERANGE || int_val < INT_MIN || int_val > INT_MAX) {
     fprintf(stderr, "Error: Invalid integer value for %s: %s.\n", param_name, value);
     exit(1);
   }
@@ -644,6 +644,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
             "<string.h>",
             "<ctype.h>",
             "<errno.h>",
+            "<limits.h>",
             "<stdbool.h>",
         ],
         prefunc=prefunc,
-- 
2.43.0


From 6049e772b48f80ea13722d98c9d2f08ea5117fa0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:52 +0000
Subject: [PATCH 17/27] fix: buffer overflow on long array sizes in parameter
 files

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 677e4e1..6541c39 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -261,6 +261,10 @@ static void parse_param(const char *param_str, char *param_name, int *array_size
     }
     char size_str[16];
     size_t size_len = bracket_end - bracket_start - 1;
+    if (size_len >= sizeof(size_str)) {
+      fprintf(stderr, "Error: Invalid array size in parameter %s.\n", param_name);
+      exit(1);
+    }
     strncpy(size_str, bracket_start + 1, size_len);
     size_str[size_len] = '\0';
     *array_size = atoi(size_str);
-- 
2.43.0


From 4cf35cf02e26dd5adbe7b99c2c82d574123b54aa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:52 +0000
Subject: [PATCH 18/27] fix: buffer overflow on long quoted command-line
 strings

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 6541c39..947df3f 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -361,7 +361,7 @@ static void read_chararray(const char *value, char *result, const char *param_na
   size_t len = strlen(value);
   char trimmed_value[PARAM_SIZE];
   if (value[0] == '"' && value[len - 1] == '"') {
-    if (len - 2 >= size) {
+    if (len - 2 >= size || len - 2 >= PARAM_SIZE) {
       fprintf(stderr, "Error: Buffer overflow detected for %s.\n", param_name);
       exit(1);
     }
-- 
2.43.0


From 51bd97db9e6228264347ae9f84ea7e3194b67498 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:52 +0000
Subject: [PATCH 19/27] fix: accept array parameter values longer than 127
 characters

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 947df3f..a7ac25f 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -298,12 +298,12 @@ static void parse_value(const char *value_str, char values[][PARAM_SIZE], int *v
     char *saveptr;
     val_token = strtok_r(value_copy, ",", &saveptr);
     while (val_token != NULL) {
-      safe_copy(values[count], trim_space(val_token), PARAM_SIZE);
-      count++;
-      if (count > MAX_ARRAY_SIZE) {
+      if (count >= MAX_ARRAY_SIZE) {
         fprintf(stderr, "Error: Array size exceeds maximum allowed.\n");
         exit(1);
       }
+      safe_copy(values[count], trim_space(val_token), PARAM_SIZE);
+      count++;
       val_token = strtok_r(NULL, ",", &saveptr);
     }
     *value_count = count;
@@ -473,7 +473,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
 
   char line[LINE_SIZE];
   char param[PARAM_SIZE];
-  char value[PARAM_SIZE];
+  char value[LINE_SIZE];
   int params_set[NUM_PARAMETERS] = {{0}}; // Track which parameters have been set.
 
   // Iterate through each line of the parameter file.
-- 
2.43.0


From c191cf7b8da17a85261fb136329898c89b2e3ea0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:52 +0000
Subject: [PATCH 20/27] fix: apply command-line parameters even if the
 parameter file sets nothing

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index a7ac25f..47b7bcf 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -613,6 +613,8 @@ static void read_boolean(const char *value, bool *result, const char *param_name
         }
     }
 }
+  } // END WHILE LOOP over all lines in the file
+  fclose(file); // Close the parameter file.
 
     // Handling options 3 and 4: Overwriting steerable parameters
     if (option == 3 || option == 4) {
@@ -637,8 +639,6 @@ static void read_boolean(const char *value, bool *result, const char *param_name
     body += steerable_body
     body += """
     } // END IF (option == 3 || option == 4)
-  } // END WHILE LOOP over all lines in the file
-  fclose(file); // Close the parameter file.
 """
 
     # Register the C function with the constructed components
-- 
2.43.0


From bac48cfe9217882ab1a4badce33cbaca802eb9ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:37 +0000
Subject: [PATCH 21/27] fix: integer Einstein Toolkit parameters were read as
 pointers (ETLegacy) or declared twice (CarpetX)

---
 nrpy/infrastructures/CarpetX/CodeParameters.py  | 6 ++++--
 nrpy/infrastructures/ETLegacy/CodeParameters.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/CodeParameters.py b/nrpy/infrastructures/CarpetX/CodeParameters.py
index c298ff0..43025f7 100644
--- a/nrpy/infrastructures/CarpetX/CodeParameters.py
+++ b/nrpy/infrastructures/CarpetX/CodeParameters.py
@@ -107,8 +107,10 @@ def read_CodeParameters(
                 read_CP_str += read_CCTK_REAL_CodeParameter(CPname, CPthorn)
             else:
                 CPcomment = f"  // {CPthorn}::{CPname}"
-                c_output = f'const {CPtype} {CPname} = CCTK_ParameterGet("{CPname}", "{CodeParam.module}", NULL);{CPcomment}\n'
-                read_CP_str += c_output
+                # Without SIMD, DECLARE_CCTK_PARAMETERS already declares the parameter.
+                if enable_simd:
+                    c_output = f'const {CPtype} {CPname} = *(const {CPtype} *)CCTK_ParameterGet("{CPname}", "{CPthorn}", NULL);{CPcomment}\n'
+                    read_CP_str += c_output
     if declare_invdxxs:
         for dirn in range(3):
             read_CP_str += read_CCTK_REAL_CodeParameter(f"invdxx{dirn}", "")
diff --git a/nrpy/infrastructures/ETLegacy/CodeParameters.py b/nrpy/infrastructures/ETLegacy/CodeParameters.py
index b7f07a0..c53d5e5 100644
--- a/nrpy/infrastructures/ETLegacy/CodeParameters.py
+++ b/nrpy/infrastructures/ETLegacy/CodeParameters.py
@@ -114,7 +114,7 @@ def read_CodeParameters(
                 read_CP_str += read_CCTK_REAL_CodeParameter(CPname, CPthorn)
             else:
                 CPcomment = f"  // {CPthorn}::{CPname}"
-                c_output = f'const {CPtype} {CPname} = CCTK_ParameterGet("{CPname}", "{CodeParam.module}", NULL);{CPcomment}\n'
+                c_output = f'const {CPtype} {CPname} = *(const {CPtype} *)CCTK_ParameterGet("{CPname}", "{CPthorn}", NULL);{CPcomment}\n'
                 read_CP_str += c_output
     if declare_invdxxs:
         for dirn in range(3):
-- 
2.43.0


From 9c7056ef1538545e53624b3a1b2f1a797c016001 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:59 +0000
Subject: [PATCH 22/27] fix: double percent signs of string parameter defaults,
 which are snprintf formats

---
 nrpy/infrastructures/BHaH/CodeParameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/CodeParameters.py b/nrpy/infrastructures/BHaH/CodeParameters.py
index ddf7508..adce561 100644
--- a/nrpy/infrastructures/BHaH/CodeParameters.py
+++ b/nrpy/infrastructures/BHaH/CodeParameters.py
@@ -100,7 +100,8 @@ def register_CFunctions_params_commondata_struct_set_to_default() -> None:
                     defaultval = CodeParam.defaultvalue
                     if "char" in CPtype and "[" in CPtype and "]" in CPtype:
                         chararray_size = CPtype.split("[")[1].replace("]", "")
-                        c_output = f'snprintf({struct}->{parname}, {chararray_size}, "{defaultval}");{comment}\n'
+                        # The default value is a format string here, so percent signs are doubled.
+                        c_output = f'snprintf({struct}->{parname}, {chararray_size}, "{str(defaultval).replace("%", "%%")}");{comment}\n'
                     elif "[" in CPtype and "]" in CPtype:
                         # Handle REAL[N] and int[N] arrays
                         array_size = CPtype.split("[")[1].split("]")[0]
-- 
2.43.0


From b93c14125b438561f1811d5681f94855486ce357 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:12 +0000
Subject: [PATCH 23/27] fix: write checkpoints to a temporary file and rename
 it, so a crash never destroys the previous one

---
 nrpy/infrastructures/BHaH/checkpointing.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/checkpointing.py b/nrpy/infrastructures/BHaH/checkpointing.py
index 20b320d..ca3fdcd 100644
--- a/nrpy/infrastructures/BHaH/checkpointing.py
+++ b/nrpy/infrastructures/BHaH/checkpointing.py
@@ -143,7 +143,15 @@ def register_CFunction_write_checkpoint(
 // Step 2: Multiplying by outevery yields the exact time we should output again, t_out.
 // Step 3: If fabs(t_out - currtime) < 0.5 * currdt, then currtime is as close to t_out as possible!
 if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
-  FILE *cp_file = fopen(filename, "w+");
+  // Write to a temporary file and rename it once complete, so that an interrupted
+  //   or failed write never destroys the previous checkpoint.
+  char tmp_filename[256 + 4];
+  snprintf(tmp_filename, sizeof(tmp_filename), "%s.tmp", filename);
+  FILE *cp_file = fopen(tmp_filename, "w+");
+  if(cp_file == NULL) {
+    fprintf(stderr, "ERROR: could not open %s; NO CHECKPOINT WRITTEN\n", tmp_filename);
+    return;
+  }
   fwrite(commondata, sizeof(commondata_struct), 1, cp_file);
   fprintf(stderr, "WRITING CHECKPOINT: cd struct size = %ld time=%e\n", sizeof(commondata_struct), commondata->time);
 """
@@ -194,7 +202,11 @@ if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
 #pragma omp parallel for
     for(int i=0;i<ntot*NUM_EVOL_GFS;i++) griddata[grid].gridfuncs.y_n_gfs[i] = griddata[grid].gridfuncs.diagnostic_output_gfs[i];
   }
-  fclose(cp_file);
+  const int write_failed = ferror(cp_file);
+  if(fclose(cp_file) != 0 || write_failed || rename(tmp_filename, filename) != 0) {
+    fprintf(stderr, "ERROR: could not write %s; NO CHECKPOINT WRITTEN\n", filename);
+    return;
+  }
   fprintf(stderr, "FINISHED WRITING CHECKPOINT\n");
 }
 """
-- 
2.43.0


From 309417e30aaccf6c841192268ee603d76cecaec4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:12 +0000
Subject: [PATCH 24/27] fix: refuse truncated or unreadable checkpoint files
 instead of continuing with uninitialised data

---
 nrpy/infrastructures/BHaH/checkpointing.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/checkpointing.py b/nrpy/infrastructures/BHaH/checkpointing.py
index ca3fdcd..505b6fe 100644
--- a/nrpy/infrastructures/BHaH/checkpointing.py
+++ b/nrpy/infrastructures/BHaH/checkpointing.py
@@ -28,7 +28,12 @@ def register_CFunction_read_checkpoint(
     """
     includes = ["BHaH_defines.h", "BHaH_function_prototypes.h", "unistd.h"]
     prefunc = r"""
-#define FREAD(ptr, size, nmemb, stream) { MAYBE_UNUSED const int numitems=fread((ptr), (size), (nmemb), (stream)); }
+#define FREAD(ptr, size, nmemb, stream) { \
+    if (fread((ptr), (size), (nmemb), (stream)) != (size_t)(nmemb)) { \
+      fprintf(stderr, "ERROR in read_checkpoint(): checkpoint file is truncated or unreadable.\n"); \
+      exit(1); \
+    } \
+  }
 """
     desc = "Read a checkpoint file"
     cfunc_type = "int"
@@ -45,6 +50,10 @@ def register_CFunction_read_checkpoint(
     return 0;
 
   FILE *cp_file = fopen(filename, "r");
+  if (cp_file == NULL) {
+    fprintf(stderr, "ERROR in read_checkpoint(): could not open %s.\n", filename);
+    exit(1);
+  }
   FREAD(commondata, sizeof(commondata_struct), 1, cp_file);
   fprintf(stderr, "cd struct size = %ld time=%e\n", sizeof(commondata_struct), commondata->time);
 """
-- 
2.43.0


From 78b9f8678aef2d51399aa880aa79e4e682787934 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:31 +0000
Subject: [PATCH 25/27] fix: progress_indicator no longer divides by zero when
 output_progress_every is 0 (output disabled)

---
 nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py b/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py
index 2330bf8..c218756 100644
--- a/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py
+++ b/nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py
@@ -82,7 +82,7 @@ def register_CFunction_progress_indicator(
     body += """
   // Proceed only if progress output is enabled (output_progress_every > 0)
   // and the current iteration (nn) is a multiple of the output frequency (output_progress_every)
-  if (! (commondata->output_progress_every >= 0 && (commondata->nn % commondata->output_progress_every == 0)) )
+  if (! (commondata->output_progress_every > 0 && (commondata->nn % commondata->output_progress_every == 0)) )
     return;"""
     if compute_ETA:
         body += """
-- 
2.43.0


From 4008bd4b71f6e8255dc2de1fc487e8dbff980c70 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:12 +0000
Subject: [PATCH 26/27] fix: simple_loop_1D no longer writes past zero-length
 arrays for coordinate systems with no points on the axis

---
 nrpy/infrastructures/BHaH/simple_loop.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/simple_loop.py b/nrpy/infrastructures/BHaH/simple_loop.py
index 9b69c29..91f0da4 100644
--- a/nrpy/infrastructures/BHaH/simple_loop.py
+++ b/nrpy/infrastructures/BHaH/simple_loop.py
@@ -324,11 +324,14 @@ def simple_loop_1D(
         or (i1_pts and i1_pts[0] == -1)
         or (i2_pts and i2_pts[0] == -1)
     ):
-        numpts = [0, 0, 0]
-    else:
-        numpts[0] = len(i0_pts) if i0_pts else Nxx[0]
-        numpts[1] = len(i1_pts) if i1_pts else Nxx[1]
-        numpts[2] = len(i2_pts) if i2_pts else Nxx[2]
+        # No output: zero-length i*_pts arrays must be neither declared nor written to.
+        return (
+            "",
+            f"// CoordSystem = {CoordSystem} has no points on the {axis} axis!\n",
+        )
+    numpts[0] = len(i0_pts) if i0_pts else Nxx[0]
+    numpts[1] = len(i1_pts) if i1_pts else Nxx[1]
+    numpts[2] = len(i2_pts) if i2_pts else Nxx[2]
 
     pragma = "#pragma omp parallel for\n"
     out_string = f"""// Define points for output along the {axis}-axis in {CoordSystem} coordinates.
@@ -356,10 +359,6 @@ dp1d.xCart_axis = {'xCart[1];' if axis == "y" else 'xCart[2];'}
     for i in range(3):
         if numpts[i] == Nxx[i]:
             out_string += f"{pragma}for(int i{i}=NGHOSTS; i{i}<Nxx{i} + NGHOSTS; i{i}++) i{i}_pts[i{i}-NGHOSTS] = i{i};\n"
-        elif numpts == [0, 0, 0] and i == 0:
-            out_string += (
-                f"// CoordSystem = {CoordSystem} has no points on the {axis} axis!\n"
-            )
         else:
             for j, pt in enumerate(i012_pts[i]):
                 out_string += f"i{i}_pts[{j}] = (int)({sp.ccode(pt)});\n"
-- 
2.43.0


From 9b486c975175f730f6ed582bc08e3db443183570 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:24 +0000
Subject: [PATCH 27/27] fix: reflection parities of 4-vector gridfunctions in
 ETLegacy symmetry registration

---
 nrpy/infrastructures/ETLegacy/Symmetry_registration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/ETLegacy/Symmetry_registration.py b/nrpy/infrastructures/ETLegacy/Symmetry_registration.py
index 4d20fe4..53c6045 100644
--- a/nrpy/infrastructures/ETLegacy/Symmetry_registration.py
+++ b/nrpy/infrastructures/ETLegacy/Symmetry_registration.py
@@ -67,8 +67,11 @@ def register_CFunction_Symmetry_registration_oldCartGrid3D(
                     body += f"  sym[{symidx0}] *= -1;\n"
                     body += f"  sym[{symidx1}] *= -1;\n"
             elif gfname[-1].isdigit():  # Rank 1
-                symidx = gfname[-1]
-                body += f"  sym[{symidx}] = -1;\n"
+                symidx = int(gfname[-1])
+                if gf.dimension == 4:
+                    symidx -= 1
+                if symidx >= 0:
+                    body += f"  sym[{symidx}] = -1;\n"
             elif not gfname[-1].isdigit():  # Rank 0
                 body += "  // (this gridfunction is a scalar -- no need to change default sym[]'s!)\n"
             else:
-- 
2.43.0

