From eb136f2bbb16a07aeca5d98637b2f5b0fba7e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 001/115] fix: basic_matrix() writes past its work array when a
 layer has one coefficient

---
 src/xrtm_scatter.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index f2d741f..79e3b83 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -634,9 +634,11 @@ void basic_matrix(int i_four, int n_coef, int n_stokes, double mu, double ***A)
           if (n_stokes >= 4)
                A[0][3][3] = 1.;
 
-          A[1][0][0] = mu;
-          if (n_stokes >= 4)
-               A[1][3][3] = mu;
+          if (n_coef >= 2) {
+               A[1][0][0] = mu;
+               if (n_stokes >= 4)
+                    A[1][3][3] = mu;
+          }
 
           if (n_coef >= 3) {
                leg_poly(3, mu, P);
-- 
2.43.0


From 357cb86ab6b1dd2e23b7c3ffed37102f70ad0066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 002/115] fix: four stream calls calc_radiance_levels() through
 an outdated declaration

The values it would recompute have been computed just before; six stream has
the same call commented out.
---
 src/xrtm_four_stream.c | 32 --------------------------------
 1 file changed, 32 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index f73d873..57ae481 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -925,38 +925,6 @@ if (n_umus == 0) {
 #endif
                }
           }
-
-          void calc_radiance_levels(int n_quad, int n_layers, int n_derivs,
-                                    int n_ulevels, int *ulevels,
-                                    double *ltau, double **ltau_l,
-                                    double *atran, double **atran_l,
-                                    double **nu, double ***X_p, double ***X_m,
-                                    double **F_p, double **F_m,
-                                    double **F0_p, double **F0_m, double **F1_p, double **F1_m,
-                                    double ***nu_l, double ****X_p_l, double ****X_m_l,
-                                    double ***F_p_l, double ***F_m_l,
-                                    double ***F0_p_l, double ***F0_m_l, double ***F1_p_l, double ***F1_m_l,
-                                    double *B, double **B_l,
-                                    double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
-                                    int thermal,
-                                    uchar **derivs_layers, uchar **derivs_beam,
-                                    save_tree_data save_tree, work_data work);
-
-          calc_radiance_levels(2, n_layers, 0,
-                               n_ulevels, ulevels,
-                               ltau, ltau_l,
-                               atran, atran_l,
-                               nu, X_p, X_m,
-                               F_p, F_m,
-                               NULL, NULL, NULL, NULL,
-                               NULL, NULL, NULL,
-                               NULL, NULL,
-                               NULL, NULL, NULL, NULL,
-                               b, NULL,
-                               I_p, I_m, I_p_l, I_m_l,
-                               0,
-                               NULL, NULL, save_tree, work);
-
      }
 
 
-- 
2.43.0


From 269497c45115789f0f89bbd97060d3800dfdc808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 003/115] fix: two stream passes n_umus and F_0 to sfi_layer()
 swapped for output at optical depths

---
 src/xrtm_two_stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 504c6af..394385c 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -1715,9 +1715,9 @@ void sfi(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, doubl
                          I_u_l2 = I_u_l[i_out_level];
 
                     if (n_derivs == 0)
-                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, n_umus, F_0, umus, omega[i], NULL, ltau[i], NULL, btran[i], NULL, as_0[i], NULL, atran[i], NULL, P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, NULL, work, flag);
+                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, F_0, n_umus, umus, omega[i], NULL, ltau[i], NULL, btran[i], NULL, as_0[i], NULL, atran[i], NULL, P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, NULL, work, flag);
                     else
-                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, n_umus, F_0, umus, omega[i], omega_l[i], ltau[i], ltau_l[i], btran[i], btran_l[i], as_0[i], as_0_l[i], atran[i], atran_l[i], P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], P_u0_pm_l[i], P_uq_pp_l[i], P_uq_mp_l[i], nu_l[i], X_p_l[i], X_m_l[i], F_p_l[i], F_m_l[i], B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, derivs, work, flag);
+                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, F_0, n_umus, umus, omega[i], omega_l[i], ltau[i], ltau_l[i], btran[i], btran_l[i], as_0[i], as_0_l[i], atran[i], atran_l[i], P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], P_u0_pm_l[i], P_uq_pp_l[i], P_uq_mp_l[i], nu_l[i], X_p_l[i], X_m_l[i], F_p_l[i], F_m_l[i], B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, derivs, work, flag);
 
                     i_out_level += inc;
                }
-- 
2.43.0


From dc73148735d2bc2b1bc9a2a531c29baffbc12afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 004/115] fix: get_single() clears the radiances with the angle
 dimensions swapped

---
 src/xrtm_model.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 32ff345..1baddee 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4369,14 +4369,14 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
       *
       *-----------------------------------------------------------------------*/
 /*
-     init_array4_d(I_p, d->n_ulevels, n_phis, n_mus2, d->n_stokes, 0.);
+     init_array4_d(I_p, d->n_ulevels, n_mus2, n_phis, d->n_stokes, 0.);
 */
-     init_array4_d(I_m, d->n_ulevels, n_phis, n_mus2, d->n_stokes, 0.);
+     init_array4_d(I_m, d->n_ulevels, n_mus2, n_phis, d->n_stokes, 0.);
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
-          init_array5_d(I_p_l, d->n_ulevels, d->n_derivs, n_phis, n_mus2, d->n_stokes, 0.);
+          init_array5_d(I_p_l, d->n_ulevels, d->n_derivs, n_mus2, n_phis, d->n_stokes, 0.);
 /*
-          init_array5_d(I_m_l, d->n_ulevels, d->n_derivs, n_phis, n_mus2, d->n_stokes, 0.);
+          init_array5_d(I_m_l, d->n_ulevels, d->n_derivs, n_mus2, n_phis, d->n_stokes, 0.);
 */
      }
 
-- 
2.43.0


From 736e132b3f31a3d4ac7d8ea3a10192a755fa07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 005/115] fix: whether two stream is enabled decided the
 boundary conditions of the other solvers

---
 src/xrtm_model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 1baddee..e717ddd 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5112,7 +5112,7 @@ if (d->options & XRTM_OPTION_SOURCE_SOLAR) {
           }
      }
 }
-if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
+if (! (solver & XRTM_SOLVER_TWO_STREAM)) {
      update_diff_bound_input(d, i_four, save_tree, work);
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
-- 
2.43.0


From 686be1ac664ec71999979ce454979fcf1ad39644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 006/115] fix: beam parameters of the layers below a changed
 layer were not always updated

---
 src/xrtm_model.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index e717ddd..70e4b79 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -466,6 +466,10 @@ if (d->options & XRTM_OPTION_SOURCE_SOLAR) {
                                         ltau[i-1] * as_0_l[i-1][j]) * atran[i-1];
                }
           }
+
+          /* the parameters of the next layer depend on those of this one */
+          if (i == i_level2 && i < d->n_layers)
+               dep_flags[i] |= deps;
      }
 }
 }
-- 
2.43.0


From 49f48bdd59ba571a71f1d4e6bfe7482819098d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 007/115] fix: boundary input did not depend on linearized
 isotropic input, surface emission and user angles

---
 src/xrtm_model.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 70e4b79..026875d 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4165,7 +4165,8 @@ if (d->derivs.layers[d->n_layers][i]) {
 static int diff_bound_input_deps(xrtm_data *d) {
 
      return opt_props_deps(d) | beam_params_deps(d) |
-            DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_BOT | DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
+            DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_BOT | DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L |
+            DEP_MASK_F_ISO_TOP_L | DEP_MASK_F_ISO_BOT_L | DEP_MASK_SURFACE_B | DEP_MASK_SURFACE_B_L | DEP_MASK_UMUS;
 }
 
 
-- 
2.43.0


From 881f1bb3157353d02270140b1dd5bd93276b6cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 008/115] fix: saved layer R, T, S did not depend on the
 doubling thickness and level emission

---
 src/xrtm_model.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 026875d..eb40cdd 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2100,6 +2100,12 @@ static int layer_R_T_S_U_W_V_deps(xrtm_data *d) {
      if (d->solvers & XRTM_SOLVER_PADE_ADD)
           deps |= DEP_MASK_PADE_PARAMS;
 
+     if (d->solvers & XRTM_SOLVER_DOUB_ADD)
+          deps |= DEP_MASK_DOUB_D_TAU;
+
+     if (d->options & XRTM_OPTION_SOURCE_THERMAL)
+          deps |= DEP_MASK_LEVELS_B | DEP_MASK_LEVELS_B_L;
+
      return deps;
 }
 
-- 
2.43.0


From ba658b51aab6483c37e67cd46322c83b6e795d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 009/115] fix: coefficients beyond the number given for a layer
 were read uninitialized, stale or out of bounds

---
 src/xrtm_interface.c | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index ee7a45d..444238a 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -1018,6 +1018,10 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
      if (d->n_coef <= two_n_quad) {
           d->n_four  = d->n_coef;
           d->n_coef2 = d->n_coef;
+
+          /* These solvers always use 2 * n_quad coefficients. */
+          if (d->solvers & (XRTM_SOLVER_TWO_STREAM | XRTM_SOLVER_FOUR_STREAM | XRTM_SOLVER_SIX_STREAM))
+               d->n_coef2 = two_n_quad;
      }
      else {
           d->n_four  = two_n_quad;
@@ -1253,7 +1257,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
           d->n_coef_layer  = ALLOC_ARRAY1_I(d->n_layers);
           d->n_coef_layer2 = ALLOC_ARRAY1_I(d->n_layers);
 
-          d->coef = ALLOC_ARRAY3_D(d->n_layers, d->n_elem, d->n_coef);
+          d->coef = ALLOC_ARRAY3_D(d->n_layers, d->n_elem, MAX(d->n_coef, d->n_coef2));
      }
 
      if (! (d->options & XRTM_OPTION_DELTA_M)) {
@@ -1269,7 +1273,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
           if (d->solvers & XRTM_SOLVERS_USE_G)
                d->g0    = ALLOC_ARRAY1_D(d->n_layers);
           if (d->solvers & XRTM_SOLVERS_USE_COEF)
-               d->coef0 = ALLOC_ARRAY3_D(d->n_layers, d->n_elem, d->n_coef);
+               d->coef0 = ALLOC_ARRAY3_D(d->n_layers, d->n_elem, MAX(d->n_coef, d->n_coef2));
      }
 
      if (d->n_kernels > 0) {
@@ -1301,7 +1305,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
           if (d->solvers & XRTM_SOLVERS_USE_G)
                d->g_l    = ALLOC_ARRAY2_D(d->n_layers, d->n_derivs);
           if (d->solvers & XRTM_SOLVERS_USE_COEF)
-               d->coef_l = ALLOC_ARRAY4_D(d->n_layers, d->n_derivs, d->n_elem, d->n_coef);
+               d->coef_l = ALLOC_ARRAY4_D(d->n_layers, d->n_derivs, d->n_elem, MAX(d->n_coef, d->n_coef2));
 
           if (! (d->options & XRTM_OPTION_DELTA_M)) {
                d->g0_l     = d->g_l;
@@ -1316,7 +1320,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
                if (d->solvers & XRTM_SOLVERS_USE_G)
                     d->g0_l    = ALLOC_ARRAY2_D(d->n_layers, d->n_derivs);
                if (d->solvers & XRTM_SOLVERS_USE_COEF)
-                    d->coef0_l = ALLOC_ARRAY4_D(d->n_layers, d->n_derivs, d->n_elem, d->n_coef);
+                    d->coef0_l = ALLOC_ARRAY4_D(d->n_layers, d->n_derivs, d->n_elem, MAX(d->n_coef, d->n_coef2));
           }
      }
 
@@ -1337,7 +1341,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
           if (d->solvers & XRTM_SOLVERS_USE_G)
                d->g_a    = ALLOC_ARRAY1_D(d->n_layers);
           if (d->solvers & XRTM_SOLVERS_USE_COEF)
-               d->coef_a = ALLOC_ARRAY3_D(d->n_layers, d->n_elem, d->n_coef);
+               d->coef_a = ALLOC_ARRAY3_D(d->n_layers, d->n_elem, MAX(d->n_coef, d->n_coef2));
 
           if (! (d->options & XRTM_OPTION_DELTA_M)) {
                d->g0_a     = d->g_a;
@@ -1352,7 +1356,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
                if (d->solvers & XRTM_SOLVERS_USE_G)
                     d->g0_a    = ALLOC_ARRAY1_D(d->n_layers);
                if (d->solvers & XRTM_SOLVERS_USE_COEF)
-                    d->coef0_a = ALLOC_ARRAY3_D(d->n_layers, d->n_elem, d->n_coef);
+                    d->coef0_a = ALLOC_ARRAY3_D(d->n_layers, d->n_elem, MAX(d->n_coef, d->n_coef2));
           }
      }
 
@@ -1788,6 +1792,11 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
      if (d->solvers & XRTM_SOLVERS_USE_COEF) {
           init_array1_i(d->n_coef_layer,  d->n_layers, d->n_coef);
           init_array1_i(d->n_coef_layer2, d->n_layers, d->n_coef2);
+
+          init_array3_d(d->coef, d->n_layers, d->n_elem, MAX(d->n_coef, d->n_coef2), 0.);
+
+          if (d->options & XRTM_OPTION_DELTA_M)
+               init_array3_d(d->coef0, d->n_layers, d->n_elem, MAX(d->n_coef, d->n_coef2), 0.);
      }
 
 
@@ -1807,14 +1816,14 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
           init_array2_d(d->omega_l, d->n_layers, d->n_derivs, 0.);
 
           if (d->solvers & XRTM_SOLVERS_USE_COEF)
-               init_array4_d(d->coef_l, d->n_layers, d->n_derivs, d->n_elem, d->n_coef, 0.);
+               init_array4_d(d->coef_l, d->n_layers, d->n_derivs, d->n_elem, MAX(d->n_coef, d->n_coef2), 0.);
 
           if (d->options & XRTM_OPTION_DELTA_M) {
                init_array2_d(d->ltau0_l, d->n_layers, d->n_derivs, 0.);
                init_array2_d(d->omega0_l, d->n_layers, d->n_derivs, 0.);
 
                if (d->solvers & XRTM_SOLVERS_USE_COEF)
-                    init_array4_d(d->coef0_l, d->n_layers, d->n_derivs, d->n_elem, d->n_coef, 0.);
+                    init_array4_d(d->coef0_l, d->n_layers, d->n_derivs, d->n_elem, MAX(d->n_coef, d->n_coef2), 0.);
           }
 
           if (d->n_kernels > 0) {
@@ -4025,6 +4034,7 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
      int ii;
      int j;
      int k;
+     int l;
 
      int deps;
 
@@ -4070,6 +4080,13 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
                for (k = 0; k < d->n_coef_layer[i]; ++k) {
                     d->coef0[i][j][k] = coef[ii][j][k];
                }
+               for ( ; k < MAX(d->n_coef, d->n_coef2); ++k) {
+                    d->coef0[i][j][k] = 0.;
+                    if (d->options & XRTM_OPTION_CALC_DERIVS) {
+                         for (l = 0; l < d->n_derivs; ++l)
+                              d->coef0_l[i][l][j][k] = 0.;
+                    }
+               }
           }
 
           if (d->inputs_initialized)
-- 
2.43.0


From 58b4f9ed5de03675e96ef0768558ff46b5e2e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 010/115] fix: saved layer S of the layers below a changed
 layer was not updated with pseudo-spherical attenuation

---
 src/xrtm_interface.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 444238a..3f7673e 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -445,6 +445,13 @@ static void set_deps(xrtm_data *d, int dep, int i_layer, int n_layers) {
      for (i = 0; i < d->n_four; ++i) {
           d->dep_flags_total_R_T_S_U_W_V[i] |= dep;
 
+          /* In a pseudo-spherical atmosphere the attenuation of the beam in a
+             layer depends on the optical thickness of the layers above. */
+          if (d->options & XRTM_OPTION_PSA && dep & (DEP_MASK_LTAU | DEP_MASK_LTAU_L)) {
+               for (j = n_layers; j < d->n_layers; ++j)
+                    d->dep_flags_layer_R_T_S_U_W_V[i][j] |= dep;
+          }
+
           for (j = i_layer; j < n_layers; ++j) {
                d->dep_flags_phase_mats_qq    [i][j] |= dep;
                d->dep_flags_phase_mats_uq    [i][j] |= dep;
-- 
2.43.0


From 0a6c9809f4d431a900e5d9e2306ef8132f8b6580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 011/115] fix: saved linearized results were reused after the
 varied layers changed

---
 src/xrtm_interface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 3f7673e..a0b7e39 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5392,6 +5392,12 @@ int xrtm_update_varied_layers(xrtm_data *d) {
      }
 
 
+     /*-------------------------------------------------------------------------
+      * What is saved follows the layers varied so far.
+      *-----------------------------------------------------------------------*/
+     set_deps(d, DEP_MASK_COEF_L | DEP_MASK_OMEGA_L | DEP_MASK_LTAU_L, 0, d->n_layers);
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-- 
2.43.0


From ee4f4d96a7586b26848eafc6ff81c213c9a43d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 012/115] fix: a failed solution left partial results marked as
 saved and the derivative options of the adjoint solution changed

---
 src/xrtm_interface.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index a0b7e39..5f7b40d 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5726,6 +5726,7 @@ int xrtm_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int
 
      if (get_solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, d->save_tree, d->work)) {
           fprintf(stderr, "ERROR: get_solution()\n");
+          xrtm_clear_saved(d);
           return XRTM_INT_ERROR;
      }
 
@@ -5890,6 +5891,9 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
 
      if (get_solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, NULL, NULL, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, flux_div, NULL, d->save_tree, work2)) {
           fprintf(stderr, "ERROR: get_solution2()\n");
+          d->options  = options;
+          d->n_derivs = n_derivs;
+          xrtm_clear_saved(d);
           return -1;
      }
 
-- 
2.43.0


From c6d387f28f7ceba4a43dcd8954cf29520572c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 013/115] fix: saved layer and total R, T, S of one adding
 solver were reused by another

---
 src/xrtm_interface.c |  2 ++
 src/xrtm_interface.h |  2 ++
 src/xrtm_model.c     | 14 ++++++++++++++
 3 files changed, 18 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 5f7b40d..ca6f7de 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -1792,6 +1792,8 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
      d->order_0 = -1;
      d->order_u = -1;
 
+     d->saved_solver = 0;
+
 
      /*-------------------------------------------------------------------------
       *
diff --git a/src/xrtm_interface.h b/src/xrtm_interface.h
index 24f59f2..da944a6 100644
--- a/src/xrtm_interface.h
+++ b/src/xrtm_interface.h
@@ -278,6 +278,8 @@ typedef struct {
      int *dep_flags_diff_bound_input;
      int *dep_flags_total_R_T_S_U_W_V;
 
+     int saved_solver;
+
      int **dep_flags_phase_mats_qq;
      int **dep_flags_phase_mats_uq;
      int **dep_flags_phase_vecs_q0;
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index eb40cdd..dd6e23f 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6406,6 +6406,20 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
  ******************************************************************************/
 int get_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_phis, double **phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l, save_tree_data save_tree, work_data work) {
 
+     int i;
+     int j;
+
+     /* The adding solvers share the saved layer and total R, T, and S. */
+     if (solver & XRTM_SOLVERS_ADDING && (int) solver != d->saved_solver) {
+          for (i = 0; i < d->n_four; ++i) {
+               d->dep_flags_total_R_T_S_U_W_V[i] |= DEP_MASK_MASK;
+               for (j = 0; j < d->n_layers; ++j)
+                    d->dep_flags_layer_R_T_S_U_W_V[i][j] |= DEP_MASK_MASK;
+          }
+
+          d->saved_solver = solver;
+     }
+
      if (solver & XRTM_SOLVERS_INTERNAL) {
           if (get_solution_internal(d, solver, solutions, n_phis, phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, save_tree, work)) {
                fprintf(stderr, "ERROR: get_radiance_internal()\n");
-- 
2.43.0


From 007895e7495f0f0bf82e8beacae589fbcbc0c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 014/115] fix: solutions after a change of the output angles
 used mu_0 adjusted for the previous ones

---
 src/xrtm_interface.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index ca6f7de..b8250d8 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2673,8 +2673,9 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
      int count;
 
      double a;
+     double mu_0;
 
-     d->mu_0 = d->mu_0_0;
+     mu_0 = d->mu_0_0;
 
      n = d->set_flags_umus ? d->n_quad + d->n_umus : d->n_quad;
 
@@ -2683,7 +2684,7 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
           a = fabs(singularity_adjust_auto(d->qx[i], d->mu_0_0,
                    d->misc_input.threshold_mu_0_singlarity));
           if (a != d->mu_0_0) {
-               d->mu_0 = a;
+               mu_0 = a;
                count++;
           }
           if (count > 1) {
@@ -2692,8 +2693,10 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
           }
      }
 
-     if (count > 0)
+     if (mu_0 != d->mu_0) {
+          d->mu_0 = mu_0;
           set_deps(d, DEP_MASK_MU_0, 0, d->n_layers);
+     }
 
      return 0;
 }
-- 
2.43.0


From 9c52a222ec245972c69bd31e31e15997f1ec6323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 015/115] fix: rejected solar or output angles were kept

---
 src/xrtm_interface.c | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index b8250d8..aba1684 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2703,6 +2703,33 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
 
 
 
+/* Would mu_0_singularity_adjust() succeed with these output angles? */
+static int mu_0_singularity_check(xrtm_data *d, int n_umus, double *out_thetas) {
+
+     int i;
+
+     int count;
+
+     double mu;
+
+     count = 0;
+     for (i = 0; i < d->n_quad + n_umus; ++i) {
+          mu = i < d->n_quad ? d->qx[i] : cos(out_thetas[i - d->n_quad]*D2R);
+          if (fabs(singularity_adjust_auto(mu, d->mu_0_0,
+                   d->misc_input.threshold_mu_0_singlarity)) != d->mu_0_0)
+               count++;
+     }
+
+     if (count > 1) {
+          fprintf(stderr, "ERROR: mu_0 singularity adjustment conflict\n");
+          return -1;
+     }
+
+     return 0;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -3309,6 +3336,13 @@ int xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) {
           }
      }
 
+     if (d->set_flags_mu_0) {
+          if (mu_0_singularity_check(d, d->n_umus, out_thetas)) {
+               fprintf(stderr, "ERROR: mu_0_singularity_check()\n");
+               return XRTM_INT_ERROR;
+          }
+     }
+
      ii = d->n_quad;
      for (i = 0; i < d->n_umus; ++i) {
           d->qx[ii] = cos(out_thetas[i]*D2R);
@@ -3568,6 +3602,8 @@ double xrtm_get_F_0(xrtm_data *d) {
  ******************************************************************************/
 int xrtm_set_theta_0(xrtm_data *d, double theta_0) {
 
+     double mu_0_0;
+
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
           fprintf(stderr, "ERROR: model not initialized for solar sources\n");
           return XRTM_INT_ERROR;
@@ -3579,15 +3615,18 @@ int xrtm_set_theta_0(xrtm_data *d, double theta_0) {
           return XRTM_INT_ERROR;
      }
 
-     d->mu_0_0 = cos(theta_0*D2R);
+     mu_0_0 = d->mu_0_0;
 
-     update_n_four2(d, 1, d->set_flags_umus);
+     d->mu_0_0 = cos(theta_0*D2R);
 
      if (mu_0_singularity_adjust(d)) {
           fprintf(stderr, "ERROR: mu_0_singularity_adjust()\n");
+          d->mu_0_0 = mu_0_0;
           return XRTM_INT_ERROR;
      }
 
+     update_n_four2(d, 1, d->set_flags_umus);
+
      if (d->solvers & XRTM_SOLVERS_INTERNAL && d->n_kernels > 0)
           brdf_aux_calc_mu_0(&d->kernel_aux, d->n_quad + d->n_umus, d->mu_0, d->n_kernel_quad, d->kernel_qx);
 
-- 
2.43.0


From 2c4362dbc5c22dff5b562ec1f673491ab26f7343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 016/115] fix: saved layer S did not depend on F_0

---
 src/xrtm_model.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index dd6e23f..4ae8700 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2103,6 +2103,9 @@ static int layer_R_T_S_U_W_V_deps(xrtm_data *d) {
      if (d->solvers & XRTM_SOLVER_DOUB_ADD)
           deps |= DEP_MASK_DOUB_D_TAU;
 
+     if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+          deps |= DEP_MASK_F_0;
+
      if (d->options & XRTM_OPTION_SOURCE_THERMAL)
           deps |= DEP_MASK_LEVELS_B | DEP_MASK_LEVELS_B_L;
 
-- 
2.43.0


From e5804e267851e6e33ec2d1597d7942e0e0f1e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:56 +0000
Subject: [PATCH 017/115] fix: kernel functions without a linearization left
 the kernel derivatives uninitialized

---
 src/xrtm_brdf.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/xrtm_brdf.c b/src/xrtm_brdf.c
index 6e5fe1d..71a0211 100644
--- a/src/xrtm_brdf.c
+++ b/src/xrtm_brdf.c
@@ -742,6 +742,16 @@ static double call_aux_func(brdf_aux_data *aux, kernel_aux_data *aux2, int kerne
  ******************************************************************************/
 static double call_kernel_func(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_geometry brdf_geom, int kernel, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, brdf_kernel_func_data *func, double *f_l) {
 
+     int ii;
+
+     if (flags_or(derivs, n_derivs)) {
+          for (ii = 0; ii < n_derivs; ++ii) {
+               if (derivs[ii]) {
+                    f_l[ii] = 0.;
+               }
+          }
+     }
+
      switch(kernel) {
           case XRTM_KERNEL_LAMBERTIAN:
                return lambertian_kernel(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, f_l);
-- 
2.43.0


From 6ba765d438c71c0054a919ee2c0645e539685db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 018/115] fix: negative real eigenvalue taken as one of a
 complex pair, writing out of bounds

---
 src/xrtm_eig_util.c   | 4 ++--
 src/xrtm_eig_util_a.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_eig_util.c b/src/xrtm_eig_util.c
index 3d05951..75a2459 100644
--- a/src/xrtm_eig_util.c
+++ b/src/xrtm_eig_util.c
@@ -814,7 +814,7 @@ void eig_1n_to_2n_complex(int n_quad, int n_derivs,
       *
       *-----------------------------------------------------------------------*/
      for (i = 0; i < n_quad; ++i) {
-          if (cimag(nu[i]) == 0.) {
+          if (evals_i[i] == 0.) {
                for (j = 0; j < n_quad; ++j)
                     vr1[j] = evecs[j][i];
 
@@ -865,7 +865,7 @@ else {
           }
 
           else
-          if (cimag(nu[i]) > 0.) {
+          if (evals_i[i] > 0.) {
                for (j = 0; j < n_quad; ++j) {
                     vr1[j] = evecs[j][i    ];
                     vr2[j] = evecs[j][i + 1];
diff --git a/src/xrtm_eig_util_a.c b/src/xrtm_eig_util_a.c
index 2ce0996..12f29b3 100644
--- a/src/xrtm_eig_util_a.c
+++ b/src/xrtm_eig_util_a.c
@@ -456,7 +456,7 @@ void eig_1n_to_2n_complex_a(int n_quad,
       *
       *-----------------------------------------------------------------------*/
      for (i = 0; i < n_quad; ++i) {
-          if (cimag(nu[i]) == 0.) {
+          if (evals_i[i] == 0.) {
                for (j = 0; j < n_quad; ++j) {
                    evecs_a[j][i] += .5 * creal(X_p_a[j][i] + X_m_a[j][i]);
                    d_a    [j]     = .5 * creal(X_p_a[j][i] - X_m_a[j][i]);
@@ -481,7 +481,7 @@ void eig_1n_to_2n_complex_a(int n_quad,
           }
 
           else
-          if (cimag(nu[i]) > 0.) {
+          if (evals_i[i] > 0.) {
                for (j = 0; j < n_quad; ++j) {
                    vc1_a[j] = .5 * (X_p_a[j][i    ] + X_m_a[j][i    ]);
                    vc3_a[j] = .5 * (X_p_a[j][i    ] - X_m_a[j][i    ]);
-- 
2.43.0


From 7b188ab128f791ac29df32af79e484247189f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:03 +0000
Subject: [PATCH 019/115] fix: rejected out_taus and coef were partly kept

---
 src/xrtm_interface.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index aba1684..8ee1109 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3282,9 +3282,11 @@ int xrtm_set_out_taus(xrtm_data *d, double *out_taus) {
                return XRTM_INT_ERROR;
           }
 
-          d->utaus[i] = out_taus[i];
      }
 
+     for (i = 0; i < d->n_ulevels; ++i)
+          d->utaus[i] = out_taus[i];
+
      d->set_flags_utaus = 1;
 
      set_deps(d, DEP_MASK_UTAUS, 0, d->n_layers);
@@ -4110,6 +4112,15 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
           }
      }
 
+     for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
+          if ((n_coef_layer ? n_coef_layer[ii] : d->n_coef) > 1) {
+               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
+                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
+                    return -1;
+               }
+          }
+     }
+
      for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
           if (! n_coef_layer) {
                d->n_coef_layer [i] = d->n_coef;
@@ -4120,13 +4131,6 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
                d->n_coef_layer2[i] = MIN(n_coef_layer[ii], d->n_coef2);
           }
 
-          if (d->n_coef_layer[i] > 1) {
-               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
-                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
-                    return -1;
-               }
-          }
-
           for (j = 0; j < d->n_elem; ++j) {
                for (k = 0; k < d->n_coef_layer[i]; ++k) {
                     d->coef0[i][j][k] = coef[ii][j][k];
-- 
2.43.0


From 9bc00dcff2219dbb7dc7147c127fb03b7b05fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:06 +0000
Subject: [PATCH 020/115] fix: xrtm_get_lambda() gave an uninitialized value
 when lambda was not set

---
 src/xrtm_interface.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 8ee1109..c362587 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3077,7 +3077,10 @@ double xrtm_get_lambda(xrtm_data *d) {
           return XRTM_DBL_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_lambda, xrtm_input_index_to_name(INPUT_LAMBDA), XRTM_DBL_ERROR);
+     if (! d->set_flags_lambda) {
+          fprintf(stderr, "ERROR: can't get %s until it is set\n", xrtm_input_index_to_name(INPUT_LAMBDA));
+          return XRTM_DBL_ERROR;
+     }
 
      return d->lambda;
 }
-- 
2.43.0


From c38ecad98fe7fe22ef8ded58e4c070296f5a6355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:10 +0000
Subject: [PATCH 021/115] fix: failures returned -1 instead of XRTM_INT_ERROR

---
 src/xrtm_interface.c | 58 ++++++++++++++++++++++----------------------
 src/xrtm_support.h   |  4 +--
 2 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index c362587..3e29d0f 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -335,7 +335,7 @@ int check_solvers(int solvers, int not_, int report, const char *type, const cha
                     else
                          fprintf(stderr, "ERROR: solver \"%s\" does not support %s \"%s\"\n", xrtm_solver_mask_to_name((enum xrtm_solver_mask) solver), type, option);
                }
-               return -1;
+               return XRTM_INT_ERROR;
           }
      }
 
@@ -694,7 +694,7 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
 
      if (options & XRTM_OPTION_QUAD_LOBATTO) {
           if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_QUAD_LOBATTO), XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_EIG_BVP, XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_MEM_BVP, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SINGLE, XRTM_SOLVER_SIX_STREAM, XRTM_SOLVER_SOS, XRTM_SOLVER_TWO_OS, XRTM_SOLVER_TWO_STREAM, 0))
-               return -1;
+               return XRTM_INT_ERROR;
      }
 
      if (options & XRTM_OPTION_SFI) {
@@ -2620,13 +2620,13 @@ static int check_inputs_post_checks(xrtm_data *d) {
 
           if (d->utaus[0] < 0. || d->utaus[0] > a) {
                fprintf(stderr, "ERROR: invalid value for utaus[%d]: %e, must be >= zero and <= total optical depth of all layers\n", 0, d->utaus[0]);
-               return -1;
+               return XRTM_INT_ERROR;
           }
 
           for (i = 1; i < d->n_ulevels; ++i) {
                if (d->utaus[i] <= d->utaus[i-1] || d->utaus[i] > a) {
                     fprintf(stderr, "ERROR: invalid value for utaus[%d]: %e, must be > utaus[%d] and <= total optical depth of all layers\n", i, d->utaus[i], i - 1);
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
           }
      }
@@ -2641,19 +2641,19 @@ static int solution_preprocess(xrtm_data *d) {
      if (d->inputs_initialized) {
           if (check_inputs_initialized(d)) {
                fprintf(stderr, "ERROR: check_inputs_initialized()\n");
-               return -1;
+               return XRTM_INT_ERROR;
           }
      }
 
      if (check_inputs_post_checks(d)) {
           fprintf(stderr, "ERROR: check_inputs_post_checks()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
           if (d->varied_layers_updated) {
                fprintf(stderr, "ERROR: xrtm_update_varied_layers() has not been called\n");
-               return -1;
+               return XRTM_INT_ERROR;
           }
      }
 
@@ -2689,7 +2689,7 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
           }
           if (count > 1) {
                fprintf(stderr, "ERROR: mu_0 singularity adjustment conflict\n");
-               return -1;
+               return XRTM_INT_ERROR;
           }
      }
 
@@ -2722,7 +2722,7 @@ static int mu_0_singularity_check(xrtm_data *d, int n_umus, double *out_thetas)
 
      if (count > 1) {
           fprintf(stderr, "ERROR: mu_0 singularity adjustment conflict\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -3920,7 +3920,7 @@ static int xrtm_set_g_x(xrtm_data *d, double *g,
 
      if (! (d->solvers & XRTM_SOLVERS_USE_G)) {
           fprintf(stderr, "ERROR: no two-stream solvers have been specified\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
@@ -3928,14 +3928,14 @@ static int xrtm_set_g_x(xrtm_data *d, double *g,
      for (i = i_layer; i < n_layers; ++i) {
           if (g[i - i_layer] < -1. || g[i - i_layer] > 1.) {
                fprintf(stderr, "ERROR: invalid value for g[%d]: %e, must be >= -one and <= one\n", i, g[i - i_layer]);
-               return -1;
+               return XRTM_INT_ERROR;
           }
      }
 
      if (xrtm_set_layer_x(d, d->g0, g,
                           i_layer, n_layers, d->set_flags_g)) {
           fprintf(stderr, "ERROR: xrtm_set_layer_x()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      deps = DEP_MASK_G;
@@ -3996,7 +3996,7 @@ static int xrtm_set_g_x_l(xrtm_data *d, void *g_l, int i_layer,
 
      if (! (d->solvers & XRTM_SOLVERS_USE_G)) {
           fprintf(stderr, "ERROR: no two-stream solvers have been specified\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
@@ -4005,7 +4005,7 @@ static int xrtm_set_g_x_l(xrtm_data *d, void *g_l, int i_layer,
      if (xrtm_set_layer_x_l(d, d->g0_l, g_l,
                             i_layer, n_layers, i_deriv, n_derivs, type)) {
           fprintf(stderr, "ERROR: xrtm_set_layer_x_l()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      deps = DEP_MASK_G_L;
@@ -4096,7 +4096,7 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
 
      if (! (d->solvers & XRTM_SOLVERS_USE_COEF)) {
           fprintf(stderr, "ERROR: no multi-stream solvers have been specified\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
@@ -4105,12 +4105,12 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
           for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
                if (n_coef_layer[ii] < 0) {
                     fprintf(stderr, "ERROR: n_coef for layer %d must be >= 0\n", i_layer);
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (n_coef_layer[ii] > d->n_coef) {
                     fprintf(stderr, "ERROR: n_coef for layer %d > max # of coefs for which model was initiaized (%d > %d)\n", i_layer, n_coef_layer[ii], d->n_coef);
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
           }
      }
@@ -4119,7 +4119,7 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
           if ((n_coef_layer ? n_coef_layer[ii] : d->n_coef) > 1) {
                if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
                     fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
           }
      }
@@ -4254,7 +4254,7 @@ static int xrtm_set_coef_x_l(xrtm_data *d, void *coef_l, int i_layer, int n_laye
 
      if (! (d->solvers & XRTM_SOLVERS_USE_COEF)) {
           fprintf(stderr, "ERROR: no multi-stream solvers have been specified\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
@@ -4385,14 +4385,14 @@ static int xrtm_set_omega_x(xrtm_data *d, double *omega,
      for (i = i_layer; i < n_layers; ++i) {
           if (omega[i - i_layer] < 0. || omega[i - i_layer] > 1.) {
                fprintf(stderr, "ERROR: invalid value for omega[%d]: %e, must be >= zero and <= one\n", i, omega[i - i_layer]);
-               return -1;
+               return XRTM_INT_ERROR;
           }
      }
 
      if (xrtm_set_layer_x(d, d->omega0, omega,
                           i_layer, n_layers, d->set_flags_omega)) {
           fprintf(stderr, "ERROR: xrtm_set_layer_x()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      for (i = i_layer; i < n_layers; ++i)
@@ -4465,7 +4465,7 @@ static int xrtm_set_omega_x_l(xrtm_data *d, void *omega_l, int i_layer,
      if (xrtm_set_layer_x_l(d, d->omega0_l, omega_l,
                             i_layer, n_layers, i_deriv, n_derivs, type)) {
           fprintf(stderr, "ERROR: xrtm_set_layer_x_l()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      deps = DEP_MASK_OMEGA_L;
@@ -4551,14 +4551,14 @@ static int xrtm_set_ltau_x(xrtm_data *d, double *ltau,
      for (i = i_layer; i < n_layers; ++i) {
           if (ltau[i - i_layer] <= 0.) {
                fprintf(stderr, "ERROR: invalid value for ltau[%d]: %e, must be > zero\n", i, ltau[i - i_layer]);
-               return -1;
+               return XRTM_INT_ERROR;
           }
      }
 
      if (xrtm_set_layer_x(d, d->ltau0, ltau,
                           i_layer, n_layers, d->set_flags_ltau)) {
           fprintf(stderr, "ERROR: xrtm_set_layer_x()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      set_deps(d, DEP_MASK_LTAU, i_layer, n_layers);
@@ -4614,7 +4614,7 @@ static int xrtm_set_ltau_x_l(xrtm_data *d, void *ltau_l, int i_layer,
      if (xrtm_set_layer_x_l(d, d->ltau0_l, ltau_l,
                             i_layer, n_layers, i_deriv, n_derivs, type)) {
           fprintf(stderr, "ERROR: xrtm_set_layer_x_l()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      set_deps(d, DEP_MASK_LTAU_L, i_layer, n_layers);
@@ -5897,7 +5897,7 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
      if (solver & XRTM_SOLVERS_EXT_EXTERNAL) {
           if (get_solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, d->save_tree, work2)) {
                fprintf(stderr, "ERROR: get_solution()\n");
-               return -1;
+               return XRTM_INT_ERROR;
           }
 
           return 0;
@@ -5909,12 +5909,12 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
       *-----------------------------------------------------------------------*/
      if (! (d->options & XRTM_OPTION_CALC_DERIVS)) {
           fprintf(stderr, "ERROR: xrtm_solution() requires option \"%s\"\n", xrtm_option_mask_to_name(XRTM_OPTION_CALC_DERIVS));
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      if (! (d->options & XRTM_OPTION_REVERSE_DERIVS)) {
           fprintf(stderr, "ERROR: xrtm_solution() requires option \"%s\"\n", xrtm_option_mask_to_name(XRTM_OPTION_REVERSE_DERIVS));
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
 
@@ -5945,7 +5945,7 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
           d->options  = options;
           d->n_derivs = n_derivs;
           xrtm_clear_saved(d);
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      d->options  = options;
diff --git a/src/xrtm_support.h b/src/xrtm_support.h
index 3eaf101..baf9e13 100644
--- a/src/xrtm_support.h
+++ b/src/xrtm_support.h
@@ -169,7 +169,7 @@ extern "C" {
      if (! (d->options & XRTM_OPTION_CALC_DERIVS)) {				\
           fprintf(stderr, "ERROR: can't set linearized inputs when model is "		\
                   "not initialized to evaluate derivatives\n");			\
-          return -1;								\
+          return XRTM_INT_ERROR;								\
      }										\
 } while (0)
 
@@ -191,7 +191,7 @@ extern "C" {
 #define SOLUTION_PREPROCESS()  do {						\
      if (solution_preprocess(d)) {						\
           fprintf(stderr, "ERROR: solution_preprocess()\n");				\
-          return -1;								\
+          return XRTM_INT_ERROR;								\
      }										\
 } while (0)
 
-- 
2.43.0


From 771ec8c6121c46b093cd84a329a624ad4578653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:29 +0000
Subject: [PATCH 022/115] fix: the flags of kernel functions set were not freed
 when tracking of inputs ends

---
 src/xrtm_interface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 3e29d0f..8f0b884 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2596,6 +2596,7 @@ static int check_inputs_initialized(xrtm_data *d) {
      if (d->n_kernels > 0) {
           free_array1_uc(d->set_flags_kernel_ampfac);
           free_array2_uc(d->set_flags_kernel_params);
+          free_array1_uc(d->set_flags_kernel_func);
      }
 
      d->inputs_initialized = 0;
-- 
2.43.0


From 6b19c5652d4f03f7b8a6cd01bd6fb3d9d8391e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:55 +0000
Subject: [PATCH 023/115] fix: a failed creation leaked what it had allocated,
 crashed or reported success when an allocation failed

---
 misc/gstruct_aatree.h |  4 +++-
 src/xrtm_interface.c  | 33 ++++++++++++++++++++++++++++-----
 src/xrtm_save_tree.c  | 15 ++++++++++++++-
 src/xrtm_utility.c    | 23 +++++++++++++++--------
 src/xrtm_work.c       |  3 +++
 5 files changed, 63 insertions(+), 15 deletions(-)

diff --git a/misc/gstruct_aatree.h b/misc/gstruct_aatree.h
index 0fdb7c5..32884e2 100644
--- a/misc/gstruct_aatree.h
+++ b/misc/gstruct_aatree.h
@@ -144,8 +144,10 @@ aatree *aatree_create(void) {
 
      tree = (aatree *) malloc(sizeof(aatree));
 
-     if (tree == NULL)
+     if (tree == NULL) {
           fprintf(stderr, "Memory allocation error: aatree_create()");
+          return NULL;
+     }
 
      tree->comp  = NULL;
      tree->free_ = NULL;
diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 8f0b884..f87a90d 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -778,8 +778,14 @@ xrtm_data *xrtm_create2(int options, int solvers, int max_coef, int n_quad, int
 
      d = (xrtm_data *) malloc(sizeof(xrtm_data));
 
+     if (! d) {
+          fprintf(stderr, "ERROR: memory allocation failed\n");
+          return NULL;
+     }
+
      if (xrtm_create(d, options, solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernels, n_kernel_quad, kernels, n_out_levels, n_out_thetas) == XRTM_INT_ERROR) {
           fprintf(stderr, "ERROR: xrtm_create()\n");
+          free(d);
           return NULL;
      }
 
@@ -805,7 +811,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     memset(d, 0xffffffff, sizeof(xrtm_data));
+     memset(d, 0, sizeof(xrtm_data));
 
 
      /*-------------------------------------------------------------------------
@@ -1049,6 +1055,8 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     d->inputs_initialized = 1;
+
      if ((r = setjmp(env)) == 0) {
 
 
@@ -1214,6 +1222,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
 
           if (brdf_aux_alloc(&d->kernel_aux, d->n_quad + d->n_umus, d->n_kernel_quad)) {
                fprintf(stderr, "ERROR: brdf_aux_alloc()\n");
+               xrtm_destroy(d);
                return XRTM_INT_ERROR;
           }
           brdf_aux_calc_base(&d->kernel_aux, d->n_quad, d->qx, d->n_kernel_quad, d->kernel_qx);
@@ -1410,8 +1419,14 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
           if (d->options & XRTM_OPTION_SOURCE_THERMAL)
                d->derivs.thermal_m   = flags_alloc2(d->n_layers + 1, d->n_derivs);
 
-          if (0) {
+          if (! (d->derivs.layers && d->derivs.total && d->derivs.stacks &&
+                  d->derivs.sources && d->derivs.adding_up && d->derivs.adding_down &&
+                  d->derivs.layers_m && d->derivs.total_m && d->derivs.stacks_m &&
+                  d->derivs.sources_m && d->derivs.adding_up_m && d->derivs.adding_down_m) ||
+              (d->options & XRTM_OPTION_SOURCE_SOLAR && ! (d->derivs.beam && d->derivs.beam_m)) ||
+              (d->options & XRTM_OPTION_SOURCE_THERMAL && ! (d->derivs.thermal && d->derivs.thermal_m))) {
                fprintf(stderr, "ERROR: flags_alloc2()\n");
+               xrtm_destroy(d);
                return XRTM_INT_ERROR;
           }
      }
@@ -1712,8 +1727,10 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
       *
       *-----------------------------------------------------------------------*/
      }
-     else if (r < 0)
+     else if (r < 0) {
+          xrtm_destroy(d);
           return XRTM_INT_ERROR;
+     }
 
 
      /*-------------------------------------------------------------------------
@@ -1726,6 +1743,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
 #endif
           if (work_init(&d->work, d->n_quad, d->n_quad_x, d->n_stokes, d->n_derivs, d->n_layers, d->n_umus)) {
                fprintf(stderr, "ERROR: work_init()\n");
+               xrtm_destroy(d);
                return XRTM_INT_ERROR;
           }
      }
@@ -1735,8 +1753,13 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
       *
       *-----------------------------------------------------------------------*/
      d->save_tree.t = NULL;
-     if (d->options & XRTM_OPTION_REVERSE_DERIVS)
-          save_tree_init(&d->save_tree);
+     if (d->options & XRTM_OPTION_REVERSE_DERIVS) {
+          if (save_tree_init(&d->save_tree)) {
+               fprintf(stderr, "ERROR: save_tree_init()\n");
+               xrtm_destroy(d);
+               return XRTM_INT_ERROR;
+          }
+     }
 
 
      /*-------------------------------------------------------------------------
diff --git a/src/xrtm_save_tree.c b/src/xrtm_save_tree.c
index 42c2ae3..e0cdec9 100644
--- a/src/xrtm_save_tree.c
+++ b/src/xrtm_save_tree.c
@@ -60,10 +60,22 @@ int save_tree_init(save_tree_data *d) {
 
      d->i = 0;
 
+     d->t = NULL;
+
      d->hash = (ulong *) malloc(128 * sizeof(ulong));
+     if (! d->hash) {
+          fprintf(stderr, "ERROR: memory allocation failed\n");
+          return -1;
+     }
+
      d->hash[0] = 5381;
 
      d->t = gaatree_create();
+     if (! d->t) {
+          fprintf(stderr, "ERROR: gaatree_create()\n");
+          return -1;
+     }
+
      gaatree_set_comp(d->t, (int (*)(const void *, const void *)) save_tree_comp);
      gaatree_set_free(d->t, (void (*)(void *)) save_node_free);
 
@@ -76,7 +88,8 @@ void save_tree_free(save_tree_data *d) {
 
      free(d->hash);
 
-     gaatree_free(d->t);
+     if (d->t)
+          gaatree_free(d->t);
 }
 
 
diff --git a/src/xrtm_utility.c b/src/xrtm_utility.c
index 5cd2e13..9b8a396 100644
--- a/src/xrtm_utility.c
+++ b/src/xrtm_utility.c
@@ -60,14 +60,13 @@ uchar *flags_alloc(int n) {
 
      uchar *a;
 
-     a = (uchar *) malloc(sizeof(flags_meta_data) +
-         n * sizeof(uchar)) + sizeof(flags_meta_data);
+     a = (uchar *) malloc(sizeof(flags_meta_data) + n * sizeof(uchar));
      if (a == NULL) {
           fprintf(stderr, "ERROR: memory allocation failed\n");
           return NULL;
      }
 
-     return a;
+     return a + sizeof(flags_meta_data);
 }
 
 
@@ -105,21 +104,26 @@ uchar **flags_alloc2(int m, int n) {
 
      uchar **a;
 
-     a = (uchar **)
-         ((uchar *) malloc(sizeof(flags_meta_data) +
-         m * sizeof(uchar *)) + sizeof(flags_meta_data));
-     if (a == NULL) {
+     uchar *b;
+
+     b = (uchar *) malloc(sizeof(flags_meta_data) + m * sizeof(uchar *));
+     if (b == NULL) {
           fprintf(stderr, "ERROR: memory allocation failed\n");
           return NULL;
      }
 
+     a = (uchar **) (b + sizeof(flags_meta_data));
+
      a[0] = (uchar *) malloc(m * (sizeof(flags_meta_data) +
-            n * sizeof(uchar))) + sizeof(flags_meta_data);
+            n * sizeof(uchar)));
      if (a[0] == NULL) {
           fprintf(stderr, "ERROR: memory allocation failed\n");
+          free(b);
           return NULL;
      }
 
+     a[0] += sizeof(flags_meta_data);
+
      for (i = 1; i < m; ++i)
           a[i] = a[0] + i * (sizeof(flags_meta_data) + n);
 
@@ -130,6 +134,9 @@ uchar **flags_alloc2(int m, int n) {
 
 void flags_free2(uchar **a) {
 
+     if (! a)
+          return;
+
      free((uchar *) a[0] - sizeof(flags_meta_data));
      free((uchar *) a    - sizeof(flags_meta_data));
 }
diff --git a/src/xrtm_work.c b/src/xrtm_work.c
index 2ce52be..9ae7d0f 100644
--- a/src/xrtm_work.c
+++ b/src/xrtm_work.c
@@ -110,6 +110,9 @@ void work_free(work_data *work) {
 
      w = work->w;
 
+     if (! w)
+          return;
+
      for (i = 0; i < WORK_MAX_PAGES; ++i) {
           if (w->n_bytes[i] > 0)
                free(w->pages[i]);
-- 
2.43.0


From 73de4ff6598626298ac95d7ea12d9340d99d921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 024/115] fix: mean radiance and flux without a solar source
 included an uninitialized direct beam

---
 src/xrtm_model.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 4ae8700..aee5f93 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6284,7 +6284,7 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
                          mean_p[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
                     if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         mean_m[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + d->F_0 * d->btran[jj] / (4. * PI);
+                         mean_m[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + (d->options & XRTM_OPTION_SOURCE_SOLAR ? d->F_0 * d->btran[jj] / (4. * PI) : 0.);
                }
           }
 
@@ -6299,7 +6299,7 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
                          flux_p[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
                     if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         flux_m[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + d->F_0 * d->mu_0 * d->btran[jj];
+                         flux_m[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + (d->options & XRTM_OPTION_SOURCE_SOLAR ? d->F_0 * d->mu_0 * d->btran[jj] : 0.);
                }
           }
 
-- 
2.43.0


From cd95c4a18b591d8d1d0d62bd9b600cabc195fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:18 +0000
Subject: [PATCH 025/115] fix: memory exhaustion in a solution or varied-layers
 update ended the process, crashed or leaked

---
 misc/gmath_matrix.h             |   2 +-
 misc/gmatrix.h                  |  15 +-
 src/prototypes/xrtm_utility_p.h |   2 +
 src/xrtm_adding.c               |   6 +
 src/xrtm_eig_bvp.c              |  25 +---
 src/xrtm_interface.c            |  66 ++++++++-
 src/xrtm_mem_bvp_x.c            |   4 +-
 src/xrtm_model.c                |   8 +-
 src/xrtm_sfi_x.c                |  14 +-
 src/xrtm_source.c               |  20 +--
 src/xrtm_stacks.c               | 119 ++++++++++++----
 src/xrtm_utility.c              |  14 ++
 src/xrtm_work.c                 | 239 +++++++++++++++++++++-----------
 src/xrtm_work.h                 |   4 +
 14 files changed, 352 insertions(+), 186 deletions(-)

diff --git a/misc/gmath_matrix.h b/misc/gmath_matrix.h
index 7b200e3..348fa75 100644
--- a/misc/gmath_matrix.h
+++ b/misc/gmath_matrix.h
@@ -76,7 +76,7 @@ void XCAT(prefix_, mat_potrf)(type_ **, int);							\
 void XCAT(prefix_, mat_potri)(type_ **, int);							\
 void XCAT(prefix_, mat_potrs)(type_ **, type_ **, int, int);					\
 void XCAT(prefix_, mat_getrf)(type_ **, int, int, int *);					\
-void XCAT(prefix_, mat_getri)(type_ **, int, int *);						\
+void XCAT(prefix_, mat_getri)(type_ **, int, int *, type_ *, int);				\
 void XCAT(prefix_, mat_getrs)(type_ **, type_ **, int, int, int *);				\
 void XCAT(prefix_, mat_getrs2)(char, type_ **, type_ **, int, int, int *);			\
 void XCAT(prefix_, mat_gttrf)(type_ *, type_ *, type_ *, type_ *, int, int *);			\
diff --git a/misc/gmatrix.h b/misc/gmatrix.h
index 4a9dde5..1d2a05f 100644
--- a/misc/gmatrix.h
+++ b/misc/gmatrix.h
@@ -990,28 +990,15 @@ void XCAT(prefix_, mat_getrf)(type_ **a, int m, int n, int *ipiv) {
 
 
 
-void XCAT(prefix_, mat_getri)(type_ **a, int n, int *ipiv) {
-
-     int lwork;
+void XCAT(prefix_, mat_getri)(type_ **a, int n, int *ipiv, type_ *twork, int lwork) {
 
      int info;
 
-     double size[2];
-
-     type_ *twork;
-
-     lwork = -1;
-     XCAT(prefix_, getri_)(&n, *a, &n, ipiv, (type_ *) size, &lwork, &info);
-
-     lwork = (int) size[0];
-     twork = (type_ *) malloc((size_t) size[0] * sizeof(type_));
      XCAT(prefix_, getri_)(&n, *a, &n, ipiv, twork, &lwork, &info);
      if (info) {
           fprintf(stderr, "ERROR: dgetri() info = %d\n", info);
           exit(1);
      }
-
-     free(twork);
 }
 
 
diff --git a/src/prototypes/xrtm_utility_p.h b/src/prototypes/xrtm_utility_p.h
index 61026de..f3eb264 100644
--- a/src/prototypes/xrtm_utility_p.h
+++ b/src/prototypes/xrtm_utility_p.h
@@ -1,6 +1,8 @@
 /* xrtm_utility.c */
 void calc_quad_and_umus(int n_quad, int n_umus, int n_stokes, int *n_quad_x_, int *n_quad_d_, int *n_quad_v, int *n_quad_v_x, int *n_quad_v_d, int *n_umus_v, int flag);
 uchar *flags_alloc(int n);
+size_t flags_mem_length(int n);
+uchar *flags_from_mem(void *v);
 void flags_free(uchar *a);
 void flags_init(uchar *a, int n, uchar x);
 void flags_copy(uchar *b, uchar *a, int n);
diff --git a/src/xrtm_adding.c b/src/xrtm_adding.c
index c99ea4c..c77b567 100644
--- a/src/xrtm_adding.c
+++ b/src/xrtm_adding.c
@@ -26,6 +26,12 @@ int layer_add_aux_alloc(layer_add_aux_data *d, int n) {
 
      d->i13 = alloc_array1_i(n);
      d->i31 = alloc_array1_i(n);
+
+     if (! (d->i13 && d->i31)) {
+          fprintf(stderr, "ERROR: alloc_array1_i(%d)\n", n);
+          return -1;
+     }
+
      d->P13 = alloc_array2_d(n, n);
      d->P31 = alloc_array2_d(n, n);
      d->A13 = alloc_array2_d(n, n);
diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 92aab4f..8e76cf4 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -336,8 +336,8 @@ double **atran2_l;
           Ft1_m = get_work2(&work, WORK_DX, WORK_LAYERS_V, NULL);
 
           if (utau_output || sfi) {
-               At_p = alloc_array3_d(n_layers, 2, n_quad_v_x);
-               At_m = alloc_array3_d(n_layers, 2, n_quad_v_x);
+               At_p = get_work_d3(&work, n_layers, 2, n_quad_v_x);
+               At_m = get_work_d3(&work, n_layers, 2, n_quad_v_x);
           }
 
           p_d_tau = get_work_d2(&work, n_layers, 2);
@@ -367,8 +367,8 @@ double **atran2_l;
                Ft1_m_l = get_work3(&work, WORK_DX, WORK_BOTH_V, derivs->thermal);
 
                if (utau_output || sfi) {
-                    At_p_l = alloc_array4_d(n_layers, n_derivs, 2, n_quad_v_x);
-                    At_m_l = alloc_array4_d(n_layers, n_derivs, 2, n_quad_v_x);
+                    At_p_l = get_work_d4(&work, n_layers, n_derivs, 2, n_quad_v_x);
+                    At_m_l = get_work_d4(&work, n_layers, n_derivs, 2, n_quad_v_x);
                }
 
                p_d_tau_l = get_work_d3(&work, n_layers, n_derivs, 2);
@@ -414,11 +414,11 @@ if (! greens) {
      atran2_l = atran_l;
 }
 else {
-     atran2 = alloc_array1_d(n_layers);
+     atran2 = get_work_d1(&work, n_layers);
      init_array1_d(atran2, n_layers, 1.);
 
      if (n_derivs > 0) {
-          atran2_l = alloc_array2_d(n_layers, n_derivs);
+          atran2_l = get_work_d2(&work, n_layers, n_derivs);
           init_array2_d(atran2_l, n_layers, n_derivs, 0.);
      }
 }
@@ -1021,17 +1021,4 @@ else {
                             eigen_solver_real, eigen_solver_complex,
                             derivs_layers, derivs_beam, save_tree, work);
 #endif
-     if (thermal) {
-          if (utau_output || sfi) {
-               free_array3_d(At_p);
-               free_array3_d(At_m);
-
-               if (flags_or2(derivs->thermal, n_layers, n_derivs)) {
-                    free_array4_d(At_p_l);
-                    free_array4_d(At_m_l);
-               }
-          }
-     }
-     if (greens)
-          free_array1_d(atran2);
 }
diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index f87a90d..4dba85b 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5563,10 +5563,15 @@ int xrtm_update_varied_layers(xrtm_data *d) {
                return XRTM_INT_ERROR;
           }
 
-          n_stacks = build_stack_chain(d->n_layers, d->n_derivs, d->derivs.layers, stack_chain);
+          if ((n_stacks = build_stack_chain(d->n_layers, d->n_derivs, d->derivs.layers, stack_chain)) < 0) {
+               fprintf(stderr, "ERROR: build_stack_chain()\n");
+               free_array1((void *) stack_chain);
+               return XRTM_INT_ERROR;
+          }
 
           if (stack_chain_alloc(d->n_four, d->n_quad_v_x, d->n_derivs, d->n_layers, d->n_stacks, d->stack_chain, n_stacks, stack_chain, d->derivs.layers, d->derivs.stacks, d->derivs.adding_down)) {
                fprintf(stderr, "ERROR: stack_chain_alloc()\n");
+               free_array1((void *) stack_chain);
                return XRTM_INT_ERROR;
           }
 
@@ -5753,6 +5758,28 @@ int xrtm_local_r_t_u_w
 /*******************************************************************************
  *
  ******************************************************************************/
+static int solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) {
+
+     int r;
+
+     jmp_buf env;
+
+     if (d->work.w)
+          d->work.w->env = &env;
+
+     if (setjmp(env) == 0)
+          r = get_solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, d->save_tree, d->work);
+     else
+          r = -1;
+
+     if (d->work.w)
+          d->work.w->env = NULL;
+
+     return r;
+}
+
+
+
 int xrtm_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) {
 
      if (! (solver & XRTM_SOLVERS_ALL)) {
@@ -5799,7 +5826,7 @@ int xrtm_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int
 #endif
      SOLUTION_PREPROCESS();
 
-     if (get_solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, d->save_tree, d->work)) {
+     if (solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l)) {
           fprintf(stderr, "ERROR: get_solution()\n");
           xrtm_clear_saved(d);
           return XRTM_INT_ERROR;
@@ -5877,7 +5904,7 @@ int xrtm_flux_divergence(xrtm_data *d, enum xrtm_solver_mask solver, double *flu
 /*******************************************************************************
  *
  ******************************************************************************/
-int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) {
+static int solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) {
 
      int i;
      int ii;
@@ -6102,6 +6129,39 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
 
 
 
+int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) {
+
+     int r;
+
+     int options;
+
+     int n_derivs;
+
+     jmp_buf env;
+
+     options  = d->options;
+     n_derivs = d->n_derivs;
+
+     if (d->work.w)
+          d->work.w->env = &env;
+
+     if (setjmp(env) == 0)
+          r = solution_2(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l);
+     else {
+          d->options  = options;
+          d->n_derivs = n_derivs;
+          xrtm_clear_saved(d);
+          r = XRTM_INT_ERROR;
+     }
+
+     if (d->work.w)
+          d->work.w->env = NULL;
+
+     return r;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
diff --git a/src/xrtm_mem_bvp_x.c b/src/xrtm_mem_bvp_x.c
index 5581202..fdc601d 100644
--- a/src/xrtm_mem_bvp_x.c
+++ b/src/xrtm_mem_bvp_x.c
@@ -208,11 +208,11 @@ static void SOLVE_BVP(int n_quad, int n_stokes, int n_derivs, int n_layers,
            *------------------------------------------------------------------*/
           xmat_sub(X_p[i], X_m[i], a_inv[i], n_quad_v, n_quad_v);
           xmat_getrf(a_inv[i], n_quad_v, n_quad_v, i1);
-          xmat_getri(a_inv[i], n_quad_v, i1);
+          xmat_getri(a_inv[i], n_quad_v, i1, *w1, n_quad_v * n_quad_v);
 
           xmat_add(X_p[i], X_m[i], b_inv[i], n_quad_v, n_quad_v);
           xmat_getrf(b_inv[i], n_quad_v, n_quad_v, i2);
-          xmat_getri(b_inv[i], n_quad_v, i2);
+          xmat_getri(b_inv[i], n_quad_v, i2, *w1, n_quad_v * n_quad_v);
 
           xmat_add(a_inv[i], b_inv[i], X_i_11[i], n_quad_v, n_quad_v);
           xmat_scale(.5, X_i_11[i], X_i_11[i], n_quad_v, n_quad_v);
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index aee5f93..13a3edf 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2439,10 +2439,7 @@ static int build_layer_stacks(xrtm_data *d, int i_four, int solver, save_tree_da
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (! (derivs_stacks = flags_alloc(d->n_derivs))) {
-          fprintf(stderr, "ERROR: flags_alloc()\n");
-          return -1;
-     }
+     derivs_stacks = flags_from_mem(get_work_uc1(&work, flags_mem_length(d->n_derivs)));
 
      for (i = 0; i < d->n_stacks; ++i) {
 
@@ -2521,9 +2518,6 @@ static int build_layer_stacks(xrtm_data *d, int i_four, int solver, save_tree_da
      }
 
 
-     flags_free(derivs_stacks);
-
-
      return 0;
 }
 
diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 592c4ea..386c6e8 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -340,9 +340,9 @@ static void SFI_SOURCE_THERMAL(double ptau, double *ptau_l,
      u5  = get_work1(&work, WORK_DU);
      u4  = get_work1(&work, WORK_DU);
 
-     u21 = alloc_array2_d(2, n_umus_v);
-     u22 = alloc_array2_d(2, n_umus_v);
-     u24 = alloc_array2_d(2, n_umus_v);
+     u21 = get_work_d2(&work, 2, n_umus_v);
+     u22 = get_work_d2(&work, 2, n_umus_v);
+     u24 = get_work_d2(&work, 2, n_umus_v);
 
 
      /*-------------------------------------------------------------------------
@@ -454,14 +454,6 @@ static void SFI_SOURCE_THERMAL(double ptau, double *ptau_l,
 
      for (j = 0; j < n_umus_v; ++j)
           I_u[offset + j] += u1[j];
-
-
-     /*-------------------------------------------------------------------------
-      *
-      *-----------------------------------------------------------------------*/
-     free_array2_d(u21);
-     free_array2_d(u22);
-     free_array2_d(u24);
 }
 
 
diff --git a/src/xrtm_source.c b/src/xrtm_source.c
index 8c5a70e..fd4303e 100644
--- a/src/xrtm_source.c
+++ b/src/xrtm_source.c
@@ -446,7 +446,7 @@ void build_thermal_source_coefficients
 
      i1 = get_work1(&work, WORK_IX2);
 
-     a  = alloc_array2_d(2, n_quad_v2);
+     a  = get_work_d2(&work, 2, n_quad_v2);
 
      w1 = get_work1(&work, WORK_DXX2);
 
@@ -642,8 +642,6 @@ dvec_copy(v1, v2, n_quad_v2);
                }
           }
      }
-
-     free_array2_d(a);
 }
 
 
@@ -777,12 +775,12 @@ void build_source_vectors_thermal2
 
      n_quad_v = n_quad * n_stokes;
 
-     At_p = alloc_array2_d(2, n_quad_v);
-     At_m = alloc_array2_d(2, n_quad_v);
+     At_p = get_work_d2(&work, 2, n_quad_v);
+     At_m = get_work_d2(&work, 2, n_quad_v);
 
      if (n_derivs > 0) {
-          At_p_l = alloc_array3_d(n_derivs, 2, n_quad_v);
-          At_m_l = alloc_array3_d(n_derivs, 2, n_quad_v);
+          At_p_l = get_work_d3(&work, n_derivs, 2, n_quad_v);
+          At_m_l = get_work_d3(&work, n_derivs, 2, n_quad_v);
      }
 
      build_thermal_source_coefficients
@@ -803,14 +801,6 @@ void build_source_vectors_thermal2
            At_p_l, At_m_l,
            F0_p_l, F0_m_l, F1_p_l, F1_m_l,
            derivs_layers, derivs_thermal, work);
-
-     free_array2_d(At_p);
-     free_array2_d(At_m);
-
-     if (n_derivs > 0) {
-          free_array3_d(At_p_l);
-          free_array3_d(At_m_l);
-     }
 }
 
 
diff --git a/src/xrtm_stacks.c b/src/xrtm_stacks.c
index 5bc9bda..1515f94 100644
--- a/src/xrtm_stacks.c
+++ b/src/xrtm_stacks.c
@@ -283,7 +283,10 @@ static int check_for_duplicates(stack_data *stacks, int n_stacks, int n_layers)
 
      uchar **grid;
 
-     grid = alloc_array2_uc(n_layers, n_layers);
+     if (! (grid = alloc_array2_uc(n_layers, n_layers))) {
+          fprintf(stderr, "ERROR: alloc_array2_uc(%d, %d)\n", n_layers, n_layers);
+          return -1;
+     }
 
      init_array2_uc(grid, n_layers, n_layers, 0);
 
@@ -331,7 +334,10 @@ int build_stack_chain(int n_layers, int n_derivs, uchar **derivs, stack_data *st
 
      grid_data **grid;
 
-     grid = (grid_data **) alloc_array2(n_layers, n_derivs, sizeof(grid_data));
+     if (! (grid = (grid_data **) alloc_array2(n_layers, n_derivs, sizeof(grid_data)))) {
+          fprintf(stderr, "ERROR: alloc_array2(%d, %d, %ld)\n", n_layers, n_derivs, sizeof(grid_data));
+          return -1;
+     }
 
      for (i = 0; i < n_layers; ++i) {
           stacks[i].i1    = i;
@@ -413,7 +419,10 @@ int build_stack_chain(int n_layers, int n_derivs, uchar **derivs, stack_data *st
 
      free_array2((void **) grid);
 
-     check_for_duplicates(stacks, n_stacks, n_layers);
+     if (check_for_duplicates(stacks, n_stacks, n_layers) < 0) {
+          fprintf(stderr, "ERROR: check_for_duplicates()\n");
+          return -1;
+     }
 /*
      print_stacks(stacks, n_stacks);
      printf("\n");
@@ -428,8 +437,6 @@ int build_stack_chain(int n_layers, int n_derivs, uchar **derivs, stack_data *st
  ******************************************************************************/
 int stack_chain_alloc(int n_four, int n_quad, int n_derivs, int n_layers, int n_stacks0, stack_data *stacks0, int n_stacks, stack_data *stacks, uchar **derivs_layers, uchar **derivs_s, uchar **derivs_d) {
 
-     uchar *derivs_s2;
-
      int i;
      int ii;
      int j;
@@ -439,13 +446,36 @@ int stack_chain_alloc(int n_four, int n_quad, int n_derivs, int n_layers, int n_
 
      jmp_buf env;
 
-     if (! (derivs_s2 = flags_alloc(n_derivs))) {
-          fprintf(stderr, "ERROR: flags_alloc()");
-          return -1;
-     }
-
      if ((r = setjmp(env)) == 0) {
 
+     for (i = 0; i < n_stacks; ++i) {
+          stacks[i].allocated = 0;
+
+          stacks[i].R_p    = NULL;
+          stacks[i].T_p    = NULL;
+          stacks[i].R_m    = NULL;
+          stacks[i].T_m    = NULL;
+
+          stacks[i].S_p    = NULL;
+          stacks[i].S_m    = NULL;
+
+          stacks[i].Sl_p   = NULL;
+          stacks[i].Sl_m   = NULL;
+
+          stacks[i].R_p_l  = NULL;
+          stacks[i].T_p_l  = NULL;
+          stacks[i].R_m_l  = NULL;
+          stacks[i].T_m_l  = NULL;
+
+          stacks[i].S_p_l  = NULL;
+          stacks[i].S_m_l  = NULL;
+
+          stacks[i].Sl_p_l = NULL;
+          stacks[i].Sl_m_l = NULL;
+
+          stacks[i].d      = NULL;
+     }
+
      for (i = 0; i < n_stacks; ++i) {
           stacks[i].allocated = 1;
 
@@ -512,6 +542,15 @@ int stack_chain_alloc(int n_four, int n_quad, int n_derivs, int n_layers, int n_
                          stacks[i].R_m_l = ALLOC_ARRAY2(n_four, n_derivs, double **);
                          stacks[i].T_m_l = ALLOC_ARRAY2(n_four, n_derivs, double **);
 
+                         for (j = 0; j < n_four; ++j) {
+                              for (k = 0; k < n_derivs; ++k) {
+                                   stacks[i].R_p_l[j][k] = NULL;
+                                   stacks[i].T_p_l[j][k] = NULL;
+                                   stacks[i].R_m_l[j][k] = NULL;
+                                   stacks[i].T_m_l[j][k] = NULL;
+                              }
+                         }
+
                          for (j = 0; j < n_four; ++j) {
                               for (k = 0; k < n_derivs; ++k) {
 /*
@@ -537,6 +576,16 @@ if (derivs_layers[i][k]) {
                          stacks[i].Sl_p_l = ALLOC_ARRAY2(n_four, n_derivs, double *);
                          stacks[i].Sl_m_l = ALLOC_ARRAY2(n_four, n_derivs, double *);
 
+                         for (j = 0; j < n_four; ++j) {
+                              for (k = 0; k < n_derivs; ++k) {
+                                   stacks[i].S_p_l[j][k]  = NULL;
+                                   stacks[i].S_m_l[j][k]  = NULL;
+
+                                   stacks[i].Sl_p_l[j][k] = NULL;
+                                   stacks[i].Sl_m_l[j][k] = NULL;
+                              }
+                         }
+
                          for (j = 0; j < n_four; ++j) {
                               for (k = 0; k < n_derivs; ++k) {
 /*
@@ -556,7 +605,6 @@ if (derivs_d[i][k]) {
 */
                }
                else {
-                    derivs_merge_s(n_derivs, derivs_s[stacks[i].i1], derivs_s[stacks[i].i2], derivs_s2);
 /*
                     if (flags_or(derivs_s2, n_derivs)) {
 */
@@ -566,6 +614,16 @@ if (derivs_d[i][k]) {
                          stacks[i].Sl_p_l = ALLOC_ARRAY2(n_four, n_derivs, double *);
                          stacks[i].Sl_m_l = ALLOC_ARRAY2(n_four, n_derivs, double *);
 
+                         for (j = 0; j < n_four; ++j) {
+                              for (k = 0; k < n_derivs; ++k) {
+                                   stacks[i].S_p_l[j][k]  = NULL;
+                                   stacks[i].S_m_l[j][k]  = NULL;
+
+                                   stacks[i].Sl_p_l[j][k] = NULL;
+                                   stacks[i].Sl_m_l[j][k] = NULL;
+                              }
+                         }
+
                          for (j = 0; j < n_four; ++j) {
                               for (k = 0; k < n_derivs; ++k) {
 /*
@@ -585,10 +643,13 @@ if (derivs_s2[k]) {
 */
                     stacks[i].d = ALLOC_ARRAY1(n_four, layer_add_aux_data);
 
+                    for (j = 0; j < n_four; ++j)
+                         memset(&stacks[i].d[j], 0, sizeof(layer_add_aux_data));
+
                     for (j = 0; j < n_four; ++j) {
                          if (layer_add_aux_alloc(&stacks[i].d[j], n_quad)) {
-                              fprintf(stderr, "ERROR: layer_add_aux_alloc()");
-                              return -1;
+                              fprintf(stderr, "ERROR: layer_add_aux_alloc()\n");
+                              longjmp(env, -1);
                          }
                     }
                }
@@ -596,10 +657,18 @@ if (derivs_s2[k]) {
      }
 
      }
-     else if (r < 0)
-          return -1;
+     else if (r < 0) {
+          for (i = 0; i < n_stacks; ++i) {
+               if (stacks[i].allocated && stacks0 && (ii = stack_chain_find(n_stacks0, stacks0, stacks[i].i1, stacks[i].i2)) >= 0) {
+                    stacks0[ii].allocated = 1;
+                    stacks [i ].allocated = 0;
+               }
+          }
+
+          stack_chain_free(n_four, n_quad, n_derivs, n_layers, n_stacks, stacks, derivs_layers, derivs_s, derivs_d);
 
-     flags_free(derivs_s2);
+          return -1;
+     }
 
      return 0;
 }
@@ -611,8 +680,6 @@ if (derivs_s2[k]) {
  ******************************************************************************/
 int stack_chain_free(int n_four, int n_quad, int n_derivs, int n_layers, int n_stacks, stack_data *stacks, uchar **derivs_layers, uchar **derivs_s, uchar **derivs_d) {
 
-     uchar *derivs_s2;
-
      int i;
      int j;
      int k;
@@ -620,11 +687,6 @@ int stack_chain_free(int n_four, int n_quad, int n_derivs, int n_layers, int n_s
      if (! stacks)
           return 0;
 
-     if (! (derivs_s2 = flags_alloc(n_derivs))) {
-          fprintf(stderr, "ERROR: flags_alloc()");
-          return -1;
-     }
-
      for (i = 0; i < n_stacks; ++i) {
           if (stacks[i].allocated) {
                free_array3_d(stacks[i].R_p);
@@ -642,7 +704,7 @@ int stack_chain_free(int n_four, int n_quad, int n_derivs, int n_layers, int n_s
 /*
                     if (flags_or(derivs_layers[i], n_derivs)) {
 */
-                         for (j = 0; j < n_four; ++j) {
+                         for (j = 0; stacks[i].R_p_l && stacks[i].T_p_l && stacks[i].R_m_l && stacks[i].T_m_l && j < n_four; ++j) {
                               for (k = 0; k < n_derivs; ++k) {
 /*
 if (derivs_layers[i][k]) {
@@ -666,7 +728,7 @@ if (derivs_layers[i][k]) {
 
                     if (flags_or(derivs_d[i], n_derivs)) {
 */
-                         for (j = 0; j < n_four; ++j) {
+                         for (j = 0; stacks[i].S_p_l && stacks[i].S_m_l && stacks[i].Sl_p_l && stacks[i].Sl_m_l && j < n_four; ++j) {
                               for (k = 0; k < n_derivs; ++k) {
 /*
 if (derivs_d[i][k]) {
@@ -691,11 +753,10 @@ if (derivs_d[i][k]) {
 */
                }
                else {
-                    derivs_merge_s(n_derivs, derivs_s[stacks[i].i1], derivs_s[stacks[i].i2], derivs_s2);
 /*
                     if (flags_or(derivs_s2, n_derivs)) {
 */
-                         for (j = 0; j < n_four; ++j) {
+                         for (j = 0; stacks[i].S_p_l && stacks[i].S_m_l && stacks[i].Sl_p_l && stacks[i].Sl_m_l && j < n_four; ++j) {
                               for (k = 0; k < n_derivs; ++k) {
 /*
 if (derivs_s2[k]) {
@@ -718,7 +779,7 @@ if (derivs_s2[k]) {
 /*
                     }
 */
-                    for (j = 0; j < n_four; ++j)
+                    for (j = 0; stacks[i].d && j < n_four; ++j)
                          layer_add_aux_free(&stacks[i].d[j]);
 
                     free_array1(stacks[i].d);
@@ -726,8 +787,6 @@ if (derivs_s2[k]) {
           }
      }
 
-     flags_free(derivs_s2);
-
      return 0;
 }
 
diff --git a/src/xrtm_utility.c b/src/xrtm_utility.c
index 9b8a396..9dbb1ac 100644
--- a/src/xrtm_utility.c
+++ b/src/xrtm_utility.c
@@ -71,6 +71,20 @@ uchar *flags_alloc(int n) {
 
 
 
+size_t flags_mem_length(int n) {
+
+     return sizeof(flags_meta_data) + n * sizeof(uchar);
+}
+
+
+
+uchar *flags_from_mem(void *v) {
+
+     return (uchar *) v + sizeof(flags_meta_data);
+}
+
+
+
 void flags_free(uchar *a) {
 
      free((uchar *) a - sizeof(flags_meta_data));
diff --git a/src/xrtm_work.c b/src/xrtm_work.c
index 9ae7d0f..4c15909 100644
--- a/src/xrtm_work.c
+++ b/src/xrtm_work.c
@@ -44,6 +44,8 @@ int work_init(work_data *work, int n_quad, int n_quad_x, int n_stokes, int n_der
 
      w = work->w;
 
+     w->env        = NULL;
+
      w->n_quad_v   =  n_quad   * n_stokes;
      w->n_quad_v_x =  n_quad_x * n_stokes;
      w->n_stokes   =  n_stokes;
@@ -155,6 +157,39 @@ void work_free(work_data *work) {
 /*******************************************************************************
  *
  ******************************************************************************/
+static void work_failed(work_shared *w) {
+
+     fprintf(stderr, "ERROR: memory allocation failed\n");
+
+     if (w->env)
+          longjmp(*w->env, -1);
+
+     exit(1);
+}
+
+
+
+static void alloc_page(work_data *work, size_t length) {
+
+     work_shared *w;
+
+     w = work->w;
+
+     length = MAX(w->min_page_size, length);
+
+     free(w->pages[work->i_page]);
+
+     w->n_bytes[work->i_page] = 0;
+
+     w->pages  [work->i_page] = (uchar *) malloc(length);
+     if (! w->pages[work->i_page])
+          work_failed(w);
+
+     w->n_bytes[work->i_page] = length;
+}
+
+
+
 static size_t get_work_common(work_data *work, size_t length) {
 
      size_t i;
@@ -162,9 +197,7 @@ static size_t get_work_common(work_data *work, size_t length) {
      length = length % 16 ? length / WORK_ALIGNMENT * WORK_ALIGNMENT + WORK_ALIGNMENT : length;
 
      if (work->i_byte == 0 && work->w->n_bytes[work->i_page] == 0) {
-          work->w->n_bytes[work->i_page] = MAX(work->w->min_page_size, length);
-
-          work->w->pages  [work->i_page] = (uchar *) malloc(work->w->n_bytes[work->i_page]);
+          alloc_page(work, length);
 
           i = 0;
 
@@ -172,10 +205,7 @@ static size_t get_work_common(work_data *work, size_t length) {
      }
      else
      if (work->i_byte == 0 && length > work->w->n_bytes[work->i_page]) {
-          work->w->n_bytes[work->i_page] = MAX(work->w->min_page_size, length);
-
-          free(work->w->pages[work->i_page]);
-          work->w->pages  [work->i_page] = (uchar *) malloc(work->w->n_bytes[work->i_page]);
+          alloc_page(work, length);
 
           i = 0;
 
@@ -187,15 +217,11 @@ static size_t get_work_common(work_data *work, size_t length) {
 
           if (work->i_page >= WORK_MAX_PAGES) {
                fprintf(stderr, "ERROR: number of required pages greater than WORK_MAX_PAGES\n");
-               exit(1);
+               work_failed(work->w);
           }
 
-          if (length > work->w->n_bytes[work->i_page]) {
-               work->w->n_bytes[work->i_page] = MAX(work->w->min_page_size, length);
-
-               free(work->w->pages[work->i_page]);
-               work->w->pages  [work->i_page] = (uchar *) malloc(work->w->n_bytes[work->i_page]);
-          }
+          if (length > work->w->n_bytes[work->i_page])
+               alloc_page(work, length);
 
           i = 0;
 
@@ -587,12 +613,23 @@ dcomplex ****get_work_dc4_m_n_flags(work_data *work, size_t m, size_t n, size_t
 /*******************************************************************************
  *
  ******************************************************************************/
-static void check_work_bounds(int i, int *n, void **data) {
+static int check_work_bounds(int i, int *n, void **data) {
+
+     int n2;
+
+     void *data2;
 
      if (i >= *n) {
-          *n += ((i - *n + 1) / WORK_LIST_INC + 1) * WORK_LIST_INC;
-          *data = realloc(*data, *n * sizeof(void *));
+          n2 = *n + ((i - *n + 1) / WORK_LIST_INC + 1) * WORK_LIST_INC;
+
+          if (! (data2 = realloc(*data, n2 * sizeof(void *))))
+               return -1;
+
+          *n    = n2;
+          *data = data2;
      }
+
+     return 0;
 }
 
 
@@ -621,7 +658,8 @@ void init_work_vector(int type, int n, void *data) {
 #define GET_WORK1_VECTOR(i, n, max, alloc_vector, mm, data, type) do {		\
 										\
      if (i >= n)								\
-          get_work_vector(&i, &n, &max, alloc_vector, mm, (void ***) &data);	\
+          if (get_work_vector(&i, &n, &max, alloc_vector, mm, (void ***) &data))	\
+               return NULL;							\
 										\
      return data[i++];								\
 } while (0)
@@ -629,7 +667,8 @@ void init_work_vector(int type, int n, void *data) {
 #define GET_WORK1_VECTOR(i, n, max, alloc_vector, mm, data, type) do {		\
 										\
      if (i >= n)								\
-          get_work_vector(&i, &n, &max, alloc_vector, mm, (void ***) &data);	\
+          if (get_work_vector(&i, &n, &max, alloc_vector, mm, (void ***) &data))	\
+               return NULL;							\
 										\
      init_work_vector(type, mm, data[i]);					\
 										\
@@ -638,17 +677,18 @@ void init_work_vector(int type, int n, void *data) {
 #endif
 
 
-static void get_work_vector(WORK_I_TYPE *i, int *n, int *max, void **(*alloc_vector_x)(long m), int mm, void ***data) {
+static int get_work_vector(WORK_I_TYPE *i, int *n, int *max, void **(*alloc_vector_x)(long m), int mm, void ***data) {
 
-     check_work_bounds(*n, max, (void **) data);
+     if (check_work_bounds(*n, max, (void **) data))
+          return -1;
 
      (*data)[*i] = alloc_vector_x(mm);
-     if (! (*data)[*i]) {
-          fprintf(stderr, "ERROR: memory allocation failed\n");
-          exit(1);
-     }
+     if (! (*data)[*i])
+          return -1;
 
      (*n)++;
+
+     return 0;
 }
 
 
@@ -661,13 +701,12 @@ static void **get_work_vectors(WORK_I_TYPE *iq, int *n1, int *max1, WORK_I_TYPE
 
      if (*iq >= *n1) {
 
-          check_work_bounds(*n1, max1, (void **) data1);
+          if (check_work_bounds(*n1, max1, (void **) data1))
+               return NULL;
 
           (*data1)[*iq] = (void **) alloc_array1(ll, sizeof(void **));
-          if (! (*data1)[*iq]) {
-               fprintf(stderr, "ERROR: memory allocation failed\n");
-               exit(1);
-          }
+          if (! (*data1)[*iq])
+               return NULL;
 
           (*n1)++;
      }
@@ -675,17 +714,16 @@ static void **get_work_vectors(WORK_I_TYPE *iq, int *n1, int *max1, WORK_I_TYPE
      count = flags ? flags_count(flags, ll) : ll;
 
      if (*iq2 + count - 1 >= *n2) {
-          check_work_bounds(*iq2 + count - 1, max2, (void **) data2);
+          if (check_work_bounds(*iq2 + count - 1, max2, (void **) data2))
+               return NULL;
 
           for (i = *n2; i < *iq2 + count; ++i) {
                (*data2)[i] = alloc_vector_x(mm);
-               if (! (*data2)[i]) {
-                    fprintf(stderr, "ERROR: memory allocation failed\n");
-                    exit(1);
-               }
-          }
+               if (! (*data2)[i])
+                    return NULL;
 
-          *n2 = *iq2 + count;
+               *n2 = i + 1;
+          }
      }
 
      if (! flags) {
@@ -724,13 +762,12 @@ static void ***get_work_vectors2(WORK_I_TYPE *iq, int *n1, int *max1, WORK_I_TYP
      int count;
 
      if (*iq >= *n1) {
-          check_work_bounds(*n1, max1, (void **) data1);
+          if (check_work_bounds(*n1, max1, (void **) data1))
+               return NULL;
 
           (*data1)[*iq] = (void ***) alloc_array2(ll1, ll2, sizeof(void ***));
-          if (! (*data1)[*iq]) {
-               fprintf(stderr, "ERROR: memory allocation failed\n");
-               exit(1);
-          }
+          if (! (*data1)[*iq])
+               return NULL;
 
           (*n1)++;
      }
@@ -744,17 +781,16 @@ static void ***get_work_vectors2(WORK_I_TYPE *iq, int *n1, int *max1, WORK_I_TYP
      }
 
      if (*iq2 + count - 1 >= *n2) {
-          check_work_bounds(*iq2 + count - 1, max2, (void **) data2);
+          if (check_work_bounds(*iq2 + count - 1, max2, (void **) data2))
+               return NULL;
 
           for (i = *n2; i < *iq2 + count; ++i) {
                (*data2)[i] = alloc_vector_x(mm);
-               if (! (*data2)[i]) {
-                    fprintf(stderr, "ERROR: memory allocation failed\n");
-                    exit(1);
-               }
-          }
+               if (! (*data2)[i])
+                    return NULL;
 
-          *n2 = *iq2 + count;
+               *n2 = i + 1;
+          }
      }
 
      if (! flags) {
@@ -813,7 +849,8 @@ void init_work_matrix(int type, int m, int n, void *data) {
 #define GET_WORK1_MATRIX(i, n, max, alloc_matrix, mm, nn, data, type) do {		\
 											\
      if (i >= n)									\
-           get_work_matrix(&i, &n, &max, alloc_matrix, mm, nn, (void ****) &data);	\
+           if (get_work_matrix(&i, &n, &max, alloc_matrix, mm, nn, (void ****) &data))	\
+                return NULL;								\
 											\
      return data[i++];									\
 } while (0)
@@ -821,7 +858,8 @@ void init_work_matrix(int type, int m, int n, void *data) {
 #define GET_WORK1_MATRIX(i, n, max, alloc_matrix, mm, nn, data, type) do {		\
 											\
      if (i >= n)									\
-           get_work_matrix(&i, &n, &max, alloc_matrix, mm, nn, (void ****) &data);	\
+           if (get_work_matrix(&i, &n, &max, alloc_matrix, mm, nn, (void ****) &data))	\
+                return NULL;								\
 											\
      init_work_matrix(type, mm, nn, data[i]);						\
 											\
@@ -830,17 +868,18 @@ void init_work_matrix(int type, int m, int n, void *data) {
 #endif
 
 
-static void get_work_matrix(WORK_I_TYPE *i, int *n, int *max, void ** (*alloc_matrix_x)(long m, long n), int mm, int nn, void ****data) {
+static int get_work_matrix(WORK_I_TYPE *i, int *n, int *max, void ** (*alloc_matrix_x)(long m, long n), int mm, int nn, void ****data) {
 
-     check_work_bounds(*n, max, (void **) data);
+     if (check_work_bounds(*n, max, (void **) data))
+          return -1;
 
      (*data)[*i] = alloc_matrix_x(mm, nn);
-     if (! (*data)[*i]) {
-          fprintf(stderr, "ERROR: memory allocation failed\n");
-          exit(1);
-     }
+     if (! (*data)[*i])
+          return -1;
 
      (*n)++;
+
+     return 0;
 }
 
 
@@ -852,13 +891,12 @@ static void **get_work_matrices(WORK_I_TYPE *iq, int *n1, int *max1, WORK_I_TYPE
      int count;
 
      if (*iq >= *n1) {
-          check_work_bounds(*n1, max1, (void **) data1);
+          if (check_work_bounds(*n1, max1, (void **) data1))
+               return NULL;
 
           (*data1)[*iq] = (void **) alloc_array1(ll, sizeof(void **));
-          if (! (*data1)[*iq]) {
-               fprintf(stderr, "ERROR: memory allocation failed\n");
-               exit(1);
-          }
+          if (! (*data1)[*iq])
+               return NULL;
 
           (*n1)++;
      }
@@ -866,17 +904,16 @@ static void **get_work_matrices(WORK_I_TYPE *iq, int *n1, int *max1, WORK_I_TYPE
      count = flags ? flags_count(flags, ll) : ll;
 
      if (*iq2 + count - 1 >= *n2) {
-          check_work_bounds(*iq2 + count - 1, max2, (void **) data2);
+          if (check_work_bounds(*iq2 + count - 1, max2, (void **) data2))
+               return NULL;
 
           for (i = *n2; i < *iq2 + count; ++i) {
                (*data2)[i] = alloc_matrix_x(mm, nn);
-               if (! (*data2)[i]) {
-                    fprintf(stderr, "ERROR: memory allocation failed\n");
-                    exit(1);
-               }
-          }
+               if (! (*data2)[i])
+                    return NULL;
 
-          *n2 = *iq2 + count;
+               *n2 = i + 1;
+          }
      }
 
      if (! flags) {
@@ -915,13 +952,12 @@ static void ***get_work_matrices2(WORK_I_TYPE *iq, int *n1, int *max1, WORK_I_TY
      int count;
 
      if (*iq >= *n1) {
-          check_work_bounds(*n1, max1, (void **) data1);
+          if (check_work_bounds(*n1, max1, (void **) data1))
+               return NULL;
 
           (*data1)[*iq] = (void ***) alloc_array2(ll1, ll2, sizeof(void **));
-          if (! (*data1)[*iq]) {
-               fprintf(stderr, "ERROR: memory allocation failed\n");
-               exit(1);
-          }
+          if (! (*data1)[*iq])
+               return NULL;
 
           (*n1)++;
      }
@@ -935,17 +971,16 @@ static void ***get_work_matrices2(WORK_I_TYPE *iq, int *n1, int *max1, WORK_I_TY
      }
 
      if (*iq2 + count - 1 >= *n2) {
-          check_work_bounds(*iq2 + count - 1, max2, (void **) data2);
+          if (check_work_bounds(*iq2 + count - 1, max2, (void **) data2))
+               return NULL;
 
           for (i = *n2; i < *iq2 + count; ++i) {
                (*data2)[i] = alloc_matrix_x(mm, nn);
-               if (! (*data2)[i]) {
-                    fprintf(stderr, "ERROR: memory allocation failed\n");
-                    exit(1);
-               }
-          }
+               if (! (*data2)[i])
+                    return NULL;
 
-          *n2 = *iq2 + count;
+               *n2 = i + 1;
+          }
      }
 
      if (! flags) {
@@ -989,7 +1024,7 @@ static void ***get_work_matrices2(WORK_I_TYPE *iq, int *n1, int *max1, WORK_I_TY
 
 #ifdef LEGACY
 
-void *work_get1(work_data *work, enum work_type type) {
+static void *get_list1(work_data *work, enum work_type type) {
 
      work_shared *w;
 
@@ -1043,6 +1078,18 @@ void *work_get1(work_data *work, enum work_type type) {
      return NULL;
 }
 
+
+
+void *work_get1(work_data *work, enum work_type type) {
+
+     void *list;
+
+     if (! (list = get_list1(work, type)))
+          work_failed(work->w);
+
+     return list;
+}
+
 #else
 
 void *work_get1(work_data *work, enum work_type type) {
@@ -1106,7 +1153,7 @@ void *work_get1(work_data *work, enum work_type type) {
  ******************************************************************************/
 #ifdef LEGACY
 
-void *work_get2(work_data *work, enum work_type type,
+static void *get_list2(work_data *work, enum work_type type,
                 enum work_v_type v_type, uchar *flags) {
 
      WORK_I_TYPE *i;
@@ -1194,6 +1241,18 @@ void *work_get2(work_data *work, enum work_type type,
      return NULL;
 }
 
+
+
+void *work_get2(work_data *work, enum work_type type, enum work_v_type v_type, uchar *flags) {
+
+     void *list;
+
+     if (! (list = get_list2(work, type, v_type, flags)))
+          work_failed(work->w);
+
+     return list;
+}
+
 #else
 
 void *work_get2(work_data *work, enum work_type type,
@@ -1275,7 +1334,7 @@ void *work_get2(work_data *work, enum work_type type,
  ******************************************************************************/
 #ifdef LEGACY
 
-void *work_get3(work_data *work, enum work_type type,
+static void *get_list3(work_data *work, enum work_type type,
                 enum work_v_type v_type, uchar **flags) {
 
      WORK_I_TYPE *i;
@@ -1353,6 +1412,18 @@ void *work_get3(work_data *work, enum work_type type,
      return NULL;
 }
 
+
+
+void *work_get3(work_data *work, enum work_type type, enum work_v_type v_type, uchar **flags) {
+
+     void *list;
+
+     if (! (list = get_list3(work, type, v_type, flags)))
+          work_failed(work->w);
+
+     return list;
+}
+
 #else
 
 void *work_get3(work_data *work, enum work_type type,
diff --git a/src/xrtm_work.h b/src/xrtm_work.h
index 77a7637..a7bc008 100644
--- a/src/xrtm_work.h
+++ b/src/xrtm_work.h
@@ -10,6 +10,8 @@
 #ifndef XRTM_WORK_H
 #define XRTM_WORK_H
 
+#include <setjmp.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
@@ -163,6 +165,8 @@ typedef struct {
 
      void **lists   [N_WORK_TYPES];
      void ***lists_v[N_WORK_TYPES_V];
+
+     jmp_buf *env;
 } work_shared;
 
 
-- 
2.43.0


From ec27ca71efc404d1e0951bb38c90981ede938658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:04 +0000
Subject: [PATCH 026/115] fix: SFI with eig_bvp or mem_bvp and no solar source
 dereferenced an uninitialized pointer

---
 src/xrtm_sfi_x.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 386c6e8..c373952 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -1047,8 +1047,10 @@ static void SFI(int i_four,
                     while (i_out_level >= 0 && i_out_level < n_ulevels && i == ulevels[i_out_level]) {
                          ptau = utaus[i_out_level];
 
-                         P_q0_mm2 = P_q0_mm[i];
-                         P_q0_pm2 = P_q0_pm[i];
+                         if (solar) {
+                              P_q0_mm2 = P_q0_mm[i];
+                              P_q0_pm2 = P_q0_pm[i];
+                         }
 
                          offset2 = offset;
 
@@ -1067,8 +1069,10 @@ static void SFI(int i_four,
                else
                     ptau = ltau[i];
 
-               P_q0_mm2 = P_q0_mm[i];
-               P_q0_pm2 = P_q0_pm[i];
+               if (solar) {
+                    P_q0_mm2 = P_q0_mm[i];
+                    P_q0_pm2 = P_q0_pm[i];
+               }
 
                offset2 = 0;
 
-- 
2.43.0


From 3c713ac41f4d8a1d0b134799329f17e2d618ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:04 +0000
Subject: [PATCH 027/115] fix: a singular matrix or an eigenvalue failure ended
 the process instead of failing the solution

---
 misc/gmath_matrix.h              |  8 +++---
 misc/gmatrix.h                   | 24 +++++++++++------
 src/prototypes/xrtm_pade_rts_p.h |  2 +-
 src/prototypes/xrtm_utility_p.h  |  2 +-
 src/prototypes/xrtm_work_p.h     |  1 +
 src/xrtm_adding.c                | 44 ++++++++++++++++++++------------
 src/xrtm_doubling.c              | 18 ++++++++-----
 src/xrtm_eig_bvp_x.c             |  9 ++++---
 src/xrtm_eig_bvp_x_a.c           |  2 +-
 src/xrtm_eig_rts_x.c             |  6 +++--
 src/xrtm_eig_util.c              | 22 ++++++++--------
 src/xrtm_eig_util_a.c            | 12 +++++----
 src/xrtm_four_stream.c           |  7 ++---
 src/xrtm_interface.c             |  5 +++-
 src/xrtm_mem_bvp_x.c             | 21 +++++++++------
 src/xrtm_model.c                 |  8 ++++--
 src/xrtm_pade_rts.c              | 28 ++++++++++++--------
 src/xrtm_radiance.c              |  6 +++--
 src/xrtm_six_stream.c            |  7 ++---
 src/xrtm_source.c                |  9 ++++---
 src/xrtm_two_stream.c            | 13 +++++-----
 src/xrtm_utility.c               |  6 +++--
 src/xrtm_work.c                  | 30 ++++++++++++++--------
 23 files changed, 180 insertions(+), 110 deletions(-)

diff --git a/misc/gmath_matrix.h b/misc/gmath_matrix.h
index 348fa75..3c93fe4 100644
--- a/misc/gmath_matrix.h
+++ b/misc/gmath_matrix.h
@@ -72,11 +72,11 @@ void XCAT(prefix_, mat_pow_ldx)(const type_ *, long, int, const type_ *, long, l
 #define all_matrix_proto2(prefix_, type_)							\
 double XCAT(prefix_, mat_pocon)(type_ **, int, double, int *, double *);			\
 double XCAT(prefix_, mat_gecon)(char, type_ **, int, double, int *, double *);			\
-void XCAT(prefix_, mat_potrf)(type_ **, int);							\
-void XCAT(prefix_, mat_potri)(type_ **, int);							\
+int  XCAT(prefix_, mat_potrf)(type_ **, int);							\
+int  XCAT(prefix_, mat_potri)(type_ **, int);							\
 void XCAT(prefix_, mat_potrs)(type_ **, type_ **, int, int);					\
-void XCAT(prefix_, mat_getrf)(type_ **, int, int, int *);					\
-void XCAT(prefix_, mat_getri)(type_ **, int, int *, type_ *, int);				\
+int  XCAT(prefix_, mat_getrf)(type_ **, int, int, int *);					\
+int  XCAT(prefix_, mat_getri)(type_ **, int, int *, type_ *, int);				\
 void XCAT(prefix_, mat_getrs)(type_ **, type_ **, int, int, int *);				\
 void XCAT(prefix_, mat_getrs2)(char, type_ **, type_ **, int, int, int *);			\
 void XCAT(prefix_, mat_gttrf)(type_ *, type_ *, type_ *, type_ *, int, int *);			\
diff --git a/misc/gmatrix.h b/misc/gmatrix.h
index 1d2a05f..bbdda9c 100644
--- a/misc/gmatrix.h
+++ b/misc/gmatrix.h
@@ -937,28 +937,32 @@ double XCAT(prefix_, mat_gecon)(char norm, type_ **a, int n, double anorm, int *
 
 
 
-void XCAT(prefix_, mat_potrf)(type_ **a, int n) {
+int XCAT(prefix_, mat_potrf)(type_ **a, int n) {
 
      int info;
 
      XCAT(prefix_, potrf_)("l", &n, *a, &n, &info);
      if (info) {
           fprintf(stderr, "ERROR: dpotrf() info = %d\n", info);
-          exit(1);
+          return info;
      }
+
+     return 0;
 }
 
 
 
-void XCAT(prefix_, mat_potri)(type_ **a, int n) {
+int XCAT(prefix_, mat_potri)(type_ **a, int n) {
 
      int info;
 
      XCAT(prefix_, potri_)("l", &n, *a, &n, &info);
      if (info) {
           fprintf(stderr, "ERROR: dpotri() info = %d\n", info);
-          exit(1);
+          return info;
      }
+
+     return 0;
 }
 
 
@@ -977,28 +981,32 @@ void XCAT(prefix_, mat_potrs)(type_ **a, type_ **b, int n, int nrhs) {
 
 
 
-void XCAT(prefix_, mat_getrf)(type_ **a, int m, int n, int *ipiv) {
+int XCAT(prefix_, mat_getrf)(type_ **a, int m, int n, int *ipiv) {
 
      int info;
 
      XCAT(prefix_, getrf_)(&m, &n, *a, &n, ipiv, &info);
      if (info) {
           fprintf(stderr, "ERROR: dgetrf() info = %d\n", info);
-          exit(1);
+          return info;
      }
+
+     return 0;
 }
 
 
 
-void XCAT(prefix_, mat_getri)(type_ **a, int n, int *ipiv, type_ *twork, int lwork) {
+int XCAT(prefix_, mat_getri)(type_ **a, int n, int *ipiv, type_ *twork, int lwork) {
 
      int info;
 
      XCAT(prefix_, getri_)(&n, *a, &n, ipiv, twork, &lwork, &info);
      if (info) {
           fprintf(stderr, "ERROR: dgetri() info = %d\n", info);
-          exit(1);
+          return info;
      }
+
+     return 0;
 }
 
 
diff --git a/src/prototypes/xrtm_pade_rts_p.h b/src/prototypes/xrtm_pade_rts_p.h
index bc96be8..11c9c13 100644
--- a/src/prototypes/xrtm_pade_rts_p.h
+++ b/src/prototypes/xrtm_pade_rts_p.h
@@ -1,5 +1,5 @@
 /* xrtm_pade_rts.c */
-void pade_get_s_and_r(double **r_, double **t_, int n_quad, double ltau, int n_umus, double *umus, int *s, int *r, int derivs);
+int pade_get_s_and_r(double **r_, double **t_, int n_quad, double ltau, int n_umus, double *umus, int *s, int *r, int derivs);
 matd1d2 get_work_d2_d(work_data *work, size_t m, size_t n, size_t d);
 matd1d2 *get_work_d2_d2(work_data *work, size_t v, size_t m, size_t n, size_t d);
 void pade_calc_R_and_T_2(matd1d2 N11, matd1d2 N12, matd1d2 N21, matd1d2 N22, matd1d2 D11, matd1d2 D12, matd1d2 D21, matd1d2 D22, matd1d2 R_p, matd1d2 T_p, matd1d2 R_m, matd1d2 T_m, matd1d2 *O11, matd1d2 *O12, matd1d2 *O21, matd1d2 *O22, matd1d2 *E11, matd1d2 *E12, matd1d2 *E21, matd1d2 *E22, matd1d2 *R_p_l, matd1d2 *T_p_l, matd1d2 *R_m_l, matd1d2 *T_m_l, int n_quad, int n_stokes, int n_derivs, int check_condition, int reduced, int symmetric, int vector, double *condition, uchar *derivs, work_data work, int n_umus);
diff --git a/src/prototypes/xrtm_utility_p.h b/src/prototypes/xrtm_utility_p.h
index f3eb264..ebfd03f 100644
--- a/src/prototypes/xrtm_utility_p.h
+++ b/src/prototypes/xrtm_utility_p.h
@@ -56,4 +56,4 @@ void mat_sim_trans2(int m, int n, double **a1, double **a2, double *s1, double *
 void dm_v_mul_D_A(int n_quad, int n_stokes, double *a, double *b);
 void dmat_mul_D_A(int n_quad, int n_stokes, double **a, double **b);
 void dmat_mul_D_A2(int n_quad1, int n_stokes1, int n_quad2, int n_stokes2, double **a, double **b);
-void no_scatter_r_t_s(int n_quad, int n_derivs, double *qx_v, double *qw_v, double ltau, double *ltau_l, double **R_p, double **T_p, double **R_m, double **T_m, double *S_p, double *S_m, double *Sl_p, double *Sl_m, double ***R_p_l, double ***T_p_l, double ***R_m_l, double ***T_m_l, double **S_p_l, double **S_m_l, double **Sl_p_l, double **Sl_m_l, int solar, int thermal, uchar *derivs_layers, uchar *derivs_beam, uchar *derivs_thermal);
+int no_scatter_r_t_s(int n_quad, int n_derivs, double *qx_v, double *qw_v, double ltau, double *ltau_l, double **R_p, double **T_p, double **R_m, double **T_m, double *S_p, double *S_m, double *Sl_p, double *Sl_m, double ***R_p_l, double ***T_p_l, double ***R_m_l, double ***T_m_l, double **S_p_l, double **S_m_l, double **Sl_p_l, double **Sl_m_l, int solar, int thermal, uchar *derivs_layers, uchar *derivs_beam, uchar *derivs_thermal);
diff --git a/src/prototypes/xrtm_work_p.h b/src/prototypes/xrtm_work_p.h
index 7db3dc2..7947b62 100644
--- a/src/prototypes/xrtm_work_p.h
+++ b/src/prototypes/xrtm_work_p.h
@@ -1,6 +1,7 @@
 /* xrtm_work.c */
 int work_init(work_data *work, int n_quad, int n_quad_x, int n_stokes, int n_derivs, int n_layers, int n_umus);
 void work_free(work_data *work);
+void work_failed(work_data *work);
 void *get_work_x1(work_data *work, size_t m, size_t size);
 uchar *get_work_uc1(work_data *work, size_t m);
 int *get_work_i1(work_data *work, size_t m);
diff --git a/src/xrtm_adding.c b/src/xrtm_adding.c
index c77b567..86e51f2 100644
--- a/src/xrtm_adding.c
+++ b/src/xrtm_adding.c
@@ -562,7 +562,8 @@ void layer_add_ref(double **R12, double **T12, double *S12,
      dmat_mul(R23, R21, n, n, n, PXX);
      dmat_i_sub(PXX, w1, n);
      dmat_trans(w1, PXX, n, n);
-     dmat_getrf(PXX, n, n, i1);
+     if (dmat_getrf(PXX, n, n, i1))
+          work_failed(&work);
 
      /* A31 = T21 * P31 */
      dmat_copy(AXX, T21, n, n);
@@ -612,7 +613,7 @@ void layer_add_ref(double **R12, double **T12, double *S12,
           else
           if (derivs[i] == ADDING_L_B) {
                fprintf(stderr, "ERROR: layer_add_all(), adding combination not implemented: ADDING_L_B\n");
-               exit(1);
+               work_failed(&work);
           }
           else
           if (derivs[i] == ADDING_B_L)
@@ -712,7 +713,8 @@ if (! d || flag3) {
      dmat_mul(R23, R21, n, n, n, PXX);
      dmat_i_sub(PXX, w1, n);
      dmat_trans(w1, PXX, n, n);
-     dmat_getrf(PXX, n, n, i1);
+     if (dmat_getrf(PXX, n, n, i1))
+          work_failed(&work);
 
      /* A31 = T21 * P31 */
      dmat_copy(AXX, T21, n, n);
@@ -753,12 +755,12 @@ if (! d || flag3) {
           else
           if (derivs[i] == ADDING_L_B) {
                fprintf(stderr, "ERROR: layer_add_all(), adding combination not implemented: ADDING_L_B\n");
-               exit(1);
+               work_failed(&work);
           }
           else
           if (derivs[i] == ADDING_B_L) {
                fprintf(stderr, "ERROR: layer_add_all(), adding combination not implemented: ADDING_B_L\n");
-               exit(1);
+               work_failed(&work);
           }
           else
           if (derivs[i] == ADDING_B_B)
@@ -1293,7 +1295,8 @@ if (flag)
      dmat_mul(R23, R21, n, n, n, PXX);
      dmat_i_sub(PXX, w1, n);
      dmat_trans(w1, PXX, n, n);
-     dmat_getrf(PXX, n, n, i1);
+     if (dmat_getrf(PXX, n, n, i1))
+          work_failed(&work);
 
      /* A31 = T21 * P31 */
      dmat_copy(AXX, T21, n, n);
@@ -1334,7 +1337,8 @@ if (flag) {
      dmat_mul(R21, R23, n, n, n, PXX);
      dmat_i_sub(PXX, w1, n);
      dmat_trans(w1, PXX, n, n);
-     dmat_getrf(PXX, n, n, i1);
+     if (dmat_getrf(PXX, n, n, i1))
+          work_failed(&work);
 
      /* A13 = T23 * P13 */
      dmat_copy(AXX, T23, n, n);
@@ -1504,7 +1508,8 @@ void layer_add_all(double **R12, double **T12, double *S12,
      dmat_mul(R23, R21, n, n, n, PXX);
      dmat_i_sub(PXX, w1, n);
      dmat_trans(w1, PXX, n, n);
-     dmat_getrf(PXX, n, n, i1);
+     if (dmat_getrf(PXX, n, n, i1))
+          work_failed(&work);
 
      /* A31 = T21 * P31 */
      dmat_copy(AXX, T21, n, n);
@@ -1554,12 +1559,12 @@ void layer_add_all(double **R12, double **T12, double *S12,
           else
           if (derivs[i] == ADDING_L_B) {
                fprintf(stderr, "ERROR: layer_add_all(), adding combination not implemented: ADDING_L_B\n");
-               exit(1);
+               work_failed(&work);
           }
           else
           if (derivs[i] == ADDING_B_L) {
                fprintf(stderr, "ERROR: layer_add_all(), adding combination not implemented: ADDING_B_L\n");
-               exit(1);
+               work_failed(&work);
           }
           else
           if (derivs[i] == ADDING_B_B)
@@ -1603,7 +1608,8 @@ if (flag) {
      dmat_mul(R21, R23, n, n, n, PXX);
      dmat_i_sub(PXX, w1, n);
      dmat_trans(w1, PXX, n, n);
-     dmat_getrf(PXX, n, n, i1);
+     if (dmat_getrf(PXX, n, n, i1))
+          work_failed(&work);
 
      /* A13 = T23 * P13 */
      dmat_copy(AXX, T23, n, n);
@@ -1655,12 +1661,12 @@ if (flag) {
           else
           if (derivs[i] == ADDING_L_B) {
                fprintf(stderr, "ERROR: layer_add_all(), adding combination not implemented: ADDING_L_B\n");
-               exit(1);
+               work_failed(&work);
           }
           else
           if (derivs[i] == ADDING_B_L) {
                fprintf(stderr, "ERROR: layer_add_all(), adding combination not implemented: ADDING_B_L\n");
-               exit(1);
+               work_failed(&work);
           }
           else
           if (derivs[i] == ADDING_B_B)
@@ -1765,7 +1771,8 @@ if (! d || flag2) {
      dmat_mul(R23, R21, n, n, n, PXX);
      dmat_i_sub(PXX, w1, n);
      dmat_trans(w1, PXX, n, n);
-     dmat_getrf(PXX, n, n, i1);
+     if (dmat_getrf(PXX, n, n, i1))
+          work_failed(&work);
 
      /* A31 = T21 * P31 */
      dmat_copy(AXX, T21, n, n);
@@ -1811,7 +1818,8 @@ if (! d || flag2) {
      dmat_mul(R21, R23, n, n, n, PXX);
      dmat_i_sub(PXX, w1, n);
      dmat_trans(w1, PXX, n, n);
-     dmat_getrf(PXX, n, n, i1);
+     if (dmat_getrf(PXX, n, n, i1))
+          work_failed(&work);
 
      /* A13 = T23 * P13 */
      dmat_copy(AXX, T23, n, n);
@@ -1917,7 +1925,8 @@ if (! d || flag2) {
      dmat_mul(R23, R21, n, n, n, PXX);
      dmat_i_sub(PXX, w1, n);
      dmat_trans(w1, PXX, n, n);
-     dmat_getrf(PXX, n, n, i1);
+     if (dmat_getrf(PXX, n, n, i1))
+          work_failed(&work);
 
      /* A31 = T21 * P31 */
      dmat_copy(AXX, T21, n, n);
@@ -1988,7 +1997,8 @@ if (! d || flag2) {
      dmat_mul(R21, R23, n, n, n, PXX);
      dmat_i_sub(PXX, w1, n);
      dmat_trans(w1, PXX, n, n);
-     dmat_getrf(PXX, n, n, i1);
+     if (dmat_getrf(PXX, n, n, i1))
+          work_failed(&work);
 
      /* A13 = T23 * P13 */
      dmat_copy(AXX, T23, n, n);
diff --git a/src/xrtm_doubling.c b/src/xrtm_doubling.c
index 779f48e..9672704 100644
--- a/src/xrtm_doubling.c
+++ b/src/xrtm_doubling.c
@@ -68,7 +68,8 @@ void layer_double(double **R, double **T,
      dmat_mul(R, R, n, n, n, w1);
      dmat_i_sub(w1, w1, n);
      dmat_trans(w1, w2, n, n);
-     dmat_getrf(w2, n, n, i1);
+     if (dmat_getrf(w2, n, n, i1))
+          work_failed(&work);
 
      /* A = T * P */
      dmat_copy(A, T, n, n);
@@ -212,7 +213,8 @@ if (1) {
      dsym_mul(R, R, n, n, w1, 1);
      dmat_i_sub(w1, w2, n);
      dmat_trans(w2, w1, n, n);
-     dmat_getrf(w1, n, n, i1);
+     if (dmat_getrf(w1, n, n, i1))
+          work_failed(&work);
 
      /* A = T * P */
      dmat_copy(A, T, n, n);
@@ -222,7 +224,8 @@ else {
      /* LU of (E - R * R)^T */
      dsym_mul(R, R, n, n, w1, 1);
      dmat_i_sub(w1, w1, n);
-     dmat_potrf(w1, n);
+     if (dmat_potrf(w1, n))
+          work_failed(&work);
 
      /* A = T * P */
      dmat_copy(A, T, n, n);
@@ -358,7 +361,8 @@ void layer_double_l(double **R, double **T,
      dmat_mul(R, R, n, n, n, P);
      dmat_i_sub(P, w1, n);
      dmat_trans(w1, P, n, n);
-     dmat_getrf(P, n, n, i1);
+     if (dmat_getrf(P, n, n, i1))
+          work_failed(&work);
 
      /* A = T * P */
      dmat_copy(A, T, n, n);
@@ -811,7 +815,8 @@ if (1) {
      dsym_mul(R, R, n, n, P, 1);
      dmat_i_sub(P, w1, n);
      dmat_trans(w1, P, n, n);
-     dmat_getrf(P, n, n, i1);
+     if (dmat_getrf(P, n, n, i1))
+          work_failed(&work);
 
      /* A = T * P */
      dmat_copy(A, T, n, n);
@@ -824,7 +829,8 @@ else {
      /* w1 = LU of (E - R * R)^T */
      dsym_mul(R, R, n, n, P, 1);
      dmat_i_sub(P, P, n);
-     dmat_potrf(P, n);
+     if (dmat_potrf(P, n))
+          work_failed(&work);
 
      /* A = T * P */
      dmat_copy(A, T, n, n);
diff --git a/src/xrtm_eig_bvp_x.c b/src/xrtm_eig_bvp_x.c
index 3a71343..94b9c48 100644
--- a/src/xrtm_eig_bvp_x.c
+++ b/src/xrtm_eig_bvp_x.c
@@ -287,12 +287,13 @@ else {
       *
       *-----------------------------------------------------------------------*/
 #ifndef USE_BANDED_SOLVER
-     xmat_getrf(A, n_comp, n_comp, ipiv);
+     if (xmat_getrf(A, n_comp, n_comp, ipiv))
+          work_failed(&work);
 #else
      xgbtrf_(&n_comp, &n_comp, &n_diags, &n_diags, *A, &m_comp, ipiv, &info);
      if (info) {
           fprintf(stderr, "ERROR: xgbtrf() info = %d\n", info);
-          exit(1);
+          work_failed(&work);
      }
 #endif
      if (save_tree.t) {
@@ -396,7 +397,7 @@ else {
              &n_comp, &info);
      if (info) {
           fprintf(stderr, "ERROR: xgbtrs() info = %d\n", info);
-          exit(1);
+          work_failed(&work);
      }
 #endif
 
@@ -556,7 +557,7 @@ else {
                   ipiv, B_l[m], &n_comp, &info);
           if (info) {
                fprintf(stderr, "ERROR: xgbtrs() info = %d\n", info);
-               exit(1);
+               work_failed(&work);
           }
 #endif
      }
diff --git a/src/xrtm_eig_bvp_x_a.c b/src/xrtm_eig_bvp_x_a.c
index 471c6a6..cb1d14a 100644
--- a/src/xrtm_eig_bvp_x_a.c
+++ b/src/xrtm_eig_bvp_x_a.c
@@ -139,7 +139,7 @@ static void SOLVE_BVP_A(int n_quad, int n_stokes, int n_layers,
              save->ipiv, B_a, &n_comp, &info);
      if (info) {
           fprintf(stderr, "ERROR: xgbtrs() info = %d\n", info);
-          exit(1);
+          work_failed(&work);
      }
 
 
diff --git a/src/xrtm_eig_rts_x.c b/src/xrtm_eig_rts_x.c
index 419dfcb..665f933 100644
--- a/src/xrtm_eig_rts_x.c
+++ b/src/xrtm_eig_rts_x.c
@@ -85,7 +85,8 @@ static void CALC_GLOBAL_R_AND_T(int n_quad, int n_derivs,
 
 
      xmat_trans(X_m, X_m_lu, n_quad, n_quad);
-     xmat_getrf(X_m_lu, n_quad, n_quad, i1);
+     if (xmat_getrf(X_m_lu, n_quad, n_quad, i1))
+          work_failed(&work);
 
      xmat_copy(b, a, n_quad, n_quad);
      xmat_getrs2('n', X_m_lu, b, n_quad, n_quad, i1);
@@ -95,7 +96,8 @@ static void CALC_GLOBAL_R_AND_T(int n_quad, int n_derivs,
      xmat_sub(X_m, w1, w1, n_quad, n_quad);
 
      xmat_trans(w1, c_lu, n_quad, n_quad);
-     xmat_getrf(c_lu, n_quad, n_quad, i2);
+     if (xmat_getrf(c_lu, n_quad, n_quad, i2))
+          work_failed(&work);
 
 
      xmat_copy(d, X_p, n_quad, n_quad);
diff --git a/src/xrtm_eig_util.c b/src/xrtm_eig_util.c
index 75a2459..393f3de 100644
--- a/src/xrtm_eig_util.c
+++ b/src/xrtm_eig_util.c
@@ -155,7 +155,7 @@ static void eig_func_gen_real(int n_quad, double **A, double *evals,
           dasymtx_(*evecs, *w1, evals, &n_quad, &n_quad, &n_quad, &ier, wkd);
           if (ier) {
                fprintf(stderr, "ERROR: dasymtx() info = %d\n", ier);
-               exit(1);
+               work_failed(&work);
           }
 
           dmat_trans(w1, evecs, n_quad, n_quad);
@@ -201,7 +201,7 @@ static void eig_func_gen_real(int n_quad, double **A, double *evals,
           rg_(&n_quad, &n_quad, *evecs, evals, v1, &matz, *w1, iv1, fv1, &ierr);
           if (ierr) {
                fprintf(stderr, "ERROR: rg() info = %d\n", ierr);
-               exit(1);
+               work_failed(&work);
           }
 
           dmat_trans(w1, evecs, n_quad, n_quad);
@@ -230,7 +230,7 @@ static void eig_func_gen_real(int n_quad, double **A, double *evals,
                  &n_quad, dwork, &lwork, &info);
           if (info) {
                fprintf(stderr, "ERROR: dgeev() info = %d\n", info);
-               exit(1);
+               work_failed(&work);
           }
 
           dmat_trans(w1, evecs, n_quad, n_quad);
@@ -242,7 +242,7 @@ static void eig_func_gen_real(int n_quad, double **A, double *evals,
 /*******************************************************************************
  *
  ******************************************************************************/
-static void eigen_derivatives_real(int i, int n_quad, int n_derivs, double **gamma, double *evals_r, double *evals_i, double **evecs, double ***gamma_l, double **evals_r_l, double **evals_i_l, double ***evecs_l, uchar *derivs, double **A, double *B, int *ip, double *v1) {
+static void eigen_derivatives_real(int i, int n_quad, int n_derivs, double **gamma, double *evals_r, double *evals_i, double **evecs, double ***gamma_l, double **evals_r_l, double **evals_i_l, double ***evecs_l, uchar *derivs, double **A, double *B, int *ip, double *v1, work_data work) {
 
      int j;
      int k;
@@ -269,7 +269,8 @@ static void eigen_derivatives_real(int i, int n_quad, int n_derivs, double **gam
      if (evals_i_l)
           perturb_zero_elems(n_quad + 1, A);
 */
-     dmat_getrf(A, n_quad + 1, n_quad + 1, ip);
+     if (dmat_getrf(A, n_quad + 1, n_quad + 1, ip))
+          work_failed(&work);
 
      for (j = 0; j < n_quad; ++j)
           v1[j] = evecs[j][i];
@@ -344,7 +345,7 @@ static void eig_1n_gen_real(int n_quad, int n_derivs,
 */
                     zero_eigen_derivs(i, n_quad, n_derivs, evals_l, NULL, evecs_l, derivs);
                else
-                    eigen_derivatives_real(i, n_quad, n_derivs, gamma, evals, NULL, evecs, gamma_l, evals_l, NULL, evecs_l, derivs, A, B, i1, v1);
+                    eigen_derivatives_real(i, n_quad, n_derivs, gamma, evals, NULL, evecs, gamma_l, evals_l, NULL, evecs_l, derivs, A, B, i1, v1, work);
 
                if (save_tree.t) {
                     copy_array1_i(save->ip[i], i1, n_quad + 1);
@@ -389,7 +390,7 @@ static void eig_func_gen_complex(int n_quad, double **A, double *evals_r, double
           rg_(&n_quad, &n_quad, *w1, evals_r, evals_i, &matz, *w2, iv1, fv1, &ierr);
           if (ierr) {
                fprintf(stderr, "ERROR: rg() info = %d\n", ierr);
-               exit(1);
+               work_failed(&work);
           }
 
           dmat_trans(w2, evecs, n_quad, n_quad);
@@ -416,7 +417,7 @@ static void eig_func_gen_complex(int n_quad, double **A, double *evals_r, double
                  *w2, &n_quad, ework, &lwork, &info);
           if (info) {
                fprintf(stderr, "ERROR: dgeev() info = %d\n", info);
-               exit(1);
+               work_failed(&work);
           }
 
           dmat_trans(w2, evecs, n_quad, n_quad);
@@ -499,7 +500,7 @@ void eig_1n_gen_complex(int n_quad, int n_derivs,
 */
                          zero_eigen_derivs(i, n_quad, n_derivs, evals_r_l, evals_i_l, evecs_l, derivs);
                     else
-                         eigen_derivatives_real(i, n_quad, n_derivs, gamma, evals_r, evals_i, evecs, gamma_l, evals_r_l, evals_i_l, evecs_l, derivs, Ar, Br, ip, v1);
+                         eigen_derivatives_real(i, n_quad, n_derivs, gamma, evals_r, evals_i, evecs, gamma_l, evals_r_l, evals_i_l, evecs_l, derivs, Ar, Br, ip, v1, work);
 
                     if (save_tree.t) {
                          copy_array1_i(save->ip[i], ip, n_quad + 1);
@@ -528,7 +529,8 @@ void eig_1n_gen_complex(int n_quad, int n_derivs,
                     for (j = 0; j < n_quad; ++j)
                          Ac[n_quad][j+1] = (evecs[j][i1] + _Complex_I * evecs[j][i2]);
 
-                    zmat_getrf(Ac, n_quad + 1, n_quad + 1, ip);
+                    if (zmat_getrf(Ac, n_quad + 1, n_quad + 1, ip))
+                         work_failed(&work);
 
                     for (j = 0; j < n_quad; ++j) {
                          v1[j] = evecs[j][i1];
diff --git a/src/xrtm_eig_util_a.c b/src/xrtm_eig_util_a.c
index 12f29b3..d674619 100644
--- a/src/xrtm_eig_util_a.c
+++ b/src/xrtm_eig_util_a.c
@@ -21,7 +21,7 @@
 /*******************************************************************************
  *
  ******************************************************************************/
-static void eigen_derivatives_real_a(int i, int n_quad, double **gamma, double *evals_r, double *evals_i, double **evecs, double **gamma_a, double *evals_r_a, double *evals_i_a, double **evecs_a, double **A, double *B, int *ip, int flag) {
+static void eigen_derivatives_real_a(int i, int n_quad, double **gamma, double *evals_r, double *evals_i, double **evecs, double **gamma_a, double *evals_r_a, double *evals_i_a, double **evecs_a, double **A, double *B, int *ip, int flag, work_data work) {
 
      int j;
      int k;
@@ -57,7 +57,8 @@ if (! flag) {
      if (evals_i_a)
           perturb_zero_elems(n_quad + 1, A);
 */
-     dmat_getrf(A, n_quad + 1, n_quad + 1, ip);
+     if (dmat_getrf(A, n_quad + 1, n_quad + 1, ip))
+          work_failed(&work);
 }
      B[0] = evals_r_a[i];
 
@@ -136,7 +137,7 @@ void eig_1n_gen_real_a(int n_quad,
      A  = get_work_d2(&work, n_quad + 1, n_quad + 1);
 */
      for (i = 0; i < n_quad; ++i)
-          eigen_derivatives_real_a(i, n_quad, gamma, evals, NULL, evecs, gamma_a, evals_a, NULL, evecs_a, save->A[i], B, save->ip[i], save->flag);
+          eigen_derivatives_real_a(i, n_quad, gamma, evals, NULL, evecs, gamma_a, evals_a, NULL, evecs_a, save->A[i], B, save->ip[i], save->flag, work);
 save->flag = 1;
 }
 
@@ -215,7 +216,7 @@ void eig_1n_gen_complex_a(int n_quad,
 
      for (i = 0; i < n_quad; ++i) {
           if (evals_i[i] == 0.)
-               eigen_derivatives_real_a(i, n_quad, gamma, evals_r, evals_i, evecs, gamma_a, evals_r_a, evals_i_a, evecs_a,save->A[i], Br, save->ip[i], save->flag);
+               eigen_derivatives_real_a(i, n_quad, gamma, evals_r, evals_i, evecs, gamma_a, evals_r_a, evals_i_a, evecs_a,save->A[i], Br, save->ip[i], save->flag, work);
           else
           if (evals_i[i] > 0.) {
                i1 = i;
@@ -237,7 +238,8 @@ void eig_1n_gen_complex_a(int n_quad,
                for (j = 0; j < n_quad; ++j)
                     Ac[n_quad][j+1] = (evecs[j][i1] + _Complex_I * evecs[j][i2]);
 
-               zmat_getrf(Ac, n_quad + 1, n_quad + 1, ip);
+               if (zmat_getrf(Ac, n_quad + 1, n_quad + 1, ip))
+                    work_failed(&work);
 
                Bc[0]  = evals_r_a[i1] + _Complex_I * evals_i_a[i1];
                Bc[0] += evals_r_a[i2] - _Complex_I * evals_i_a[i2];
diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 57ae481..5140d38 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -758,21 +758,22 @@ if (thermal) {
       *
       *-----------------------------------------------------------------------*/
 #ifndef USE_BANDED_SOLVER
-     dmat_getrf(A, 4 * n_layers, 4 * n_layers, ipiv);
+     if (dmat_getrf(A, 4 * n_layers, 4 * n_layers, ipiv))
+          work_failed(&work);
 
      dmat_getrs(A, &b, 4 * n_layers, 1, ipiv);
 #else
      dgbtrf_(&n_comp, &n_comp, &n_diags, &n_diags, *A, &m_comp, ipiv, &info);
      if (info) {
           fprintf(stderr, "ERROR: dgbtrf() info = %d\n", info);
-          exit(1);
+          work_failed(&work);
      }
 
      dgbtrs_("N", &n_comp, &n_diags, &n_diags, &nrhs, *A, &m_comp, ipiv, b,
              &n_comp, &info);
      if (info) {
           fprintf(stderr, "ERROR: dgbtrs() info = %d\n", info);
-          exit(1);
+          work_failed(&work);
      }
 #endif
 
diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 4dba85b..7a0ef52 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5690,7 +5690,10 @@ int xrtm_pade_params(xrtm_data *d, int i_four, int i_layer, int *pade_s, int *pa
      if (d->options & XRTM_OPTION_CALC_DERIVS)
           flag = flags_or(d->derivs.layers, d->n_derivs) | flags_or(d->derivs.sources, d->n_derivs);
 
-     pade_get_s_and_r(r_p, t_p, d->n_quad_v, d->ltau[i_layer], d->n_umus, d->umus, pade_s, pade_r, flag);
+     if (pade_get_s_and_r(r_p, t_p, d->n_quad_v, d->ltau[i_layer], d->n_umus, d->umus, pade_s, pade_r, flag)) {
+          fprintf(stderr, "ERROR: pade_get_s_and_r()\n");
+          return XRTM_INT_ERROR;
+     }
 
      return 0;
 }
diff --git a/src/xrtm_mem_bvp_x.c b/src/xrtm_mem_bvp_x.c
index fdc601d..be5cff2 100644
--- a/src/xrtm_mem_bvp_x.c
+++ b/src/xrtm_mem_bvp_x.c
@@ -207,12 +207,16 @@ static void SOLVE_BVP(int n_quad, int n_stokes, int n_derivs, int n_layers,
            *
            *------------------------------------------------------------------*/
           xmat_sub(X_p[i], X_m[i], a_inv[i], n_quad_v, n_quad_v);
-          xmat_getrf(a_inv[i], n_quad_v, n_quad_v, i1);
-          xmat_getri(a_inv[i], n_quad_v, i1, *w1, n_quad_v * n_quad_v);
+          if (xmat_getrf(a_inv[i], n_quad_v, n_quad_v, i1))
+               work_failed(&work);
+          if (xmat_getri(a_inv[i], n_quad_v, i1, *w1, n_quad_v * n_quad_v))
+               work_failed(&work);
 
           xmat_add(X_p[i], X_m[i], b_inv[i], n_quad_v, n_quad_v);
-          xmat_getrf(b_inv[i], n_quad_v, n_quad_v, i2);
-          xmat_getri(b_inv[i], n_quad_v, i2, *w1, n_quad_v * n_quad_v);
+          if (xmat_getrf(b_inv[i], n_quad_v, n_quad_v, i2))
+               work_failed(&work);
+          if (xmat_getri(b_inv[i], n_quad_v, i2, *w1, n_quad_v * n_quad_v))
+               work_failed(&work);
 
           xmat_add(a_inv[i], b_inv[i], X_i_11[i], n_quad_v, n_quad_v);
           xmat_scale(.5, X_i_11[i], X_i_11[i], n_quad_v, n_quad_v);
@@ -308,21 +312,22 @@ static void SOLVE_BVP(int n_quad, int n_stokes, int n_derivs, int n_layers,
       *
       *-----------------------------------------------------------------------*/
 #ifndef USE_BANDED_SOLVER
-     xmat_getrf(A, n_comp, n_comp, ipiv);
+     if (xmat_getrf(A, n_comp, n_comp, ipiv))
+          work_failed(&work);
 
      xmat_getrs(A, &B, n_comp, 1, ipiv);
 #else
      xgbtrf_(&n_comp, &n_comp, &n_diags, &n_diags, (TYPE *) *A, &m_comp, ipiv, &info);
      if (info) {
           fprintf(stderr, "ERROR: xgbtrf() info = %d\n", info);
-          exit(1);
+          work_failed(&work);
      }
 
      xgbtrs_("N", &n_comp, &n_diags, &n_diags, &nrhs, (TYPE *) *A, &m_comp, ipiv,
              B, &n_comp, &info);
      if (info) {
           fprintf(stderr, "ERROR: xgbtrs() info = %d\n", info);
-          exit(1);
+          work_failed(&work);
      }
 #endif
 
@@ -538,7 +543,7 @@ static void SOLVE_BVP(int n_quad, int n_stokes, int n_derivs, int n_layers,
                   &m_comp, ipiv, B_l[m], &n_comp, &info);
           if (info) {
                fprintf(stderr, "ERROR: xgbtrs() info = %d\n", info);
-               exit(1);
+               work_failed(&work);
           }
 #endif
      }
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 13a3edf..0510f20 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2286,8 +2286,12 @@ static int get_layer_R_T_S_U_W_V
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (d->omega[i_layer] == 0. || i_four >= d->n_coef_layer[i_layer])
-          no_scatter_r_t_s(d->n_quad_v_x, d->n_derivs, d->qx_v, d->qw_v, d->ltau[i_layer], ltau_l, *R_p, *T_p, *R_m, *T_m, *S_p, *S_m, *Sl_p, *Sl_m, *R_p_l, *T_p_l, *R_m_l, *T_m_l, *S_p_l, *S_m_l, *Sl_p_l, *Sl_m_l, d->options & XRTM_OPTION_SOURCE_SOLAR, d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0, derivs_layers, derivs_beam, derivs_thermal);
+     if (d->omega[i_layer] == 0. || i_four >= d->n_coef_layer[i_layer]) {
+          if (no_scatter_r_t_s(d->n_quad_v_x, d->n_derivs, d->qx_v, d->qw_v, d->ltau[i_layer], ltau_l, *R_p, *T_p, *R_m, *T_m, *S_p, *S_m, *Sl_p, *Sl_m, *R_p_l, *T_p_l, *R_m_l, *T_m_l, *S_p_l, *S_m_l, *Sl_p_l, *Sl_m_l, d->options & XRTM_OPTION_SOURCE_SOLAR, d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0, derivs_layers, derivs_beam, derivs_thermal)) {
+               fprintf(stderr, "ERROR: no_scatter_r_t_s()\n");
+               return -1;
+          }
+     }
 
 
      /*-------------------------------------------------------------------------
diff --git a/src/xrtm_pade_rts.c b/src/xrtm_pade_rts.c
index 73c04cf..0718412 100644
--- a/src/xrtm_pade_rts.c
+++ b/src/xrtm_pade_rts.c
@@ -31,7 +31,7 @@ matd1d2 NONE;
 #include "pade_table.h"
 #include "pade_table_l.h"
 
-void pade_get_s_and_r(double **r_, double **t_, int n_quad,
+int pade_get_s_and_r(double **r_, double **t_, int n_quad,
                       double ltau, int n_umus, double *umus, int *s, int *r, int derivs) {
 
      int i;
@@ -59,9 +59,9 @@ void pade_get_s_and_r(double **r_, double **t_, int n_quad,
      if (i < 0)
           i = 0;
      else
-     if (i > pade_table_n_ltaus) {
+     if (i > pade_table_n_ltaus - 1) {
           fprintf(stderr, "ERROR: pade_get_s_and_r(): ltau index too high\n");
-          exit(1);
+          return -1;
      }
 
      j = pade_table_n_angles -
@@ -71,7 +71,7 @@ void pade_get_s_and_r(double **r_, double **t_, int n_quad,
           j = 0;
      if (j > pade_table_n_angles - 1) {
           fprintf(stderr, "ERROR: pade_get_s_and_r(): angle index too high\n");
-          exit(1);
+          return -1;
      }
 
      if (! derivs) {
@@ -82,6 +82,8 @@ void pade_get_s_and_r(double **r_, double **t_, int n_quad,
           *s = pade_table_s_l[i][j];
           *r = pade_table_r_l[i][j];
      }
+
+     return 0;
 }
 
 
@@ -1947,14 +1949,16 @@ symmetric  = 0;
      /* lu1 = LU D11 */
      dmat_copy(lu1, D11.a, n_quad_v, n_quad_v);
 if (! symmetric) {
-     dmat_getrf(lu1, n_quad_v, n_quad_v, i1);
+     if (dmat_getrf(lu1, n_quad_v, n_quad_v, i1))
+          work_failed(&work);
      if (check_condition) {
           aa = dmat_p_one_norm(D11.a, n_quad_v, n_quad_v);
           aa = dmat_gecon('1', lu1, n_quad_v, aa, i2, *w1);
      }
 }
 else {
-     dmat_potrf(lu1, n_quad_v);
+     if (dmat_potrf(lu1, n_quad_v))
+          work_failed(&work);
      if (check_condition) {
           aa = dmat_p_one_norm(D11.a, n_quad_v, n_quad_v);
           aa = dmat_pocon(lu1, n_quad_v, aa, i2, *w1);
@@ -1989,7 +1993,8 @@ else
      /* lu2 = LU a = (D21 * c - N22) */
      dmat_mul(D21.a, c, n_quad_v, n_quad_v, n_quad_v, lu2);
      dmat_sub(lu2, N22.a, lu2, n_quad_v, n_quad_v);
-     dmat_getrf(lu2, n_quad_v, n_quad_v, i2);
+     if (dmat_getrf(lu2, n_quad_v, n_quad_v, i2))
+          work_failed(&work);
 if (! symmetric2) {
      /*          b = (D21 * d - D22) */
      dmat_mul(D21.a, d, n_quad_v, n_quad_v, n_quad_v, b);
@@ -2194,7 +2199,8 @@ else
 
           /* lu3 = LU b */
           dmat_copy(lu3, b, n_quad_v, n_quad_v);
-          dmat_getrf(lu3, n_quad_v, n_quad_v, i3);
+          if (dmat_getrf(lu3, n_quad_v, n_quad_v, i3))
+               work_failed(&work);
 
           /* e = b-1 * (N12 - D21 * f) */
           dmat_mul(D21.a, f, n_quad_v, n_quad_v, n_quad_v, w1);
@@ -2392,8 +2398,10 @@ void rtm_pade_rts2(int n_quad, int n_stokes, int n_derivs, double F_0,
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (pade_s < 0 || pade_r <= 0)
-          pade_get_s_and_r(r_p, t_p, n_quad_v, ltau, n_umus, umus, &pade_s, &pade_r, flags_or(derivs_layers, n_derivs));
+     if (pade_s < 0 || pade_r <= 0) {
+          if (pade_get_s_and_r(r_p, t_p, n_quad_v, ltau, n_umus, umus, &pade_s, &pade_r, flags_or(derivs_layers, n_derivs)))
+               work_failed(&work);
+     }
 
      pade_coefs_x(pade_r, pade_r, 1., pade_c);
 
diff --git a/src/xrtm_radiance.c b/src/xrtm_radiance.c
index 72041c3..8eac004 100644
--- a/src/xrtm_radiance.c
+++ b/src/xrtm_radiance.c
@@ -173,7 +173,8 @@ void radiance_boa_ref(int n_quad, int n_derivs,
 
      dmat_mul(R12_p, R23_m, n_quad, n_quad, n_quad, w1);
      dmat_i_sub(w1, w1, n_quad);
-     dmat_getrf(w1, n_quad, n_quad, i1);
+     if (dmat_getrf(w1, n_quad, n_quad, i1))
+          work_failed(&work);
 
      dm_v_mul(R12_p, I3_p, n_quad, n_quad, I2_m);
      dvec_add(I2_m, S12_m, I2_m, n_quad);
@@ -381,7 +382,8 @@ void radiance_boa_all(int n_quad, int n_derivs,
       *-----------------------------------------------------------------------*/
      dmat_mul(R12_p, R23_m, n_quad, n_quad, n_quad, w1);
      dmat_i_sub(w1, w1, n_quad);
-     dmat_getrf(w1, n_quad, n_quad, i1);
+     if (dmat_getrf(w1, n_quad, n_quad, i1))
+          work_failed(&work);
 
      if (save_tree.t) {
           copy_array1_i(save->ip, i1, n_quad);
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 802e099..c0491a2 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -989,21 +989,22 @@ if (n_derivs > 0) {
       *
       *-----------------------------------------------------------------------*/
 #ifndef USE_BANDED_SOLVER
-     dmat_getrf(A, 6 * n_layers, 6 * n_layers, ipiv);
+     if (dmat_getrf(A, 6 * n_layers, 6 * n_layers, ipiv))
+          work_failed(&work);
 
      dmat_getrs(A, &b, 6 * n_layers, 1, ipiv);
 #else
      dgbtrf_(&n_comp, &n_comp, &n_diags, &n_diags, *A, &m_comp, ipiv, &info);
      if (info) {
           fprintf(stderr, "ERROR: dgbtrf() info = %d\n", info);
-          exit(1);
+          work_failed(&work);
      }
 
      dgbtrs_("N", &n_comp, &n_diags, &n_diags, &nrhs, *A, &m_comp, ipiv, b,
              &n_comp, &info);
      if (info) {
           fprintf(stderr, "ERROR: dgbtrs() info = %d\n", info);
-          exit(1);
+          work_failed(&work);
      }
 #endif
 
diff --git a/src/xrtm_source.c b/src/xrtm_source.c
index fd4303e..9c8a2e5 100644
--- a/src/xrtm_source.c
+++ b/src/xrtm_source.c
@@ -102,7 +102,8 @@ void build_source_vectors_solar_classic_1n
      for (i = 0; i < n_quad_v; ++i)
           f[i][i] -= aa;
 
-     dmat_getrf(f, n_quad_v, n_quad_v, i1);
+     if (dmat_getrf(f, n_quad_v, n_quad_v, i1))
+          work_failed(&work);
 
      if (save_tree.t) {
           copy_array1_i(save->ip, i1, n_quad_v);
@@ -330,7 +331,8 @@ void build_source_vectors_solar_classic_2n2
           ii++;
      }
 
-     dmat_getrf(w1, n_quad_v2, n_quad_v2, i1);
+     if (dmat_getrf(w1, n_quad_v2, n_quad_v2, i1))
+          work_failed(&work);
 
      a = F_0 / (4. * PI);
 
@@ -466,7 +468,8 @@ void build_thermal_source_coefficients
           ii++;
      }
 
-     dmat_getrf(w1, n_quad_v2, n_quad_v2, i1);
+     if (dmat_getrf(w1, n_quad_v2, n_quad_v2, i1))
+          work_failed(&work);
 
      aa = 1. - omega;
 
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 394385c..7e76359 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -671,7 +671,8 @@ if (solar) {
       *
       *-----------------------------------------------------------------------*/
 #if SOLVER == LAPACK_GENERAL_SOLVER
-     dmat_getrf(A, 2 * n_layers, 2 * n_layers, ipiv);
+     if (dmat_getrf(A, 2 * n_layers, 2 * n_layers, ipiv))
+          work_failed(&work);
 /*
      dmat_getrs(A, &b, 2 * n_layers, 1, ipiv);
 */
@@ -679,7 +680,7 @@ if (solar) {
 
      if (info) {
           fprintf(stderr, "ERROR: dgetrs() info = %d\n", info);
-          exit(1);
+          work_failed(&work);
      }
 
      x = b;
@@ -687,14 +688,14 @@ if (solar) {
      dgbtrf_(&n_comp, &n_comp, &n_diags, &n_diags, *A, &m_comp, ipiv, &info);
      if (info) {
           fprintf(stderr, "ERROR: dgbtrf() info = %d\n", info);
-          exit(1);
+          work_failed(&work);
      }
 
      dgbtrs_("N", &n_comp, &n_diags, &n_diags, &nrhs, *A, &m_comp, ipiv, b,
              &n_comp, &info);
      if (info) {
           fprintf(stderr, "ERROR: dgbtrs() info = %d\n", info);
-          exit(1);
+          work_failed(&work);
      }
 
      x = b;
@@ -841,7 +842,7 @@ if (0)
 
           if (info) {
                fprintf(stderr, "ERROR: dgetrs() info = %d\n", info);
-               exit(1);
+               work_failed(&work);
           }
 
           x_l = b_l;
@@ -850,7 +851,7 @@ if (0)
                   &n_comp, &info);
           if (info) {
                fprintf(stderr, "ERROR: dgbtrs() info = %d\n", info);
-               exit(1);
+               work_failed(&work);
           }
 
           x_l = b_l;
diff --git a/src/xrtm_utility.c b/src/xrtm_utility.c
index 9dbb1ac..5a5fcd4 100644
--- a/src/xrtm_utility.c
+++ b/src/xrtm_utility.c
@@ -1418,7 +1418,7 @@ void dmat_mul_D_A2_2(int n_quad1, int n_stokes1, int n_quad2, int n_stokes2, dou
 /*******************************************************************************
  *
  ******************************************************************************/
-void no_scatter_r_t_s(int n_quad, int n_derivs,
+int no_scatter_r_t_s(int n_quad, int n_derivs,
                       double *qx_v, double *qw_v, double ltau, double *ltau_l,
                       double **R_p, double **T_p, double **R_m, double **T_m,
                       double *S_p, double *S_m, double *Sl_p, double *Sl_m,
@@ -1439,7 +1439,7 @@ void no_scatter_r_t_s(int n_quad, int n_derivs,
      }
      if (thermal) {
           fprintf(stderr, "ERROR: no_scatter_r_t_s() does not support thermal sources yet\n");
-          exit(1);
+          return -1;
      }
 
      for (i = 0; i < n_quad; ++i)
@@ -1476,4 +1476,6 @@ void no_scatter_r_t_s(int n_quad, int n_derivs,
                     continue;
           }
      }
+
+     return 0;
 }
diff --git a/src/xrtm_work.c b/src/xrtm_work.c
index 4c15909..3450736 100644
--- a/src/xrtm_work.c
+++ b/src/xrtm_work.c
@@ -155,20 +155,28 @@ void work_free(work_data *work) {
 
 
 /*******************************************************************************
- *
+ * Ends the solution that uses this work memory (see solution() in
+ * xrtm_interface.c).
  ******************************************************************************/
-static void work_failed(work_shared *w) {
-
-     fprintf(stderr, "ERROR: memory allocation failed\n");
+void work_failed(work_data *work) {
 
-     if (w->env)
-          longjmp(*w->env, -1);
+     if (work->w->env)
+          longjmp(*work->w->env, -1);
 
      exit(1);
 }
 
 
 
+static void work_alloc_failed(work_data *work) {
+
+     fprintf(stderr, "ERROR: memory allocation failed\n");
+
+     work_failed(work);
+}
+
+
+
 static void alloc_page(work_data *work, size_t length) {
 
      work_shared *w;
@@ -183,7 +191,7 @@ static void alloc_page(work_data *work, size_t length) {
 
      w->pages  [work->i_page] = (uchar *) malloc(length);
      if (! w->pages[work->i_page])
-          work_failed(w);
+          work_alloc_failed(work);
 
      w->n_bytes[work->i_page] = length;
 }
@@ -217,7 +225,7 @@ static size_t get_work_common(work_data *work, size_t length) {
 
           if (work->i_page >= WORK_MAX_PAGES) {
                fprintf(stderr, "ERROR: number of required pages greater than WORK_MAX_PAGES\n");
-               work_failed(work->w);
+               work_alloc_failed(work);
           }
 
           if (length > work->w->n_bytes[work->i_page])
@@ -1085,7 +1093,7 @@ void *work_get1(work_data *work, enum work_type type) {
      void *list;
 
      if (! (list = get_list1(work, type)))
-          work_failed(work->w);
+          work_alloc_failed(work);
 
      return list;
 }
@@ -1248,7 +1256,7 @@ void *work_get2(work_data *work, enum work_type type, enum work_v_type v_type, u
      void *list;
 
      if (! (list = get_list2(work, type, v_type, flags)))
-          work_failed(work->w);
+          work_alloc_failed(work);
 
      return list;
 }
@@ -1419,7 +1427,7 @@ void *work_get3(work_data *work, enum work_type type, enum work_v_type v_type, u
      void *list;
 
      if (! (list = get_list3(work, type, v_type, flags)))
-          work_failed(work->w);
+          work_alloc_failed(work);
 
      return list;
 }
-- 
2.43.0


From f114ebee84630bf9ee2ffa03ecfa36fd2c1619d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:04 +0000
Subject: [PATCH 028/115] fix: an undefined beam transmittance made eig_add
 dereference a null pointer

---
 src/xrtm_source.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/xrtm_source.c b/src/xrtm_source.c
index 9c8a2e5..559f223 100644
--- a/src/xrtm_source.c
+++ b/src/xrtm_source.c
@@ -842,7 +842,7 @@ void build_global_source_solar2
 
      v1 = get_work1(&work, WORK_DX);
      v2 = get_work1(&work, WORK_DX);
-if (atran >= 0.) {
+if (! (atran < 0.)) {
      dm_v_mul(T_p, F_p, n_quad_v, n_quad_v, v1);
      dvec_scale(atran, v1, v1, n_quad_v);
 }
@@ -852,7 +852,7 @@ else
      dm_v_mul(R_m, F_m, n_quad_v, n_quad_v, v2);
      dvec_sub(v1, v2, S_p, n_quad_v);
 
-if (atran >= 0.) {
+if (! (atran < 0.)) {
      dm_v_mul(R_p, F_p, n_quad_v, n_quad_v, v1);
      dvec_sub(F_m, v1, v1, n_quad_v);
      dvec_scale(atran, v1, v1, n_quad_v);
@@ -869,7 +869,7 @@ else {
 
           for (i = 0; i < n_derivs; ++i) {
                if (derivs_layers[i]) {
-if (atran >= 0.) {
+if (! (atran < 0.)) {
                     dvec_scale(atran, F_p_l[i], v1, n_quad_v);
                     dvec_scale(atran_l[i], F_p, v2, n_quad_v);
                     dvec_add(v1, v2, A, n_quad_v);
@@ -877,7 +877,7 @@ if (atran >= 0.) {
 else
                     dvec_copy(A, F1_p_l[i], n_quad_v);
 
-if (atran >= 0.) {
+if (! (atran < 0.)) {
                     dm_v_mul(T_p_l[i], F_p, n_quad_v, n_quad_v, v1);
                     dvec_scale(atran, v1, v1, n_quad_v);
 }
@@ -894,7 +894,7 @@ else
                     dm_v_mul(R_m, F_m_l[i], n_quad_v, n_quad_v, v2);
                     dvec_sub(v1, v2, S_p_l[i], n_quad_v);
 
-if (atran >= 0.) {
+if (! (atran < 0.)) {
                     dvec_scale(atran, F_m_l[i], v1, n_quad_v);
 
                     dvec_scale(atran_l[i], F_m, v2, n_quad_v);
@@ -908,7 +908,7 @@ else
 
                     dm_v_mul(T_m, F_m_l[i], n_quad_v, n_quad_v, v2);
                     dvec_sub(v1, v2, v1, n_quad_v);
-if (atran >= 0.) {
+if (! (atran < 0.)) {
                     dm_v_mul(R_p_l[i], F_p, n_quad_v, n_quad_v, v2);
                     dvec_scale(atran, v2, v2, n_quad_v);
 }
@@ -921,7 +921,7 @@ else
                }
                else
                if (derivs_beam[i] && atran_l[i] != 0.) {
-if (atran >= 0.) {
+if (! (atran < 0.)) {
                     dvec_scale(atran, F_p_l[i], v1, n_quad_v);
                     dvec_scale(atran_l[i], F_p, v2, n_quad_v);
                     dvec_add(v1, v2, A, n_quad_v);
@@ -935,7 +935,7 @@ else
                     dm_v_mul(R_m, F_m_l[i], n_quad_v, n_quad_v, v2);
                     dvec_sub(v1, v2, S_p_l[i], n_quad_v);
 
-if (atran >= 0.) {
+if (! (atran < 0.)) {
                     dvec_scale(atran, F_m_l[i], v1, n_quad_v);
 
                     dvec_scale(atran_l[i], F_m, v2, n_quad_v);
-- 
2.43.0


From 936d66843b1273c85471a6b71a5236e152e0dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:39 +0000
Subject: [PATCH 029/115] fix: xrtm_solution_2() accepted calls that
 xrtm_solution() rejects

---
 src/xrtm_interface.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 7a0ef52..9eae9e2 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5783,7 +5783,7 @@ static int solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
 
 
 
-int xrtm_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) {
+static int check_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis) {
 
      if (! (solver & XRTM_SOLVERS_ALL)) {
           fprintf(stderr, "ERROR: invalid value for solver: %d\n", solver);
@@ -5827,6 +5827,21 @@ int xrtm_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int
           return XRTM_INT_ERROR;
      }
 #endif
+     return 0;
+}
+
+
+
+/*******************************************************************************
+ *
+ ******************************************************************************/
+int xrtm_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) {
+
+     if (check_solution(d, solver, solutions, n_out_phis, out_phis)) {
+          fprintf(stderr, "ERROR: check_solution()\n");
+          return XRTM_INT_ERROR;
+     }
+
      SOLUTION_PREPROCESS();
 
      if (solution(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l)) {
@@ -6142,6 +6157,13 @@ int xrtm_solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, i
 
      jmp_buf env;
 
+     if (check_solution(d, solver, solutions, n_out_phis, out_phis)) {
+          fprintf(stderr, "ERROR: check_solution()\n");
+          return XRTM_INT_ERROR;
+     }
+
+     SOLUTION_PREPROCESS();
+
      options  = d->options;
      n_derivs = d->n_derivs;
 
-- 
2.43.0


From fe269547e7c58aa16096ee1faa17d1ffe35afe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:39 +0000
Subject: [PATCH 030/115] fix: reverse derivatives of solvers without adjoint
 code were returned as zero

---
 src/xrtm_interface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 9eae9e2..c6b5968 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5986,6 +5986,12 @@ static int solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions,
           return XRTM_INT_ERROR;
      }
 
+     if (! (solver & (XRTM_SOLVER_EIG_ADD | XRTM_SOLVER_EIG_BVP | XRTM_SOLVER_SINGLE))) {
+          fprintf(stderr, "ERROR: reverse derivatives are not supported by solver %s\n",
+                  xrtm_solver_mask_to_name(solver));
+          return XRTM_INT_ERROR;
+     }
+
 
      /*-------------------------------------------------------------------------
       *
-- 
2.43.0


From 260793b929e879fe1d0215001e8b59823f9485b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:18 +0000
Subject: [PATCH 031/115] fix: adjoint solutions used saved results that have
 no adjoint trail and left saved results without derivatives

---
 src/xrtm_interface.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index c6b5968..fdbf90f 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -6008,6 +6008,8 @@ static int solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions,
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     xrtm_clear_saved(d);
+
      options  = d->options;
      if (d->options & XRTM_OPTION_CALC_DERIVS)
           d->options ^= XRTM_OPTION_CALC_DERIVS;
@@ -6148,6 +6150,8 @@ static int solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions,
      }
 
 
+     xrtm_clear_saved(d);
+
      return 0;
 }
 
-- 
2.43.0


From d6be37f345e0b333953d83aa9caf5bb21fa90588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:07 +0000
Subject: [PATCH 032/115] fix: saved intermediates for the adjoint overflowed
 when the solver, outputs or inputs changed

---
 src/xrtm_model.c   | 20 ++++++++++++++++----
 src/xrtm_model_a.c |  8 ++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 0510f20..0782aeb 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5379,12 +5379,12 @@ if (! (solver & XRTM_SOLVER_TWO_STREAM)) {
                     }
                }
 
-               copy_array2_d(save->r_p[i], r_p[i], d->n_umus_v, d->n_quad_v_x);
-               copy_array2_d(save->t_p[i], t_p[i], d->n_umus_v, d->n_quad_v_x);
+               copy_array2_d(save->r_p[i], r_p[i], d->n_quad_v_x, d->n_quad_v_x);
+               copy_array2_d(save->t_p[i], t_p[i], d->n_quad_v_x, d->n_quad_v_x);
 
                if (d->options & XRTM_OPTION_VECTOR) {
-                    copy_array2_d(save->r_m[i], r_m[i], d->n_umus_v, d->n_quad_v_x);
-                    copy_array2_d(save->t_m[i], t_m[i], d->n_umus_v, d->n_quad_v_x);
+                    copy_array2_d(save->r_m[i], r_m[i], d->n_quad_v_x, d->n_quad_v_x);
+                    copy_array2_d(save->t_m[i], t_m[i], d->n_quad_v_x, d->n_quad_v_x);
                }
 
           }
@@ -6410,6 +6410,18 @@ int get_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int
      int i;
      int j;
 
+     /* What is kept for the adjoint depends on the solver, the outputs and the inputs. */
+     if (d->options & XRTM_OPTION_REVERSE_DERIVS) {
+          save_tree_free(&d->save_tree);
+
+          if (save_tree_init(&d->save_tree)) {
+               fprintf(stderr, "ERROR: save_tree_init()\n");
+               return -1;
+          }
+
+          save_tree = d->save_tree;
+     }
+
      /* The adding solvers share the saved layer and total R, T, and S. */
      if (solver & XRTM_SOLVERS_ADDING && (int) solver != d->saved_solver) {
           for (i = 0; i < d->n_four; ++i) {
diff --git a/src/xrtm_model_a.c b/src/xrtm_model_a.c
index 69dc4eb..a216d02 100644
--- a/src/xrtm_model_a.c
+++ b/src/xrtm_model_a.c
@@ -2458,12 +2458,12 @@ int forward_save_fourier_get_bvp_alloc(forward_save_fourier_get_bvp_data *d, int
           }
      }
 
-     d->r_p = alloc_array3_d(n_layers, n_umus_v, n_quad_v_x);
-     d->t_p = alloc_array3_d(n_layers, n_umus_v, n_quad_v_x);
+     d->r_p = alloc_array3_d(n_layers, n_quad_v_x, n_quad_v_x);
+     d->t_p = alloc_array3_d(n_layers, n_quad_v_x, n_quad_v_x);
 
      if (options & XRTM_OPTION_VECTOR) {
-          d->r_m = alloc_array3_d(n_layers, n_umus_v, n_quad_v_x);
-          d->t_m = alloc_array3_d(n_layers, n_umus_v, n_quad_v_x);
+          d->r_m = alloc_array3_d(n_layers, n_quad_v_x, n_quad_v_x);
+          d->t_m = alloc_array3_d(n_layers, n_quad_v_x, n_quad_v_x);
      }
 
      if (surface) {
-- 
2.43.0


From bfe018e49d23d6142b565e80b4c6ba69634db2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:40 +0000
Subject: [PATCH 033/115] fix: results kept by the save options or the adding
 stack were missing from the adjoint solution

---
 src/xrtm_interface.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index fdbf90f..f4afb64 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5934,6 +5934,7 @@ static int solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions,
      int n_mus2;
 
      int options;
+     int options2;
 
      int n_derivs;
 
@@ -6011,6 +6012,12 @@ static int solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions,
      xrtm_clear_saved(d);
 
      options  = d->options;
+
+     /* The adjoint needs all intermediates of this solution. */
+     options2 = options & ~(XRTM_OPTION_SAVE_PHASE_MATS | XRTM_OPTION_SAVE_LOCAL_R_T | XRTM_OPTION_SAVE_LAYER_R_T_S | XRTM_OPTION_SAVE_TOTAL_R_T_S | XRTM_OPTION_STACK_REUSE_ADDING);
+
+     d->options = options2;
+
      if (d->options & XRTM_OPTION_CALC_DERIVS)
           d->options ^= XRTM_OPTION_CALC_DERIVS;
 
@@ -6025,7 +6032,7 @@ static int solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions,
           return XRTM_INT_ERROR;
      }
 
-     d->options  = options;
+     d->options  = options2;
      d->n_derivs = n_derivs;
 
 
@@ -6112,7 +6119,12 @@ static int solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions,
           else
                I_m_a[ii_input][jj_input][kk_input][ll_input] = 1.;
 
-          get_solution_internal_a(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_a, I_m_a, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, NULL, NULL, d->save_tree, work2);
+          if (get_solution_internal_a(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, I_p_a, I_m_a, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, NULL, NULL, d->save_tree, work2)) {
+               fprintf(stderr, "ERROR: get_solution_internal_a()\n");
+               d->options = options;
+               xrtm_clear_saved(d);
+               return XRTM_INT_ERROR;
+          }
 
 
           /*--------------------------------------------------------------------
@@ -6150,6 +6162,8 @@ static int solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions,
      }
 
 
+     d->options = options;
+
      xrtm_clear_saved(d);
 
      return 0;
-- 
2.43.0


From 978b6438146b22fd0a34a6e29591e9e960ac9949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:46 +0000
Subject: [PATCH 034/115] fix: the adjoint of single scattering used
 intermediates that are not kept without a solar beam

---
 src/xrtm_single_a.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/xrtm_single_a.c b/src/xrtm_single_a.c
index 17e5835..bb34f3e 100644
--- a/src/xrtm_single_a.c
+++ b/src/xrtm_single_a.c
@@ -157,6 +157,15 @@ void single_scattered_radiance_up_a(int n_stokes, int n_layers, double F_0, int
      n_umus_v = n_umus * n_stokes;
 
 
+     /*-------------------------------------------------------------------------
+      *
+      *-----------------------------------------------------------------------*/
+     if (F_0 == 0.) {
+          init_array2_d(I_ss_a, n_ulevels, n_umus_v, 0.);
+          return;
+     }
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
@@ -369,6 +378,15 @@ void single_scattered_radiance_dn_a(int n_stokes, int n_layers, double F_0, int
      n_umus_v = n_umus * n_stokes;
 
 
+     /*-------------------------------------------------------------------------
+      *
+      *-----------------------------------------------------------------------*/
+     if (F_0 == 0.) {
+          init_array2_d(I_ss_a, n_ulevels, n_umus_v, 0.);
+          return;
+     }
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-- 
2.43.0


From 2c2b4ea48ae212a72979665b0214f6df9ea38c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:11 +0000
Subject: [PATCH 035/115] fix: the adjoint of a layer without scattering read
 intermediates that are not kept

---
 src/xrtm_model_a.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_model_a.c b/src/xrtm_model_a.c
index a216d02..f7c1056 100644
--- a/src/xrtm_model_a.c
+++ b/src/xrtm_model_a.c
@@ -1103,6 +1103,8 @@ static int get_layer_R_T_S_U_W_V_a
       double **R_p_a, double **T_p_a, double **R_m_a, double **T_m_a,
       double *S_p_a, double *S_m_a, int flag, save_tree_data save_tree, work_data *work) {
 
+     int i;
+
      double b0;
      double b1;
 
@@ -1178,16 +1180,16 @@ static int get_layer_R_T_S_U_W_V_a
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-/*
-     if (d->omega[i_layer] == 0. || i_four >= d->n_coef_layer[i_layer])
-*/
+     if (d->omega[i_layer] == 0. || i_four >= d->n_coef_layer[i_layer]) {
+          for (i = 0; i < d->n_quad_v_x; ++i)
+               d->ltau_a[i_layer] -= (T_p_a[i][i] + T_m_a[i][i]) / d->qx_v[i] * exp(-d->ltau[i_layer] / d->qx_v[i]);
+     }
+
 
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-/*
      else {
-*/
           if (d->options & XRTM_OPTION_SOURCE_THERMAL) {
                b0 = d->levels_b[i_layer];
                b1 = d->levels_b[i_layer + 1];
@@ -1206,9 +1208,8 @@ if (d->derivs.layers_union[i_layer]) {
           }
 }
           update_beam_params_a(d, i_layer, work2);
-/*
      }
-*/
+
      update_opt_props_a(d, i_layer, work2);
 
 
-- 
2.43.0


From 97a73e4c9b5a2c7aa85485180ac0e9e1cd2ca6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:59 +0000
Subject: [PATCH 036/115] fix: the adjoint of eig_add at the lower boundary
 mixed up the two incident radiances

---
 src/xrtm_model_a.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_model_a.c b/src/xrtm_model_a.c
index f7c1056..b34c12c 100644
--- a/src/xrtm_model_a.c
+++ b/src/xrtm_model_a.c
@@ -2344,8 +2344,11 @@ static int fourier_get_add_both_ways_a(xrtm_data *d, int i_four, int solver, dou
                     radiance_slab_a(d->n_quad_v_x, save->R_m, save->T_p, save->S_p, R_m_a, T_p_a, S_p_a, d->I1_m[i_four], d->In_p[i_four], d->I1_m_a[i_four], d->In_p_a[i_four], I_p[i], I_p_a[i], work);
                }
                else
-               if (d->ulevels[i] == d->n_layers)
-                    radiance_slab_a(d->n_quad_v_x, save->R_p, save->T_m, save->S_m, R_p_a, T_m_a, S_m_a, d->I1_m[i_four], d->In_p[i_four], d->I1_m_a[i_four], d->In_p_a[i_four], I_m[i], I_m_a[i], work);
+               if (d->ulevels[i] == d->n_layers) {
+                    dvec_add(d->In_p_a[i_four], I_p_a[i], d->In_p_a[i_four], d->n_quad_v_x);
+
+                    radiance_slab_a(d->n_quad_v_x, save->R_p, save->T_m, save->S_m, R_p_a, T_m_a, S_m_a, d->In_p[i_four], d->I1_m[i_four], d->In_p_a[i_four], d->I1_m_a[i_four], I_m[i], I_m_a[i], work);
+               }
 #ifdef DEBUG
                else {
                    fprintf(stderr, "ERROR: fourier_get_add_both_ways(): end of if / else if\n");
-- 
2.43.0


From 1eedaf5ff0de533f789b4d34b44ed168aeefad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:09 +0000
Subject: [PATCH 037/115] fix: reverse derivatives were wrong or crashed for
 options without adjoint code

---
 src/xrtm_interface.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index f4afb64..c03f894 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5993,6 +5993,31 @@ static int solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions,
           return XRTM_INT_ERROR;
      }
 
+     if (brdf_needs_fourier(d->kernels, d->n_kernels)) {
+          fprintf(stderr, "ERROR: reverse derivatives are only supported for lambertian surfaces\n");
+          return XRTM_INT_ERROR;
+     }
+
+     if (solver & (XRTM_SOLVER_EIG_ADD | XRTM_SOLVER_EIG_BVP)) {
+          if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
+               fprintf(stderr, "ERROR: reverse derivatives with solver %s require option \"%s\"\n",
+                       xrtm_solver_mask_to_name(solver), xrtm_option_mask_to_name(XRTM_OPTION_SOURCE_SOLAR));
+               return XRTM_INT_ERROR;
+          }
+
+          options = d->options & (XRTM_OPTION_OUTPUT_AT_TAUS | XRTM_OPTION_SOURCE_THERMAL);
+          if (solver & XRTM_SOLVER_EIG_ADD)
+               options |= d->options & XRTM_OPTION_TOP_DOWN_ADDING;
+          if (d->n_umus > 0)
+               options |= d->options & XRTM_OPTION_SFI;
+
+          if (options) {
+               fprintf(stderr, "ERROR: reverse derivatives with solver %s do not support option \"%s\"\n",
+                       xrtm_solver_mask_to_name(solver), xrtm_option_mask_to_name(options & -options));
+               return XRTM_INT_ERROR;
+          }
+     }
+
 
      /*-------------------------------------------------------------------------
       *
-- 
2.43.0


From 082b7c2f00fa80735416361c24e8dfad80191fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:23 +0000
Subject: [PATCH 038/115] fix: single scattering at the output angles overwrote
 the intermediates kept for the quadrature angles

---
 src/xrtm_model.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 0782aeb..ca31d7b 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5975,6 +5975,9 @@ static int apply_corrections_fourier(xrtm_data *d, int i_four, double **I_p, dou
                               dvec_copy(m1[k], In_p_l[k] + d->n_quad_v, d->n_umus_v);
                     }
 
+                    if (d->options & XRTM_OPTION_REVERSE_DERIVS)
+                         save_tree_encode_s(&save_tree, "umus");
+
                     single_scattered_radiance_up(d->n_stokes, d->n_derivs, d->n_layers,
                                                  d->F_0,
                                                  d->n_ulevels, d->ulevels, d->utaus2,
@@ -5990,6 +5993,9 @@ static int apply_corrections_fourier(xrtm_data *d, int i_four, double **I_p, dou
                                                  d->derivs.layers, d->derivs.beam,
                                                  save_tree, work);
 
+                    if (d->options & XRTM_OPTION_REVERSE_DERIVS)
+                         save_tree_decode_s(&save_tree, "umus");
+
                     for (k = 0; k < d->n_ulevels; ++k) {
                          dvec_sub(I_p[k]+d->n_quad_v, I[k], I_p[k]+d->n_quad_v, d->n_umus_v);
                          if (d->options & XRTM_OPTION_CALC_DERIVS) {
@@ -6032,6 +6038,9 @@ static int apply_corrections_fourier(xrtm_data *d, int i_four, double **I_p, dou
                               dvec_copy(m1[k], I1_m_l[k] + d->n_quad_v, d->n_umus_v);
                     }
 
+                    if (d->options & XRTM_OPTION_REVERSE_DERIVS)
+                         save_tree_encode_s(&save_tree, "umus");
+
                     single_scattered_radiance_dn(d->n_stokes, d->n_derivs, d->n_layers,
                                                  d->F_0,
                                                  d->n_ulevels, d->ulevels, d->utaus2,
@@ -6048,6 +6057,9 @@ static int apply_corrections_fourier(xrtm_data *d, int i_four, double **I_p, dou
                                                  d->derivs.layers, d->derivs.beam,
                                                  save_tree, work);
 
+                    if (d->options & XRTM_OPTION_REVERSE_DERIVS)
+                         save_tree_decode_s(&save_tree, "umus");
+
                     for (k = 0; k < d->n_ulevels; ++k) {
                          dvec_sub(I_m[k]+d->n_quad_v, I[k], I_m[k]+d->n_quad_v, d->n_umus_v);
                          if (d->options & XRTM_OPTION_CALC_DERIVS) {
-- 
2.43.0


From c0ae56f4300dc62b128069e9725b3b7c7c3f9328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:43 +0000
Subject: [PATCH 039/115] fix: the adjoint of a phase matrix lost its sums when
 a Fourier term is beyond the expansion

---
 src/xrtm_scatter_a.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_scatter_a.c b/src/xrtm_scatter_a.c
index b2b76f7..63a77bc 100644
--- a/src/xrtm_scatter_a.c
+++ b/src/xrtm_scatter_a.c
@@ -215,7 +215,8 @@ void build_phase_vecs_vector_gc_a(int i_four, int n_coef, int n_mus, int n_stoke
      n_mus_v = n_mus * n_stokes1;
 
      if (i_four >= n_coef) {
-          init_array2_d(gc_a, 6, n_coef, 0.);
+          dvec_zero(P_pp_a, n_mus_v);
+          dvec_zero(P_mp_a, n_mus_v);
 
           return;
      }
-- 
2.43.0


From 30d187ece513f2d6f1656dc4380d24d329ab5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 040/115] fix: reverse derivatives ignored linearized isotropic
 incident radiances

---
 src/xrtm_interface.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index c03f894..882a72e 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5998,6 +5998,13 @@ static int solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions,
           return XRTM_INT_ERROR;
      }
 
+     for (i = 0; i < d->n_derivs; ++i) {
+          if (d->F_iso_top_l[i] != 0. || d->F_iso_bot_l[i] != 0.) {
+               fprintf(stderr, "ERROR: reverse derivatives are not supported for linearized isotropic incident radiances\n");
+               return XRTM_INT_ERROR;
+          }
+     }
+
      if (solver & (XRTM_SOLVER_EIG_ADD | XRTM_SOLVER_EIG_BVP)) {
           if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
                fprintf(stderr, "ERROR: reverse derivatives with solver %s require option \"%s\"\n",
-- 
2.43.0


From fbcd9a56741de11decee1f0b38d2ebd548e86b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:23 +0000
Subject: [PATCH 041/115] fix: forward solutions copied phase functions and
 local r and t that the solver does not use for the adjoint

---
 src/xrtm_model.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index ca31d7b..19ce87d 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5049,7 +5049,7 @@ static int fourier_get_bvp(xrtm_data *d, int i_four, int solver, double **I_p, d
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (d->options & XRTM_OPTION_REVERSE_DERIVS) {
+     if (d->options & XRTM_OPTION_REVERSE_DERIVS && solver & XRTM_SOLVER_EIG_BVP && d->options & XRTM_OPTION_SOURCE_SOLAR) {
           save_tree_encode_s(&save_tree, "fourier_get_bvp");
 
           if (save_tree_retrieve_data(&save_tree, forward_save_fourier_get_bvp_data, &save))
@@ -5351,7 +5351,7 @@ if (! (solver & XRTM_SOLVER_TWO_STREAM)) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (d->options & XRTM_OPTION_REVERSE_DERIVS) {
+     if (d->options & XRTM_OPTION_REVERSE_DERIVS && solver & XRTM_SOLVER_EIG_BVP && d->options & XRTM_OPTION_SOURCE_SOLAR) {
           for (i = 0; i < d->n_layers; ++i) {
                copy_array1_d(save->P_q0_mm[i], P_q0_mm[i], d->n_quad_v_x);
                copy_array1_d(save->P_q0_pm[i], P_q0_pm[i], d->n_quad_v_x);
-- 
2.43.0


From 33d8ce75aeb44a282e3882258de6ecc7e6dc5a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:42 +0000
Subject: [PATCH 042/115] fix: reverse derivatives are not available for the
 direct and diffuse kernel either

---
 src/xrtm_interface.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 882a72e..2bf7acc 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5993,9 +5993,11 @@ static int solution_2(xrtm_data *d, enum xrtm_solver_mask solver, int solutions,
           return XRTM_INT_ERROR;
      }
 
-     if (brdf_needs_fourier(d->kernels, d->n_kernels)) {
-          fprintf(stderr, "ERROR: reverse derivatives are only supported for lambertian surfaces\n");
-          return XRTM_INT_ERROR;
+     for (i = 0; i < d->n_kernels; ++i) {
+          if (d->kernels[i] != XRTM_KERNEL_LAMBERTIAN) {
+               fprintf(stderr, "ERROR: reverse derivatives are only supported for lambertian surfaces\n");
+               return XRTM_INT_ERROR;
+          }
      }
 
      for (i = 0; i < d->n_derivs; ++i) {
-- 
2.43.0


From f62af042bf252c93147c9516ceaa1cbfafe411a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:29 +0000
Subject: [PATCH 043/115] fix: bottom up adding lost the adjoint of the surface
 reflection with delta-M scaling

---
 src/xrtm_model_a.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xrtm_model_a.c b/src/xrtm_model_a.c
index b34c12c..c058678 100644
--- a/src/xrtm_model_a.c
+++ b/src/xrtm_model_a.c
@@ -2213,6 +2213,8 @@ static int fourier_get_add_bottom_up_a(xrtm_data *d, int i_four, int solver, dou
       *-----------------------------------------------------------------------*/
      update_diff_bound_input_a(d, i_four, save_tree, work);
 
+     update_opt_props_all_a(d, work);
+
 
      /*-------------------------------------------------------------------------
       *
-- 
2.43.0


From 0226e7887bf7805d92fa0d20a288ee71dd419165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:28 +0000
Subject: [PATCH 044/115] fix: SFI derivatives missed the change of the average
 secant in layers below the one that varies

---
 src/xrtm_sfi_x.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index c373952..1bf5421 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -130,6 +130,9 @@ static void SFI_SOURCE_SOLAR_CLASSIC(double ptau, double *ptau_l,
 
           if (derivs_layers[j])
                e2_l = (-ptau_l[j] * as_0 - ptau * as_0_l[j]) * e2;
+          else
+          if (derivs_beam[j])
+               e2_l = (                  - ptau * as_0_l[j]) * e2;
 
           for (k = 0; k < n_umus_v; ++k) {
                if (derivs_beam[j])
@@ -143,6 +146,15 @@ static void SFI_SOURCE_SOLAR_CLASSIC(double ptau, double *ptau_l,
 
                     I_u_l[j][offset + k] += Fu_0[k] * Eu_0_l;
                }
+               else
+               if (derivs_beam[j]) {
+                    if (! flag)
+                         Eu_0_l = ((e2_l - atran_l[j] * e1[k]) - Eu_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
+                    else
+                         Eu_0_l = ((e2_l                     ) - Eu_0[k] * (-umus[k] * as_0_l[j])) / (1. - umus[k] * as_0);
+
+                    I_u_l[j][offset + k] += Fu_0[k] * Eu_0_l;
+               }
           }
      }
 
-- 
2.43.0


From df3bd6eca7403c23e6b16379a3e509a68fac3c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:12 +0000
Subject: [PATCH 045/115] fix: the adjustment of mu_0 near an output angle at
 nadir made it larger than one

---
 src/xrtm_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 2bf7acc..6e1b840 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2707,6 +2707,8 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
      for (i = 0; i < n; ++i) {
           a = fabs(singularity_adjust_auto(d->qx[i], d->mu_0_0,
                    d->misc_input.threshold_mu_0_singlarity));
+          if (a > 1.)
+               a = d->qx[i] - d->misc_input.threshold_mu_0_singlarity;
           if (a != d->mu_0_0) {
                mu_0 = a;
                count++;
-- 
2.43.0


From 2d2513f8414013d40ac01dd4e296565407cb847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:28 +0000
Subject: [PATCH 046/115] fix: xrtm_fd_set_levels_b_p_1() wrote the wrong
 values to an uninitialized index

---
 src/xrtm_fd_interface.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 3534f0f..ae2107c 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -310,7 +310,6 @@ double xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {
 int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 
      int i;
-     int j;
 
      if (! (d->d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
@@ -319,8 +318,10 @@ int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 /*
      CHECK_INIT_FOR_DERIVS();
 */
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+
      for (i = 0; i < d->d->n_layers + 1; ++i)
-          d->levels_b_p[i][j] = levels_b_p[i_deriv];
+          d->levels_b_p[i][i_deriv] = levels_b_p[i];
 /*
      set_deps(d, DEP_MASK_LEVELS_B_L, 0, d->n_layers);
 */
-- 
2.43.0


From 986b41348efae88fa2a3e381c069d51bd1fcc439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:28 +0000
Subject: [PATCH 047/115] fix: a failed xrtm_fd_create() leaked what it had
 allocated and delta was not initialized

---
 src/xrtm_fd_interface.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index ae2107c..8bcb66b 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -39,14 +39,14 @@ GINDEX_NAME_VALUE_TEMPLATE(xrtm_fd_method, "xrtm fd_method", N_XRTM_FD_METHOD_TY
  ******************************************************************************/
 int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
 
-     int r;
-
      jmp_buf env;
 
 
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     memset(fd, 0, sizeof(xrtm_fd_data));
+
      fd->d        = xrtm;
 
      fd->n_derivs = n_derivs;
@@ -65,7 +65,7 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if ((r = setjmp(env)) == 0) {
+     if (setjmp(env) == 0) {
 
 
      /*-------------------------------------------------------------------------
@@ -101,13 +101,17 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
       *
       *-----------------------------------------------------------------------*/
      }
-     else if (r < 0)
+     else {
+          xrtm_fd_destroy(fd);
           return -1;
+     }
 
 
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     init_array1_d(fd->delta, fd->n_derivs, 0.);
+
      init_array1_d(fd->F_iso_top_p, fd->n_derivs, 0.);
      init_array1_d(fd->F_iso_bot_p, fd->n_derivs, 0.);
 
-- 
2.43.0


From 721b00091fdb437cf46afac8a509a7b448cba166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:42 +0000
Subject: [PATCH 048/115] fix: finite differences ignored perturbed isotropic
 incident radiances without thermal sources

---
 src/xrtm_fd_interface.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 8bcb66b..924635e 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1005,17 +1005,17 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
      double *levels_b;
 
-     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
-           if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
-                return -1;
-           }
+     if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
+          fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
+          return -1;
+     }
 
-           if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
-                return -1;
-           }
+     if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
+          fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
+          return -1;
+     }
 
+     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
            levels_b = alloc_array1_d(d->d->n_layers + 1);
 
            if (xrtm_get_levels_b(d->d, levels_b)) {
-- 
2.43.0


From 32fe6bfa643e5b64c91790d017667b40cc6d0c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:42 +0000
Subject: [PATCH 049/115] fix: backward finite differences had the wrong sign

---
 src/xrtm_fd_interface.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 924635e..3dbdcd1 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1118,6 +1118,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
      double f;
 
+     double delta;
+
      double **coef;
 
      double ****I_p2;
@@ -1174,6 +1176,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                if (fd_method == XRTM_FD_METHOD_BACKWARD)
                     f = -1.;
 
+               delta = f * d->delta[j];
+
                if (perturb_values(d, j, solver, f, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
                     return -1;
@@ -1188,8 +1192,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] = (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
-                                   I_m_l[i][j][k][l][m] = (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
+                                   I_p_l[i][j][k][l][m] = (I_p2[i][k][l][m] - I_p[i][k][l][m]) / delta;
+                                   I_m_l[i][j][k][l][m] = (I_m2[i][k][l][m] - I_m[i][k][l][m]) / delta;
                               }
                          }
                     }
-- 
2.43.0


From 850190ffa81302810dbb3080b4a5652e6be1f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:04 +0000
Subject: [PATCH 050/115] fix: finite differences left the inputs perturbed or
 changed by rounding

---
 src/xrtm_fd_interface.c | 272 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 238 insertions(+), 34 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 3dbdcd1..8adc156 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -990,6 +990,153 @@ double xrtm_fd_get_kernel_params_p(xrtm_fd_data *d, int i_kernel, int i_deriv, i
 
 
 
+/*******************************************************************************
+ *
+ ******************************************************************************/
+typedef struct {
+     double F_iso_top;
+     double F_iso_bot;
+
+     double *levels_b;
+     double surface_b;
+
+     double *g;
+     double ***coef;
+     double *omega;
+     double *ltau;
+
+     double *kernel_ampfac;
+     double **kernel_params;
+} input_values;
+
+
+
+static void free_values(input_values *v) {
+
+     free_array1_d(v->levels_b);
+     free_array1_d(v->g);
+     free_array3_d(v->coef);
+     free_array1_d(v->omega);
+     free_array1_d(v->ltau);
+     free_array1_d(v->kernel_ampfac);
+     free_array2_d(v->kernel_params);
+}
+
+
+
+static int save_values(xrtm_fd_data *d, enum xrtm_solver_mask solver, input_values *v) {
+
+     int i;
+     int k;
+     int l;
+
+     int n_params;
+
+     memset(v, 0, sizeof(input_values));
+
+     if (! (v->omega = alloc_array1_d(d->d->n_layers)) ||
+         ! (v->ltau  = alloc_array1_d(d->d->n_layers)) ||
+         (d->d->options & XRTM_OPTION_SOURCE_THERMAL &&
+          ! (v->levels_b = alloc_array1_d(d->d->n_layers + 1))) ||
+         (  solver & XRTM_SOLVERS_USE_G   &&
+          ! (v->g = alloc_array1_d(d->d->n_layers))) ||
+         (! (solver & XRTM_SOLVERS_USE_G) &&
+          ! (v->coef = alloc_array3_d(d->d->n_layers, d->d->n_elem, d->d->n_coef))) ||
+         (d->d->n_kernels > 0 &&
+          (! (v->kernel_ampfac = alloc_array1_d(d->d->n_kernels)) ||
+           ! (v->kernel_params = alloc_array2_d(d->d->n_kernels, MAX_KERNEL_PARAMS))))) {
+          fprintf(stderr, "ERROR: memory allocation failed\n");
+          free_values(v);
+          return -1;
+     }
+
+     v->F_iso_top = xrtm_get_F_iso_top(d->d);
+     v->F_iso_bot = xrtm_get_F_iso_bot(d->d);
+
+     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
+          if (xrtm_get_levels_b(d->d, v->levels_b)) {
+               fprintf(stderr, "ERROR: xrtm_get_levels_b()\n");
+               free_values(v);
+               return -1;
+          }
+
+          v->surface_b = xrtm_get_surface_b(d->d);
+     }
+
+     for (i = 0; i < d->d->n_layers; ++i) {
+          if (solver & XRTM_SOLVERS_USE_G)
+               v->g[i] = xrtm_get_g(d->d, i);
+          else {
+               for (k = 0; k < d->d->n_elem; ++k) {
+                    for (l = 0; l < xrtm_get_n_coef(d->d, i); ++l)
+                         v->coef[i][k][l] = xrtm_get_coef(d->d, i, k, l);
+               }
+          }
+
+          v->omega[i] = xrtm_get_omega(d->d, i);
+          v->ltau [i] = xrtm_get_ltau (d->d, i);
+     }
+
+     for (i = 0; i < d->d->n_kernels; ++i) {
+          v->kernel_ampfac[i] = xrtm_get_kernel_ampfac(d->d, i);
+
+          n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i]);
+
+          for (k = 0; k < n_params; ++k)
+               v->kernel_params[i][k] = xrtm_get_kernel_params(d->d, i, k);
+     }
+
+     return 0;
+}
+
+
+
+static int restore_values(xrtm_fd_data *d, enum xrtm_solver_mask solver, input_values *v) {
+
+     int i;
+     int k;
+
+     int n_params;
+
+     int flag = 0;
+
+     flag |= xrtm_set_F_iso_top(d->d, v->F_iso_top);
+     flag |= xrtm_set_F_iso_bot(d->d, v->F_iso_bot);
+
+     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
+          flag |= xrtm_set_levels_b(d->d, v->levels_b);
+          flag |= xrtm_set_surface_b(d->d, v->surface_b);
+     }
+
+     for (i = 0; i < d->d->n_layers; ++i) {
+          if (solver & XRTM_SOLVERS_USE_G)
+               flag |= xrtm_set_g_1(d->d, i, v->g[i]);
+          else
+               flag |= xrtm_set_coef_1(d->d, i, xrtm_get_n_coef(d->d, i), v->coef[i]);
+
+          flag |= xrtm_set_omega_1(d->d, i, v->omega[i]);
+          flag |= xrtm_set_ltau_1 (d->d, i, v->ltau [i]);
+     }
+
+     for (i = 0; i < d->d->n_kernels; ++i) {
+          flag |= xrtm_set_kernel_ampfac(d->d, i, v->kernel_ampfac[i]);
+
+          n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i]);
+
+          for (k = 0; k < n_params; ++k)
+               flag |= xrtm_set_kernel_params_1(d->d, i, k, v->kernel_params[i][k]);
+     }
+
+     if (flag) {
+          fprintf(stderr, "ERROR: inputs could not be restored\n");
+          return -1;
+     }
+
+     return 0;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -1016,10 +1163,14 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
      }
 
      if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
-           levels_b = alloc_array1_d(d->d->n_layers + 1);
+           if (! (levels_b = alloc_array1_d(d->d->n_layers + 1))) {
+                fprintf(stderr, "ERROR: memory allocation failed\n");
+                return -1;
+           }
 
            if (xrtm_get_levels_b(d->d, levels_b)) {
                 fprintf(stderr, "ERROR: xrtm_get_levels_b()\n");
+                free_array1_d(levels_b);
                 return -1;
            }
 
@@ -1029,6 +1180,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
            if (xrtm_set_levels_b(d->d, levels_b)) {
                 fprintf(stderr, "ERROR: xrtm_set_levels_b()\n");
+                free_array1_d(levels_b);
                 return -1;
            }
 
@@ -1104,7 +1256,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 /*******************************************************************************
  *
  ******************************************************************************/
-int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solutions, enum xrtm_fd_method_type fd_method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) {
+static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solutions, enum xrtm_fd_method_type fd_method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l, double **coef, double ****I_p2, double ****I_m2, input_values *values) {
 
      int i;
      int j;
@@ -1120,11 +1272,6 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
      double delta;
 
-     double **coef;
-
-     double ****I_p2;
-     double ****I_m2;
-
 
      /*-------------------------------------------------------------------------
       *
@@ -1142,29 +1289,6 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 */
 
 
-     /*-------------------------------------------------------------------------
-      *
-      *-----------------------------------------------------------------------*/
-     if (xrtm_radiance(d->d, solver, n_out_phis, out_phis, I_p, I_m, NULL, NULL)) {
-          fprintf(stderr, "ERROR: xrtm_radiance()\n");
-          return -1;
-     }
-
-
-     /*-------------------------------------------------------------------------
-      *
-      *-----------------------------------------------------------------------*/
-     coef = alloc_array2_d(d->d->n_elem, d->d->n_coef);
-
-     I_p2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
-     I_m2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
-/*
-     coef = get_work2_d(&work, d->d->n_elem, d->d->n_coef);
-
-     I_p2 = get_work4_d(&work, d->d->n_ulevels, n_out_phis, n_mus2, d->d->n_stokes);
-     I_m2 = get_work4_d(&work, d->d->n_ulevels, n_out_phis, n_mus2, d->d->n_stokes);
-*/
-
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
@@ -1188,6 +1312,11 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     return -1;
                }
 
+               if (restore_values(d, solver, values)) {
+                    fprintf(stderr, "ERROR: restore_values()\n");
+                    return -1;
+               }
+
                for (i = 0; i < d->d->n_ulevels; ++i) {
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
@@ -1226,7 +1355,12 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     }
                }
 
-               if (perturb_values(d, j, solver, -2., coef)) {
+               if (restore_values(d, solver, values)) {
+                    fprintf(stderr, "ERROR: restore_values()\n");
+                    return -1;
+               }
+
+               if (perturb_values(d, j, solver, -1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
                     return -1;
                }
@@ -1247,14 +1381,84 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     }
                }
 
-               if (perturb_values(d, j, solver,  1., coef)) {
-                    fprintf(stderr, "ERROR: perturb_values()\n");
+               if (restore_values(d, solver, values)) {
+                    fprintf(stderr, "ERROR: restore_values()\n");
                     return -1;
                }
           }
      }
 
 
+     return 0;
+}
+
+
+
+/*******************************************************************************
+ *
+ ******************************************************************************/
+int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solutions, enum xrtm_fd_method_type fd_method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) {
+
+     int r;
+
+     int n_mus2;
+
+     double **coef;
+
+     double ****I_p2;
+     double ****I_m2;
+
+     input_values values;
+
+
+     /*-------------------------------------------------------------------------
+      *
+      *-----------------------------------------------------------------------*/
+     if (d->d->n_umus == 0)
+          n_mus2  = d->d->n_quad;
+     else
+          n_mus2  = d->d->n_umus;
+
+
+     /*-------------------------------------------------------------------------
+      *
+      *-----------------------------------------------------------------------*/
+     if (xrtm_radiance(d->d, solver, n_out_phis, out_phis, I_p, I_m, NULL, NULL)) {
+          fprintf(stderr, "ERROR: xrtm_radiance()\n");
+          return -1;
+     }
+
+
+     /*-------------------------------------------------------------------------
+      *
+      *-----------------------------------------------------------------------*/
+     coef = alloc_array2_d(d->d->n_elem, d->d->n_coef);
+
+     I_p2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
+     I_m2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
+
+     if (! coef || ! I_p2 || ! I_m2) {
+          fprintf(stderr, "ERROR: memory allocation failed\n");
+          r = -1;
+     }
+     else if ((r = save_values(d, solver, &values))) {
+          fprintf(stderr, "ERROR: save_values()\n");
+     }
+     else {
+          if ((r = fd_solution(d, solver, solutions, fd_method, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, coef, I_p2, I_m2, &values))) {
+               fprintf(stderr, "ERROR: fd_solution()\n");
+               restore_values(d, solver, &values);
+          }
+
+          free_values(&values);
+     }
+/*
+     coef = get_work2_d(&work, d->d->n_elem, d->d->n_coef);
+
+     I_p2 = get_work4_d(&work, d->d->n_ulevels, n_out_phis, n_mus2, d->d->n_stokes);
+     I_m2 = get_work4_d(&work, d->d->n_ulevels, n_out_phis, n_mus2, d->d->n_stokes);
+*/
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
@@ -1265,7 +1469,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      free_array4_d(I_m2);
 
 
-     return 0;
+     return r;
 }
 
 
-- 
2.43.0


From ba46afafcba7cd26591bc150964c59b79ec4b5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:38 +0000
Subject: [PATCH 051/115] fix: finite differences of mean radiance and flux
 wrote to null pointers

---
 src/xrtm_fd_interface.c | 61 +++++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 8adc156..1351fba 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1256,7 +1256,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 /*******************************************************************************
  *
  ******************************************************************************/
-static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solutions, enum xrtm_fd_method_type fd_method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l, double **coef, double ****I_p2, double ****I_m2, input_values *values) {
+static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solutions, enum xrtm_fd_method_type fd_method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l, double **coef, double ****I_p2, double ****I_m2, double **x2, input_values *values) {
 
      int i;
      int j;
@@ -1307,7 +1307,7 @@ static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int soluti
                     return -1;
                }
 
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
+               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, x2[0], x2[1], NULL, NULL, x2[2], x2[3], NULL, NULL, x2[4], NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
                     return -1;
                }
@@ -1317,7 +1317,7 @@ static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int soluti
                     return -1;
                }
 
-               for (i = 0; i < d->d->n_ulevels; ++i) {
+               for (i = 0; solutions & XRTM_OUTPUT_RADIANCE && i < d->d->n_ulevels; ++i) {
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
@@ -1327,6 +1327,17 @@ static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int soluti
                          }
                     }
                }
+
+               for (i = 0; i < d->d->n_ulevels; ++i) {
+                    if (solutions & XRTM_OUTPUT_RADIANCE_MEAN) {
+                         mean_p_l[i][j] = (x2[0][i] - mean_p[i]) / delta;
+                         mean_m_l[i][j] = (x2[1][i] - mean_m[i]) / delta;
+                    }
+                    if (solutions & XRTM_OUTPUT_FLUX) {
+                         flux_p_l[i][j] = (x2[2][i] - flux_p[i]) / delta;
+                         flux_m_l[i][j] = (x2[3][i] - flux_m[i]) / delta;
+                    }
+               }
           }
 
 
@@ -1339,12 +1350,12 @@ static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int soluti
                     return -1;
                }
 
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
+               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, x2[0], x2[1], NULL, NULL, x2[2], x2[3], NULL, NULL, x2[4], NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
                     return -1;
                }
 
-               for (i = 0; i < d->d->n_ulevels; ++i) {
+               for (i = 0; solutions & XRTM_OUTPUT_RADIANCE && i < d->d->n_ulevels; ++i) {
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
@@ -1355,6 +1366,17 @@ static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int soluti
                     }
                }
 
+               for (i = 0; i < d->d->n_ulevels; ++i) {
+                    if (solutions & XRTM_OUTPUT_RADIANCE_MEAN) {
+                         mean_p_l[i][j]  = x2[0][i] / d->delta[j];
+                         mean_m_l[i][j]  = x2[1][i] / d->delta[j];
+                    }
+                    if (solutions & XRTM_OUTPUT_FLUX) {
+                         flux_p_l[i][j]  = x2[2][i] / d->delta[j];
+                         flux_m_l[i][j]  = x2[3][i] / d->delta[j];
+                    }
+               }
+
                if (restore_values(d, solver, values)) {
                     fprintf(stderr, "ERROR: restore_values()\n");
                     return -1;
@@ -1365,12 +1387,12 @@ static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int soluti
                     return -1;
                }
 
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
+               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, x2[0], x2[1], NULL, NULL, x2[2], x2[3], NULL, NULL, x2[4], NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
                     return -1;
                }
 
-               for (i = 0; i < d->d->n_ulevels; ++i) {
+               for (i = 0; solutions & XRTM_OUTPUT_RADIANCE && i < d->d->n_ulevels; ++i) {
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
@@ -1381,6 +1403,17 @@ static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int soluti
                     }
                }
 
+               for (i = 0; i < d->d->n_ulevels; ++i) {
+                    if (solutions & XRTM_OUTPUT_RADIANCE_MEAN) {
+                         mean_p_l[i][j] -= x2[0][i] / d->delta[j];
+                         mean_m_l[i][j] -= x2[1][i] / d->delta[j];
+                    }
+                    if (solutions & XRTM_OUTPUT_FLUX) {
+                         flux_p_l[i][j] -= x2[2][i] / d->delta[j];
+                         flux_m_l[i][j] -= x2[3][i] / d->delta[j];
+                    }
+               }
+
                if (restore_values(d, solver, values)) {
                     fprintf(stderr, "ERROR: restore_values()\n");
                     return -1;
@@ -1408,6 +1441,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      double ****I_p2;
      double ****I_m2;
 
+     double **x2;
+
      input_values values;
 
 
@@ -1423,8 +1458,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (xrtm_radiance(d->d, solver, n_out_phis, out_phis, I_p, I_m, NULL, NULL)) {
-          fprintf(stderr, "ERROR: xrtm_radiance()\n");
+     if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p, I_m, NULL, NULL, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, flux_div, NULL)) {
+          fprintf(stderr, "ERROR: xrtm_solution()\n");
           return -1;
      }
 
@@ -1437,7 +1472,9 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      I_p2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
      I_m2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
 
-     if (! coef || ! I_p2 || ! I_m2) {
+     x2 = alloc_array2_d(5, d->d->n_ulevels);
+
+     if (! coef || ! I_p2 || ! I_m2 || ! x2) {
           fprintf(stderr, "ERROR: memory allocation failed\n");
           r = -1;
      }
@@ -1445,7 +1482,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
           fprintf(stderr, "ERROR: save_values()\n");
      }
      else {
-          if ((r = fd_solution(d, solver, solutions, fd_method, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, coef, I_p2, I_m2, &values))) {
+          if ((r = fd_solution(d, solver, solutions, fd_method, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, coef, I_p2, I_m2, x2, &values))) {
                fprintf(stderr, "ERROR: fd_solution()\n");
                restore_values(d, solver, &values);
           }
@@ -1468,6 +1505,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      free_array4_d(I_p2);
      free_array4_d(I_m2);
 
+     free_array2_d(x2);
+
 
      return r;
 }
-- 
2.43.0


From 3f9a9416af51558cead5178483fb6f5890e33078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 052/115] fix: xrtm_fd_get_coef_p() checked the wrong index

---
 src/xrtm_fd_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 1351fba..b958bb9 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -654,8 +654,8 @@ double xrtm_fd_get_coef_p(xrtm_fd_data *d, int i_layer, int i_deriv, int i_elem,
 
      CHECK_INDEX_RANGE(i_layer, d->d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs,                 "i_deriv", "n_derivs",              XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_elem,  6,                           "i_elem",  "6",                     XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_layer, d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_elem,  d->d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_coef,  d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
      return d->coef_p[i_layer][i_deriv][i_elem][i_coef];
 }
-- 
2.43.0


From bf22770808fa4f16108a69b5b1a0990de053fe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 053/115] fix: xrtm_fd_create() with no derivatives wrote past
 the end of its arrays

---
 src/xrtm_fd_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index b958bb9..9036cee 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -61,6 +61,11 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
 
      }
 
+     if (fd->n_derivs < 1) {
+          fprintf(stderr, "ERROR: invalid value for n_derivs: %d, must be > zero\n", fd->n_derivs);
+          return -1;
+     }
+
 
      /*-------------------------------------------------------------------------
       *
-- 
2.43.0


From 43aa7b056da29e6f45bbdd31300e13f55a692858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:03 +0000
Subject: [PATCH 054/115] fix: finite differences without radiances wrote past
 the end of an array

---
 src/xrtm_fd_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 9036cee..15ffefc 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1474,8 +1474,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
       *-----------------------------------------------------------------------*/
      coef = alloc_array2_d(d->d->n_elem, d->d->n_coef);
 
-     I_p2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
-     I_m2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
+     I_p2 = alloc_array4_d(d->d->n_ulevels, n_mus2, MAX(n_out_phis, 1), d->d->n_stokes);
+     I_m2 = alloc_array4_d(d->d->n_ulevels, n_mus2, MAX(n_out_phis, 1), d->d->n_stokes);
 
      x2 = alloc_array2_d(5, d->d->n_ulevels);
 
-- 
2.43.0


From d7f327e6f42f45fdb42e0522e1048652a35d41ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:25 +0000
Subject: [PATCH 055/115] fix: scat_header_write_fn() and
 scat_header_write_bin_fn() opened the file for reading

---
 misc/rtutil_scat_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 414280d..797c037 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -229,7 +229,7 @@ int scat_header_write_fn(const char *filename, scat_header_data *h) {
 
      FILE *fp;
 
-     if ((fp = fopen(filename, "r")) == NULL) {
+     if ((fp = fopen(filename, "w")) == NULL) {
           fprintf(stderr, "ERROR: Problem opening file for writing: %s ... %s\n",
                   filename, strerror(errno));
           return -1;
@@ -400,7 +400,7 @@ int scat_header_write_bin_fn(const char *filename, scat_header_data *h) {
 
      FILE *fp;
 
-     if ((fp = fopen(filename, "r")) == NULL) {
+     if ((fp = fopen(filename, "w")) == NULL) {
           fprintf(stderr, "ERROR: Problem opening file for writing: %s ... %s\n",
                   filename, strerror(errno));
           return -1;
-- 
2.43.0


From da8357cf646dd94ebf0cdf03b67b646459e3eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:25 +0000
Subject: [PATCH 056/115] fix: scattering file functions left the file open
 after an error

---
 misc/rtutil_scat_io.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 797c037..a01ed9c 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -142,6 +142,7 @@ int scat_header_read_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_read_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_read_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -237,6 +238,7 @@ int scat_header_write_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_write_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_write_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -331,6 +333,7 @@ int scat_header_read_bin_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_read_bin_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_read_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -408,6 +411,7 @@ int scat_header_write_bin_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_write_bin_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_write_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -537,6 +541,7 @@ int phase_func_read_fn(const char *filename, scat_header_data *h,
 
      if ((n_angles = phase_func_read_fp(fp, h, theta, phase, allsix)) < 0) {
           fprintf(stderr, "ERROR: phase_func_read_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -623,6 +628,7 @@ int phase_func_write_fn(const char *filename, scat_header_data *h,
 
      if (phase_func_write_fp(fp, h, theta, phase, n_angles, allsix) < 0) {
           fprintf(stderr, "ERROR: phase_func_write_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -716,6 +722,7 @@ int scat_coefs_read_fn(const char *filename, int n_coef,
 
      if ((n_total = scat_coefs_read_fp(fp, n_coef, h, coefs, allsix)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_read_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -810,6 +817,7 @@ int scat_coefs_write_fn(const char *filename, int n_coef2,
 
      if ((ret_val = scat_coefs_write_fp(fp, n_coef2, h, coefs, allsix)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_write_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -910,6 +918,7 @@ int scat_coefs_read_bin_fn(const char *filename, int n_coef,
 
      if ((n_total = scat_coefs_read_bin_fp(fp, n_coef, h, coefs, size, n_elem)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_read_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1029,6 +1038,7 @@ int scat_coefs_write_bin_fn(const char *filename, int n_coef2,
 
      if ((ret_val = scat_coefs_write_bin_fp(fp, n_coef2, h, coefs, size, n_elem)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_write_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1297,6 +1307,7 @@ int scat_total_read_fn(const char *filename, scat_header_data *h, int *n_quad,
      if (scat_total_read_fp(fp, h, n_quad, n_four, quad_type, cextx, cexty,
                             cscatx, cscaty, cbackx, cbacky, gx, gy)) {
           fprintf(stderr, "ERROR: scat_total_read_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1385,6 +1396,7 @@ int scat_total_write_fn(const char *filename, scat_header_data *h, int n_quad,
      if (scat_total_write_fp(fp, h, n_quad, n_four, quad_type, cextx, cexty,
                              cscatx, cscaty, cbackx, cbacky, gx, gy)) {
           fprintf(stderr, "ERROR: scat_total_write_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1452,6 +1464,7 @@ int phase_mats_read_fn(const char *filename, scat_header_data *h, int *n_quad,
 
      if (phase_mats_read_fp(fp, h, n_quad, n_four, quad_type, P, Kext, Kemi)) {
           fprintf(stderr, "ERROR: phase_mats_read_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1629,6 +1642,7 @@ int phase_mats_write_fn(const char *filename, scat_header_data *h, int n_quad,
 
      if (phase_mats_write_fp(fp, h, n_quad, n_four, quad_type, qx, P, Kext, Kemi)) {
           fprintf(stderr, "ERROR: phase_mats_write_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
-- 
2.43.0


From 421a460858ae2e248e5c812c8c296c43096f50ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:25 +0000
Subject: [PATCH 057/115] fix: scattering files that could not be written
 completely were reported as written

---
 misc/rtutil_scat_io.c | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index a01ed9c..2b259fa 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -242,7 +242,11 @@ int scat_header_write_fn(const char *filename, scat_header_data *h) {
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
@@ -415,7 +419,11 @@ int scat_header_write_bin_fn(const char *filename, scat_header_data *h) {
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
@@ -632,7 +640,11 @@ int phase_func_write_fn(const char *filename, scat_header_data *h,
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
@@ -821,7 +833,11 @@ int scat_coefs_write_fn(const char *filename, int n_coef2,
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return ret_val;
 }
@@ -1042,7 +1058,11 @@ int scat_coefs_write_bin_fn(const char *filename, int n_coef2,
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return ret_val;
 }
@@ -1400,7 +1420,11 @@ int scat_total_write_fn(const char *filename, scat_header_data *h, int n_quad,
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
@@ -1646,7 +1670,11 @@ int phase_mats_write_fn(const char *filename, scat_header_data *h, int n_quad,
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
-- 
2.43.0


From 9cc491c7a752e93879144654b2b659186f32345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:25 +0000
Subject: [PATCH 058/115] fix: phase_func_write_fp() did not check the writing
 of the angles

---
 misc/rtutil_scat_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 2b259fa..bd6c821 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -693,7 +693,7 @@ int phase_func_write_fp(FILE *fp, scat_header_data *h,
      if (fprintf(fp, "# ------------------------------------------------------------------------------------------\n") < 1) goto L1;
 #endif
      for (i = 0; i < n_angles; ++i) {
-          fprintf(fp, "%e ", theta[i]);
+          if (fprintf(fp, "%e ", theta[i]) < 1) goto L1;
           if (! allsix) {
                if (fprintf(fp, "%e\n", phase[0][i]) < 1) goto L1;
           }
-- 
2.43.0


From 212f68b867bb88c1bb72a30ed486f80c09973f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:25 +0000
Subject: [PATCH 059/115] fix: scat_total_read_fp() accepted lines with missing
 values

---
 misc/rtutil_scat_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index bd6c821..b0ee489 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1387,7 +1387,7 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
      for (i = 0; i < 2 * *n_quad; ++i) {
            if (fscanf(fp, "%lf%lf%lf%lf%lf%lf%lf%lf",
                       &cextx[i], &cexty[i], &cscatx[i], &cscaty[i],
-                      &cbackx[i], &cbacky[i], &gx[i], &gy[i]) < 6) {
+                      &cbackx[i], &cbacky[i], &gx[i], &gy[i]) < 8) {
                 fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
                 return -1;
            }
-- 
2.43.0


From d6be6a20e60d255bb0778debf92ba1528fcc0fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:31 +0000
Subject: [PATCH 060/115] fix: scattering file functions leaked memory after an
 error

---
 misc/rtutil_scat_io.c | 55 +++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index b0ee489..8dc7ee7 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -155,7 +155,7 @@ int scat_header_read_fn(const char *filename, scat_header_data *h) {
 
 int scat_header_read_fp(FILE *fp, scat_header_data *h) {
 
-     char *name;
+     char *name = NULL;
 
      int length = 15 + 20 + 1;
 
@@ -173,6 +173,7 @@ int scat_header_read_fp(FILE *fp, scat_header_data *h) {
      if (fscanf(fp, format,  name)                      < 1) goto L1;
      h->dist_type = size_dist_code(name);
      free(name);
+     name = NULL;
 
      if (fscanf(fp, "a1        = %lf\n", &h->a1)        < 1) goto L1;
      if (fscanf(fp, "a2        = %lf\n", &h->a2)        < 1) goto L1;
@@ -207,6 +208,8 @@ L1:  if (errno == 0)
      else
           fprintf(stderr, "ERROR: Problem reading scat header from file: %s\n", strerror(errno));
 
+     free(name);
+
      return -1;
 }
 
@@ -567,9 +570,9 @@ int phase_func_read_fp(FILE *fp, scat_header_data *h,
 
      int n_angles;
 
-     double *theta;
+     double *theta = NULL;
 
-     double **phase;
+     double **phase = NULL;
 
      if (! h) {
           if (scat_header_skip(fp)) {
@@ -618,6 +621,11 @@ L1:  if (errno == 0)
      else
           fprintf(stderr, "ERROR: Problem reading phase function from file: %s\n", strerror(errno));
 
+     if (theta)
+          free_array1_d(theta);
+     if (phase)
+          free_array2_d(phase);
+
      return -1;
 }
 
@@ -757,7 +765,7 @@ int scat_coefs_read_fp(FILE *fp, int n_coef,
      int n_coef2;
      int n_total;
 
-     double **coefs;
+     double **coefs = NULL;
 
      n_elem = allsix ? 6 : 1;
 
@@ -809,6 +817,9 @@ L1:  if (errno == 0)
      else
           fprintf(stderr, "ERROR: Problem reading phase coefficients from file: %s\n", strerror(errno));
 
+     if (coefs)
+          free_array2_d(coefs);
+
      return -1;
 }
 
@@ -958,7 +969,7 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
      int n_coef2;
      int n_total;
 
-     void **coefs;
+     void **coefs = NULL;
 
      if (! h) {
           if (scat_header_skip_bin(fp)) {
@@ -1034,6 +1045,13 @@ L1:  if (errno == 0)
      else
           fprintf(stderr, "ERROR: Problem reading phase coefficients from file: %s\n", strerror(errno));
 
+     if (coefs) {
+          if (size2 == 4)
+               free_array2_f((float **) coefs);
+          else
+               free_array2_d((double **) coefs);
+     }
+
      return -1;
 }
 
@@ -1075,7 +1093,7 @@ int scat_coefs_write_bin_fp(FILE *fp, int n_coef2,
      int i;
      int j;
 
-     void **coefs2;
+     void **coefs2 = NULL;
 
      if (! h) {
           if (scat_header_blank_bin(fp)) {
@@ -1121,6 +1139,9 @@ L1:  if (errno == 0)
      else
           fprintf(stderr, "ERROR: Problem writing phase coefficients to file: %s\n", strerror(errno));
 
+     if (size == 4 && coefs2)
+          free_array2_f((float **) coefs2);
+
      return -1;
 }
 
@@ -1370,6 +1391,7 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      if (fscanf(fp, "%d%d%s%*[\n]", n_quad, &i_four, quad_name) < 3) {
           fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
+          free(quad_name);
           return -1;
      }
 
@@ -1377,6 +1399,7 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      if ((*quad_type = quadrature_code(quad_name)) < 0) {
           fprintf(stderr, "ERROR: quadrature_code(), line %d\n", line);
+          free(quad_name);
           return -1;
      }
 
@@ -1558,6 +1581,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      if (fscanf(fp, "%d%d%s%*[\n]", n_quad, &i_four, quad_name) < 3) {
           fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
+          free(quad_name);
           return -1;
      }
 
@@ -1565,6 +1589,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      if ((*quad_type = quadrature_code(quad_name)) < 0) {
           fprintf(stderr, "ERROR: quadrature_code(), line %d\n", line);
+          free(quad_name);
           return -1;
      }
 
@@ -1584,14 +1609,14 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                for (i = 0; i < *n_four; ++i) {
                     if (fscanf(fp, "%lf%lf%d", &mu1, &mu2, &i_four) < 3) {
                          fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-                         return -1;
+                         goto L1;
                     }
 
                     line++;
 
                     if (i_four != i) {
                          fprintf(stderr, "ERROR: invalid fourier order encountered\n");
-                         return -1;
+                         goto L1;
                     }
 
                     for (l = 0; l < 4; ++l) {
@@ -1599,7 +1624,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                                     &P[i][j][k][l][0], &P[i][j][k][l][1],
                                     &P[i][j][k][l][2], &P[i][j][k][l][3]) < 4) {
                               fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-                              return -1;
+                              goto L1;
                          }
 
                          line++;
@@ -1613,7 +1638,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
      for (i = 0; i < 2 * *n_quad; ++i) {
           if (fscanf(fp, "%lf", &mu1) < 1) {
                fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-               return -1;
+               goto L1;
           }
 
           line++;
@@ -1623,7 +1648,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                           &Kext[i][j][0], &Kext[i][j][1],
                           &Kext[i][j][2], &Kext[i][j][3]) < 4) {
                     fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-                    return -1;
+                    goto L1;
                }
 
                line++;
@@ -1637,7 +1662,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                      &Kemi[i][0], &Kemi[i][1],
                      &Kemi[i][2], &Kemi[i][3]) < 5) {
                fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-               return -1;
+               goto L1;
           }
 
           line++;
@@ -1648,6 +1673,12 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
      *Kemi_ = Kemi;
 
      return 0;
+
+L1:  free_array5_d(P);
+     free_array3_d(Kext);
+     free_array2_d(Kemi);
+
+     return -1;
 }
 
 
-- 
2.43.0


From a48385148ef6c5f9878a7dbf2b745d1e90d1d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:31 +0000
Subject: [PATCH 061/115] fix: the name of the quadrature in a file could be
 longer than the memory for it

---
 misc/rtutil_scat_io.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 8dc7ee7..c4d37ea 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1366,7 +1366,7 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      int i;
 
-     char *quad_name;
+     char quad_name[32];
 
      int line;
 
@@ -1387,11 +1387,8 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           }
      }
 
-     quad_name = (char *) malloc(size_dist_name_max_length());
-
-     if (fscanf(fp, "%d%d%s%*[\n]", n_quad, &i_four, quad_name) < 3) {
+     if (fscanf(fp, "%d%d%31s%*[\n]", n_quad, &i_four, quad_name) < 3) {
           fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-          free(quad_name);
           return -1;
      }
 
@@ -1399,12 +1396,9 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      if ((*quad_type = quadrature_code(quad_name)) < 0) {
           fprintf(stderr, "ERROR: quadrature_code(), line %d\n", line);
-          free(quad_name);
           return -1;
      }
 
-     free(quad_name);
-
      line++;
 
      for (i = 0; i < 2 * *n_quad; ++i) {
@@ -1526,7 +1520,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                        int *n_four, int *quad_type, double ******P_,
                        double ****Kext_, double ***Kemi_) {
 
-     char *quad_name;
+     char quad_name[32];
 
      int i;
      int j;
@@ -1577,11 +1571,8 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           }
      }
 
-     quad_name = (char *) malloc(size_dist_name_max_length());
-
-     if (fscanf(fp, "%d%d%s%*[\n]", n_quad, &i_four, quad_name) < 3) {
+     if (fscanf(fp, "%d%d%31s%*[\n]", n_quad, &i_four, quad_name) < 3) {
           fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-          free(quad_name);
           return -1;
      }
 
@@ -1589,12 +1580,9 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      if ((*quad_type = quadrature_code(quad_name)) < 0) {
           fprintf(stderr, "ERROR: quadrature_code(), line %d\n", line);
-          free(quad_name);
           return -1;
      }
 
-     free(quad_name);
-
      line++;
 
      P    = alloc_array5_d(*n_four, 2 * *n_quad, 2 * *n_quad, 4, 4);
-- 
2.43.0


From eb60237d815a77c98e6c37d7f852ddff58d23100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:01 +0000
Subject: [PATCH 062/115] fix: scattering files with one column could not be
 read back

---
 misc/rtutil_scat_io.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index c4d37ea..58886f1 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -597,6 +597,7 @@ int phase_func_read_fp(FILE *fp, scat_header_data *h,
 
           if (! allsix) {
                if (fscanf(fp, "%lf", &phase[0][i]) < 1) goto L1;
+               gpass_newline(fp);
                phase[1][i] = 0.;
                phase[2][i] = 0.;
                phase[3][i] = 0.;
@@ -804,8 +805,8 @@ int scat_coefs_read_fp(FILE *fp, int n_coef,
           for (j = 0; j < n_elem; ++j)
                if (fscanf(fp, "%lf", &coefs[j][i]) < 1) goto L1;
 
-          for (     ; j < n_elem2; ++j)
-               if (fscanf(fp, "%*s"              ) < 0) goto L1;
+          if (j < n_elem2)
+               gpass_newline(fp);
      }
 
      *coefs_ = coefs;
-- 
2.43.0


From 02e98a6caf0e397153890459f0573c8e8201c281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:01 +0000
Subject: [PATCH 063/115] fix: scat_coefs_read_bin_fp() read the wrong
 coefficients when some are skipped

---
 misc/rtutil_scat_io.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 58886f1..69b9ab8 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -957,6 +957,16 @@ int scat_coefs_read_bin_fn(const char *filename, int n_coef,
 
 
 
+static int skip_bytes(FILE *fp, size_t n) {
+
+     while (n-- > 0)
+          if (fgetc(fp) == EOF) return -1;
+
+     return 0;
+}
+
+
+
 int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
                            scat_header_data *h, void ***coefs_, int size, int n_elem) {
 
@@ -1006,11 +1016,13 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
      else
           coefs = (void **) alloc_array2_d(n_elem, n_total);
 
-     for (i = 0; i < n_elem; ++i)
+     for (i = 0; i < n_elem; ++i) {
           if (fread(coefs[i], size2, n_total, fp) < (size_t) n_total) goto L1;
+          if (skip_bytes(fp, (size_t) size2 * (n_coef2 - n_total))) goto L1;
+     }
 
      for (     ; i < n_elem2; ++i)
-          if (fseek(fp, size2 * n_total, SEEK_CUR) != 0             )  goto L1;
+          if (skip_bytes(fp, (size_t) size2 * n_coef2)) goto L1;
 
      if (size != size2) {
           if (size == 4) {
-- 
2.43.0


From 5fba94a63e2e14554c1409eea0ff96bf89ed7520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:01 +0000
Subject: [PATCH 064/115] fix: invalid counts in scattering files lead to
 invalid memory accesses

---
 misc/rtutil_scat_io.c | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 69b9ab8..f99b98f 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -588,9 +588,10 @@ int phase_func_read_fp(FILE *fp, scat_header_data *h,
      }
 
      if (fscanf(fp, "%d", &n_angles) < 1) goto L1;
+     if (n_angles < 0) goto L1;
 
-     theta = alloc_array1_d(n_angles);
-     phase = alloc_array2_d(6, n_angles);
+     if ((theta = alloc_array1_d(n_angles)) == NULL) goto L1;
+     if ((phase = alloc_array2_d(6, n_angles)) == NULL) goto L1;
 
      for (i = 0; i < n_angles; ++i) {
           if (fscanf(fp, "%lf", &theta[i]) < 1) goto L1;
@@ -793,13 +794,14 @@ int scat_coefs_read_fp(FILE *fp, int n_coef,
      }
 
      if (fscanf(fp, "%d", &n_coef2) < 1) goto L1;
+     if (n_coef2 < 0) goto L1;
 
      if (n_coef <= 0)
           n_total = n_coef2;
      else
           n_total = MIN(n_coef2, n_coef);
 
-     coefs = alloc_array2_d(n_elem, n_total);
+     if ((coefs = alloc_array2_d(n_elem, n_total)) == NULL) goto L1;
 
      for (i = 0; i < n_total; ++i) {
           for (j = 0; j < n_elem; ++j)
@@ -996,6 +998,7 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
      }
 
      if (fread(&size2,   sizeof(int), 1, fp) < 1) goto L1;
+     if (size2 != sizeof(float) && size2 != sizeof(double)) goto L1;
 
      if (fread(&n_elem2, sizeof(int), 1, fp) < 1) goto L1;
 
@@ -1005,6 +1008,7 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
      }
 
      if (fread(&n_coef2, sizeof(int), 1, fp) < 1) goto L1;
+     if (n_coef2 < 0) goto L1;
 
      if (n_coef <= 0)
           n_total = n_coef2;
@@ -1015,6 +1019,7 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
           coefs = (void **) alloc_array2_f(n_elem, n_total);
      else
           coefs = (void **) alloc_array2_d(n_elem, n_total);
+     if (coefs == NULL) goto L1;
 
      for (i = 0; i < n_elem; ++i) {
           if (fread(coefs[i], size2, n_total, fp) < (size_t) n_total) goto L1;
@@ -1026,7 +1031,8 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
 
      if (size != size2) {
           if (size == 4) {
-               *coefs_ = (void **) alloc_array2_f(n_elem2, n_total);
+               *coefs_ = (void **) alloc_array2_f(n_elem, n_total);
+               if (*coefs_ == NULL) goto L1;
 
                for (i = 0; i < n_elem; ++i) {
                     for (j = 0; j < n_total; ++j) {
@@ -1037,7 +1043,8 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
                free_array2_d((double **) coefs);
           }
           else {
-               *coefs_ = (void **) alloc_array2_d(n_elem2, n_total);
+               *coefs_ = (void **) alloc_array2_d(n_elem, n_total);
+               if (*coefs_ == NULL) goto L1;
 
                for (i = 0; i < n_elem; ++i) {
                     for (j = 0; j < n_total; ++j) {
@@ -1129,6 +1136,7 @@ int scat_coefs_write_bin_fp(FILE *fp, int n_coef2,
 
      if (size == 4) {
           coefs2 = (void **) alloc_array2_f(n_elem, n_coef2);
+          if (coefs2 == NULL) goto L1;
 
           for (i = 0; i < n_elem; ++i) {
                for (j = 0; j < n_coef2; ++j) {
@@ -1414,6 +1422,11 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      line++;
 
+     if (*n_quad < 0 || *n_four < 0) {
+          fprintf(stderr, "ERROR: invalid dimensions, line %d\n", line);
+          return -1;
+     }
+
      for (i = 0; i < 2 * *n_quad; ++i) {
            if (fscanf(fp, "%lf%lf%lf%lf%lf%lf%lf%lf",
                       &cextx[i], &cexty[i], &cscatx[i], &cscaty[i],
@@ -1598,9 +1611,16 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      line++;
 
+     if (*n_quad <= 0 || *n_four <= 0 ||
+         64. * *n_four * *n_quad * *n_quad > INT_MAX) {
+          fprintf(stderr, "ERROR: invalid dimensions, line %d\n", line);
+          return -1;
+     }
+
      P    = alloc_array5_d(*n_four, 2 * *n_quad, 2 * *n_quad, 4, 4);
      Kext = alloc_array3_d(         2 * *n_quad, 4, 4);
      Kemi = alloc_array2_d(         2 * *n_quad, 4);
+     if (P == NULL || Kext == NULL || Kemi == NULL) goto L1;
 
      gpass_newline(fp);
      line++;
@@ -1675,9 +1695,12 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      return 0;
 
-L1:  free_array5_d(P);
-     free_array3_d(Kext);
-     free_array2_d(Kemi);
+L1:  if (P)
+          free_array5_d(P);
+     if (Kext)
+          free_array3_d(Kext);
+     if (Kemi)
+          free_array2_d(Kemi);
 
      return -1;
 }
-- 
2.43.0


From 7d5ff2c1f70298f77df581e991a8ad4d1d74260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:01 +0000
Subject: [PATCH 065/115] fix: the name of the size distribution in a file was
 not checked

---
 misc/rtutil_scat_io.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index f99b98f..9ec4e50 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -169,11 +169,12 @@ int scat_header_read_fp(FILE *fp, scat_header_data *h) {
 
      max_length = size_dist_name_max_length();
      snprintf(format, length, "dist_type = %%%ds\n", max_length);
-     name = (char *) malloc(max_length + 1);
+     if ((name = (char *) malloc(max_length + 1)) == NULL) goto L1;
      if (fscanf(fp, format,  name)                      < 1) goto L1;
      h->dist_type = size_dist_code(name);
      free(name);
      name = NULL;
+     if ((int) h->dist_type < 0) goto L1;
 
      if (fscanf(fp, "a1        = %lf\n", &h->a1)        < 1) goto L1;
      if (fscanf(fp, "a2        = %lf\n", &h->a2)        < 1) goto L1;
@@ -263,7 +264,7 @@ int scat_header_write_fp(FILE *fp, scat_header_data *h) {
      if (fprintf(fp, "lambda    = %e\n", h->lambda)    < 1) goto L1;
      if (fprintf(fp, "mr        = %e\n", h->mr)        < 1) goto L1;
      if (fprintf(fp, "mi        = %e\n", h->mi)        < 1) goto L1;
-     name = size_dist_name(h->dist_type);
+     if ((name = size_dist_name(h->dist_type)) == NULL) goto L1;
      if (fprintf(fp, "dist_type = %s\n", name) < 1) goto L1;
      if (fprintf(fp, "a1        = %e\n", h->a1)        < 1) goto L1;
      if (fprintf(fp, "a2        = %e\n", h->a2)        < 1) goto L1;
-- 
2.43.0


From cad40e6311c18c16d40e575999d372398f6ebba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:35 +0000
Subject: [PATCH 066/115] fix: scattering file functions accepted values they
 could not read to the end

---
 misc/rtutil_scat_io.c | 76 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 62 insertions(+), 14 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 9ec4e50..a086d2d 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -127,6 +127,44 @@ void scat_header_zero(scat_header_data *h) {
 
 
 
+/*******************************************************************************
+ * A value in a file has to be followed by white space or the end of the file.
+ ******************************************************************************/
+static int value_end(FILE *fp) {
+
+     int c;
+
+     c = fgetc(fp);
+
+     if (ferror(fp) || (c != EOF && ! isspace(c)))
+          return -1;
+
+     if (c != EOF)
+          ungetc(c, fp);
+
+     return 0;
+}
+
+
+
+static int scan_values(FILE *fp, int n, ...) {
+
+     int i;
+
+     va_list ap;
+
+     va_start(ap, n);
+
+     for (i = 0; i < n; ++i)
+          if (fscanf(fp, "%lf", va_arg(ap, double *)) < 1 || value_end(fp)) break;
+
+     va_end(ap);
+
+     return i;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -201,6 +239,7 @@ int scat_header_read_fp(FILE *fp, scat_header_data *h) {
      if (fscanf(fp, "csca      = %lf\n", &h->csca)      < 1) goto L1;
      if (fscanf(fp, "cbak      = %lf\n", &h->cbak)      < 1) goto L1;
      if (fscanf(fp, "g         = %lf\n", &h->g)         < 1) goto L1;
+     if (ferror(fp)) goto L1;
 
      return 0;
 
@@ -589,17 +628,18 @@ int phase_func_read_fp(FILE *fp, scat_header_data *h,
      }
 
      if (fscanf(fp, "%d", &n_angles) < 1) goto L1;
-     if (n_angles < 0) goto L1;
+     if (n_angles < 0 || value_end(fp)) goto L1;
 
      if ((theta = alloc_array1_d(n_angles)) == NULL) goto L1;
      if ((phase = alloc_array2_d(6, n_angles)) == NULL) goto L1;
 
      for (i = 0; i < n_angles; ++i) {
-          if (fscanf(fp, "%lf", &theta[i]) < 1) goto L1;
+          if (scan_values(fp, 1, &theta[i]) < 1) goto L1;
 
           if (! allsix) {
-               if (fscanf(fp, "%lf", &phase[0][i]) < 1) goto L1;
+               if (scan_values(fp, 1, &phase[0][i]) < 1) goto L1;
                gpass_newline(fp);
+               if (ferror(fp)) goto L1;
                phase[1][i] = 0.;
                phase[2][i] = 0.;
                phase[3][i] = 0.;
@@ -607,7 +647,7 @@ int phase_func_read_fp(FILE *fp, scat_header_data *h,
                phase[5][i] = 0.;
           }
           else {
-               if (fscanf(fp, "%lf%lf%lf%lf%lf%lf",
+               if (scan_values(fp, 6,
                           &phase[0][i], &phase[1][i], &phase[2][i],
                           &phase[3][i], &phase[4][i], &phase[5][i]) < 6) goto L1;
           }
@@ -795,7 +835,7 @@ int scat_coefs_read_fp(FILE *fp, int n_coef,
      }
 
      if (fscanf(fp, "%d", &n_coef2) < 1) goto L1;
-     if (n_coef2 < 0) goto L1;
+     if (n_coef2 < 0 || value_end(fp)) goto L1;
 
      if (n_coef <= 0)
           n_total = n_coef2;
@@ -806,10 +846,11 @@ int scat_coefs_read_fp(FILE *fp, int n_coef,
 
      for (i = 0; i < n_total; ++i) {
           for (j = 0; j < n_elem; ++j)
-               if (fscanf(fp, "%lf", &coefs[j][i]) < 1) goto L1;
+               if (scan_values(fp, 1, &coefs[j][i]) < 1) goto L1;
 
           if (j < n_elem2)
                gpass_newline(fp);
+          if (ferror(fp)) goto L1;
      }
 
      *coefs_ = coefs;
@@ -1409,7 +1450,9 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           }
      }
 
-     if (fscanf(fp, "%d%d%31s%*[\n]", n_quad, &i_four, quad_name) < 3) {
+     if (fscanf(fp, "%d", n_quad) < 1 || value_end(fp) ||
+         fscanf(fp, "%d", &i_four) < 1 || value_end(fp) ||
+         fscanf(fp, "%31s%*[\n]", quad_name) < 1 || ferror(fp)) {
           fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
           return -1;
      }
@@ -1429,7 +1472,7 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
      }
 
      for (i = 0; i < 2 * *n_quad; ++i) {
-           if (fscanf(fp, "%lf%lf%lf%lf%lf%lf%lf%lf",
+           if (scan_values(fp, 8,
                       &cextx[i], &cexty[i], &cscatx[i], &cscaty[i],
                       &cbackx[i], &cbacky[i], &gx[i], &gy[i]) < 8) {
                 fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
@@ -1598,7 +1641,9 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           }
      }
 
-     if (fscanf(fp, "%d%d%31s%*[\n]", n_quad, &i_four, quad_name) < 3) {
+     if (fscanf(fp, "%d", n_quad) < 1 || value_end(fp) ||
+         fscanf(fp, "%d", &i_four) < 1 || value_end(fp) ||
+         fscanf(fp, "%31s%*[\n]", quad_name) < 1 || ferror(fp)) {
           fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
           return -1;
      }
@@ -1629,7 +1674,8 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
      for (k = 0; k < 2 * *n_quad; ++k) {
           for (j = 0; j < 2 * *n_quad; ++j) {
                for (i = 0; i < *n_four; ++i) {
-                    if (fscanf(fp, "%lf%lf%d", &mu1, &mu2, &i_four) < 3) {
+                    if (scan_values(fp, 2, &mu1, &mu2) < 2 ||
+                        fscanf(fp, "%d", &i_four) < 1 || value_end(fp)) {
                          fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
                          goto L1;
                     }
@@ -1642,7 +1688,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                     }
 
                     for (l = 0; l < 4; ++l) {
-                         if (fscanf(fp, "%lf%lf%lf%lf\n",
+                         if (scan_values(fp, 4,
                                     &P[i][j][k][l][0], &P[i][j][k][l][1],
                                     &P[i][j][k][l][2], &P[i][j][k][l][3]) < 4) {
                               fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
@@ -1655,10 +1701,11 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           }
      }
 
+     fscanf(fp, " ");
      gpass_newline(fp);
 
      for (i = 0; i < 2 * *n_quad; ++i) {
-          if (fscanf(fp, "%lf", &mu1) < 1) {
+          if (scan_values(fp, 1, &mu1) < 1) {
                fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
                goto L1;
           }
@@ -1666,7 +1713,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           line++;
 
           for (j = 0; j < 4; ++j) {
-               if (fscanf(fp, "%lf%lf%lf%lf\n",
+               if (scan_values(fp, 4,
                           &Kext[i][j][0], &Kext[i][j][1],
                           &Kext[i][j][2], &Kext[i][j][3]) < 4) {
                     fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
@@ -1677,10 +1724,11 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           }
      }
 
+     fscanf(fp, " ");
      gpass_newline(fp);
 
      for (i = 0; i < 2 * *n_quad; ++i) {
-          if (fscanf(fp, "%lf%lf%lf%lf%lf\n", &mu1,
+          if (scan_values(fp, 5, &mu1,
                      &Kemi[i][0], &Kemi[i][1],
                      &Kemi[i][2], &Kemi[i][3]) < 5) {
                fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-- 
2.43.0


From a16a833b8e4b8543fc6388356dc5eb9d21a83813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:35 +0000
Subject: [PATCH 067/115] fix: scattering files with unknown types could be
 read and written

---
 misc/rtutil_scat_io.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index a086d2d..0602dc5 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -397,6 +397,7 @@ int scat_header_read_bin_fp(FILE *fp, scat_header_data *h) {
      if (fread(&h->mr,        sizeof(double), 1, fp) < 1) goto L1;
      if (fread(&h->mi,        sizeof(double), 1, fp) < 1) goto L1;
      if (fread(&h->dist_type, sizeof(int),    1, fp) < 1) goto L1;
+     if (size_dist_name(h->dist_type) == NULL) goto L1;
      if (fread(&h->a1,        sizeof(double), 1, fp) < 1) goto L1;
      if (fread(&h->a2,        sizeof(double), 1, fp) < 1) goto L1;
      if (fread(&h->a3,        sizeof(double), 1, fp) < 1) goto L1;
@@ -1538,6 +1539,11 @@ int scat_total_write_fp(FILE *fp, scat_header_data *h, int n_quad,
           }
      }
 
+     if (quadrature_name((enum quadrature_type) quad_type) == NULL) {
+          fprintf(stderr, "ERROR: invalid quadrature type: %d\n", quad_type);
+          return -1;
+     }
+
      if (fprintf(fp, "%d %d %s\n", n_quad, n_four - 1,
                  quadrature_name((enum quadrature_type) quad_type)) < 0) {
           fprintf(stderr, "ERROR: Problem writing to file\n");
@@ -1810,6 +1816,11 @@ int phase_mats_write_fp(FILE *fp, scat_header_data *h, int n_quad,
           }
      }
 
+     if (quadrature_name((enum quadrature_type) quad_type) == NULL) {
+          fprintf(stderr, "ERROR: invalid quadrature type: %d\n", quad_type);
+          return -1;
+     }
+
      if (fprintf(fp, "%d %d %s\n", n_quad, n_four - 1,
                  quadrature_name((enum quadrature_type) quad_type)) < 0) {
           fprintf(stderr, "ERROR: Problem writing to file\n");
-- 
2.43.0


From 4662249c2d6d78b495fede8c58f633ca7d78f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:01 +0000
Subject: [PATCH 068/115] fix: load_scat_coefs() normalized only the first
 coefficient

---
 misc/rtutil_scat_io.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 0602dc5..6a96b10 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1929,8 +1929,11 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      int i;
      int j;
 
+     int n_elem = 6;
      int n_coef2;
 
+     double norm;
+
      double g;
      double g1;
      double g2;
@@ -2081,6 +2084,8 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
           }
 
           *flag = SCAT_COEF_GC;
+
+          n_elem = token[2] == '6' ? 6 : 1;
      }
      else if (strcmp(token, "lc") == 0 || strcmp(token, "lc6") == 0) {
           token2 = strtok_r(NULL, ":", &lasts);
@@ -2091,6 +2096,8 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
           }
 
           *flag = SCAT_COEF_LC;
+
+          n_elem = token[2] == '6' ? 6 : 1;
      }
      else if (strcmp(token, "none") == 0) {
           init_array2_d(coefs, 6, n_coef, 0.);
@@ -2145,10 +2152,12 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
           return -1;
      }
 
-     if (coefs[0][0] != 0. && coefs[0][0] != 1.) {
-          for (i = 0; i < 6; ++i) {
+     norm = coefs[0][0];
+
+     if (norm != 0. && norm != 1.) {
+          for (i = 0; i < n_elem; ++i) {
                for (j = 0; j < n_coef2; ++j) {
-                    coefs[i][j] /= coefs[0][0];
+                    coefs[i][j] /= norm;
                }
           }
      }
-- 
2.43.0


From 1bc846ecd47cdbaf23ad85d0011385603d029906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:01 +0000
Subject: [PATCH 069/115] fix: load_scat_coefs() left memory behind or crashed
 after an error

---
 misc/rtutil_scat_io.c | 53 +++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 6a96b10..64a86fe 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1946,20 +1946,26 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      double f_l;
      double rho_l;
 
-     double **coefs;
+     double **coefs = NULL;
 
-     temp = strdup(filename);
+     if ((temp = strdup(filename)) == NULL) {
+          fprintf(stderr, "ERROR: memory allocation failed\n");
+          return -1;
+     }
 
-     token = strtok_r(temp, ":", &lasts);
+     if ((token = strtok_r(temp, ":", &lasts)) == NULL) {
+          fprintf(stderr, "ERROR: invalid phase input type: %s\n", filename);
+          goto L1;
+     }
 
      if (is_user_defined_n_coef(token)) {
           if (n_coef <= 0) {
                fprintf(stderr, "ERROR: must specifiy the number of phase function "
                       "coefficients for the %s phase function()\n", token);
-               return -1;
+               goto L1;
           }
 
-          coefs = alloc_array2_d(6, n_coef);
+          if ((coefs = alloc_array2_d(6, n_coef)) == NULL) goto L1;
           init_array2_d(coefs, 6, n_coef, 0.);
      }
 
@@ -2076,11 +2082,19 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
           *flag = SCAT_COEF_GC;
      }
      else if (strcmp(token, "gc") == 0 || strcmp(token, "gc6") == 0) {
-          token2 = strtok_r(NULL, ":", &lasts);
+          if ((token2 = strtok_r(NULL, ":", &lasts)) == NULL) {
+               fprintf(stderr, "ERROR: invalid phase input: %s\n", filename);
+               goto L1;
+          }
 
           if ((n_coef2 = scat_coefs_read_fn(token2, n_coef, NULL, &coefs, token[2] == '6'))  < 0) {
                fprintf(stderr, "ERROR: scat_coefs_read_fn()\n");
-               return -1;
+               goto L1;
+          }
+
+          if (n_coef2 < 1) {
+               fprintf(stderr, "ERROR: no phase coefficients in file: %s\n", token2);
+               goto L1;
           }
 
           *flag = SCAT_COEF_GC;
@@ -2088,11 +2102,19 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
           n_elem = token[2] == '6' ? 6 : 1;
      }
      else if (strcmp(token, "lc") == 0 || strcmp(token, "lc6") == 0) {
-          token2 = strtok_r(NULL, ":", &lasts);
+          if ((token2 = strtok_r(NULL, ":", &lasts)) == NULL) {
+               fprintf(stderr, "ERROR: invalid phase input: %s\n", filename);
+               goto L1;
+          }
 
           if ((n_coef2 = scat_coefs_read_fn(token2, n_coef, NULL, &coefs, token[2] == '6'))  < 0) {
                fprintf(stderr, "ERROR: scat_coefs_read_fn()\n");
-               return -1;
+               goto L1;
+          }
+
+          if (n_coef2 < 1) {
+               fprintf(stderr, "ERROR: no phase coefficients in file: %s\n", token2);
+               goto L1;
           }
 
           *flag = SCAT_COEF_LC;
@@ -2114,7 +2136,7 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
                goto L1;
           }
 
-          coefs = alloc_array2_d(6, 3);
+          if ((coefs = alloc_array2_d(6, 3)) == NULL) goto L1;
           init_array2_d(coefs, 6, 3, 0.);
 
           scat_coefs_ray(rho, coefs);
@@ -2138,7 +2160,7 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
                goto L1;
           }
 
-          coefs = alloc_array2_d(6, 3);
+          if ((coefs = alloc_array2_d(6, 3)) == NULL) goto L1;
           init_array2_d(coefs, 6, 3, 0.);
 
           scat_coefs_ray_l(rho, rho_l, coefs);
@@ -2149,7 +2171,7 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      }
      else {
           fprintf(stderr, "ERROR: invalid phase input type: %s\n", token);
-          return -1;
+          goto L1;
      }
 
      norm = coefs[0][0];
@@ -2168,7 +2190,10 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
 
      return n_coef2;
 
-L1:  free_array2_d(coefs);
+L1:  if (coefs)
+          free_array2_d(coefs);
+
+     free(temp);
 
      return -1;
 }
@@ -2186,7 +2211,7 @@ int load_scat_coefs2(const char *filename, int n_coef, int n_coef2, double ***co
 
      token = strtok_r(temp, ":", &lasts);
 
-     if (! is_user_defined_n_coef(token))
+     if (token && ! is_user_defined_n_coef(token))
           n_coef = n_coef2;
 
      free(temp);
-- 
2.43.0


From 0c11e849e6137579ea44b95ffb0bdcdb60042e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:55 +0000
Subject: [PATCH 070/115] fix: scat_coefs_read_bin_fp() did not check the
 number of elements in the file

---
 misc/rtutil_scat_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 64a86fe..2e2d2b8 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1051,7 +1051,7 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
      }
 
      if (fread(&n_coef2, sizeof(int), 1, fp) < 1) goto L1;
-     if (n_coef2 < 0) goto L1;
+     if (n_coef2 < 0 || n_elem2 > 6) goto L1;
 
      if (n_coef <= 0)
           n_total = n_coef2;
-- 
2.43.0


From d62c4c6ce57ff479d652bb87db0da8031e814950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:39 +0000
Subject: [PATCH 071/115] fix: values in scattering files that end in their
 exponent were accepted

---
 misc/rtutil_scat_io.c | 76 +++++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 28 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 2e2d2b8..113a0d0 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -150,13 +150,21 @@ static int value_end(FILE *fp) {
 static int scan_values(FILE *fp, int n, ...) {
 
      int i;
+     int i1;
+     int i2;
+
+     char s[512];
+     char *end;
 
      va_list ap;
 
      va_start(ap, n);
 
-     for (i = 0; i < n; ++i)
-          if (fscanf(fp, "%lf", va_arg(ap, double *)) < 1 || value_end(fp)) break;
+     for (i = 0; i < n; ++i) {
+          if (fscanf(fp, " %n%511s%n", &i1, s, &i2) < 1 || value_end(fp)) break;
+          *va_arg(ap, double *) = strtod(s, &end);
+          if (end == s || end != s + (i2 - i1)) break;
+     }
 
      va_end(ap);
 
@@ -165,6 +173,18 @@ static int scan_values(FILE *fp, int n, ...) {
 
 
 
+static int scan_header(FILE *fp, const char *label, double *value) {
+
+     int n = 0;
+
+     if (fscanf(fp, label, &n) < 0 || n == 0)
+          return 0;
+
+     return scan_values(fp, 1, value);
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -201,12 +221,12 @@ int scat_header_read_fp(FILE *fp, scat_header_data *h) {
 
      int max_length;
 
-     if (fscanf(fp, "lambda    = %lf\n", &h->lambda)    < 1) goto L1;
-     if (fscanf(fp, "mr        = %lf\n", &h->mr)        < 1) goto L1;
-     if (fscanf(fp, "mi        = %lf\n", &h->mi)        < 1) goto L1;
+     if (scan_header(fp, "lambda    = %n", &h->lambda)    < 1) goto L1;
+     if (scan_header(fp, " mr        = %n", &h->mr)        < 1) goto L1;
+     if (scan_header(fp, " mi        = %n", &h->mi)        < 1) goto L1;
 
      max_length = size_dist_name_max_length();
-     snprintf(format, length, "dist_type = %%%ds\n", max_length);
+     snprintf(format, length, " dist_type = %%%ds", max_length);
      if ((name = (char *) malloc(max_length + 1)) == NULL) goto L1;
      if (fscanf(fp, format,  name)                      < 1) goto L1;
      h->dist_type = size_dist_code(name);
@@ -214,31 +234,31 @@ int scat_header_read_fp(FILE *fp, scat_header_data *h) {
      name = NULL;
      if ((int) h->dist_type < 0) goto L1;
 
-     if (fscanf(fp, "a1        = %lf\n", &h->a1)        < 1) goto L1;
-     if (fscanf(fp, "a2        = %lf\n", &h->a2)        < 1) goto L1;
-     if (fscanf(fp, "a3        = %lf\n", &h->a3)        < 1) goto L1;
-     if (fscanf(fp, "a4        = %lf\n", &h->a4)        < 1) goto L1;
-     if (fscanf(fp, "a5        = %lf\n", &h->a5)        < 1) goto L1;
-     if (fscanf(fp, "r1        = %lf\n", &h->r1)        < 1) goto L1;
-     if (fscanf(fp, "r2        = %lf\n", &h->r2)        < 1) goto L1;
-     if (fscanf(fp, "n_int1    = %d\n",  &h->n_int1)    < 1) goto L1;
-     if (fscanf(fp, "n_int2    = %d\n",  &h->n_int2)    < 1) goto L1;
-     if (fscanf(fp, "n_quad    = %d\n",  &h->n_quad)    < 1) goto L1;
+     if (scan_header(fp, " a1        = %n", &h->a1)        < 1) goto L1;
+     if (scan_header(fp, " a2        = %n", &h->a2)        < 1) goto L1;
+     if (scan_header(fp, " a3        = %n", &h->a3)        < 1) goto L1;
+     if (scan_header(fp, " a4        = %n", &h->a4)        < 1) goto L1;
+     if (scan_header(fp, " a5        = %n", &h->a5)        < 1) goto L1;
+     if (scan_header(fp, " r1        = %n", &h->r1)        < 1) goto L1;
+     if (scan_header(fp, " r2        = %n", &h->r2)        < 1) goto L1;
+     if (fscanf(fp, " n_int1    = %d",  &h->n_int1)    < 1 || value_end(fp)) goto L1;
+     if (fscanf(fp, " n_int2    = %d",  &h->n_int2)    < 1 || value_end(fp)) goto L1;
+     if (fscanf(fp, " n_quad    = %d",  &h->n_quad)    < 1 || value_end(fp)) goto L1;
      h->accuracy = 0.;
 /*
-     if (fscanf(fp, "accuracy  = %lf\n", &h->accuracy)  < 1) goto L1;
+     if (scan_header(fp, " accuracy  = %n", &h->accuracy)  < 1) goto L1;
 */
-     if (fscanf(fp, "norm      = %lf\n", &h->norm)      < 1) goto L1;
-     if (fscanf(fp, "reff      = %lf\n", &h->reff)      < 1) goto L1;
-     if (fscanf(fp, "veff      = %lf\n", &h->veff)      < 1) goto L1;
-     if (fscanf(fp, "gavg      = %lf\n", &h->gavg)      < 1) goto L1;
-     if (fscanf(fp, "vavg      = %lf\n", &h->vavg)      < 1) goto L1;
-     if (fscanf(fp, "ravg      = %lf\n", &h->ravg)      < 1) goto L1;
-     if (fscanf(fp, "rvw       = %lf\n", &h->rvw)       < 1) goto L1;
-     if (fscanf(fp, "cext      = %lf\n", &h->cext)      < 1) goto L1;
-     if (fscanf(fp, "csca      = %lf\n", &h->csca)      < 1) goto L1;
-     if (fscanf(fp, "cbak      = %lf\n", &h->cbak)      < 1) goto L1;
-     if (fscanf(fp, "g         = %lf\n", &h->g)         < 1) goto L1;
+     if (scan_header(fp, " norm      = %n", &h->norm)      < 1) goto L1;
+     if (scan_header(fp, " reff      = %n", &h->reff)      < 1) goto L1;
+     if (scan_header(fp, " veff      = %n", &h->veff)      < 1) goto L1;
+     if (scan_header(fp, " gavg      = %n", &h->gavg)      < 1) goto L1;
+     if (scan_header(fp, " vavg      = %n", &h->vavg)      < 1) goto L1;
+     if (scan_header(fp, " ravg      = %n", &h->ravg)      < 1) goto L1;
+     if (scan_header(fp, " rvw       = %n", &h->rvw)       < 1) goto L1;
+     if (scan_header(fp, " cext      = %n", &h->cext)      < 1) goto L1;
+     if (scan_header(fp, " csca      = %n", &h->csca)      < 1) goto L1;
+     if (scan_header(fp, " cbak      = %n", &h->cbak)      < 1) goto L1;
+     if (scan_header(fp, " g         = %n", &h->g)         < 1) goto L1;
      if (ferror(fp)) goto L1;
 
      return 0;
-- 
2.43.0


From 3ee85e9da7901b9028690044ad715a67e040a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:28 +0000
Subject: [PATCH 072/115] fix: names in scattering files with a zero byte
 behind them were accepted

---
 misc/rtutil_scat_io.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 113a0d0..b571450 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -221,14 +221,18 @@ int scat_header_read_fp(FILE *fp, scat_header_data *h) {
 
      int max_length;
 
+     int i1;
+     int i2;
+
      if (scan_header(fp, "lambda    = %n", &h->lambda)    < 1) goto L1;
      if (scan_header(fp, " mr        = %n", &h->mr)        < 1) goto L1;
      if (scan_header(fp, " mi        = %n", &h->mi)        < 1) goto L1;
 
      max_length = size_dist_name_max_length();
-     snprintf(format, length, " dist_type = %%%ds", max_length);
+     snprintf(format, length, " dist_type = %%n%%%ds%%n", max_length);
      if ((name = (char *) malloc(max_length + 1)) == NULL) goto L1;
-     if (fscanf(fp, format,  name)                      < 1) goto L1;
+     if (fscanf(fp, format,  &i1, name, &i2)            < 1) goto L1;
+     if (strlen(name) != i2 - i1 || value_end(fp)) goto L1;
      h->dist_type = size_dist_code(name);
      free(name);
      name = NULL;
@@ -1456,6 +1460,9 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      int i_four;
 
+     int i1;
+     int i2;
+
      line = 1;
 
      if (! h) {
@@ -1473,7 +1480,8 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      if (fscanf(fp, "%d", n_quad) < 1 || value_end(fp) ||
          fscanf(fp, "%d", &i_four) < 1 || value_end(fp) ||
-         fscanf(fp, "%31s%*[\n]", quad_name) < 1 || ferror(fp)) {
+         fscanf(fp, " %n%31s%n%*[\n]", &i1, quad_name, &i2) < 1 ||
+         strlen(quad_name) != i2 - i1 || ferror(fp)) {
           fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
           return -1;
      }
@@ -1629,6 +1637,9 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      int i_four;
 
+     int i1;
+     int i2;
+
      double mu1;
      double mu2;
 
@@ -1669,7 +1680,8 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      if (fscanf(fp, "%d", n_quad) < 1 || value_end(fp) ||
          fscanf(fp, "%d", &i_four) < 1 || value_end(fp) ||
-         fscanf(fp, "%31s%*[\n]", quad_name) < 1 || ferror(fp)) {
+         fscanf(fp, " %n%31s%n%*[\n]", &i1, quad_name, &i2) < 1 ||
+         strlen(quad_name) != i2 - i1 || ferror(fp)) {
           fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
           return -1;
      }
-- 
2.43.0


From 36f2c10a7579a3fe2fa682ff788b9fa1679cdd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:13 +0000
Subject: [PATCH 073/115] fix: coef_files_l and coef_files_p for all layers
 read as many names as derivatives

---
 utils/input_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 311d7fd..ccf5782 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1211,7 +1211,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
      if ( n == 2 && dimens[0] == -1 && dimens[1] > -1) {
           parse_equal(input);
 
-          n_layers = xrtm_get_n_derivs(input->d);
+          n_layers = xrtm_get_n_layers(input->d);
 
           x1 = parse_array1_string(input, n_layers);
 
-- 
2.43.0


From 5283411889bda93d6d4fd2d45357eb90de7016d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:13 +0000
Subject: [PATCH 074/115] fix: vector calculations read past the coefficients
 of scalar phase functions from files

---
 misc/rtutil_scat_io.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index b571450..ba69a1a 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1950,6 +1950,30 @@ static int is_user_defined_n_coef(char *token) {
 
 
 
+static double **resize_coefs(double **coefs, int n_elem, int n_coef, int n_elem2, int n_coef2) {
+
+     int i;
+     int j;
+
+     double **coefs2;
+
+     if ((coefs2 = alloc_array2_d(n_elem2, n_coef2)) == NULL)
+          return NULL;
+
+     init_array2_d(coefs2, n_elem2, n_coef2, 0.);
+
+     for (i = 0; i < n_elem; ++i) {
+          for (j = 0; j < n_coef; ++j)
+               coefs2[i][j] = coefs[i][j];
+     }
+
+     free_array2_d(coefs);
+
+     return coefs2;
+}
+
+
+
 int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *flag) {
 
      char *temp;
@@ -1979,6 +2003,7 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      double rho_l;
 
      double **coefs = NULL;
+     double **coefs2;
 
      if ((temp = strdup(filename)) == NULL) {
           fprintf(stderr, "ERROR: memory allocation failed\n");
@@ -2216,6 +2241,11 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
           }
      }
 
+     if (n_elem < 6) {
+          if ((coefs2 = resize_coefs(coefs, n_elem, n_coef2, 6, n_coef2)) == NULL) goto L1;
+          coefs = coefs2;
+     }
+
      *coefs_ = coefs;
 
      free(temp);
-- 
2.43.0


From 8ae7cf7586188414ae2aad0d019be8c61a42be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:13 +0000
Subject: [PATCH 075/115] fix: linearized coefficient files with fewer terms
 than the layer were read past their end

---
 misc/rtutil_scat_io.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index ba69a1a..2c685d5 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -2269,7 +2269,14 @@ int load_scat_coefs2(const char *filename, int n_coef, int n_coef2, double ***co
      char *token;
      char *lasts = NULL;
 
-     temp = strdup(filename);
+     int n_coef_layer = n_coef;
+
+     double **coefs;
+
+     if ((temp = strdup(filename)) == NULL) {
+          fprintf(stderr, "ERROR: memory allocation failed\n");
+          return -1;
+     }
 
      token = strtok_r(temp, ":", &lasts);
 
@@ -2283,5 +2290,16 @@ int load_scat_coefs2(const char *filename, int n_coef, int n_coef2, double ***co
           return -1;
      }
 
+     if (n_coef2 < n_coef_layer) {
+          if ((coefs = resize_coefs(*coefs_, 6, n_coef2, 6, n_coef_layer)) == NULL) {
+               free_array2_d(*coefs_);
+               return -1;
+          }
+
+          *coefs_ = coefs;
+
+          n_coef2 = n_coef_layer;
+     }
+
      return n_coef2;
 }
-- 
2.43.0


From 00585667b98fe17b8c1fc0de1f0056a345d326ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 076/115] fix: input errors before any statement used a pointer
 that was not set, and names with % were formats

---
 utils/input_util.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index ccf5782..9a23439 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -26,23 +26,17 @@
  ******************************************************************************/
 void input_error(locus_data *locus, const char *s, ...) {
 
-     char *format;
-
-     size_t size;
-
      va_list ap;
 
-     size = 7 + strlen(locus->file) + 1 + 16 + 1 + strlen(locus->statement) + 2 + strlen(s) + 2 + 1;
-
-     format = (char *) malloc(size);
-
-     snprintf(format, size, "ERROR: %s:%d:%s, %s\n", locus->file, locus->line, locus->statement, s);
+     fprintf(stderr, "ERROR: %s:%d:%s, ", locus->file, locus->line, locus->statement);
 
      va_start(ap, s);
 
-     vfprintf(stderr, format, ap);
+     vfprintf(stderr, s, ap);
 
      va_end(ap);
+
+     fprintf(stderr, "\n");
 }
 
 
@@ -2233,6 +2227,8 @@ static void input_init(input_data *input, xrtm_data *d, xrtm_fd_data *fd, misc_d
 
      input->locus.file   = file;
      input->locus.line   = 1;
+
+     input->locus.statement = "";
 }
 
 
-- 
2.43.0


From afc0b5da226f6410513883463053164cab60a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 077/115] fix: input files with a comment that does not end
 were accepted

---
 utils/input_yylex.c | 1 +
 utils/input_yylex.l | 1 +
 2 files changed, 2 insertions(+)

diff --git a/utils/input_yylex.c b/utils/input_yylex.c
index cad15ab..02b4c17 100644
--- a/utils/input_yylex.c
+++ b/utils/input_yylex.c
@@ -2469,6 +2469,7 @@ void comment(locus_data *locus) {
 		prev = c;
 	}
 	input_error(locus, "unterminated comment");
+	exit(1);
 }
 
 
diff --git a/utils/input_yylex.l b/utils/input_yylex.l
index a1dd5f5..1d70ffd 100644
--- a/utils/input_yylex.l
+++ b/utils/input_yylex.l
@@ -153,6 +153,7 @@ void comment(locus_data *locus) {
 		prev = c;
 	}
 	input_error(locus, "unterminated comment");
+	exit(1);
 }
 
 
-- 
2.43.0


From d48999dac38f2ee55f15a4c8510eda4f953768ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 078/115] fix: control characters in input files ended the
 input or were taken for values

---
 utils/input_yylex.c | 734 ++++++++++++++++++++++----------------------
 utils/input_yylex.h |   2 +-
 utils/input_yylex.l |   5 +
 3 files changed, 377 insertions(+), 364 deletions(-)

diff --git a/utils/input_yylex.c b/utils/input_yylex.c
index 02b4c17..09f0159 100644
--- a/utils/input_yylex.c
+++ b/utils/input_yylex.c
@@ -355,8 +355,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 73
-#define YY_END_OF_BUFFER 74
+#define YY_NUM_RULES 74
+#define YY_END_OF_BUFFER 75
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -364,394 +364,394 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[558] =
+static const flex_int16_t yy_accept[559] =
     {   0,
-        0,    0,   74,   72,    1,   71,   72,   72,   72,   72,
-       72,   69,   70,   70,   70,   70,   70,   38,   70,   70,
-       70,   70,   70,   70,   70,   70,    1,    0,   65,    0,
-       64,    0,   69,    0,    0,    0,    0,   38,    0,    0,
-        0,    0,    0,    0,    0,    0,   68,    2,    3,   67,
-       70,   70,   70,   70,   70,    4,   70,   70,   70,   70,
+        0,    0,   75,   72,   73,    1,   71,   73,   73,   73,
+       73,   73,   69,   70,   70,   70,   70,   70,   38,   70,
+       70,   70,   70,   70,   70,   70,   70,    1,    0,   65,
+        0,   64,    0,   69,    0,    0,    0,    0,   38,    0,
+        0,    0,    0,    0,    0,    0,    0,   68,    2,    3,
+       67,   70,   70,   70,   70,   70,    4,   70,   70,   70,
        70,   70,   70,   70,   70,   70,   70,   70,   70,   70,
-       70,   70,   70,    0,    0,    0,    0,    4,    0,    0,
+       70,   70,   70,   70,    0,    0,    0,    0,    4,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,    0,    3,   66,    0,   27,
+        0,    0,    0,    0,    0,    0,    0,    3,   66,    0,
 
-       70,   70,   70,   70,   70,   39,   57,   70,   70,   70,
+       27,   70,   70,   70,   70,   70,   39,   57,   70,   70,
        70,   70,   70,   70,   70,   70,   70,   70,   70,   70,
-       70,   70,   70,   70,   70,   70,   70,   70,   27,    0,
-        0,    0,    0,    0,   39,   57,    0,    0,    0,    0,
+       70,   70,   70,   70,   70,   70,   70,   70,   70,   27,
+        0,    0,    0,    0,    0,   39,   57,    0,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,    0,    0,    0,   68,    0,
-        0,   67,   70,   40,   70,   70,   70,   70,   70,   70,
-       46,   70,   70,   70,   70,   70,   70,   70,   70,   70,
-       70,   70,   70,   70,   70,   70,   70,   70,    0,   40,
-        0,    0,    0,    0,    0,    0,   46,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,   68,
+        0,    0,   67,   70,   40,   70,   70,   70,   70,   70,
+       70,   46,   70,   70,   70,   70,   70,   70,   70,   70,
+       70,   70,   70,   70,   70,   70,   70,   70,   70,    0,
+       40,    0,    0,    0,    0,    0,    0,   46,    0,    0,
 
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,   66,   70,   70,   52,   70,
+        0,    0,    0,    0,    0,    0,   66,   70,   70,   52,
+       70,   70,   70,   70,   70,   70,   70,   70,   70,   70,
+       70,   70,   70,   44,   70,   70,   70,   70,   29,   70,
+       70,   70,   70,   70,    0,    0,   52,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+       44,    0,    0,    0,    0,   29,    0,    0,    0,    0,
+        0,   70,   70,   41,   58,   70,   70,   70,   21,   70,
+       47,   61,   70,   70,   70,   70,   70,    8,   70,   70,
        70,   70,   70,   70,   70,   70,   70,   70,   70,   70,
-       70,   70,   44,   70,   70,   70,   70,   29,   70,   70,
-       70,   70,   70,    0,    0,   52,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,    0,    0,    0,    0,   44,
-        0,    0,    0,    0,   29,    0,    0,    0,    0,    0,
-       70,   70,   41,   58,   70,   70,   70,   21,   70,   47,
-       61,   70,   70,   70,   70,   70,    8,   70,   70,   70,
-       70,   70,   70,   70,   70,   70,   70,   70,   70,    0,
 
-        0,   41,   58,    0,    0,    0,   21,    0,   47,   61,
-        0,    0,    0,    0,    0,    8,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,    0,    0,    0,   70,   70,
-       70,   70,   70,   70,   14,   70,   70,   70,   70,   70,
-       70,   70,   70,   45,   60,    5,   70,   70,   70,   70,
-       70,    6,   70,   70,   28,    0,    0,    0,    0,    0,
-        0,   14,    0,    0,    0,    0,    0,    0,    0,    0,
-       45,   60,    5,    0,    0,    0,    0,    0,    6,    0,
-        0,   28,   70,   70,   70,   70,   70,   70,   70,   34,
-       23,    7,   10,   70,   11,   70,   70,    9,   70,   25,
-
-       70,   70,   22,   70,   70,    0,    0,    0,    0,    0,
-        0,    0,   34,   23,    7,   10,    0,   11,    0,    0,
-        9,    0,   25,    0,    0,   22,    0,    0,   32,   30,
-       70,   70,   70,   70,   70,   70,   70,   12,   70,   70,
-       70,   70,   70,   70,   36,   32,   30,    0,    0,    0,
-        0,    0,    0,    0,   12,    0,    0,    0,    0,    0,
-        0,   36,   70,   70,   42,   17,   70,   70,   70,   35,
-       55,   70,   70,   70,   24,   26,   70,   19,   70,    0,
-        0,   42,   17,    0,    0,    0,   35,   55,    0,    0,
-        0,   24,   26,    0,   19,    0,   33,   54,   31,   53,
-
-       70,   20,   70,   70,   70,   70,   70,   18,   37,   56,
-       33,   54,   31,   53,    0,   20,    0,    0,    0,    0,
-        0,   18,   37,   56,   43,   59,   70,   70,   70,   15,
-       16,   43,   59,    0,    0,    0,   15,   16,   48,   49,
-       13,   48,   49,   13,   70,   70,    0,    0,   50,   62,
-       51,   63,   50,   62,   51,   63,    0
+        0,    0,   41,   58,    0,    0,    0,   21,    0,   47,
+       61,    0,    0,    0,    0,    0,    8,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,   70,
+       70,   70,   70,   70,   70,   14,   70,   70,   70,   70,
+       70,   70,   70,   70,   45,   60,    5,   70,   70,   70,
+       70,   70,    6,   70,   70,   28,    0,    0,    0,    0,
+        0,    0,   14,    0,    0,    0,    0,    0,    0,    0,
+        0,   45,   60,    5,    0,    0,    0,    0,    0,    6,
+        0,    0,   28,   70,   70,   70,   70,   70,   70,   70,
+       34,   23,    7,   10,   70,   11,   70,   70,    9,   70,
+
+       25,   70,   70,   22,   70,   70,    0,    0,    0,    0,
+        0,    0,    0,   34,   23,    7,   10,    0,   11,    0,
+        0,    9,    0,   25,    0,    0,   22,    0,    0,   32,
+       30,   70,   70,   70,   70,   70,   70,   70,   12,   70,
+       70,   70,   70,   70,   70,   36,   32,   30,    0,    0,
+        0,    0,    0,    0,    0,   12,    0,    0,    0,    0,
+        0,    0,   36,   70,   70,   42,   17,   70,   70,   70,
+       35,   55,   70,   70,   70,   24,   26,   70,   19,   70,
+        0,    0,   42,   17,    0,    0,    0,   35,   55,    0,
+        0,    0,   24,   26,    0,   19,    0,   33,   54,   31,
+
+       53,   70,   20,   70,   70,   70,   70,   70,   18,   37,
+       56,   33,   54,   31,   53,    0,   20,    0,    0,    0,
+        0,    0,   18,   37,   56,   43,   59,   70,   70,   70,
+       15,   16,   43,   59,    0,    0,    0,   15,   16,   48,
+       49,   13,   48,   49,   13,   70,   70,    0,    0,   50,
+       62,   51,   63,   50,   62,   51,   63,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
     {   0,
-        1,    1,    1,    1,    1,    1,    1,    1,    2,    3,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    2,    1,    4,    1,    1,    1,    1,    5,    1,
-        1,    6,    7,    1,    8,    9,   10,   11,   12,   12,
-       12,   12,   12,   12,   12,   12,   12,   13,    1,    1,
-        1,    1,    1,    1,   14,   14,   14,   14,   15,   16,
-       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
-       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
-        1,    1,    1,    1,   17,    1,   18,   19,   20,   21,
-
-       22,   23,   24,   25,   26,   14,   27,   28,   29,   30,
-       31,   32,   33,   34,   35,   36,   37,   38,   14,   39,
-       40,   41,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1
+        1,    1,    1,    1,    2,    2,    2,    2,    3,    4,
+        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
+        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
+        2,    3,    2,    5,    2,    2,    2,    2,    6,    2,
+        2,    7,    8,    2,    9,   10,   11,   12,   13,   13,
+       13,   13,   13,   13,   13,   13,   13,   14,    2,    2,
+        2,    2,    2,    2,   15,   15,   15,   15,   16,   17,
+       15,   15,   15,   15,   15,   15,   15,   15,   15,   15,
+       15,   15,   15,   15,   15,   15,   15,   15,   15,   15,
+        2,    2,    2,    2,   18,    2,   19,   20,   21,   22,
+
+       23,   24,   25,   26,   27,   15,   28,   29,   30,   31,
+       32,   33,   34,   35,   36,   37,   38,   39,   15,   40,
+       41,   42,    2,    2,    2,    2,    2,    2,    2,    2,
+        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
+        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
+        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
+        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
+        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
+        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
+        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
+
+        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
+        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
+        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
+        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
+        2,    2,    2,    2,    2,    2,    2,    2,    2,    2,
+        2,    2,    2,    2,    2
     } ;
 
-static const YY_CHAR yy_meta[42] =
+static const YY_CHAR yy_meta[43] =
     {   0,
-        1,    1,    2,    1,    1,    1,    1,    3,    3,    3,
+        1,    1,    1,    2,    1,    1,    1,    1,    3,    3,
         3,    3,    3,    3,    3,    3,    3,    3,    3,    3,
         3,    3,    3,    3,    3,    3,    3,    3,    3,    3,
         3,    3,    3,    3,    3,    3,    3,    3,    3,    3,
-        3
+        3,    3
     } ;
 
-static const flex_int16_t yy_base[562] =
+static const flex_int16_t yy_base[563] =
     {   0,
-        0,    0,  613,  614,  610,  614,  607,  605,   33,   35,
-       42,   61,    0,  592,  577,   28,   45,  590,  584,   49,
-      587,  587,   45,   61,   44,  578,  600,  597,  614,  595,
-      614,   72,   79,  582,  567,   56,   71,  580,  574,   75,
-      577,  577,   66,   76,   68,  568,   95,  614,    0,   97,
-        0,   32,  570,  563,  553,    0,  552,   23,  554,  558,
-      548,  567,  545,   93,  561,  546,  545,  559,  553,  560,
-       87,  543,  554,  105,  553,  546,  536,  614,  535,   68,
-      537,  541,  531,  550,  528,  102,  544,  529,  528,  542,
-      536,  543,   90,  526,  537,  131,    0,  129,  138,    0,
-
-      523,  534,  520,  536,  520,    0,    0,  523,  533,  529,
-      513,  532,  526,  525,  528,  508,  507,  507,  518,  515,
-      523,  517,  521,  507,  498,  518,  511,  497,  614,  497,
-      508,  494,  510,  494,  614,  614,  497,  507,  503,  487,
-      506,  500,  499,  502,  482,  481,  481,  492,  489,  497,
-      491,  495,  481,  472,  492,  485,  471,  136,  141,  147,
-      145,  149,  475,  488,  486,  486,  476,  479,  479,  471,
-      481,  477,  462,  461,  454,  457,  474,  460,  472,  458,
-      134,  471,  476,  464,  463,  452,  465,  464,  450,  463,
-      461,  461,  451,  454,  454,  446,  456,  452,  437,  436,
-
-      429,  432,  449,  435,  447,  433,  135,  446,  451,  439,
-      438,  427,  440,  439,  153,  155,  439,  104,    0,  434,
-      432,  425,  434,  416,  140,  419,  423,  418,  425,  429,
-      424,  417,  426,  412,  419,  151,  408,    0,  403,  404,
-      419,  416,  418,  417,  150,  614,  412,  410,  403,  412,
-      394,  147,  397,  401,  396,  403,  407,  402,  395,  404,
-      390,  397,  156,  386,  614,  381,  382,  397,  394,  396,
-      158,  386,    0,    0,  394,  376,  163,    0,  392,    0,
-        0,  386,  369,  384,  371,  155,    0,  382,  156,  368,
-      364,  364,  378,  381,  381,  362,  362,  373,  383,  166,
-
-      367,  614,  614,  375,  357,  169,  614,  373,  614,  614,
-      367,  350,  365,  352,  159,  614,  363,  161,  349,  345,
-      345,  359,  362,  362,  343,  343,  354,  364,  343,  342,
-      344,  335,  353,  174,    0,  171,  346,  333,  339,  331,
-      343,  339,  328,    0,    0,    0,  340,  326,  324,  325,
-      324,    0,  339,  339,    0,  324,  323,  325,  316,  334,
-      178,  614,  178,  327,  314,  320,  312,  324,  320,  309,
-      614,  614,  614,  321,  307,  305,  306,  305,  614,  320,
-      320,  614,  300,  303,  312,  315,  296,  302,  312,  312,
-        0,    0,    0,  182,    0,  290,  305,    0,  298,    0,
-
-      307,  306,    0,  294,  303,  285,  288,  297,  300,  281,
-      287,  297,  297,  614,  614,  614,  183,  614,  275,  290,
-      614,  283,  614,  292,  291,  614,  279,  288,  289,  288,
-      269,  266,  271,  269,  266,  173,  266,    0,  276,  261,
-      261,  260,  265,  258,  275,  274,  273,  254,  251,  256,
-      254,  251,  175,  251,  614,  261,  246,  246,  245,  250,
-      243,  260,  181,  183,  259,    0,  247,  251,  255,    0,
-        0,  235,  243,  252,    0,    0,  234,    0,  188,  193,
-      194,  251,  614,  239,  243,  247,  614,  614,  227,  235,
-      244,  614,  614,  226,  614,  195,    0,    0,    0,    0,
-
-      196,    0,  242,  230,  240,  222,  221,    0,    0,    0,
-      614,  614,  614,  614,  201,  614,  237,  225,  235,  217,
-      216,  614,  614,  614,    0,    0,  229,  211,  222,    0,
-        0,  614,  614,  220,  204,  217,  614,  614,  197,  191,
-        0,  117,   96,  614,  202,  203,  204,  209,    0,    0,
-        0,    0,  614,  614,  614,  614,  614,  241,  244,   77,
-      247
+        0,    0,  614,  615,  615,  610,  615,  607,  605,   33,
+       35,   42,   61,    0,  592,  577,   28,   45,  590,  584,
+       49,  587,  587,   45,   61,   44,  578,  600,  597,  615,
+      595,  615,   72,   79,  582,  567,   56,   71,  580,  574,
+       75,  577,  577,   66,   76,   68,  568,   95,  615,    0,
+       97,    0,   32,  570,  563,  553,    0,  552,   23,  554,
+      558,  548,  567,  545,   93,  561,  546,  545,  559,  553,
+      560,   87,  543,  554,  105,  553,  546,  536,  615,  535,
+       68,  537,  541,  531,  550,  528,  102,  544,  529,  528,
+      542,  536,  543,   90,  526,  537,  131,    0,  129,  138,
+
+        0,  523,  534,  520,  536,  520,    0,    0,  523,  533,
+      529,  513,  532,  526,  525,  528,  508,  507,  507,  518,
+      515,  523,  517,  521,  507,  498,  518,  511,  497,  615,
+      497,  508,  494,  510,  494,  615,  615,  497,  507,  503,
+      487,  506,  500,  499,  502,  482,  481,  481,  492,  489,
+      497,  491,  495,  481,  472,  492,  485,  471,  136,  141,
+      147,  145,  149,  475,  488,  486,  486,  476,  479,  479,
+      471,  481,  477,  462,  461,  454,  457,  474,  460,  472,
+      458,  134,  471,  476,  464,  463,  452,  465,  464,  450,
+      463,  461,  461,  451,  454,  454,  446,  456,  452,  437,
+
+      436,  429,  432,  449,  435,  447,  433,  135,  446,  451,
+      439,  438,  427,  440,  439,  153,  155,  439,  104,    0,
+      434,  432,  425,  434,  416,  140,  419,  423,  418,  425,
+      429,  424,  417,  426,  412,  419,  151,  408,    0,  403,
+      404,  419,  416,  418,  417,  150,  615,  412,  410,  403,
+      412,  394,  147,  397,  401,  396,  403,  407,  402,  395,
+      404,  390,  397,  156,  386,  615,  381,  382,  397,  394,
+      396,  158,  386,    0,    0,  394,  376,  163,    0,  392,
+        0,    0,  386,  369,  384,  371,  155,    0,  382,  156,
+      368,  364,  364,  378,  381,  381,  362,  362,  373,  383,
+
+      166,  367,  615,  615,  375,  357,  169,  615,  373,  615,
+      615,  367,  350,  365,  352,  159,  615,  363,  161,  349,
+      345,  345,  359,  362,  362,  343,  343,  354,  364,  343,
+      342,  344,  335,  353,  174,    0,  171,  346,  333,  339,
+      331,  343,  339,  328,    0,    0,    0,  340,  326,  324,
+      325,  324,    0,  339,  339,    0,  324,  323,  325,  316,
+      334,  178,  615,  178,  327,  314,  320,  312,  324,  320,
+      309,  615,  615,  615,  321,  307,  305,  306,  305,  615,
+      320,  320,  615,  300,  303,  312,  315,  296,  302,  312,
+      312,    0,    0,    0,  182,    0,  290,  305,    0,  298,
+
+        0,  307,  306,    0,  294,  303,  285,  288,  297,  300,
+      281,  287,  297,  297,  615,  615,  615,  183,  615,  275,
+      290,  615,  283,  615,  292,  291,  615,  279,  288,  289,
+      288,  269,  266,  271,  269,  266,  173,  266,    0,  276,
+      261,  261,  260,  265,  258,  275,  274,  273,  254,  251,
+      256,  254,  251,  175,  251,  615,  261,  246,  246,  245,
+      250,  243,  260,  181,  183,  259,    0,  247,  251,  255,
+        0,    0,  235,  243,  252,    0,    0,  234,    0,  188,
+      193,  194,  251,  615,  239,  243,  247,  615,  615,  227,
+      235,  244,  615,  615,  226,  615,  195,    0,    0,    0,
+
+        0,  196,    0,  242,  230,  240,  222,  221,    0,    0,
+        0,  615,  615,  615,  615,  201,  615,  237,  225,  235,
+      217,  216,  615,  615,  615,    0,    0,  229,  211,  222,
+        0,    0,  615,  615,  220,  204,  217,  615,  615,  197,
+      191,    0,  117,   96,  615,  202,  203,  204,  209,    0,
+        0,    0,    0,  615,  615,  615,  615,  615,  242,  245,
+       78,  248
     } ;
 
-static const flex_int16_t yy_def[562] =
+static const flex_int16_t yy_def[563] =
     {   0,
-      557,    1,  557,  557,  557,  557,  558,  559,  557,  557,
-      557,  557,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  560,  557,  558,  557,  559,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  561,  557,
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  561,  557,  557,  560,
-
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  560,  560,  560,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  560,  560,  560,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  557,
-
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  560,  560,
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  560,
-
-      560,  560,  560,  560,  560,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  560,  560,
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  560,  560,  560,  560,  560,  560,  560,  560,
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  560,  560,  560,  560,
-
-      560,  560,  560,  560,  560,  560,  560,  560,  560,  560,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  560,  560,  560,  560,  560,  560,
-      560,  557,  557,  557,  557,  557,  557,  557,  560,  560,
-      560,  557,  557,  557,  560,  560,  557,  557,  560,  560,
-      560,  560,  557,  557,  557,  557,    0,  557,  557,  557,
-      557
+      558,    1,  558,  558,  558,  558,  558,  559,  560,  558,
+      558,  558,  558,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  561,  558,  559,  558,
+      560,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  562,
+      558,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  562,  558,  558,
+
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  561,
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+
+      561,  561,  561,  561,  561,  561,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  561,
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  561,  561,  561,  561,  561,  561,  561,
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  561,  561,  561,
+
+      561,  561,  561,  561,  561,  561,  561,  561,  561,  561,
+      561,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  561,  561,  561,  561,  561,
+      561,  561,  558,  558,  558,  558,  558,  558,  558,  561,
+      561,  561,  558,  558,  558,  561,  561,  558,  558,  561,
+      561,  561,  561,  558,  558,  558,  558,    0,  558,  558,
+      558,  558
     } ;
 
-static const flex_int16_t yy_nxt[656] =
+static const flex_int16_t yy_nxt[658] =
     {   0,
-        4,    5,    6,    7,    8,    4,    4,    9,   10,   11,
-       12,   12,    4,   13,   13,   14,   13,   13,   13,   15,
-       16,   13,   17,   18,   13,   13,   19,   20,   21,   22,
-       23,   24,   13,   13,   25,   26,   13,   13,   13,   13,
-       13,   32,  100,   33,   33,   47,   47,   48,   34,   54,
-      106,   49,   35,   36,  107,   37,   38,  101,   55,   39,
-       40,   41,   42,   43,   44,   56,   60,   45,   46,   50,
-       61,   33,   33,   65,   71,   57,   66,   76,   68,   51,
-       72,   67,   47,   47,   62,   69,   77,   50,   70,   33,
-       33,   78,   82,   90,   87,  135,   83,   88,   93,  136,
-
-       91,   79,   89,   92,   94,   47,   47,   98,   98,   96,
-       84,   99,  548,  113,  125,  129,   96,  154,   99,  114,
-      115,  126,  142,  116,  155,  117,  272,  118,  143,  144,
-      130,  273,  145,  547,  146,  274,  147,  158,  158,   98,
-       98,  159,  159,  160,  161,  161,  159,  159,  162,  162,
-      160,  159,  159,  215,  215,  162,  162,  216,  216,  162,
-      162,  235,  262,  216,  216,  216,  216,  280,  292,  236,
-      263,  281,  301,  321,  309,  293,  329,  302,  310,  334,
-      322,  303,  341,  344,  356,  361,  368,  345,  371,  390,
-      342,  388,  372,  330,  369,  411,  413,  335,  437,  454,
-
-      470,  357,  487,  362,  471,  389,  488,  546,  497,  412,
-      499,  391,  498,  545,  500,  509,  438,  455,  414,  510,
-      511,  513,  523,  525,  512,  514,  524,  526,  532,  549,
-      551,  553,  533,  550,  552,  554,  555,  544,  543,  542,
-      556,   28,  541,   28,   30,  540,   30,   97,  539,   97,
-      538,  537,  536,  535,  534,  531,  530,  529,  528,  527,
-      522,  521,  520,  519,  518,  517,  516,  515,  508,  507,
-      506,  505,  504,  503,  502,  501,  496,  495,  494,  493,
-      492,  491,  490,  489,  486,  485,  484,  483,  482,  481,
-      480,  479,  478,  477,  476,  475,  474,  473,  472,  469,
-
-      468,  467,  466,  465,  464,  463,  462,  461,  460,  459,
-      458,  457,  456,  453,  452,  451,  450,  449,  448,  447,
-      446,  445,  444,  443,  442,  441,  440,  439,  436,  435,
-      434,  433,  432,  431,  430,  429,  428,  427,  426,  425,
-      424,  423,  422,  421,  420,  419,  418,  417,  416,  415,
-      410,  409,  408,  407,  406,  405,  404,  403,  402,  401,
-      400,  399,  398,  397,  396,  395,  394,  393,  392,  387,
-      386,  385,  384,  383,  382,  381,  380,  379,  378,  377,
-      376,  375,  374,  373,  370,  367,  366,  365,  364,  363,
-      360,  359,  358,  355,  354,  353,  352,  351,  350,  349,
-
-      348,  347,  346,  343,  340,  339,  338,  337,  336,  333,
-      332,  331,  328,  327,  326,  325,  324,  323,  320,  319,
-      318,  317,  316,  315,  314,  313,  312,  311,  308,  307,
-      306,  305,  304,  300,  299,  298,  297,  296,  295,  294,
-      291,  290,  289,  288,  287,  286,  285,  284,  283,  282,
-      279,  278,  277,  276,  275,  271,  270,  269,  268,  267,
-      266,  265,  264,  261,  260,  259,  258,  257,  256,  255,
-      254,  253,  252,  251,  250,  249,  248,  247,  246,  245,
-      244,  243,  242,  241,  240,  239,  238,  237,  234,  233,
-      232,  231,  230,  229,  228,  227,  226,  225,  224,  223,
-
-      222,  221,  220,  219,  218,  217,  214,  213,  212,  211,
-      210,  209,  208,  207,  206,  205,  204,  203,  202,  201,
-      200,  199,  198,  197,  196,  195,  194,  193,  192,  191,
-      190,  189,  188,  187,  186,  185,  184,  183,  182,  181,
-      180,  179,  178,  177,  176,  175,  174,  173,  172,  171,
-      170,  169,  168,  167,  166,  165,  164,  163,  157,  156,
-      153,  152,  151,  150,  149,  148,  141,  140,  139,  138,
-      137,  134,  133,  132,  131,  128,  127,  124,  123,  122,
-      121,  120,  119,  112,  111,  110,  109,  108,  105,  104,
-      103,  102,   95,   86,   85,   81,   80,   75,   74,   31,
-
-       29,   27,   73,   64,   63,   59,   58,   53,   52,   31,
-       29,   27,  557,    3,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557
+        4,    5,    6,    7,    8,    9,    5,    5,   10,   11,
+       12,   13,   13,    5,   14,   14,   15,   14,   14,   14,
+       16,   17,   14,   18,   19,   14,   14,   20,   21,   22,
+       23,   24,   25,   14,   14,   26,   27,   14,   14,   14,
+       14,   14,   33,  101,   34,   34,   48,   48,   49,   35,
+       55,  107,   50,   36,   37,  108,   38,   39,  102,   56,
+       40,   41,   42,   43,   44,   45,   57,   61,   46,   47,
+       51,   62,   34,   34,   66,   72,   58,   67,   77,   69,
+       52,   73,   68,   48,   48,   63,   70,   78,   51,   71,
+       34,   34,   79,   83,   91,   88,  136,   84,   89,   94,
+
+      137,   92,   80,   90,   93,   95,   48,   48,   99,   99,
+       97,   85,  100,  549,  114,  126,  130,   97,  155,  100,
+      115,  116,  127,  143,  117,  156,  118,  273,  119,  144,
+      145,  131,  274,  146,  548,  147,  275,  148,  159,  159,
+       99,   99,  160,  160,  161,  162,  162,  160,  160,  163,
+      163,  161,  160,  160,  216,  216,  163,  163,  217,  217,
+      163,  163,  236,  263,  217,  217,  217,  217,  281,  293,
+      237,  264,  282,  302,  322,  310,  294,  330,  303,  311,
+      335,  323,  304,  342,  345,  357,  362,  369,  346,  372,
+      391,  343,  389,  373,  331,  370,  412,  414,  336,  438,
+
+      455,  471,  358,  488,  363,  472,  390,  489,  547,  498,
+      413,  500,  392,  499,  546,  501,  510,  439,  456,  415,
+      511,  512,  514,  524,  526,  513,  515,  525,  527,  533,
+      550,  552,  554,  534,  551,  553,  555,  556,  545,  544,
+      543,  557,   29,  542,   29,   31,  541,   31,   98,  540,
+       98,  539,  538,  537,  536,  535,  532,  531,  530,  529,
+      528,  523,  522,  521,  520,  519,  518,  517,  516,  509,
+      508,  507,  506,  505,  504,  503,  502,  497,  496,  495,
+      494,  493,  492,  491,  490,  487,  486,  485,  484,  483,
+      482,  481,  480,  479,  478,  477,  476,  475,  474,  473,
+
+      470,  469,  468,  467,  466,  465,  464,  463,  462,  461,
+      460,  459,  458,  457,  454,  453,  452,  451,  450,  449,
+      448,  447,  446,  445,  444,  443,  442,  441,  440,  437,
+      436,  435,  434,  433,  432,  431,  430,  429,  428,  427,
+      426,  425,  424,  423,  422,  421,  420,  419,  418,  417,
+      416,  411,  410,  409,  408,  407,  406,  405,  404,  403,
+      402,  401,  400,  399,  398,  397,  396,  395,  394,  393,
+      388,  387,  386,  385,  384,  383,  382,  381,  380,  379,
+      378,  377,  376,  375,  374,  371,  368,  367,  366,  365,
+      364,  361,  360,  359,  356,  355,  354,  353,  352,  351,
+
+      350,  349,  348,  347,  344,  341,  340,  339,  338,  337,
+      334,  333,  332,  329,  328,  327,  326,  325,  324,  321,
+      320,  319,  318,  317,  316,  315,  314,  313,  312,  309,
+      308,  307,  306,  305,  301,  300,  299,  298,  297,  296,
+      295,  292,  291,  290,  289,  288,  287,  286,  285,  284,
+      283,  280,  279,  278,  277,  276,  272,  271,  270,  269,
+      268,  267,  266,  265,  262,  261,  260,  259,  258,  257,
+      256,  255,  254,  253,  252,  251,  250,  249,  248,  247,
+      246,  245,  244,  243,  242,  241,  240,  239,  238,  235,
+      234,  233,  232,  231,  230,  229,  228,  227,  226,  225,
+
+      224,  223,  222,  221,  220,  219,  218,  215,  214,  213,
+      212,  211,  210,  209,  208,  207,  206,  205,  204,  203,
+      202,  201,  200,  199,  198,  197,  196,  195,  194,  193,
+      192,  191,  190,  189,  188,  187,  186,  185,  184,  183,
+      182,  181,  180,  179,  178,  177,  176,  175,  174,  173,
+      172,  171,  170,  169,  168,  167,  166,  165,  164,  158,
+      157,  154,  153,  152,  151,  150,  149,  142,  141,  140,
+      139,  138,  135,  134,  133,  132,  129,  128,  125,  124,
+      123,  122,  121,  120,  113,  112,  111,  110,  109,  106,
+      105,  104,  103,   96,   87,   86,   82,   81,   76,   75,
+
+       32,   30,   28,   74,   65,   64,   60,   59,   54,   53,
+       32,   30,   28,  558,    3,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558
     } ;
 
-static const flex_int16_t yy_chk[656] =
+static const flex_int16_t yy_chk[658] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    9,   52,    9,    9,   10,   10,   11,    9,   16,
-       58,   11,    9,    9,   58,    9,    9,   52,   16,    9,
-        9,    9,    9,    9,    9,   17,   20,    9,    9,   12,
-       20,   12,   12,   23,   25,   17,   23,   36,   24,  560,
-       25,   23,   32,   32,   20,   24,   36,   33,   24,   33,
-       33,   37,   40,   44,   43,   80,   40,   43,   45,   80,
-
-       44,   37,   43,   44,   45,   47,   47,   50,   50,   47,
-       40,   50,  543,   64,   71,   74,   47,   93,   50,   64,
-       64,   71,   86,   64,   93,   64,  218,   64,   86,   86,
-       74,  218,   86,  542,   86,  218,   86,   96,   96,   98,
-       98,   96,   96,   98,   99,   99,  158,  158,   99,   99,
-       98,  159,  159,  160,  160,  161,  161,  160,  160,  162,
-      162,  181,  207,  215,  215,  216,  216,  225,  236,  181,
-      207,  225,  245,  263,  252,  236,  271,  245,  252,  277,
-      263,  245,  286,  289,  300,  306,  315,  289,  318,  336,
-      286,  334,  318,  271,  315,  361,  363,  277,  394,  417,
-
-      436,  300,  453,  306,  436,  334,  453,  540,  463,  361,
-      464,  336,  463,  539,  464,  479,  394,  417,  363,  479,
-      480,  481,  496,  501,  480,  481,  496,  501,  515,  545,
-      546,  547,  515,  545,  546,  547,  548,  536,  535,  534,
-      548,  558,  529,  558,  559,  528,  559,  561,  527,  561,
-      521,  520,  519,  518,  517,  507,  506,  505,  504,  503,
-      494,  491,  490,  489,  486,  485,  484,  482,  477,  474,
-      473,  472,  469,  468,  467,  465,  462,  461,  460,  459,
-      458,  457,  456,  454,  452,  451,  450,  449,  448,  447,
-      446,  445,  444,  443,  442,  441,  440,  439,  437,  435,
-
-      434,  433,  432,  431,  430,  429,  428,  427,  425,  424,
-      422,  420,  419,  413,  412,  411,  410,  409,  408,  407,
-      406,  405,  404,  402,  401,  399,  397,  396,  390,  389,
-      388,  387,  386,  385,  384,  383,  381,  380,  378,  377,
-      376,  375,  374,  370,  369,  368,  367,  366,  365,  364,
-      360,  359,  358,  357,  356,  354,  353,  351,  350,  349,
-      348,  347,  343,  342,  341,  340,  339,  338,  337,  333,
-      332,  331,  330,  329,  328,  327,  326,  325,  324,  323,
-      322,  321,  320,  319,  317,  314,  313,  312,  311,  308,
-      305,  304,  301,  299,  298,  297,  296,  295,  294,  293,
-
-      292,  291,  290,  288,  285,  284,  283,  282,  279,  276,
-      275,  272,  270,  269,  268,  267,  266,  264,  262,  261,
-      260,  259,  258,  257,  256,  255,  254,  253,  251,  250,
-      249,  248,  247,  244,  243,  242,  241,  240,  239,  237,
-      235,  234,  233,  232,  231,  230,  229,  228,  227,  226,
-      224,  223,  222,  221,  220,  217,  214,  213,  212,  211,
-      210,  209,  208,  206,  205,  204,  203,  202,  201,  200,
-      199,  198,  197,  196,  195,  194,  193,  192,  191,  190,
-      189,  188,  187,  186,  185,  184,  183,  182,  180,  179,
-      178,  177,  176,  175,  174,  173,  172,  171,  170,  169,
-
-      168,  167,  166,  165,  164,  163,  157,  156,  155,  154,
-      153,  152,  151,  150,  149,  148,  147,  146,  145,  144,
-      143,  142,  141,  140,  139,  138,  137,  134,  133,  132,
-      131,  130,  128,  127,  126,  125,  124,  123,  122,  121,
-      120,  119,  118,  117,  116,  115,  114,  113,  112,  111,
-      110,  109,  108,  105,  104,  103,  102,  101,   95,   94,
-       92,   91,   90,   89,   88,   87,   85,   84,   83,   82,
-       81,   79,   77,   76,   75,   73,   72,   70,   69,   68,
-       67,   66,   65,   63,   62,   61,   60,   59,   57,   55,
-       54,   53,   46,   42,   41,   39,   38,   35,   34,   30,
-
-       28,   27,   26,   22,   21,   19,   18,   15,   14,    8,
-        7,    5,    3,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557,  557,  557,  557,  557,  557,
-      557,  557,  557,  557,  557
+        1,    1,   10,   53,   10,   10,   11,   11,   12,   10,
+       17,   59,   12,   10,   10,   59,   10,   10,   53,   17,
+       10,   10,   10,   10,   10,   10,   18,   21,   10,   10,
+       13,   21,   13,   13,   24,   26,   18,   24,   37,   25,
+      561,   26,   24,   33,   33,   21,   25,   37,   34,   25,
+       34,   34,   38,   41,   45,   44,   81,   41,   44,   46,
+
+       81,   45,   38,   44,   45,   46,   48,   48,   51,   51,
+       48,   41,   51,  544,   65,   72,   75,   48,   94,   51,
+       65,   65,   72,   87,   65,   94,   65,  219,   65,   87,
+       87,   75,  219,   87,  543,   87,  219,   87,   97,   97,
+       99,   99,   97,   97,   99,  100,  100,  159,  159,  100,
+      100,   99,  160,  160,  161,  161,  162,  162,  161,  161,
+      163,  163,  182,  208,  216,  216,  217,  217,  226,  237,
+      182,  208,  226,  246,  264,  253,  237,  272,  246,  253,
+      278,  264,  246,  287,  290,  301,  307,  316,  290,  319,
+      337,  287,  335,  319,  272,  316,  362,  364,  278,  395,
+
+      418,  437,  301,  454,  307,  437,  335,  454,  541,  464,
+      362,  465,  337,  464,  540,  465,  480,  395,  418,  364,
+      480,  481,  482,  497,  502,  481,  482,  497,  502,  516,
+      546,  547,  548,  516,  546,  547,  548,  549,  537,  536,
+      535,  549,  559,  530,  559,  560,  529,  560,  562,  528,
+      562,  522,  521,  520,  519,  518,  508,  507,  506,  505,
+      504,  495,  492,  491,  490,  487,  486,  485,  483,  478,
+      475,  474,  473,  470,  469,  468,  466,  463,  462,  461,
+      460,  459,  458,  457,  455,  453,  452,  451,  450,  449,
+      448,  447,  446,  445,  444,  443,  442,  441,  440,  438,
+
+      436,  435,  434,  433,  432,  431,  430,  429,  428,  426,
+      425,  423,  421,  420,  414,  413,  412,  411,  410,  409,
+      408,  407,  406,  405,  403,  402,  400,  398,  397,  391,
+      390,  389,  388,  387,  386,  385,  384,  382,  381,  379,
+      378,  377,  376,  375,  371,  370,  369,  368,  367,  366,
+      365,  361,  360,  359,  358,  357,  355,  354,  352,  351,
+      350,  349,  348,  344,  343,  342,  341,  340,  339,  338,
+      334,  333,  332,  331,  330,  329,  328,  327,  326,  325,
+      324,  323,  322,  321,  320,  318,  315,  314,  313,  312,
+      309,  306,  305,  302,  300,  299,  298,  297,  296,  295,
+
+      294,  293,  292,  291,  289,  286,  285,  284,  283,  280,
+      277,  276,  273,  271,  270,  269,  268,  267,  265,  263,
+      262,  261,  260,  259,  258,  257,  256,  255,  254,  252,
+      251,  250,  249,  248,  245,  244,  243,  242,  241,  240,
+      238,  236,  235,  234,  233,  232,  231,  230,  229,  228,
+      227,  225,  224,  223,  222,  221,  218,  215,  214,  213,
+      212,  211,  210,  209,  207,  206,  205,  204,  203,  202,
+      201,  200,  199,  198,  197,  196,  195,  194,  193,  192,
+      191,  190,  189,  188,  187,  186,  185,  184,  183,  181,
+      180,  179,  178,  177,  176,  175,  174,  173,  172,  171,
+
+      170,  169,  168,  167,  166,  165,  164,  158,  157,  156,
+      155,  154,  153,  152,  151,  150,  149,  148,  147,  146,
+      145,  144,  143,  142,  141,  140,  139,  138,  135,  134,
+      133,  132,  131,  129,  128,  127,  126,  125,  124,  123,
+      122,  121,  120,  119,  118,  117,  116,  115,  114,  113,
+      112,  111,  110,  109,  106,  105,  104,  103,  102,   96,
+       95,   93,   92,   91,   90,   89,   88,   86,   85,   84,
+       83,   82,   80,   78,   77,   76,   74,   73,   71,   70,
+       69,   68,   67,   66,   64,   63,   62,   61,   60,   58,
+       56,   55,   54,   47,   43,   42,   40,   39,   36,   35,
+
+       31,   29,   28,   27,   23,   22,   20,   19,   16,   15,
+        9,    8,    6,    3,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558,  558,  558,  558,
+      558,  558,  558,  558,  558,  558,  558
     } ;
 
 static yy_state_type yy_last_accepting_state;
@@ -1031,13 +1031,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 558 )
+				if ( yy_current_state >= 559 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 557 );
+		while ( yy_current_state != 558 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1429,14 +1429,22 @@ YY_RULE_SETUP
 case 72:
 YY_RULE_SETUP
 #line 128 "input_yylex.l"
-{ return yytext[0]; }
+{
+     input_error(locus, "invalid character");
+     exit(1);
+}
 	YY_BREAK
 case 73:
 YY_RULE_SETUP
-#line 130 "input_yylex.l"
+#line 133 "input_yylex.l"
+{ return yytext[0]; }
+	YY_BREAK
+case 74:
+YY_RULE_SETUP
+#line 135 "input_yylex.l"
 ECHO;
 	YY_BREAK
-#line 1440 "input_yylex.c"
+#line 1448 "input_yylex.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1734,7 +1742,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 558 )
+			if ( yy_current_state >= 559 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1762,11 +1770,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 558 )
+		if ( yy_current_state >= 559 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 557);
+	yy_is_jam = (yy_current_state == 558);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
@@ -2442,7 +2450,7 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 130 "input_yylex.l"
+#line 135 "input_yylex.l"
 
 
 
diff --git a/utils/input_yylex.h b/utils/input_yylex.h
index 2034477..6f3c5a9 100644
--- a/utils/input_yylex.h
+++ b/utils/input_yylex.h
@@ -469,7 +469,7 @@ extern int yylex (void);
 #undef yyTABLES_NAME
 #endif
 
-#line 130 "input_yylex.l"
+#line 135 "input_yylex.l"
 
 
 #line 476 "input_yylex.h"
diff --git a/utils/input_yylex.l b/utils/input_yylex.l
index 1d70ffd..435dc0e 100644
--- a/utils/input_yylex.l
+++ b/utils/input_yylex.l
@@ -125,6 +125,11 @@ void comment(locus_data *locus);
 
 \n					{ locus->line++; }
 
+[\x00-\x04]				{
+     input_error(locus, "invalid character");
+     exit(1);
+}
+
 .					{ return yytext[0]; }
 
 %%
-- 
2.43.0


From 09bff3f5e9c26b4b5a74ae1a2877348b1261f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 079/115] fix: input with fewer kernels than n_kernels was read
 past its end

---
 utils/input_util.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/input_util.c b/utils/input_util.c
index 9a23439..ed9bc38 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1896,6 +1896,7 @@ static void input_parse1(input_data *input) {
      int n_kernels     = -999;
      int n_kernel_quad = -999;
      int *kernels      = NULL;
+     int n_kernels2    = 0;
      int n_out_levels  = -999;
      int n_out_thetas  = -999;
 
@@ -1973,6 +1974,7 @@ static void input_parse1(input_data *input) {
                          input_error(&input->locus, "invalid kernel string");
                          exit(1);
                     }
+                    n_kernels2 = fdclist_count(list);
                     fdclist_free(list);
                     break;
                case XRTM_INPUT_N_OUT_LEVELS:
@@ -2000,6 +2002,11 @@ L1:  if (flag && options & XRTM_OPTION_CALC_DERIVS) {
           exit(1);
      }
 
+     if (n_kernels > n_kernels2) {
+          fprintf(stderr, "ERROR: number of kernels given is less than n_kernels: %d < %d\n", n_kernels2, n_kernels);
+          exit(1);
+     }
+
      if (! flag)
           n_derivs2 = n_derivs;
      else {
-- 
2.43.0


From f01c91bc87fc50853d0fb9479458bca8430d2565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:51 +0000
Subject: [PATCH 080/115] fix: callxrtm ended successfully when its output
 could not be written

---
 utils/callxrtm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/callxrtm.c b/utils/callxrtm.c
index 134e3f4..2f7763c 100644
--- a/utils/callxrtm.c
+++ b/utils/callxrtm.c
@@ -744,6 +744,11 @@ int main(int argc, char *argv[]) {
      }
 
 
+     if (ferror(stdout) || fclose(stdout)) {
+          fprintf(stderr, "ERROR: Problem writing to standard output ... %s\n", strerror(errno));
+          exit(1);
+     }
+
      exit(0);
 }
 
-- 
2.43.0


From c262bbd6e3dd0919ac6352373278b00dc8874d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:43 +0000
Subject: [PATCH 081/115] fix: index lists longer than any variable has were
 written past the end of their array

---
 utils/input_util.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index ed9bc38..5d51c66 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -128,7 +128,7 @@ static void copy_dimens(int *dimens2, int *dimens1, int n) {
 
 static int parse_scaler_int(input_data *input);
 
-static int dimens_parse(input_data *input, int *dimens) {
+static int dimens_parse2(input_data *input, int n, int *dimens) {
 
      int r;
 
@@ -138,16 +138,21 @@ static int dimens_parse(input_data *input, int *dimens) {
 
      if (r != '[') {
           yyrewind(r, &data);
-          return  0;
+          return  n;
      }
      else {
+          if (n >= MAX_DIMENS) {
+               input_error(&input->locus, "too many dimensions");
+               exit(1);
+          }
+
           r = yylex(&input->locus, &data);
 
           if (r == ':')
-               dimens[0] = -1;
+               dimens[n] = -1;
           else {
                yyrewind(r, &data);
-               dimens[0] = parse_scaler_int(input);
+               dimens[n] = parse_scaler_int(input);
           }
 
           r = yylex(&input->locus, &data);
@@ -157,12 +162,19 @@ static int dimens_parse(input_data *input, int *dimens) {
                exit(1);
           }
 
-          return 1 + dimens_parse(input, dimens + 1);
+          return dimens_parse2(input, n + 1, dimens);
      }
 }
 
 
 
+static int dimens_parse(input_data *input, int *dimens) {
+
+     return dimens_parse2(input, 0, dimens);
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
-- 
2.43.0


From 45673fda00debb511d6811ad32df96467d353d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:43 +0000
Subject: [PATCH 082/115] fix: finite difference inputs were refused as the
 first input and used an fd that was not created

---
 utils/input_util.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 5d51c66..9d09857 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1998,7 +1998,7 @@ static void input_parse1(input_data *input) {
                     n_out_thetas = parse_scaler_int(input);
                     break;
                default:
-                    if (r >= XRTM_INPUT_DOUB_D_TAU && r <= XRTM_INPUT_KERNEL_PARAMS_L) {
+                    if (r >= XRTM_INPUT_DOUB_D_TAU && r <= XRTM_INPUT_DELTA) {
                          yyrewind(r, &lex_type);
                          goto L1;
                     }
@@ -2063,6 +2063,27 @@ static void input_parse2(input_data *input) {
           n_derivs = xrtm_fd_get_n_derivs(input->fd);
 
      while ((r = yylex(&input->locus, &lex_type))) {
+          if (input->md->fd_method < 0) {
+               switch(r) {
+                    case XRTM_INPUT_F_ISO_TOP_P:
+                    case XRTM_INPUT_F_ISO_BOT_P:
+                    case XRTM_INPUT_LEVELS_B_P:
+                    case XRTM_INPUT_SURFACE_B_P:
+                    case XRTM_INPUT_G_P:
+                    case XRTM_INPUT_COEF_P:
+                    case XRTM_INPUT_COEF_FILES_P:
+                    case XRTM_INPUT_OMEGA_P:
+                    case XRTM_INPUT_LTAU_P:
+                    case XRTM_INPUT_KERNEL_AMPFAC_P:
+                    case XRTM_INPUT_KERNEL_PARAMS_P:
+                    case XRTM_INPUT_DELTA:
+                         input_error(&input->locus, "input parameter requires \"fd\": %s", get_yytext());
+                         exit(1);
+                    default:
+                         break;
+               }
+          }
+
           switch(r) {
                case XRTM_INPUT_DOUB_D_TAU:
                     parse_scaler_param_double(input, "doub_d_tau", xrtm_set_doub_d_tau);
-- 
2.43.0


From e242764e6a42d4183f78a5a45cc5e28ffdabe3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:43 +0000
Subject: [PATCH 083/115] fix: coef_p set linearized coefficients of the model
 and both coef_p and coef_files_p wrote past its file names

---
 utils/input_util.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 9d09857..a864608 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -988,27 +988,29 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_coef = xrtm_get_n_coef(input->d, dimens[0]);
           x2 = parse_coef_1(input, n_elem, n_coef);
-          if (xrtm_set_coef_l_11(input->d, dimens[0], dimens[1], x2)) {
+          if (xrtm_set_coef_x_11(d, dimens[0], dimens[1], x2)) {
                input_error(&input->locus, "xrtm_set_coef_%s_11()", type);
                exit(1);
           }
           free_array2_d(x2);
 
-          free(input->md->coef_files_l[dimens[0]][dimens[1]]);
-          input->md->coef_files_l[dimens[0]][dimens[1]] = NULL;
+          if (d == input->d) {
+               free(input->md->coef_files_l[dimens[0]][dimens[1]]);
+               input->md->coef_files_l[dimens[0]][dimens[1]] = NULL;
+          }
      }
      else
      if ( n == 2 && dimens[0] == -1 && dimens[1] > -1) {
           parse_equal(input);
           n_layers = xrtm_get_n_layers(input->d);
           x3 = parse_coef_2(input, n_layers, n_elem, n_coef);
-          if (xrtm_set_coef_l_n1(input->d, dimens[1], x3)) {
+          if (xrtm_set_coef_x_n1(d, dimens[1], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_n1()", type);
                exit(1);
           }
           free_array3_d(x3);
 
-          for (i = 0; i < n_layers; ++i) {
+          for (i = 0; d == input->d && i < n_layers; ++i) {
                free(input->md->coef_files_l[i][dimens[1]]);
                input->md->coef_files_l[i][dimens[1]] = NULL;
           }
@@ -1018,13 +1020,13 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_coef = xrtm_get_n_coef(input->d, dimens[0]);
           x3 = parse_coef_2(input, n_derivs, n_elem, n_coef);
-          if (xrtm_set_coef_l_1n(input->d, dimens[0], x3)) {
+          if (xrtm_set_coef_x_1n(d, dimens[0], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_1n()", type);
                exit(1);
           }
           free_array3_d(x3);
 
-          for (i = 0; i < n_derivs; ++i) {
+          for (i = 0; d == input->d && i < n_derivs; ++i) {
                free(input->md->coef_files_l[dimens[0]][i]);
                input->md->coef_files_l[dimens[0]][i] = NULL;
           }
@@ -1034,13 +1036,13 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_layers = xrtm_get_n_layers(input->d);
           x4 = parse_coef_3(input, n_layers, n_derivs, n_elem, n_coef);
-          if (xrtm_set_coef_l_nn(input->d, x4)) {
+          if (xrtm_set_coef_x_nn(d, x4)) {
                input_error(&input->locus, "xrtm_set_coef_%s_nn()", type);
                exit(1);
           }
           free_array4_d(x4);
 
-          for (i = 0; i < n_layers; ++i) {
+          for (i = 0; d == input->d && i < n_layers; ++i) {
                for (j = 0; j < n_derivs; ++j) {
                     free(input->md->coef_files_l[i][j]);
                     input->md->coef_files_l[i][j] = NULL;
@@ -1207,8 +1209,10 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
                exit(1);
           }
 
-          free(input->md->coef_files_l[dimens[0]][dimens[1]]);
-          input->md->coef_files_l[dimens[0]][dimens[1]] = strdup(x);
+          if (d == input->d) {
+               free(input->md->coef_files_l[dimens[0]][dimens[1]]);
+               input->md->coef_files_l[dimens[0]][dimens[1]] = strdup(x);
+          }
 
           free(x);
           free_array2_d(coef);
@@ -1244,7 +1248,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
                exit(1);
           }
 
-          for (i = 0; i < n_layers; ++i) {
+          for (i = 0; d == input->d && i < n_layers; ++i) {
                free(input->md->coef_files_l[i][dimens[1]]);
                input->md->coef_files_l[i][dimens[1]] = strdup(x1[i]);
           }
@@ -1284,7 +1288,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
                exit(1);
           }
 
-          for (i = 0; i < n_derivs; ++i) {
+          for (i = 0; d == input->d && i < n_derivs; ++i) {
                free(input->md->coef_files_l[dimens[0]][i]);
                input->md->coef_files_l[dimens[0]][i] = strdup(x1[i]);
           }
@@ -1328,7 +1332,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
                exit(1);
           }
 
-          for (i = 0; i < n_layers; ++i) {
+          for (i = 0; d == input->d && i < n_layers; ++i) {
                for (j = 0; j < n_derivs; ++j) {
                     free(input->md->coef_files_l[i][j]);
                     input->md->coef_files_l[i][j] = strdup(x2[i][j]);
-- 
2.43.0


From fd7329592f739f10cf74cc581262530a3523b03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:43 +0000
Subject: [PATCH 084/115] fix: counts and indices out of range in input files
 were used before they were checked

---
 utils/input_util.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index a864608..873448b 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -924,6 +924,10 @@ static void parse_coef(input_data *input) {
      if (n == 1 && dimens[0] > -1) {
           parse_equal(input);
           n_coef = parse_scaler_int(input);
+          if (n_coef < 0 || n_coef > xrtm_get_max_coef(input->d)) {
+               input_error(&input->locus, "invalid number of coefficients: %d", n_coef);
+               exit(1);
+          }
           parse_comma(input);
           x2 = parse_coef_1(input, n_elem, n_coef);
           if (xrtm_set_coef_1(input->d, dimens[0], n_coef, x2)) {
@@ -986,7 +990,10 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
 
      if (n == 2 && dimens[0] > -1 && dimens[1] > -1) {
           parse_equal(input);
-          n_coef = xrtm_get_n_coef(input->d, dimens[0]);
+          if ((n_coef = xrtm_get_n_coef(input->d, dimens[0])) < 0) {
+               input_error(&input->locus, "xrtm_get_n_coef()");
+               exit(1);
+          }
           x2 = parse_coef_1(input, n_elem, n_coef);
           if (xrtm_set_coef_x_11(d, dimens[0], dimens[1], x2)) {
                input_error(&input->locus, "xrtm_set_coef_%s_11()", type);
@@ -1018,7 +1025,10 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
      else
      if ((n == 1 && dimens[0] > -1) || (n == 2 && dimens[0] > -1 && dimens[1] == -1)) {
           parse_equal(input);
-          n_coef = xrtm_get_n_coef(input->d, dimens[0]);
+          if ((n_coef = xrtm_get_n_coef(input->d, dimens[0])) < 0) {
+               input_error(&input->locus, "xrtm_get_n_coef()");
+               exit(1);
+          }
           x3 = parse_coef_2(input, n_derivs, n_elem, n_coef);
           if (xrtm_set_coef_x_1n(d, dimens[0], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_1n()", type);
@@ -1190,7 +1200,10 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
 
           x = parse_scaler_string(input);
 
-          n_coef_layer = xrtm_get_n_coef(input->d, dimens[0]);
+          if ((n_coef_layer = xrtm_get_n_coef(input->d, dimens[0])) < 0) {
+               input_error(&input->locus, "xrtm_get_n_coef()");
+               exit(1);
+          }
 
           if ((n_coef2 = load_scat_coefs2(x, n_coef_layer, n_coef, &coef, &flag)) < 0) {
                fprintf(stderr, "ERROR: load_scat_coefs2(), layer %d, deriv %d\n", dimens[0], dimens[1]);
@@ -1267,7 +1280,10 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
 
           coef1 = (double ***) alloc_array1(n_derivs, sizeof(double **));
 
-          n_coef_layer = xrtm_get_n_coef(input->d, dimens[0]);
+          if ((n_coef_layer = xrtm_get_n_coef(input->d, dimens[0])) < 0) {
+               input_error(&input->locus, "xrtm_get_n_coef()");
+               exit(1);
+          }
 
           for (i = 0; i < n_derivs; ++i) {
                if ((n_coef2 = load_scat_coefs2(x1[i], n_coef_layer, n_coef, &coef1[i], &flag)) < 0) {
-- 
2.43.0


From 40a002e12430b344b554699ef5a9062f67209822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:05 +0000
Subject: [PATCH 085/115] fix: the last creation input of an input string ran
 into the first default

---
 utils/callxrtm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/callxrtm.c b/utils/callxrtm.c
index 2f7763c..d860288 100644
--- a/utils/callxrtm.c
+++ b/utils/callxrtm.c
@@ -277,6 +277,8 @@ int main(int argc, char *argv[]) {
           for (i = 0; i < n2; ++i)
                input3[ii++] = input   [i];
 
+          input3[ii++] = ' ';
+
           for (i = 0; i < n21; ++i)
                input3[ii++] = defaults2[i];
 
-- 
2.43.0


From 33b2fba696f23547a66709e01c787e4a2d838240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:05 +0000
Subject: [PATCH 086/115] fix: the last finite difference inputs were refused
 as the first input

---
 utils/input_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 873448b..d46ab97 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -2018,7 +2018,7 @@ static void input_parse1(input_data *input) {
                     n_out_thetas = parse_scaler_int(input);
                     break;
                default:
-                    if (r >= XRTM_INPUT_DOUB_D_TAU && r <= XRTM_INPUT_DELTA) {
+                    if (r >= XRTM_INPUT_DOUB_D_TAU && r <= XRTM_INPUT_KERNEL_PARAMS_P) {
                          yyrewind(r, &lex_type);
                          goto L1;
                     }
-- 
2.43.0


From a5153ebab74ce364105ac1b5cb1bbdc7244c175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:05 +0000
Subject: [PATCH 087/115] fix: kernel indices out of range in input files were
 used before they were checked

---
 utils/input_util.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index d46ab97..d9abb0a 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1448,7 +1448,7 @@ static void parse_kernel_params(input_data *input) {
 
      n = dimens_parse(input, dimens);
 
-     if (n <= 0 || dimens[0] <= -1) {
+     if (n <= 0 || dimens[0] <= -1 || dimens[0] >= input->d->n_kernels) {
           input_error(&input->locus, "invalid dimensions");
           exit(1);
      }
@@ -1498,6 +1498,11 @@ static void parse_kernel_params_l(input_data *input, void *d, int n_derivs, cons
 
      n = dimens_parse(input, dimens);
 
+     if (n <= 0 || dimens[0] <= -1 || dimens[0] >= input->d->n_kernels) {
+          input_error(&input->locus, "invalid dimensions");
+          exit(1);
+     }
+
      if (n == 3 && dimens[1] > -1 && dimens[2] > -1) {
           parse_equal(input);
           x = parse_scaler_double(input);
@@ -1528,7 +1533,7 @@ static void parse_kernel_params_l(input_data *input, void *d, int n_derivs, cons
           free_array1_double(x1, n_params);
      }
      else
-     if ((n == 1) || (n == 2 && dimens[1] == -1 && dimens[2] == -1) || (n == 2 && dimens[1]) || (n == 3 && dimens[1] == -1 && dimens[2] == -1)) {
+     if ((n == 1) || (n == 2 && dimens[1] == -1) || (n == 3 && dimens[1] == -1 && dimens[2] == -1)) {
           parse_equal(input);
           n_params = kernel_n_params((enum xrtm_kernel_type) xrtm_get_kernel(input->d, dimens[0]));
           x2 = parse_array2_double(input, n_derivs, n_params);
-- 
2.43.0


From e46bd8921f52f96a8a9e3ca4cabea741a106fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:33 +0000
Subject: [PATCH 088/115] fix: getters read what their indices point to before
 they checked them, and negative kernel indices were not checked

---
 src/xrtm_interface.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 6e1b840..a973fe2 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2861,7 +2861,7 @@ int xrtm_get_n_kernel_quad(xrtm_data *d) {
  ******************************************************************************/
 enum xrtm_kernel_type xrtm_get_kernel(xrtm_data *d, int i_kernel) {
 
-     if (i_kernel > d->n_kernels - 1) {
+     if (i_kernel < 0 || i_kernel > d->n_kernels - 1) {
           fprintf(stderr, "ERROR: invalid kernel index: %d\n", i_kernel);
           return XRTM_INT_ERROR;
      }
@@ -4004,10 +4004,10 @@ double xrtm_get_g(xrtm_data *d, int i_layer) {
           return XRTM_DBL_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_g[i_layer], xrtm_input_index_to_name(INPUT_G), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_g[i_layer], xrtm_input_index_to_name(INPUT_G), XRTM_DBL_ERROR);
+
      return d->g0[i_layer];
 }
 
@@ -4235,10 +4235,10 @@ int xrtm_get_n_coef(xrtm_data *d, int i_layer) {
           return XRTM_INT_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
+
      return d->n_coef_layer[i_layer];
 }
 
@@ -4251,10 +4251,11 @@ double xrtm_get_coef(xrtm_data *d, int i_layer, int i_elem, int i_coef) {
           return XRTM_DBL_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], xrtm_input_index_to_name(INPUT_COEF), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_elem,  d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
+
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], xrtm_input_index_to_name(INPUT_COEF), XRTM_DBL_ERROR);
+
      CHECK_INDEX_RANGE(i_coef,  d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
      return d->coef0[i_layer][i_elem][i_coef];
@@ -4469,10 +4470,10 @@ int xrtm_set_omega_n(xrtm_data *d, double *omega) {
 
 double xrtm_get_omega(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
+
      return d->omega0[i_layer];
 }
 
@@ -4620,10 +4621,10 @@ int xrtm_set_ltau_n(xrtm_data *d, double *ltau) {
 
 double xrtm_get_ltau(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
+
      return d->ltau0[i_layer];
 }
 
@@ -4739,10 +4740,10 @@ double xrtm_get_kernel_ampfac(xrtm_data *d, int i_kernel) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
+
      return d->kernel_ampfac[i_kernel];
 }
 
@@ -4804,14 +4805,14 @@ double xrtm_get_kernel_params(xrtm_data *d, int i_kernel, int i_param) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
 
      CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params",  XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
+
      return d->kernel_params[i_kernel][i_param];
 }
 
-- 
2.43.0


From 7b9bef067c1d0408e241226774c47a8dfefd8e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:50 +0000
Subject: [PATCH 089/115] fix: xrtm_data was larger than the space the Fortran
 interfaces set aside for it

---
 src/xrtm_interface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_interface.h b/src/xrtm_interface.h
index da944a6..2396ec9 100644
--- a/src/xrtm_interface.h
+++ b/src/xrtm_interface.h
@@ -258,6 +258,8 @@ typedef struct {
 
      int n_stacks;
 
+     int saved_solver;
+
      enum xrtm_kernel_type *kernels;
 
      int *ulevels;
@@ -278,8 +280,6 @@ typedef struct {
      int *dep_flags_diff_bound_input;
      int *dep_flags_total_R_T_S_U_W_V;
 
-     int saved_solver;
-
      int **dep_flags_phase_mats_qq;
      int **dep_flags_phase_mats_uq;
      int **dep_flags_phase_vecs_q0;
-- 
2.43.0


From 29d05ac0f29bfd023b9abc5421d8f4b4c54390ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:02 +0000
Subject: [PATCH 090/115] fix: Fortran 77 getters returned a status, read as an
 integer, and not the value

---
 interfaces/xrtm_fd_int_f77.f      |  20 +--
 interfaces/xrtm_fd_int_f77_util.c |  66 ++-------
 interfaces/xrtm_int_f77.f         |  50 +++----
 interfaces/xrtm_int_f77_util.c    | 234 +++++-------------------------
 4 files changed, 85 insertions(+), 285 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77.f b/interfaces/xrtm_fd_int_f77.f
index 5794ae0..0f1eb0d 100644
--- a/interfaces/xrtm_fd_int_f77.f
+++ b/interfaces/xrtm_fd_int_f77.f
@@ -78,7 +78,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_F_iso_top_p_bindx_f77
+      real*8 xrtm_fd_get_F_iso_top_p_bindx_f77
       xrtm_fd_get_F_iso_top_p_f77 = xrtm_fd_get_F_iso_top_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_F_iso_top_p_f77
@@ -111,7 +111,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_F_iso_bot_p_bindx_f77
+      real*8 xrtm_fd_get_F_iso_bot_p_bindx_f77
       xrtm_fd_get_F_iso_bot_p_f77 = xrtm_fd_get_F_iso_bot_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_F_iso_bot_p_f77
@@ -144,7 +144,7 @@ c***********************************************************************
       byte d(*)
       integer i_deriv
       real*8 levels_b_l(*)
-      integer xrtm_fd_get_levels_b_p_bindx_f77
+      real*8 xrtm_fd_get_levels_b_p_bindx_f77
       xrtm_fd_get_levels_b_p_f77 = xrtm_fd_get_levels_b_p_bindx_f77(d,
      &i_deriv, levels_b_l)
       end function xrtm_fd_get_levels_b_p_f77
@@ -177,7 +177,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_surface_b_p_bindx_f77
+      real*8 xrtm_fd_get_surface_b_p_bindx_f77
       xrtm_fd_get_surface_b_p_f77 = xrtm_fd_get_surface_b_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_surface_b_p_f77
@@ -232,7 +232,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_g_p_bindx_f77
+      real*8 xrtm_fd_get_g_p_bindx_f77
       xrtm_fd_get_g_p_f77 = xrtm_fd_get_g_p_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_fd_get_g_p_f77
@@ -292,7 +292,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_fd_get_coef_p_bindx_f77
+      real*8 xrtm_fd_get_coef_p_bindx_f77
       xrtm_fd_get_coef_p_f77 = xrtm_fd_get_coef_p_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_fd_get_coef_p_f77
@@ -349,7 +349,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_omega_p_bindx_f77
+      real*8 xrtm_fd_get_omega_p_bindx_f77
       xrtm_fd_get_omega_p_f77 = xrtm_fd_get_omega_p_bindx_f77(d,
      &i_layer, i_deriv)
       end function xrtm_fd_get_omega_p_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_ltau_p_bindx_f77
+      real*8 xrtm_fd_get_ltau_p_bindx_f77
       xrtm_fd_get_ltau_p_f77 = xrtm_fd_get_ltau_p_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_fd_get_ltau_p_f77
@@ -445,7 +445,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_fd_get_kernel_ampfac_p_bindx_f77
+      real*8 xrtm_fd_get_kernel_ampfac_p_bindx_f77
       xrtm_fd_get_kernel_ampfac_p_f77 =
      &xrtm_fd_get_kernel_ampfac_p_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_fd_get_kernel_ampfac_p_f77
@@ -514,7 +514,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_fd_get_kernel_params_p_bindx_f77
+      real*8 xrtm_fd_get_kernel_params_p_bindx_f77
       xrtm_fd_get_kernel_params_p_f77 =
      &xrtm_fd_get_kernel_params_p_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_fd_get_kernel_params_p_f77
diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index 8fb34f6..ed8169f 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -35,11 +35,7 @@ int xrtm_fd_destroy_bindx_f77_(xrtm_fd_data *d)
 
 int xrtm_fd_get_n_derivs_bindx_f77_(xrtm_fd_data *d)
 {
-     if (xrtm_fd_get_n_derivs(d)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_n_derivs(d);
 }
 
 
@@ -91,11 +87,7 @@ double xrtm_fd_get_f_iso_top_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_F_iso_top_p(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_F_iso_top_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_F_iso_top_p(d, i_deriv);
 }
 
 
@@ -127,11 +119,7 @@ double xrtm_fd_get_f_iso_bot_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_F_iso_bot_p(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_F_iso_bot_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_F_iso_bot_p(d, i_deriv);
 }
 
 
@@ -164,11 +152,7 @@ double xrtm_fd_get_levels_b_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_levels_b_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l);
 }
 
 
@@ -200,11 +184,7 @@ double xrtm_fd_get_surface_b_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_surface_b_p(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_surface_b_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_surface_b_p(d, i_deriv);
 }
 
 
@@ -267,11 +247,7 @@ double xrtm_fd_get_g_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_g_p(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_g_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_g_p(d, i_layer, i_deriv);
 }
 
 
@@ -345,11 +321,7 @@ double xrtm_fd_get_coef_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_coef_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef);
 }
 
 
@@ -412,11 +384,7 @@ double xrtm_fd_get_omega_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_der
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_omega_p(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_omega_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_omega_p(d, i_layer, i_deriv);
 }
 
 
@@ -479,11 +447,7 @@ double xrtm_fd_get_ltau_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_ltau_p(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_ltau_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_ltau_p(d, i_layer, i_deriv);
 }
 
 
@@ -521,11 +485,7 @@ double xrtm_fd_get_kernel_ampfac_p_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, i
      int i_deriv;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_kernel_ampfac_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv);
 }
 
 
@@ -598,11 +558,7 @@ double xrtm_fd_get_kernel_params_p_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, i
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_kernel_params_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param);
 }
 
 
diff --git a/interfaces/xrtm_int_f77.f b/interfaces/xrtm_int_f77.f
index a82190d..a66cec7 100644
--- a/interfaces/xrtm_int_f77.f
+++ b/interfaces/xrtm_int_f77.f
@@ -156,7 +156,7 @@ c***********************************************************************
       real*8 function xrtm_get_doub_d_tau_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_doub_d_tau_bindx_f77
+      real*8 xrtm_get_doub_d_tau_bindx_f77
       xrtm_get_doub_d_tau_f77 = xrtm_get_doub_d_tau_bindx_f77(d)
       end function xrtm_get_doub_d_tau_f77
 
@@ -222,7 +222,7 @@ c***********************************************************************
       real*8 function xrtm_get_fourier_tol_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_fourier_tol_bindx_f77
+      real*8 xrtm_get_fourier_tol_bindx_f77
       xrtm_get_fourier_tol_f77 = xrtm_get_fourier_tol_bindx_f77(d)
       end function xrtm_get_fourier_tol_f77
 
@@ -240,7 +240,7 @@ c***********************************************************************
       real*8 function xrtm_get_lambda_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_lambda_bindx_f77
+      real*8 xrtm_get_lambda_bindx_f77
       xrtm_get_lambda_f77 = xrtm_get_lambda_bindx_f77(d)
       end function xrtm_get_lambda_f77
 
@@ -258,7 +258,7 @@ c***********************************************************************
       real*8 function xrtm_get_planet_r_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_planet_r_bindx_f77
+      real*8 xrtm_get_planet_r_bindx_f77
       xrtm_get_planet_r_f77 = xrtm_get_planet_r_bindx_f77(d)
       end function xrtm_get_planet_r_f77
 
@@ -356,7 +356,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_top_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_top_bindx_f77
+      real*8 xrtm_get_F_iso_top_bindx_f77
       xrtm_get_F_iso_top_f77 = xrtm_get_F_iso_top_bindx_f77(d)
       end function xrtm_get_F_iso_top_f77
 
@@ -387,7 +387,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_top_l_bindx_f77
+      real*8 xrtm_get_F_iso_top_l_bindx_f77
       xrtm_get_F_iso_top_l_f77 = xrtm_get_F_iso_top_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_top_l_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_bot_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_bot_bindx_f77
+      real*8 xrtm_get_F_iso_bot_bindx_f77
       xrtm_get_F_iso_bot_f77 = xrtm_get_F_iso_bot_bindx_f77(d)
       end function xrtm_get_F_iso_bot_f77
 
@@ -437,7 +437,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_bot_l_bindx_f77
+      real*8 xrtm_get_F_iso_bot_l_bindx_f77
       xrtm_get_F_iso_bot_l_f77 = xrtm_get_F_iso_bot_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_bot_l_f77
@@ -456,7 +456,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_0_bindx_f77
+      real*8 xrtm_get_F_0_bindx_f77
       xrtm_get_F_0_f77 = xrtm_get_F_0_bindx_f77(d)
       end function xrtm_get_F_0_f77
 
@@ -474,7 +474,7 @@ c***********************************************************************
       real*8 function xrtm_get_theta_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_theta_0_bindx_f77
+      real*8 xrtm_get_theta_0_bindx_f77
       xrtm_get_theta_0_f77 = xrtm_get_theta_0_bindx_f77(d)
       end function xrtm_get_theta_0_f77
 
@@ -492,7 +492,7 @@ c***********************************************************************
       real*8 function xrtm_get_phi_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_phi_0_bindx_f77
+      real*8 xrtm_get_phi_0_bindx_f77
       xrtm_get_phi_0_f77 = xrtm_get_phi_0_bindx_f77(d)
       end function xrtm_get_phi_0_f77
 
@@ -563,7 +563,7 @@ c***********************************************************************
       real*8 function xrtm_get_surface_b_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_surface_b_bindx_f77
+      real*8 xrtm_get_surface_b_bindx_f77
       xrtm_get_surface_b_f77 = xrtm_get_surface_b_bindx_f77(d)
       end function xrtm_get_surface_b_f77
 
@@ -594,7 +594,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_surface_b_l_bindx_f77
+      real*8 xrtm_get_surface_b_l_bindx_f77
       xrtm_get_surface_b_l_f77 = xrtm_get_surface_b_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_surface_b_l_f77
@@ -625,7 +625,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_g_bindx_f77
+      real*8 xrtm_get_g_bindx_f77
       xrtm_get_g_f77 = xrtm_get_g_bindx_f77(d, i_layer)
       end function xrtm_get_g_f77
 
@@ -679,7 +679,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_g_l_bindx_f77
+      real*8 xrtm_get_g_l_bindx_f77
       xrtm_get_g_l_f77 = xrtm_get_g_l_bindx_f77(d, i_layer, i_deriv)
       end function xrtm_get_g_l_f77
 
@@ -723,7 +723,7 @@ c***********************************************************************
       integer i_layer
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_bindx_f77
+      real*8 xrtm_get_coef_bindx_f77
       xrtm_get_coef_f77 = xrtm_get_coef_bindx_f77(d, i_layer, i_elem,
      &i_coef)
       end function xrtm_get_coef_f77
@@ -782,7 +782,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_l_bindx_f77
+      real*8 xrtm_get_coef_l_bindx_f77
       xrtm_get_coef_l_f77 = xrtm_get_coef_l_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_get_coef_l_f77
@@ -813,7 +813,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_omega_bindx_f77
+      real*8 xrtm_get_omega_bindx_f77
       xrtm_get_omega_f77 = xrtm_get_omega_bindx_f77(d, i_layer)
       end function xrtm_get_omega_f77
 
@@ -869,7 +869,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_omega_l_bindx_f77
+      real*8 xrtm_get_omega_l_bindx_f77
       xrtm_get_omega_l_f77 = xrtm_get_omega_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_omega_l_f77
@@ -900,7 +900,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_ltau_bindx_f77
+      real*8 xrtm_get_ltau_bindx_f77
       xrtm_get_ltau_f77 = xrtm_get_ltau_bindx_f77(d, i_layer)
       end function xrtm_get_ltau_f77
 
@@ -955,7 +955,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_ltau_l_bindx_f77
+      real*8 xrtm_get_ltau_l_bindx_f77
       xrtm_get_ltau_l_f77 = xrtm_get_ltau_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_ltau_l_f77
@@ -976,7 +976,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_kernel
-      integer xrtm_get_kernel_ampfac_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_bindx_f77
       xrtm_get_kernel_ampfac_f77 = xrtm_get_kernel_ampfac_bindx_f77(d,
      &i_kernel)
       end function xrtm_get_kernel_ampfac_f77
@@ -1013,7 +1013,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_param
-      integer xrtm_get_kernel_params_bindx_f77
+      real*8 xrtm_get_kernel_params_bindx_f77
       xrtm_get_kernel_params_f77 = xrtm_get_kernel_params_bindx_f77(d,
      &i_kernel, i_param)
       end function xrtm_get_kernel_params_f77
@@ -1051,7 +1051,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_get_kernel_ampfac_l_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_l_bindx_f77
       xrtm_get_kernel_ampfac_l_f77 =
      &xrtm_get_kernel_ampfac_l_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_get_kernel_ampfac_l_f77
@@ -1120,7 +1120,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_get_kernel_params_l_bindx_f77
+      real*8 xrtm_get_kernel_params_l_bindx_f77
       xrtm_get_kernel_params_l_f77 =
      &xrtm_get_kernel_params_l_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_get_kernel_params_l_f77
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 5c06d9a..443ec98 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -57,91 +57,55 @@ int xrtm_destroy_bindx_f77_(xrtm_data *d)
 
 int xrtm_get_options_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_options(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_options()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_options(d);
 }
 
 
 int xrtm_get_solvers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_solvers(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_solvers()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_solvers(d);
 }
 
 
 int xrtm_get_max_coef_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_max_coef(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_max_coef()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_max_coef(d);
 }
 
 
 int xrtm_get_n_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_quad(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_quad()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_quad(d);
 }
 
 
 int xrtm_get_n_stokes_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_stokes(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_stokes()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_stokes(d);
 }
 
 
 int xrtm_get_n_derivs_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_derivs(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_derivs(d);
 }
 
 
 int xrtm_get_n_layers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_layers(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_layers()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_layers(d);
 }
 
 
 int xrtm_get_n_kernels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernels(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_kernels()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_kernels(d);
 }
 
 
 int xrtm_get_n_kernel_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernel_quad(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_kernel_quad()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_kernel_quad(d);
 }
 
 
@@ -149,41 +113,25 @@ enum xrtm_kernel_type xrtm_get_kernel_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
      int i_kernel;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel(d, i_kernel)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel(d, i_kernel);
 }
 
 
 int xrtm_get_n_out_levels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_levels(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_out_levels()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_out_levels(d);
 }
 
 
 int xrtm_get_n_out_thetas_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_out_thetas()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_out_thetas(d);
 }
 
 
 int xrtm_get_n_out_thetas_2_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas_2(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_out_thetas_2()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_out_thetas_2(d);
 }
 
 
@@ -201,11 +149,7 @@ int xrtm_set_doub_d_tau_bindx_f77_(xrtm_data *d, double *d_tau_)
 
 double xrtm_get_doub_d_tau_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_doub_d_tau(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_doub_d_tau()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_doub_d_tau(d);
 }
 
 
@@ -273,11 +217,7 @@ int xrtm_set_fourier_tol_bindx_f77_(xrtm_data *d, double *fourier_tol_)
 
 double xrtm_get_fourier_tol_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_fourier_tol(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_fourier_tol()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_fourier_tol(d);
 }
 
 
@@ -295,11 +235,7 @@ int xrtm_set_lambda_bindx_f77_(xrtm_data *d, double *lambda_)
 
 double xrtm_get_lambda_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_lambda(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_lambda()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_lambda(d);
 }
 
 
@@ -317,11 +253,7 @@ int xrtm_set_planet_r_bindx_f77_(xrtm_data *d, double *planet_r_)
 
 double xrtm_get_planet_r_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_planet_r(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_planet_r()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_planet_r(d);
 }
 
 
@@ -419,11 +351,7 @@ int xrtm_set_f_iso_top_bindx_f77_(xrtm_data *d, double *F_iso_top_)
 
 double xrtm_get_f_iso_top_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_top(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_top()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_top(d);
 }
 
 
@@ -455,11 +383,7 @@ double xrtm_get_f_iso_top_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_top_l(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_top_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_top_l(d, i_deriv);
 }
 
 
@@ -477,11 +401,7 @@ int xrtm_set_f_iso_bot_bindx_f77_(xrtm_data *d, double *F_iso_bot_)
 
 double xrtm_get_f_iso_bot_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_bot(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_bot()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_bot(d);
 }
 
 
@@ -513,11 +433,7 @@ double xrtm_get_f_iso_bot_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_bot_l(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_bot_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_bot_l(d, i_deriv);
 }
 
 
@@ -535,11 +451,7 @@ int xrtm_set_f_0_bindx_f77_(xrtm_data *d, double *F_0_)
 
 double xrtm_get_f_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_0(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_0()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_0(d);
 }
 
 
@@ -557,11 +469,7 @@ int xrtm_set_theta_0_bindx_f77_(xrtm_data *d, double *theta_0_)
 
 double xrtm_get_theta_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_theta_0(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_theta_0()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_theta_0(d);
 }
 
 
@@ -579,11 +487,7 @@ int xrtm_set_phi_0_bindx_f77_(xrtm_data *d, double *phi_0_)
 
 double xrtm_get_phi_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_phi_0(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_phi_0()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_phi_0(d);
 }
 
 
@@ -658,11 +562,7 @@ int xrtm_set_surface_b_bindx_f77_(xrtm_data *d, double *surface_b_)
 
 double xrtm_get_surface_b_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_surface_b(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_surface_b()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_surface_b(d);
 }
 
 
@@ -694,11 +594,7 @@ double xrtm_get_surface_b_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_surface_b_l(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_surface_b_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_surface_b_l(d, i_deriv);
 }
 
 
@@ -730,11 +626,7 @@ double xrtm_get_g_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_g(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_g()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_g(d, i_layer);
 }
 
 
@@ -797,11 +689,7 @@ double xrtm_get_g_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_g_l(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_g_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_g_l(d, i_layer, i_deriv);
 }
 
 
@@ -839,11 +727,7 @@ int xrtm_get_n_coef_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_n_coef(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_coef()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_coef(d, i_layer);
 }
 
 
@@ -855,11 +739,7 @@ double xrtm_get_coef_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_elem_, int *
      i_layer = *i_layer_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef(d, i_layer, i_elem, i_coef)) {
-          fprintf(stderr, "ERROR: xrtm_get_coef()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_coef(d, i_layer, i_elem, i_coef);
 }
 
 
@@ -933,11 +813,7 @@ double xrtm_get_coef_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, in
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef)) {
-          fprintf(stderr, "ERROR: xrtm_get_coef_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef);
 }
 
 
@@ -969,11 +845,7 @@ double xrtm_get_omega_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_omega(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_omega()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_omega(d, i_layer);
 }
 
 
@@ -1036,11 +908,7 @@ double xrtm_get_omega_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_omega_l(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_omega_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_omega_l(d, i_layer, i_deriv);
 }
 
 
@@ -1072,11 +940,7 @@ double xrtm_get_ltau_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_ltau(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_ltau()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_ltau(d, i_layer);
 }
 
 
@@ -1139,11 +1003,7 @@ double xrtm_get_ltau_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_ltau_l(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_ltau_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_ltau_l(d, i_layer, i_deriv);
 }
 
 
@@ -1165,11 +1025,7 @@ double xrtm_get_kernel_ampfac_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
      int i_kernel;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel_ampfac(d, i_kernel)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_ampfac(d, i_kernel);
 }
 
 
@@ -1207,11 +1063,7 @@ double xrtm_get_kernel_params_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_pa
      int i_param;
      i_kernel = *i_kernel_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params(d, i_kernel, i_param)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_params()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_params(d, i_kernel, i_param);
 }
 
 
@@ -1249,11 +1101,7 @@ double xrtm_get_kernel_ampfac_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_
      int i_deriv;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv);
 }
 
 
@@ -1326,11 +1174,7 @@ double xrtm_get_kernel_params_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_params_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param);
 }
 
 
-- 
2.43.0


From 1b7af7ac83941b3a7fb4055b0bf9729fb391668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:02 +0000
Subject: [PATCH 091/115] fix: Fortran interfaces read angle tables with no
 rows without user angles and used the wrong number of derivatives for finite
 differences

---
 interfaces/xrtm_fd_int_f77_util.c | 44 +++++++++++++++----------------
 interfaces/xrtm_fd_int_f90_util.c | 44 +++++++++++++++----------------
 interfaces/xrtm_fd_interface.def  | 18 ++++++-------
 interfaces/xrtm_int_f77_util.c    |  4 +--
 interfaces/xrtm_int_f90_util.c    |  4 +--
 interfaces/xrtm_interface.def     |  4 +--
 6 files changed, 59 insertions(+), 59 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index ed8169f..18ed786 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -138,7 +138,7 @@ int xrtm_fd_set_levels_b_p_1_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double *
 int xrtm_fd_set_levels_b_p_n_bindx_f77_(xrtm_fd_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
-     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->d->n_derivs);
+     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
           return -1;
@@ -231,7 +231,7 @@ int xrtm_fd_set_g_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *g_l)
 int xrtm_fd_set_g_p_nn_bindx_f77_(xrtm_fd_data *d, double *g_l)
 {
      double **g_l2;
-     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->d->n_derivs);
+     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
           return -1;
@@ -288,7 +288,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
      int i_layer;
      double ***coef_l2;
      i_layer = *i_layer_;
-     coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
@@ -301,7 +301,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
 int xrtm_fd_set_coef_p_nn_bindx_f77_(xrtm_fd_data *d, double *coef_l)
 {
      double ****coef_l2;
-     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->d->n_derivs, d->d->n_elem, d->d->n_coef);
+     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
           return -1;
@@ -368,7 +368,7 @@ int xrtm_fd_set_omega_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *om
 int xrtm_fd_set_omega_p_nn_bindx_f77_(xrtm_fd_data *d, double *omega_l)
 {
      double **omega_l2;
-     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->d->n_derivs);
+     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
           return -1;
@@ -431,7 +431,7 @@ int xrtm_fd_set_ltau_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *lta
 int xrtm_fd_set_ltau_p_nn_bindx_f77_(xrtm_fd_data *d, double *ltau_l)
 {
      double **ltau_l2;
-     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->d->n_derivs);
+     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
           return -1;
@@ -540,7 +540,7 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, d
      int i_kernel;
      double **params_l2;
      i_kernel = *i_kernel_;
-     params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
@@ -582,16 +582,16 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      solutions = *solutions_;
      method = *method_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->d->n_derivs);
-     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->d->n_derivs);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis);
+     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_out_levels, d->n_derivs);
+     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_out_levels, d->n_derivs);
+     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_out_levels, d->n_derivs);
+     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_out_levels, d->n_derivs);
+     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_out_levels, d->n_derivs);
      if (xrtm_fd_solution(d, (enum xrtm_solver_mask) solver, solutions, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
           return -1;
@@ -623,11 +623,11 @@ int xrtm_fd_radiance_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      solver = *solver_;
      method = *method_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis);
+     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, (enum xrtm_solver_mask) solver, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
           return -1;
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index e81480a..a8d0d5f 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -14,7 +14,7 @@ extern "C" {
 int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
-     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->d->n_derivs);
+     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
           return -1;
@@ -27,7 +27,7 @@ int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
 int xrtm_fd_set_g_p_nn_bindx_f90(xrtm_fd_data *d, double *g_l)
 {
      double **g_l2;
-     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->d->n_derivs);
+     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
           return -1;
@@ -66,7 +66,7 @@ int xrtm_fd_set_coef_p_n1_bindx_f90(xrtm_fd_data *d, int i_deriv, double *coef_l
 int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l)
 {
      double ***coef_l2;
-     coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
@@ -79,7 +79,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l
 int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
 {
      double ****coef_l2;
-     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->d->n_derivs, d->d->n_elem, d->d->n_coef);
+     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
           return -1;
@@ -92,7 +92,7 @@ int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
 int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
 {
      double **omega_l2;
-     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->d->n_derivs);
+     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
           return -1;
@@ -105,7 +105,7 @@ int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
 int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 {
      double **ltau_l2;
-     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->d->n_derivs);
+     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
           return -1;
@@ -118,7 +118,7 @@ int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 int xrtm_fd_set_kernel_params_p_nn_bindx_f90(xrtm_fd_data *d, int i_kernel, double *params_l)
 {
      double **params_l2;
-     params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
@@ -140,16 +140,16 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->d->n_derivs);
-     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->d->n_derivs);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis);
+     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_out_levels, d->n_derivs);
+     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_out_levels, d->n_derivs);
+     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_out_levels, d->n_derivs);
+     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_out_levels, d->n_derivs);
+     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_out_levels, d->n_derivs);
      if (xrtm_fd_solution(d, solver, solutions, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
           return -1;
@@ -175,11 +175,11 @@ int xrtm_fd_radiance_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, en
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis);
+     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, solver, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
           return -1;
diff --git a/interfaces/xrtm_fd_interface.def b/interfaces/xrtm_fd_interface.def
index cd96c81..402584a 100644
--- a/interfaces/xrtm_fd_interface.def
+++ b/interfaces/xrtm_fd_interface.def
@@ -20,7 +20,7 @@ subprogram_general int 0 set_F_iso_bot_p_1		0, int 0 i_deriv in, double 0 F_iso_
 subprogram_general int 0 set_F_iso_bot_p_n		0, double 1 "d->n_derivs" F_iso_bot_l in;
 subprogram_general double 0 get_F_iso_bot_p		1, int 0 i_deriv in;
 subprogram_general int 0 set_levels_b_p_1		0, int 0 i_deriv in, double 1 "d->d->n_layers + 1" levels_b_l in;
-subprogram_general int 0 set_levels_b_p_n		0, double 2 "d->d->n_layers + 1" "d->d->n_derivs" levels_b_l in;
+subprogram_general int 0 set_levels_b_p_n		0, double 2 "d->d->n_layers + 1" "d->n_derivs" levels_b_l in;
 subprogram_general double 0 get_levels_b_p		1, int 0 i_deriv in, double 1 "d->d->n_layers + 1" levels_b_l out;
 subprogram_general int 0 set_surface_b_p_1		0, int 0 i_deriv in, double 0 surface_b_l in;
 subprogram_general int 0 set_surface_b_p_n		0, double 1 "d->n_derivs" surface_b_l in;
@@ -28,22 +28,22 @@ subprogram_general double 0 get_surface_b_p		1, int 0 i_deriv in;
 subprogram_general int 0 set_g_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 g_l in;
 subprogram_general int 0 set_g_p_n1			0, int 0 i_deriv in, double 1 "d->n_layers" g_l in;
 subprogram_general int 0 set_g_p_1n			0, int 0 i_layer in, double 1 "d->n_derivs" g_l in;
-subprogram_general int 0 set_g_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" g_l in;
+subprogram_general int 0 set_g_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" g_l in;
 subprogram_general double 0 get_g_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_coef_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 2 "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
 subprogram_general int 0 set_coef_p_n1			0, int 0 i_deriv in, double 3 "d->d->n_layers" "d->d->n_elem" "d->d->n_coef" coef_l in;
-subprogram_general int 0 set_coef_p_1n			0, int 0 i_layer in, double 3 "d->d->n_derivs" "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
-subprogram_general int 0 set_coef_p_nn			0, double 4 "d->d->n_layers" "d->d->n_derivs" "d->d->n_elem" "d->d->n_coef" coef_l in;
+subprogram_general int 0 set_coef_p_1n			0, int 0 i_layer in, double 3 "d->n_derivs" "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
+subprogram_general int 0 set_coef_p_nn			0, double 4 "d->d->n_layers" "d->n_derivs" "d->d->n_elem" "d->d->n_coef" coef_l in;
 subprogram_general double 0 get_coef_p			1, int 0 i_layer in, int 0 i_deriv in, int 0 i_elem in, int 0 i_coef in;
 subprogram_general int 0 set_omega_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 omega_l in;
 subprogram_general int 0 set_omega_p_n1			0, int 0 i_deriv in, double 1 "d->n_derivs" omega_l in;
 subprogram_general int 0 set_omega_p_1n			0, int 0 i_layer in, double 1 "d->n_layers" omega_l in;
-subprogram_general int 0 set_omega_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" omega_l in;
+subprogram_general int 0 set_omega_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" omega_l in;
 subprogram_general double 0 get_omega_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_ltau_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 ltau_l in;
 subprogram_general int 0 set_ltau_p_n1			0, int 0 i_deriv in, double 1 "d->n_derivs" ltau_l in;
 subprogram_general int 0 set_ltau_p_1n			0, int 0 i_layer in, double 1 "d->n_layers" ltau_l in;
-subprogram_general int 0 set_ltau_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" ltau_l in;
+subprogram_general int 0 set_ltau_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" ltau_l in;
 subprogram_general double 0 get_ltau_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_kernel_ampfac_p_1		0, int 0 i_kernel in, int 0 i_deriv in, double 0 ampfac_l in;
 subprogram_general int 0 set_kernel_ampfac_p_n		0, int 0 i_kernel in, double 1 "d->n_derivs" ampfac_l in;
@@ -51,8 +51,8 @@ subprogram_general double 0 get_kernel_ampfac_p		1, int 0 i_kernel in, int 0 i_d
 subprogram_general int 0 set_kernel_params_p_11		0, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in, double 0 param_l in;
 subprogram_general int 0 set_kernel_params_p_1n		0, int 0 i_kernel in, int 0 i_deriv in, double 1 "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general int 0 set_kernel_params_p_n1		0, int 0 i_kernel in, int 0 i_param in, double 1 "d->n_derivs" params_l in;
-subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
+subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general double 0 get_kernel_params_p		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->d->n_out_levels" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_out_levels" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_out_levels" "d->n_derivs" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_out_levels" "d->n_derivs" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_out_levels" mean_p out, double 1 "d->d->n_out_levels" mean_m out, double 2 "d->d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->d->n_out_levels" flux_p out, double 1 "d->d->n_out_levels" flux_m out, double 2 "d->d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->d->n_out_levels" flux_div out, double 2 "d->d->n_out_levels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->d->n_out_levels" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_out_levels" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_out_levels" "d->n_derivs" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_out_levels" "d->n_derivs" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" K_m out;
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 443ec98..d5b6d53 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -1246,7 +1246,7 @@ int xrtm_solution_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      solver = *solver_;
      solutions = *solutions_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
@@ -1285,7 +1285,7 @@ int xrtm_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      double *****K_m2;
      solver = *solver_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
diff --git a/interfaces/xrtm_int_f90_util.c b/interfaces/xrtm_int_f90_util.c
index 2739885..263a6f4 100644
--- a/interfaces/xrtm_int_f90_util.c
+++ b/interfaces/xrtm_int_f90_util.c
@@ -166,7 +166,7 @@ int xrtm_solution_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int solu
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
@@ -201,7 +201,7 @@ int xrtm_radiance_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int n_ou
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas, n_out_phis);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
diff --git a/interfaces/xrtm_interface.def b/interfaces/xrtm_interface.def
index fd16cac..2f4a1d0 100644
--- a/interfaces/xrtm_interface.def
+++ b/interfaces/xrtm_interface.def
@@ -119,8 +119,8 @@ subprogram_general int 0 qx			        0, double 1 "d->n_quad" qx out;
 subprogram_general int 0 qw			        0, double 1 "d->n_quad" qw out;
 subprogram_general int 0 kernel_qx			0, double 1 "d->n_kernel_quad" kernel_qx out;
 subprogram_general int 0 kernel_qw			0, double 1 "d->n_kernel_quad" kernel_qw out;
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 n_out_phis in, double 2 "d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out;
 subprogram_general int 0 mean_radiance			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out;
 subprogram_general int 0 flux				0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out;
 subprogram_general int 0 flux_divergence		0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-- 
2.43.0


From f2be51744b4b27f821a6c355f201a7ee3f28a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:02 +0000
Subject: [PATCH 092/115] fix: Fortran interfaces looked up sizes with
 unchecked indices and negative counts

---
 interfaces/xrtm_fd_int_f77_util.c | 26 +++++++++++++-------------
 interfaces/xrtm_fd_int_f90_util.c | 26 +++++++++++++-------------
 interfaces/xrtm_int_f77_util.c    | 28 ++++++++++++++--------------
 interfaces/xrtm_int_f90_util.c    | 28 ++++++++++++++--------------
 4 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index 18ed786..e391df4 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -258,7 +258,7 @@ int xrtm_fd_set_coef_p_11_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      double **coef_l2;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, d->d->n_coef_layer && i_layer >= 0 && i_layer < d->d->n_layers ? d->d->n_coef_layer[i_layer] : 0);
      if (xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_11()\n");
           return -1;
@@ -288,7 +288,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
      int i_layer;
      double ***coef_l2;
      i_layer = *i_layer_;
-     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer && i_layer >= 0 && i_layer < d->d->n_layers ? d->d->n_coef_layer[i_layer] : 0);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
@@ -540,7 +540,7 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, d
      int i_kernel;
      double **params_l2;
      i_kernel = *i_kernel_;
-     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, i_kernel >= 0 && i_kernel < d->d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]) : 0);
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
@@ -582,11 +582,11 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      solutions = *solutions_;
      method = *method_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0);
+     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
      mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_out_levels, d->n_derivs);
      mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_out_levels, d->n_derivs);
      flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_out_levels, d->n_derivs);
@@ -623,11 +623,11 @@ int xrtm_fd_radiance_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      solver = *solver_;
      method = *method_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0);
+     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
      if (xrtm_fd_radiance(d, (enum xrtm_solver_mask) solver, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
           return -1;
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index a8d0d5f..afb39ae 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -40,7 +40,7 @@ int xrtm_fd_set_g_p_nn_bindx_f90(xrtm_fd_data *d, double *g_l)
 int xrtm_fd_set_coef_p_11_bindx_f90(xrtm_fd_data *d, int i_layer, int i_deriv, double *coef_l)
 {
      double **coef_l2;
-     coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, d->d->n_coef_layer && i_layer >= 0 && i_layer < d->d->n_layers ? d->d->n_coef_layer[i_layer] : 0);
      if (xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_11()\n");
           return -1;
@@ -66,7 +66,7 @@ int xrtm_fd_set_coef_p_n1_bindx_f90(xrtm_fd_data *d, int i_deriv, double *coef_l
 int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l)
 {
      double ***coef_l2;
-     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer && i_layer >= 0 && i_layer < d->d->n_layers ? d->d->n_coef_layer[i_layer] : 0);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
@@ -118,7 +118,7 @@ int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 int xrtm_fd_set_kernel_params_p_nn_bindx_f90(xrtm_fd_data *d, int i_kernel, double *params_l)
 {
      double **params_l2;
-     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, i_kernel >= 0 && i_kernel < d->d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]) : 0);
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
@@ -140,11 +140,11 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0);
+     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
      mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_out_levels, d->n_derivs);
      mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_out_levels, d->n_derivs);
      flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_out_levels, d->n_derivs);
@@ -175,11 +175,11 @@ int xrtm_fd_radiance_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, en
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0);
+     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
      if (xrtm_fd_radiance(d, solver, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
           return -1;
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index d5b6d53..9bfe9fb 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -700,7 +700,7 @@ int xrtm_set_coef_1_bindx_f77_(xrtm_data *d, int *i_layer_, int *n_coef_layer_,
      double **coef2;
      i_layer = *i_layer_;
      n_coef_layer = *n_coef_layer_;
-     coef2 = array_from_mem2_d(coef, d->n_elem, n_coef_layer);
+     coef2 = array_from_mem2_d(coef, d->n_elem, n_coef_layer >= 0 ? n_coef_layer : d->n_coef);
      if (xrtm_set_coef_1(d, i_layer, n_coef_layer, coef2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
           return -1;
@@ -750,7 +750,7 @@ int xrtm_set_coef_l_11_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, do
      double **coef_l2;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer && i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0);
      if (xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
           return -1;
@@ -780,7 +780,7 @@ int xrtm_set_coef_l_1n_bindx_f77_(xrtm_data *d, int *i_layer_, double *coef_l)
      int i_layer;
      double ***coef_l2;
      i_layer = *i_layer_;
-     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer && i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0);
      if (xrtm_set_coef_l_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
           return -1;
@@ -1156,7 +1156,7 @@ int xrtm_set_kernel_params_l_nn_bindx_f77_(xrtm_data *d, int *i_kernel_, double
      int i_kernel;
      double **params_l2;
      i_kernel = *i_kernel_;
-     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0);
      if (xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
           return -1;
@@ -1246,11 +1246,11 @@ int xrtm_solution_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      solver = *solver_;
      solutions = *solutions_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0);
+     I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
      mean_p_l2 = array_from_mem2_d(mean_p_l, d->n_out_levels, d->n_derivs);
      mean_m_l2 = array_from_mem2_d(mean_m_l, d->n_out_levels, d->n_derivs);
      flux_p_l2 = array_from_mem2_d(flux_p_l, d->n_out_levels, d->n_derivs);
@@ -1285,11 +1285,11 @@ int xrtm_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      double *****K_m2;
      solver = *solver_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0);
+     I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
      if (xrtm_radiance(d, (enum xrtm_solver_mask) solver, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_radiance()\n");
           return -1;
diff --git a/interfaces/xrtm_int_f90_util.c b/interfaces/xrtm_int_f90_util.c
index 263a6f4..0606ebd 100644
--- a/interfaces/xrtm_int_f90_util.c
+++ b/interfaces/xrtm_int_f90_util.c
@@ -40,7 +40,7 @@ int xrtm_set_g_l_nn_bindx_f90(xrtm_data *d, double *g_l)
 int xrtm_set_coef_1_bindx_f90(xrtm_data *d, int i_layer, int n_coef_layer, double *coef)
 {
      double **coef2;
-     coef2 = array_from_mem2_d(coef, d->n_elem, n_coef_layer);
+     coef2 = array_from_mem2_d(coef, d->n_elem, n_coef_layer >= 0 ? n_coef_layer : d->n_coef);
      if (xrtm_set_coef_1(d, i_layer, n_coef_layer, coef2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
           return -1;
@@ -66,7 +66,7 @@ int xrtm_set_coef_n_bindx_f90(xrtm_data *d, int *n_coef_layer, double *coef)
 int xrtm_set_coef_l_11_bindx_f90(xrtm_data *d, int i_layer, int i_deriv, double *coef_l)
 {
      double **coef_l2;
-     coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer && i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0);
      if (xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
           return -1;
@@ -92,7 +92,7 @@ int xrtm_set_coef_l_n1_bindx_f90(xrtm_data *d, int i_deriv, double *coef_l)
 int xrtm_set_coef_l_1n_bindx_f90(xrtm_data *d, int i_layer, double *coef_l)
 {
      double ***coef_l2;
-     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer && i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0);
      if (xrtm_set_coef_l_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
           return -1;
@@ -144,7 +144,7 @@ int xrtm_set_ltau_l_nn_bindx_f90(xrtm_data *d, double *ltau_l)
 int xrtm_set_kernel_params_l_nn_bindx_f90(xrtm_data *d, int i_kernel, double *params_l)
 {
      double **params_l2;
-     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0);
      if (xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
           return -1;
@@ -166,11 +166,11 @@ int xrtm_solution_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int solu
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0);
+     I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
      mean_p_l2 = array_from_mem2_d(mean_p_l, d->n_out_levels, d->n_derivs);
      mean_m_l2 = array_from_mem2_d(mean_m_l, d->n_out_levels, d->n_derivs);
      flux_p_l2 = array_from_mem2_d(flux_p_l, d->n_out_levels, d->n_derivs);
@@ -201,11 +201,11 @@ int xrtm_radiance_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int n_ou
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis, d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
+     out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0);
+     I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
      if (xrtm_radiance(d, solver, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_radiance()\n");
           return -1;
-- 
2.43.0


From bd9277503b549b92f25410b3f60e1d156249abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:02 +0000
Subject: [PATCH 093/115] fix: Fortran interfaces lost the pointer tables of a
 failed call and did not check for them

---
 interfaces/xrtm_fd_int_f77_util.c |  74 +++++++++++++-------
 interfaces/xrtm_fd_int_f90_util.c |  74 +++++++++++++-------
 interfaces/xrtm_int_f77_util.c    | 108 +++++++++++++++++++-----------
 interfaces/xrtm_int_f90_util.c    | 108 +++++++++++++++++++-----------
 4 files changed, 236 insertions(+), 128 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index e391df4..0d8898e 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -138,12 +138,14 @@ int xrtm_fd_set_levels_b_p_1_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double *
 int xrtm_fd_set_levels_b_p_n_bindx_f77_(xrtm_fd_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
+     int error;
      levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
-     if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
+     error = levels_b_l2 == NULL || xrtm_fd_set_levels_b_p_n(d, levels_b_l2);
+     free_array2_d(levels_b_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
           return -1;
      }
-     free_array2_d(levels_b_l2);
      return 0;
 }
 
@@ -231,12 +233,14 @@ int xrtm_fd_set_g_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *g_l)
 int xrtm_fd_set_g_p_nn_bindx_f77_(xrtm_fd_data *d, double *g_l)
 {
      double **g_l2;
+     int error;
      g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
-     if (xrtm_fd_set_g_p_nn(d, g_l2)) {
+     error = g_l2 == NULL || xrtm_fd_set_g_p_nn(d, g_l2);
+     free_array2_d(g_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
           return -1;
      }
-     free_array2_d(g_l2);
      return 0;
 }
 
@@ -256,14 +260,16 @@ int xrtm_fd_set_coef_p_11_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      int i_layer;
      int i_deriv;
      double **coef_l2;
+     int error;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
      coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, d->d->n_coef_layer && i_layer >= 0 && i_layer < d->d->n_layers ? d->d->n_coef_layer[i_layer] : 0);
-     if (xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l2);
+     free_array2_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_11()\n");
           return -1;
      }
-     free_array2_d(coef_l2);
      return 0;
 }
 
@@ -272,13 +278,15 @@ int xrtm_fd_set_coef_p_n1_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double *coe
 {
      int i_deriv;
      double ***coef_l2;
+     int error;
      i_deriv = *i_deriv_;
      coef_l2 = array_from_mem3_d(coef_l, d->d->n_layers, d->d->n_elem, d->d->n_coef);
-     if (xrtm_fd_set_coef_p_n1(d, i_deriv, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_fd_set_coef_p_n1(d, i_deriv, coef_l2);
+     free_array3_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_n1()\n");
           return -1;
      }
-     free_array3_d(coef_l2);
      return 0;
 }
 
@@ -287,13 +295,15 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
 {
      int i_layer;
      double ***coef_l2;
+     int error;
      i_layer = *i_layer_;
      coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer && i_layer >= 0 && i_layer < d->d->n_layers ? d->d->n_coef_layer[i_layer] : 0);
-     if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2);
+     free_array3_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
      }
-     free_array3_d(coef_l2);
      return 0;
 }
 
@@ -301,12 +311,14 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
 int xrtm_fd_set_coef_p_nn_bindx_f77_(xrtm_fd_data *d, double *coef_l)
 {
      double ****coef_l2;
+     int error;
      coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
-     if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_fd_set_coef_p_nn(d, coef_l2);
+     free_array4_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
           return -1;
      }
-     free_array4_d(coef_l2);
      return 0;
 }
 
@@ -368,12 +380,14 @@ int xrtm_fd_set_omega_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *om
 int xrtm_fd_set_omega_p_nn_bindx_f77_(xrtm_fd_data *d, double *omega_l)
 {
      double **omega_l2;
+     int error;
      omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
-     if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
+     error = omega_l2 == NULL || xrtm_fd_set_omega_p_nn(d, omega_l2);
+     free_array2_d(omega_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
           return -1;
      }
-     free_array2_d(omega_l2);
      return 0;
 }
 
@@ -431,12 +445,14 @@ int xrtm_fd_set_ltau_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *lta
 int xrtm_fd_set_ltau_p_nn_bindx_f77_(xrtm_fd_data *d, double *ltau_l)
 {
      double **ltau_l2;
+     int error;
      ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
-     if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
+     error = ltau_l2 == NULL || xrtm_fd_set_ltau_p_nn(d, ltau_l2);
+     free_array2_d(ltau_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
           return -1;
      }
-     free_array2_d(ltau_l2);
      return 0;
 }
 
@@ -539,13 +555,15 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, d
 {
      int i_kernel;
      double **params_l2;
+     int error;
      i_kernel = *i_kernel_;
      params_l2 = array_from_mem2_d(params_l, d->n_derivs, i_kernel >= 0 && i_kernel < d->d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]) : 0);
-     if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
+     error = params_l2 == NULL || xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2);
+     free_array2_d(params_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
      }
-     free_array2_d(params_l2);
      return 0;
 }
 
@@ -578,6 +596,7 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
+     int error;
      solver = *solver_;
      solutions = *solutions_;
      method = *method_;
@@ -592,10 +611,7 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_out_levels, d->n_derivs);
      flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_out_levels, d->n_derivs);
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_out_levels, d->n_derivs);
-     if (xrtm_fd_solution(d, (enum xrtm_solver_mask) solver, solutions, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
-          fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
-          return -1;
-     }
+     error = out_phis2 == NULL || I_p2 == NULL || I_m2 == NULL || K_p2 == NULL || K_m2 == NULL || mean_p_l2 == NULL || mean_m_l2 == NULL || flux_p_l2 == NULL || flux_m_l2 == NULL || flux_div_l2 == NULL || xrtm_fd_solution(d, (enum xrtm_solver_mask) solver, solutions, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2);
      free_array2_d(out_phis2);
      free_array4_d(I_p2);
      free_array4_d(I_m2);
@@ -606,6 +622,10 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      free_array2_d(flux_p_l2);
      free_array2_d(flux_m_l2);
      free_array2_d(flux_div_l2);
+     if (error) {
+          fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
+          return -1;
+     }
      return 0;
 }
 
@@ -620,6 +640,7 @@ int xrtm_fd_radiance_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
+     int error;
      solver = *solver_;
      method = *method_;
      n_out_phis = *n_out_phis_;
@@ -628,15 +649,16 @@ int xrtm_fd_radiance_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
      K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
-     if (xrtm_fd_radiance(d, (enum xrtm_solver_mask) solver, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
-          fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
-          return -1;
-     }
+     error = out_phis2 == NULL || I_p2 == NULL || I_m2 == NULL || K_p2 == NULL || K_m2 == NULL || xrtm_fd_radiance(d, (enum xrtm_solver_mask) solver, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2);
      free_array2_d(out_phis2);
      free_array4_d(I_p2);
      free_array4_d(I_m2);
      free_array5_d(K_p2);
      free_array5_d(K_m2);
+     if (error) {
+          fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
+          return -1;
+     }
      return 0;
 }
 
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index afb39ae..003bd9f 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -14,12 +14,14 @@ extern "C" {
 int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
+     int error;
      levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
-     if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
+     error = levels_b_l2 == NULL || xrtm_fd_set_levels_b_p_n(d, levels_b_l2);
+     free_array2_d(levels_b_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
           return -1;
      }
-     free_array2_d(levels_b_l2);
      return 0;
 }
 
@@ -27,12 +29,14 @@ int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
 int xrtm_fd_set_g_p_nn_bindx_f90(xrtm_fd_data *d, double *g_l)
 {
      double **g_l2;
+     int error;
      g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
-     if (xrtm_fd_set_g_p_nn(d, g_l2)) {
+     error = g_l2 == NULL || xrtm_fd_set_g_p_nn(d, g_l2);
+     free_array2_d(g_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
           return -1;
      }
-     free_array2_d(g_l2);
      return 0;
 }
 
@@ -40,12 +44,14 @@ int xrtm_fd_set_g_p_nn_bindx_f90(xrtm_fd_data *d, double *g_l)
 int xrtm_fd_set_coef_p_11_bindx_f90(xrtm_fd_data *d, int i_layer, int i_deriv, double *coef_l)
 {
      double **coef_l2;
+     int error;
      coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, d->d->n_coef_layer && i_layer >= 0 && i_layer < d->d->n_layers ? d->d->n_coef_layer[i_layer] : 0);
-     if (xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l2);
+     free_array2_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_11()\n");
           return -1;
      }
-     free_array2_d(coef_l2);
      return 0;
 }
 
@@ -53,12 +59,14 @@ int xrtm_fd_set_coef_p_11_bindx_f90(xrtm_fd_data *d, int i_layer, int i_deriv, d
 int xrtm_fd_set_coef_p_n1_bindx_f90(xrtm_fd_data *d, int i_deriv, double *coef_l)
 {
      double ***coef_l2;
+     int error;
      coef_l2 = array_from_mem3_d(coef_l, d->d->n_layers, d->d->n_elem, d->d->n_coef);
-     if (xrtm_fd_set_coef_p_n1(d, i_deriv, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_fd_set_coef_p_n1(d, i_deriv, coef_l2);
+     free_array3_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_n1()\n");
           return -1;
      }
-     free_array3_d(coef_l2);
      return 0;
 }
 
@@ -66,12 +74,14 @@ int xrtm_fd_set_coef_p_n1_bindx_f90(xrtm_fd_data *d, int i_deriv, double *coef_l
 int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l)
 {
      double ***coef_l2;
+     int error;
      coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer && i_layer >= 0 && i_layer < d->d->n_layers ? d->d->n_coef_layer[i_layer] : 0);
-     if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2);
+     free_array3_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
      }
-     free_array3_d(coef_l2);
      return 0;
 }
 
@@ -79,12 +89,14 @@ int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l
 int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
 {
      double ****coef_l2;
+     int error;
      coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
-     if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_fd_set_coef_p_nn(d, coef_l2);
+     free_array4_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
           return -1;
      }
-     free_array4_d(coef_l2);
      return 0;
 }
 
@@ -92,12 +104,14 @@ int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
 int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
 {
      double **omega_l2;
+     int error;
      omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
-     if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
+     error = omega_l2 == NULL || xrtm_fd_set_omega_p_nn(d, omega_l2);
+     free_array2_d(omega_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
           return -1;
      }
-     free_array2_d(omega_l2);
      return 0;
 }
 
@@ -105,12 +119,14 @@ int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
 int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 {
      double **ltau_l2;
+     int error;
      ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
-     if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
+     error = ltau_l2 == NULL || xrtm_fd_set_ltau_p_nn(d, ltau_l2);
+     free_array2_d(ltau_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
           return -1;
      }
-     free_array2_d(ltau_l2);
      return 0;
 }
 
@@ -118,12 +134,14 @@ int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 int xrtm_fd_set_kernel_params_p_nn_bindx_f90(xrtm_fd_data *d, int i_kernel, double *params_l)
 {
      double **params_l2;
+     int error;
      params_l2 = array_from_mem2_d(params_l, d->n_derivs, i_kernel >= 0 && i_kernel < d->d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]) : 0);
-     if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
+     error = params_l2 == NULL || xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2);
+     free_array2_d(params_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
      }
-     free_array2_d(params_l2);
      return 0;
 }
 
@@ -140,6 +158,7 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
+     int error;
      out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0);
      I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
@@ -150,10 +169,7 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_out_levels, d->n_derivs);
      flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_out_levels, d->n_derivs);
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_out_levels, d->n_derivs);
-     if (xrtm_fd_solution(d, solver, solutions, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
-          fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
-          return -1;
-     }
+     error = out_phis2 == NULL || I_p2 == NULL || I_m2 == NULL || K_p2 == NULL || K_m2 == NULL || mean_p_l2 == NULL || mean_m_l2 == NULL || flux_p_l2 == NULL || flux_m_l2 == NULL || flux_div_l2 == NULL || xrtm_fd_solution(d, solver, solutions, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2);
      free_array2_d(out_phis2);
      free_array4_d(I_p2);
      free_array4_d(I_m2);
@@ -164,6 +180,10 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      free_array2_d(flux_p_l2);
      free_array2_d(flux_m_l2);
      free_array2_d(flux_div_l2);
+     if (error) {
+          fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
+          return -1;
+     }
      return 0;
 }
 
@@ -175,20 +195,22 @@ int xrtm_fd_radiance_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, en
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
+     int error;
      out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0);
      I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
      K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->d->n_stokes);
-     if (xrtm_fd_radiance(d, solver, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
-          fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
-          return -1;
-     }
+     error = out_phis2 == NULL || I_p2 == NULL || I_m2 == NULL || K_p2 == NULL || K_m2 == NULL || xrtm_fd_radiance(d, solver, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2);
      free_array2_d(out_phis2);
      free_array4_d(I_p2);
      free_array4_d(I_m2);
      free_array5_d(K_p2);
      free_array5_d(K_m2);
+     if (error) {
+          fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
+          return -1;
+     }
      return 0;
 }
 
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 9bfe9fb..5621a00 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -526,12 +526,14 @@ int xrtm_set_levels_b_l_1_bindx_f77_(xrtm_data *d, int *i_deriv_, double *levels
 int xrtm_set_levels_b_l_n_bindx_f77_(xrtm_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
+     int error;
      levels_b_l2 = array_from_mem2_d(levels_b_l, d->n_layers + 1, d->n_derivs);
-     if (xrtm_set_levels_b_l_n(d, levels_b_l2)) {
+     error = levels_b_l2 == NULL || xrtm_set_levels_b_l_n(d, levels_b_l2);
+     free_array2_d(levels_b_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_levels_b_l_n()\n");
           return -1;
      }
-     free_array2_d(levels_b_l2);
      return 0;
 }
 
@@ -673,12 +675,14 @@ int xrtm_set_g_l_1n_bindx_f77_(xrtm_data *d, int *i_layer_, double *g_l)
 int xrtm_set_g_l_nn_bindx_f77_(xrtm_data *d, double *g_l)
 {
      double **g_l2;
+     int error;
      g_l2 = array_from_mem2_d(g_l, d->n_layers, d->n_derivs);
-     if (xrtm_set_g_l_nn(d, g_l2)) {
+     error = g_l2 == NULL || xrtm_set_g_l_nn(d, g_l2);
+     free_array2_d(g_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_g_l_nn()\n");
           return -1;
      }
-     free_array2_d(g_l2);
      return 0;
 }
 
@@ -698,14 +702,16 @@ int xrtm_set_coef_1_bindx_f77_(xrtm_data *d, int *i_layer_, int *n_coef_layer_,
      int i_layer;
      int n_coef_layer;
      double **coef2;
+     int error;
      i_layer = *i_layer_;
      n_coef_layer = *n_coef_layer_;
      coef2 = array_from_mem2_d(coef, d->n_elem, n_coef_layer >= 0 ? n_coef_layer : d->n_coef);
-     if (xrtm_set_coef_1(d, i_layer, n_coef_layer, coef2)) {
+     error = coef2 == NULL || xrtm_set_coef_1(d, i_layer, n_coef_layer, coef2);
+     free_array2_d(coef2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
           return -1;
      }
-     free_array2_d(coef2);
      return 0;
 }
 
@@ -713,12 +719,14 @@ int xrtm_set_coef_1_bindx_f77_(xrtm_data *d, int *i_layer_, int *n_coef_layer_,
 int xrtm_set_coef_n_bindx_f77_(xrtm_data *d, int *n_coef_layer, double *coef)
 {
      double ***coef2;
+     int error;
      coef2 = array_from_mem3_d(coef, d->n_layers, d->n_elem, d->n_coef);
-     if (xrtm_set_coef_n(d, n_coef_layer, coef2)) {
+     error = coef2 == NULL || xrtm_set_coef_n(d, n_coef_layer, coef2);
+     free_array3_d(coef2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_coef_n()\n");
           return -1;
      }
-     free_array3_d(coef2);
      return 0;
 }
 
@@ -748,14 +756,16 @@ int xrtm_set_coef_l_11_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, do
      int i_layer;
      int i_deriv;
      double **coef_l2;
+     int error;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
      coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer && i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0);
-     if (xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2);
+     free_array2_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
           return -1;
      }
-     free_array2_d(coef_l2);
      return 0;
 }
 
@@ -764,13 +774,15 @@ int xrtm_set_coef_l_n1_bindx_f77_(xrtm_data *d, int *i_deriv_, double *coef_l)
 {
      int i_deriv;
      double ***coef_l2;
+     int error;
      i_deriv = *i_deriv_;
      coef_l2 = array_from_mem3_d(coef_l, d->n_layers, d->n_elem, d->n_coef);
-     if (xrtm_set_coef_l_n1(d, i_deriv, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_set_coef_l_n1(d, i_deriv, coef_l2);
+     free_array3_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_n1()\n");
           return -1;
      }
-     free_array3_d(coef_l2);
      return 0;
 }
 
@@ -779,13 +791,15 @@ int xrtm_set_coef_l_1n_bindx_f77_(xrtm_data *d, int *i_layer_, double *coef_l)
 {
      int i_layer;
      double ***coef_l2;
+     int error;
      i_layer = *i_layer_;
      coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer && i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0);
-     if (xrtm_set_coef_l_1n(d, i_layer, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_set_coef_l_1n(d, i_layer, coef_l2);
+     free_array3_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
           return -1;
      }
-     free_array3_d(coef_l2);
      return 0;
 }
 
@@ -793,12 +807,14 @@ int xrtm_set_coef_l_1n_bindx_f77_(xrtm_data *d, int *i_layer_, double *coef_l)
 int xrtm_set_coef_l_nn_bindx_f77_(xrtm_data *d, double *coef_l)
 {
      double ****coef_l2;
+     int error;
      coef_l2 = array_from_mem4_d(coef_l, d->n_layers, d->n_derivs, d->n_elem, d->n_coef);
-     if (xrtm_set_coef_l_nn(d, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_set_coef_l_nn(d, coef_l2);
+     free_array4_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_nn()\n");
           return -1;
      }
-     free_array4_d(coef_l2);
      return 0;
 }
 
@@ -892,12 +908,14 @@ int xrtm_set_omega_l_1n_bindx_f77_(xrtm_data *d, int *i_layer_, double *omega_l)
 int xrtm_set_omega_l_nn_bindx_f77_(xrtm_data *d, double *omega_l)
 {
      double **omega_l2;
+     int error;
      omega_l2 = array_from_mem2_d(omega_l, d->n_layers, d->n_derivs);
-     if (xrtm_set_omega_l_nn(d, omega_l2)) {
+     error = omega_l2 == NULL || xrtm_set_omega_l_nn(d, omega_l2);
+     free_array2_d(omega_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_omega_l_nn()\n");
           return -1;
      }
-     free_array2_d(omega_l2);
      return 0;
 }
 
@@ -987,12 +1005,14 @@ int xrtm_set_ltau_l_1n_bindx_f77_(xrtm_data *d, int *i_layer_, double *ltau_l)
 int xrtm_set_ltau_l_nn_bindx_f77_(xrtm_data *d, double *ltau_l)
 {
      double **ltau_l2;
+     int error;
      ltau_l2 = array_from_mem2_d(ltau_l, d->n_layers, d->n_derivs);
-     if (xrtm_set_ltau_l_nn(d, ltau_l2)) {
+     error = ltau_l2 == NULL || xrtm_set_ltau_l_nn(d, ltau_l2);
+     free_array2_d(ltau_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_ltau_l_nn()\n");
           return -1;
      }
-     free_array2_d(ltau_l2);
      return 0;
 }
 
@@ -1155,13 +1175,15 @@ int xrtm_set_kernel_params_l_nn_bindx_f77_(xrtm_data *d, int *i_kernel_, double
 {
      int i_kernel;
      double **params_l2;
+     int error;
      i_kernel = *i_kernel_;
      params_l2 = array_from_mem2_d(params_l, d->n_derivs, i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0);
-     if (xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2)) {
+     error = params_l2 == NULL || xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2);
+     free_array2_d(params_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
           return -1;
      }
-     free_array2_d(params_l2);
      return 0;
 }
 
@@ -1243,6 +1265,7 @@ int xrtm_solution_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
+     int error;
      solver = *solver_;
      solutions = *solutions_;
      n_out_phis = *n_out_phis_;
@@ -1256,10 +1279,7 @@ int xrtm_solution_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      flux_p_l2 = array_from_mem2_d(flux_p_l, d->n_out_levels, d->n_derivs);
      flux_m_l2 = array_from_mem2_d(flux_m_l, d->n_out_levels, d->n_derivs);
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->n_out_levels, d->n_derivs);
-     if (xrtm_solution(d, (enum xrtm_solver_mask) solver, solutions, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
-          fprintf(stderr, "ERROR: xrtm_solution()\n");
-          return -1;
-     }
+     error = out_phis2 == NULL || I_p2 == NULL || I_m2 == NULL || K_p2 == NULL || K_m2 == NULL || mean_p_l2 == NULL || mean_m_l2 == NULL || flux_p_l2 == NULL || flux_m_l2 == NULL || flux_div_l2 == NULL || xrtm_solution(d, (enum xrtm_solver_mask) solver, solutions, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2);
      free_array2_d(out_phis2);
      free_array4_d(I_p2);
      free_array4_d(I_m2);
@@ -1270,6 +1290,10 @@ int xrtm_solution_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      free_array2_d(flux_p_l2);
      free_array2_d(flux_m_l2);
      free_array2_d(flux_div_l2);
+     if (error) {
+          fprintf(stderr, "ERROR: xrtm_solution()\n");
+          return -1;
+     }
      return 0;
 }
 
@@ -1283,6 +1307,7 @@ int xrtm_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
+     int error;
      solver = *solver_;
      n_out_phis = *n_out_phis_;
      out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0);
@@ -1290,15 +1315,16 @@ int xrtm_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
      K_m2 = array_from_mem5_d(K_m, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
-     if (xrtm_radiance(d, (enum xrtm_solver_mask) solver, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
-          fprintf(stderr, "ERROR: xrtm_radiance()\n");
-          return -1;
-     }
+     error = out_phis2 == NULL || I_p2 == NULL || I_m2 == NULL || K_p2 == NULL || K_m2 == NULL || xrtm_radiance(d, (enum xrtm_solver_mask) solver, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2);
      free_array2_d(out_phis2);
      free_array4_d(I_p2);
      free_array4_d(I_m2);
      free_array5_d(K_p2);
      free_array5_d(K_m2);
+     if (error) {
+          fprintf(stderr, "ERROR: xrtm_radiance()\n");
+          return -1;
+     }
      return 0;
 }
 
@@ -1308,15 +1334,17 @@ int xrtm_mean_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_,
      enum xrtm_solver_mask solver;
      double **mean_p_l2;
      double **mean_m_l2;
+     int error;
      solver = *solver_;
      mean_p_l2 = array_from_mem2_d(mean_p_l, d->n_out_levels, d->n_derivs);
      mean_m_l2 = array_from_mem2_d(mean_m_l, d->n_out_levels, d->n_derivs);
-     if (xrtm_mean_radiance(d, (enum xrtm_solver_mask) solver, mean_p, mean_m, mean_p_l2, mean_m_l2)) {
+     error = mean_p_l2 == NULL || mean_m_l2 == NULL || xrtm_mean_radiance(d, (enum xrtm_solver_mask) solver, mean_p, mean_m, mean_p_l2, mean_m_l2);
+     free_array2_d(mean_p_l2);
+     free_array2_d(mean_m_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_mean_radiance()\n");
           return -1;
      }
-     free_array2_d(mean_p_l2);
-     free_array2_d(mean_m_l2);
      return 0;
 }
 
@@ -1326,15 +1354,17 @@ int xrtm_flux_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, double *f
      enum xrtm_solver_mask solver;
      double **flux_p_l2;
      double **flux_m_l2;
+     int error;
      solver = *solver_;
      flux_p_l2 = array_from_mem2_d(flux_p_l, d->n_out_levels, d->n_derivs);
      flux_m_l2 = array_from_mem2_d(flux_m_l, d->n_out_levels, d->n_derivs);
-     if (xrtm_flux(d, (enum xrtm_solver_mask) solver, flux_p, flux_m, flux_p_l2, flux_m_l2)) {
+     error = flux_p_l2 == NULL || flux_m_l2 == NULL || xrtm_flux(d, (enum xrtm_solver_mask) solver, flux_p, flux_m, flux_p_l2, flux_m_l2);
+     free_array2_d(flux_p_l2);
+     free_array2_d(flux_m_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_flux()\n");
           return -1;
      }
-     free_array2_d(flux_p_l2);
-     free_array2_d(flux_m_l2);
      return 0;
 }
 
@@ -1343,13 +1373,15 @@ int xrtm_flux_divergence_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_
 {
      enum xrtm_solver_mask solver;
      double **flux_div_l2;
+     int error;
      solver = *solver_;
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->n_out_levels, d->n_derivs);
-     if (xrtm_flux_divergence(d, (enum xrtm_solver_mask) solver, flux_div, flux_div_l2)) {
+     error = flux_div_l2 == NULL || xrtm_flux_divergence(d, (enum xrtm_solver_mask) solver, flux_div, flux_div_l2);
+     free_array2_d(flux_div_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_flux_divergence()\n");
           return -1;
      }
-     free_array2_d(flux_div_l2);
      return 0;
 }
 
diff --git a/interfaces/xrtm_int_f90_util.c b/interfaces/xrtm_int_f90_util.c
index 0606ebd..8b9bc32 100644
--- a/interfaces/xrtm_int_f90_util.c
+++ b/interfaces/xrtm_int_f90_util.c
@@ -14,12 +14,14 @@ extern "C" {
 int xrtm_set_levels_b_l_n_bindx_f90(xrtm_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
+     int error;
      levels_b_l2 = array_from_mem2_d(levels_b_l, d->n_layers + 1, d->n_derivs);
-     if (xrtm_set_levels_b_l_n(d, levels_b_l2)) {
+     error = levels_b_l2 == NULL || xrtm_set_levels_b_l_n(d, levels_b_l2);
+     free_array2_d(levels_b_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_levels_b_l_n()\n");
           return -1;
      }
-     free_array2_d(levels_b_l2);
      return 0;
 }
 
@@ -27,12 +29,14 @@ int xrtm_set_levels_b_l_n_bindx_f90(xrtm_data *d, double *levels_b_l)
 int xrtm_set_g_l_nn_bindx_f90(xrtm_data *d, double *g_l)
 {
      double **g_l2;
+     int error;
      g_l2 = array_from_mem2_d(g_l, d->n_layers, d->n_derivs);
-     if (xrtm_set_g_l_nn(d, g_l2)) {
+     error = g_l2 == NULL || xrtm_set_g_l_nn(d, g_l2);
+     free_array2_d(g_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_g_l_nn()\n");
           return -1;
      }
-     free_array2_d(g_l2);
      return 0;
 }
 
@@ -40,12 +44,14 @@ int xrtm_set_g_l_nn_bindx_f90(xrtm_data *d, double *g_l)
 int xrtm_set_coef_1_bindx_f90(xrtm_data *d, int i_layer, int n_coef_layer, double *coef)
 {
      double **coef2;
+     int error;
      coef2 = array_from_mem2_d(coef, d->n_elem, n_coef_layer >= 0 ? n_coef_layer : d->n_coef);
-     if (xrtm_set_coef_1(d, i_layer, n_coef_layer, coef2)) {
+     error = coef2 == NULL || xrtm_set_coef_1(d, i_layer, n_coef_layer, coef2);
+     free_array2_d(coef2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
           return -1;
      }
-     free_array2_d(coef2);
      return 0;
 }
 
@@ -53,12 +59,14 @@ int xrtm_set_coef_1_bindx_f90(xrtm_data *d, int i_layer, int n_coef_layer, doubl
 int xrtm_set_coef_n_bindx_f90(xrtm_data *d, int *n_coef_layer, double *coef)
 {
      double ***coef2;
+     int error;
      coef2 = array_from_mem3_d(coef, d->n_layers, d->n_elem, d->n_coef);
-     if (xrtm_set_coef_n(d, n_coef_layer, coef2)) {
+     error = coef2 == NULL || xrtm_set_coef_n(d, n_coef_layer, coef2);
+     free_array3_d(coef2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_coef_n()\n");
           return -1;
      }
-     free_array3_d(coef2);
      return 0;
 }
 
@@ -66,12 +74,14 @@ int xrtm_set_coef_n_bindx_f90(xrtm_data *d, int *n_coef_layer, double *coef)
 int xrtm_set_coef_l_11_bindx_f90(xrtm_data *d, int i_layer, int i_deriv, double *coef_l)
 {
      double **coef_l2;
+     int error;
      coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer && i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0);
-     if (xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2);
+     free_array2_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
           return -1;
      }
-     free_array2_d(coef_l2);
      return 0;
 }
 
@@ -79,12 +89,14 @@ int xrtm_set_coef_l_11_bindx_f90(xrtm_data *d, int i_layer, int i_deriv, double
 int xrtm_set_coef_l_n1_bindx_f90(xrtm_data *d, int i_deriv, double *coef_l)
 {
      double ***coef_l2;
+     int error;
      coef_l2 = array_from_mem3_d(coef_l, d->n_layers, d->n_elem, d->n_coef);
-     if (xrtm_set_coef_l_n1(d, i_deriv, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_set_coef_l_n1(d, i_deriv, coef_l2);
+     free_array3_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_n1()\n");
           return -1;
      }
-     free_array3_d(coef_l2);
      return 0;
 }
 
@@ -92,12 +104,14 @@ int xrtm_set_coef_l_n1_bindx_f90(xrtm_data *d, int i_deriv, double *coef_l)
 int xrtm_set_coef_l_1n_bindx_f90(xrtm_data *d, int i_layer, double *coef_l)
 {
      double ***coef_l2;
+     int error;
      coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer && i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0);
-     if (xrtm_set_coef_l_1n(d, i_layer, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_set_coef_l_1n(d, i_layer, coef_l2);
+     free_array3_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
           return -1;
      }
-     free_array3_d(coef_l2);
      return 0;
 }
 
@@ -105,12 +119,14 @@ int xrtm_set_coef_l_1n_bindx_f90(xrtm_data *d, int i_layer, double *coef_l)
 int xrtm_set_coef_l_nn_bindx_f90(xrtm_data *d, double *coef_l)
 {
      double ****coef_l2;
+     int error;
      coef_l2 = array_from_mem4_d(coef_l, d->n_layers, d->n_derivs, d->n_elem, d->n_coef);
-     if (xrtm_set_coef_l_nn(d, coef_l2)) {
+     error = coef_l2 == NULL || xrtm_set_coef_l_nn(d, coef_l2);
+     free_array4_d(coef_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_nn()\n");
           return -1;
      }
-     free_array4_d(coef_l2);
      return 0;
 }
 
@@ -118,12 +134,14 @@ int xrtm_set_coef_l_nn_bindx_f90(xrtm_data *d, double *coef_l)
 int xrtm_set_omega_l_nn_bindx_f90(xrtm_data *d, double *omega_l)
 {
      double **omega_l2;
+     int error;
      omega_l2 = array_from_mem2_d(omega_l, d->n_layers, d->n_derivs);
-     if (xrtm_set_omega_l_nn(d, omega_l2)) {
+     error = omega_l2 == NULL || xrtm_set_omega_l_nn(d, omega_l2);
+     free_array2_d(omega_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_omega_l_nn()\n");
           return -1;
      }
-     free_array2_d(omega_l2);
      return 0;
 }
 
@@ -131,12 +149,14 @@ int xrtm_set_omega_l_nn_bindx_f90(xrtm_data *d, double *omega_l)
 int xrtm_set_ltau_l_nn_bindx_f90(xrtm_data *d, double *ltau_l)
 {
      double **ltau_l2;
+     int error;
      ltau_l2 = array_from_mem2_d(ltau_l, d->n_layers, d->n_derivs);
-     if (xrtm_set_ltau_l_nn(d, ltau_l2)) {
+     error = ltau_l2 == NULL || xrtm_set_ltau_l_nn(d, ltau_l2);
+     free_array2_d(ltau_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_ltau_l_nn()\n");
           return -1;
      }
-     free_array2_d(ltau_l2);
      return 0;
 }
 
@@ -144,12 +164,14 @@ int xrtm_set_ltau_l_nn_bindx_f90(xrtm_data *d, double *ltau_l)
 int xrtm_set_kernel_params_l_nn_bindx_f90(xrtm_data *d, int i_kernel, double *params_l)
 {
      double **params_l2;
+     int error;
      params_l2 = array_from_mem2_d(params_l, d->n_derivs, i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0);
-     if (xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2)) {
+     error = params_l2 == NULL || xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2);
+     free_array2_d(params_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
           return -1;
      }
-     free_array2_d(params_l2);
      return 0;
 }
 
@@ -166,6 +188,7 @@ int xrtm_solution_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int solu
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
+     int error;
      out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
@@ -176,10 +199,7 @@ int xrtm_solution_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int solu
      flux_p_l2 = array_from_mem2_d(flux_p_l, d->n_out_levels, d->n_derivs);
      flux_m_l2 = array_from_mem2_d(flux_m_l, d->n_out_levels, d->n_derivs);
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->n_out_levels, d->n_derivs);
-     if (xrtm_solution(d, solver, solutions, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
-          fprintf(stderr, "ERROR: xrtm_solution()\n");
-          return -1;
-     }
+     error = out_phis2 == NULL || I_p2 == NULL || I_m2 == NULL || K_p2 == NULL || K_m2 == NULL || mean_p_l2 == NULL || mean_m_l2 == NULL || flux_p_l2 == NULL || flux_m_l2 == NULL || flux_div_l2 == NULL || xrtm_solution(d, solver, solutions, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2);
      free_array2_d(out_phis2);
      free_array4_d(I_p2);
      free_array4_d(I_m2);
@@ -190,6 +210,10 @@ int xrtm_solution_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int solu
      free_array2_d(flux_p_l2);
      free_array2_d(flux_m_l2);
      free_array2_d(flux_div_l2);
+     if (error) {
+          fprintf(stderr, "ERROR: xrtm_solution()\n");
+          return -1;
+     }
      return 0;
 }
 
@@ -201,20 +225,22 @@ int xrtm_radiance_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int n_ou
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
+     int error;
      out_phis2 = array_from_mem2_d(out_phis, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0);
      I_p2 = array_from_mem4_d(I_p, d->n_out_levels, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
      I_m2 = array_from_mem4_d(I_m, d->n_out_levels, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
      K_p2 = array_from_mem5_d(K_p, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
      K_m2 = array_from_mem5_d(K_m, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis > 0 ? n_out_phis : 0, d->n_stokes);
-     if (xrtm_radiance(d, solver, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
-          fprintf(stderr, "ERROR: xrtm_radiance()\n");
-          return -1;
-     }
+     error = out_phis2 == NULL || I_p2 == NULL || I_m2 == NULL || K_p2 == NULL || K_m2 == NULL || xrtm_radiance(d, solver, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2);
      free_array2_d(out_phis2);
      free_array4_d(I_p2);
      free_array4_d(I_m2);
      free_array5_d(K_p2);
      free_array5_d(K_m2);
+     if (error) {
+          fprintf(stderr, "ERROR: xrtm_radiance()\n");
+          return -1;
+     }
      return 0;
 }
 
@@ -223,14 +249,16 @@ int xrtm_mean_radiance_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, dou
 {
      double **mean_p_l2;
      double **mean_m_l2;
+     int error;
      mean_p_l2 = array_from_mem2_d(mean_p_l, d->n_out_levels, d->n_derivs);
      mean_m_l2 = array_from_mem2_d(mean_m_l, d->n_out_levels, d->n_derivs);
-     if (xrtm_mean_radiance(d, solver, mean_p, mean_m, mean_p_l2, mean_m_l2)) {
+     error = mean_p_l2 == NULL || mean_m_l2 == NULL || xrtm_mean_radiance(d, solver, mean_p, mean_m, mean_p_l2, mean_m_l2);
+     free_array2_d(mean_p_l2);
+     free_array2_d(mean_m_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_mean_radiance()\n");
           return -1;
      }
-     free_array2_d(mean_p_l2);
-     free_array2_d(mean_m_l2);
      return 0;
 }
 
@@ -239,14 +267,16 @@ int xrtm_flux_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, double *flux
 {
      double **flux_p_l2;
      double **flux_m_l2;
+     int error;
      flux_p_l2 = array_from_mem2_d(flux_p_l, d->n_out_levels, d->n_derivs);
      flux_m_l2 = array_from_mem2_d(flux_m_l, d->n_out_levels, d->n_derivs);
-     if (xrtm_flux(d, solver, flux_p, flux_m, flux_p_l2, flux_m_l2)) {
+     error = flux_p_l2 == NULL || flux_m_l2 == NULL || xrtm_flux(d, solver, flux_p, flux_m, flux_p_l2, flux_m_l2);
+     free_array2_d(flux_p_l2);
+     free_array2_d(flux_m_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_flux()\n");
           return -1;
      }
-     free_array2_d(flux_p_l2);
-     free_array2_d(flux_m_l2);
      return 0;
 }
 
@@ -254,12 +284,14 @@ int xrtm_flux_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, double *flux
 int xrtm_flux_divergence_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, double *flux_div, double *flux_div_l)
 {
      double **flux_div_l2;
+     int error;
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->n_out_levels, d->n_derivs);
-     if (xrtm_flux_divergence(d, solver, flux_div, flux_div_l2)) {
+     error = flux_div_l2 == NULL || xrtm_flux_divergence(d, solver, flux_div, flux_div_l2);
+     free_array2_d(flux_div_l2);
+     if (error) {
           fprintf(stderr, "ERROR: xrtm_flux_divergence()\n");
           return -1;
      }
-     free_array2_d(flux_div_l2);
      return 0;
 }
 
-- 
2.43.0


From f8db13e8af709cabc96312acb6152578a937ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:56 +0000
Subject: [PATCH 094/115] fix: pointer tables with a dimension of zero were
 written past their end, or were the caller's memory

---
 misc/gutil_alloc.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/misc/gutil_alloc.c b/misc/gutil_alloc.c
index 742e28a..f0d43d8 100644
--- a/misc/gutil_alloc.c
+++ b/misc/gutil_alloc.c
@@ -40,7 +40,7 @@ size_t array_mem_length(int rank, size_t *dimen, size_t size) {
  ******************************************************************************/
 static void **ptr_array_init(void **a, int rank, size_t *dimen, int length) {
 
-     if (rank > 0)
+     if (rank > 0 && length > 0)
           a[0] = ptr_array_init(a + length, rank - 1, dimen + 1, length * dimen[0]);
 
      return a;
@@ -97,6 +97,9 @@ static void *ptr_array_realloc(void **a1, int rank, size_t *dimen, int size, int
  ******************************************************************************/
 static void *from_mem_ptr_array(void **a, void *a2, int rank, size_t *dimen, int length) {
 
+     if (length == 0)
+          return (void *) a;
+
      if (rank == 1)
           a[0] = a2;
      else
@@ -115,7 +118,7 @@ static void *ptr_array_from_mem(void *a2, int rank, size_t *dimen, int depth, in
 
      length = array_mem_length(rank, dimen, 0);
 
-     if (length == 0)
+     if (rank == 1)
           return a2;
 
      if (! flag) {
@@ -124,7 +127,7 @@ static void *ptr_array_from_mem(void *a2, int rank, size_t *dimen, int depth, in
           a2 = (uchar *) a2 + length;
      }
      else {
-          a = (void *) malloc(length);
+          a = (void *) malloc(length ? length : 1);
           if (a == NULL) {
                fprintf(stderr, "ERROR: memory allocation failed: size = %ld bytes\n", length);
                return NULL;
-- 
2.43.0


From 90ccf268966fab268a40eb24d5063aa634de1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:55 +0000
Subject: [PATCH 095/115] fix: finite-difference functions returned -1, which
 C++ does not take for an error, in place of the error codes

---
 src/xrtm_fd_interface.c | 164 ++++++++++++++++++++--------------------
 1 file changed, 82 insertions(+), 82 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 15ffefc..e8f6d52 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -57,13 +57,13 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
       *-----------------------------------------------------------------------*/
      if (fd->d->options & XRTM_OPTION_CALC_DERIVS) {
           fprintf(stderr, "ERROR: can't use xrtm option \"calc_derivs\" with xrtm_fd\n");
-          return -1;
+          return XRTM_INT_ERROR;
 
      }
 
      if (fd->n_derivs < 1) {
           fprintf(stderr, "ERROR: invalid value for n_derivs: %d, must be > zero\n", fd->n_derivs);
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
 
@@ -108,7 +108,7 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
      }
      else {
           xrtm_fd_destroy(fd);
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
 
@@ -240,7 +240,7 @@ int xrtm_fd_get_delta(xrtm_fd_data *d, double *delta) {
  ******************************************************************************/
 int xrtm_fd_set_F_iso_top_p_1(xrtm_fd_data *d, int i_deriv, double F_iso_top_p) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      d->F_iso_top_p[i_deriv] = F_iso_top_p;
 /*
@@ -267,7 +267,7 @@ int xrtm_fd_set_F_iso_top_p_n(xrtm_fd_data *d, double *F_iso_top_p) {
 
 double xrtm_fd_get_F_iso_top_p(xrtm_fd_data *d, int i_deriv) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->F_iso_top_p[i_deriv];
 }
@@ -279,7 +279,7 @@ double xrtm_fd_get_F_iso_top_p(xrtm_fd_data *d, int i_deriv) {
  ******************************************************************************/
 int xrtm_fd_set_F_iso_bot_p_1(xrtm_fd_data *d, int i_deriv, double F_iso_bot_p) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      d->F_iso_bot_p[i_deriv] = F_iso_bot_p;
 /*
@@ -306,7 +306,7 @@ int xrtm_fd_set_F_iso_bot_p_n(xrtm_fd_data *d, double *F_iso_bot_p) {
 
 double xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->F_iso_bot_p[i_deriv];
 }
@@ -327,7 +327,7 @@ int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 /*
      CHECK_INIT_FOR_DERIVS();
 */
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      for (i = 0; i < d->d->n_layers + 1; ++i)
           d->levels_b_p[i][i_deriv] = levels_b_p[i];
@@ -369,10 +369,10 @@ double xrtm_fd_get_levels_b_p(xrtm_fd_data *d, int i_deriv, double *levels_b_p)
 
      if (! (d->d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      for (i = 0; i < d->d->n_layers + 1; ++i)
           levels_b_p[i] = d->levels_b_p[i][i_deriv];
@@ -392,7 +392,7 @@ int xrtm_fd_set_surface_b_p_1(xrtm_fd_data *d, int i_deriv, double surface_b_p)
           return XRTM_INT_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      d->surface_b_p[i_deriv] = surface_b_p;
 /*
@@ -429,7 +429,7 @@ double xrtm_fd_get_surface_b_p(xrtm_fd_data *d, int i_deriv) {
           return XRTM_DBL_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->surface_b_p[i_deriv];
 
@@ -448,11 +448,11 @@ static int xrtm_fd_set_g_x_p(xrtm_fd_data *d, void *g_p, int i_layer,
 */
      if (! (d->d->solvers & XRTM_SOLVERS_USE_G)) {
           fprintf(stderr, "ERROR: no two-stream solvers have been specified\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", -1);
-     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      if (xrtm_set_layer_x_l(d->d, d->g_p, g_p,
                             i_layer, n_layers, i_deriv, n_derivs, type)) {
@@ -473,7 +473,7 @@ int xrtm_fd_set_g_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double g_p) {
 
      if (xrtm_fd_set_g_x_p(d, &g_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -485,7 +485,7 @@ int xrtm_fd_set_g_p_n1(xrtm_fd_data *d, int i_deriv, double *g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -497,7 +497,7 @@ int xrtm_fd_set_g_p_1n(xrtm_fd_data *d, int i_layer, double *g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -509,7 +509,7 @@ int xrtm_fd_set_g_p_nn(xrtm_fd_data *d, double **g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -551,11 +551,11 @@ static int xrtm_fd_set_coef_x_p(xrtm_fd_data *d, void *coef_p, int i_layer, int
 
      if (! (d->d->solvers & XRTM_SOLVERS_USE_COEF)) {
           fprintf(stderr, "ERROR: no multi-stream solvers have been specified\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", -1);
-     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
           for (j = i_deriv, jj = 0; j < n_derivs; ++j, ++jj) {
@@ -606,7 +606,7 @@ int xrtm_fd_set_coef_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double **co
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -618,7 +618,7 @@ int xrtm_fd_set_coef_p_n1(xrtm_fd_data *d, int i_deriv, double ***coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -630,7 +630,7 @@ int xrtm_fd_set_coef_p_1n(xrtm_fd_data *d, int i_layer, double ***coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -642,7 +642,7 @@ int xrtm_fd_set_coef_p_nn(xrtm_fd_data *d, double ****coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -675,8 +675,8 @@ static int xrtm_fd_set_omega_x_p(xrtm_fd_data *d, void *omega_p, int i_layer,
 /*
      int deps;
 */
-     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", -1);
-     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      if (xrtm_set_layer_x_l(d->d, d->omega_p, omega_p,
                             i_layer, n_layers, i_deriv, n_derivs, type)) {
@@ -700,7 +700,7 @@ int xrtm_fd_set_omega_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double ome
 
      if (xrtm_fd_set_omega_x_p(d, &omega_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -712,7 +712,7 @@ int xrtm_fd_set_omega_p_n1(xrtm_fd_data *d, int i_deriv, double *omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -724,7 +724,7 @@ int xrtm_fd_set_omega_p_1n(xrtm_fd_data *d, int i_layer, double *omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -736,7 +736,7 @@ int xrtm_fd_set_omega_p_nn(xrtm_fd_data *d, double **omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -760,8 +760,8 @@ double xrtm_fd_get_omega_p(xrtm_fd_data *d, int i_layer, int i_deriv) {
 static int xrtm_fd_set_ltau_x_p(xrtm_fd_data *d, void *ltau_p, int i_layer,
                                 int n_layers, int i_deriv, int n_derivs, int type) {
 
-     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", -1);
-     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv,    d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      if (xrtm_set_layer_x_l(d->d, d->ltau_p, ltau_p,
                             i_layer, n_layers, i_deriv, n_derivs, type)) {
@@ -780,7 +780,7 @@ int xrtm_fd_set_ltau_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double ltau
 
      if (xrtm_fd_set_ltau_x_p(d, &ltau_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -792,7 +792,7 @@ int xrtm_fd_set_ltau_p_n1(xrtm_fd_data *d, int i_deriv, double *ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -804,7 +804,7 @@ int xrtm_fd_set_ltau_p_1n(xrtm_fd_data *d, int i_layer, double *ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -816,7 +816,7 @@ int xrtm_fd_set_ltau_p_nn(xrtm_fd_data *d, double **ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -839,10 +839,10 @@ double xrtm_fd_get_ltau_p(xrtm_fd_data *d, int i_layer, int i_deriv) {
  ******************************************************************************/
 int xrtm_fd_set_kernel_ampfac_p_1(xrtm_fd_data *d, int i_kernel, int i_deriv, double ampfac_p) {
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
-     CHECK_INDEX_RANGE(i_deriv,     d->n_derivs,  "i_deriv",  "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv,     d->n_derivs,  "i_deriv",  "n_derivs", XRTM_INT_ERROR);
 
      d->kernel_ampfac_p[i_kernel][i_deriv] = ampfac_p;
 /*
@@ -857,9 +857,9 @@ int xrtm_fd_set_kernel_ampfac_p_n(xrtm_fd_data *d, int i_kernel, double *ampfac_
 
      int i;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
 
      for (i = 0; i < d->n_derivs; ++i)
           d->kernel_ampfac_p[i_kernel][i] = ampfac_p[i];
@@ -887,14 +887,14 @@ int xrtm_fd_set_kernel_params_p_11(xrtm_fd_data *d, int i_kernel, int i_deriv, i
 
      int n_params;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]);
 
-     CHECK_INDEX_RANGE(i_deriv,  d->n_derivs,  "i_deriv",  "n_derivs", -1);
-     CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params", -1);
+     CHECK_INDEX_RANGE(i_deriv,  d->n_derivs,  "i_deriv",  "n_derivs", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params", XRTM_INT_ERROR);
 
      d->kernel_params_p[i_kernel][i_deriv][i_param] = param_p;
 /*
@@ -911,10 +911,10 @@ int xrtm_fd_set_kernel_params_p_1n(xrtm_fd_data *d, int i_kernel, int i_deriv, d
 
      int n_params;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
-     CHECK_INDEX_RANGE(i_deriv,     d->n_derivs,  "i_deriv",  "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
+     CHECK_INDEX_RANGE(i_deriv,     d->n_derivs,  "i_deriv",  "n_derivs", XRTM_INT_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]);
 
@@ -933,13 +933,13 @@ int xrtm_fd_set_kernel_params_p_n1(xrtm_fd_data *d, int i_kernel, int i_param, d
 
      int n_params;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]);
 
-     CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params", -1);
+     CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params", XRTM_INT_ERROR);
 
      for (i = 0; i < d->n_derivs; ++i)
           d->kernel_params_p[i_kernel][i][i_param] = params_p[i];
@@ -958,9 +958,9 @@ int xrtm_fd_set_kernel_params_p_nn(xrtm_fd_data *d, int i_kernel, double **param
 
      int n_params;
 
-     CHECK_N_KERNELS_NOT_ZERO(d->d, -1);
+     CHECK_N_KERNELS_NOT_ZERO(d->d, XRTM_INT_ERROR);
 
-     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", -1);
+     CHECK_INDEX_RANGE(i_kernel, d->d->n_kernels, "i_kernel", "n_kernel", XRTM_INT_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]);
 
@@ -1052,7 +1052,7 @@ static int save_values(xrtm_fd_data *d, enum xrtm_solver_mask solver, input_valu
            ! (v->kernel_params = alloc_array2_d(d->d->n_kernels, MAX_KERNEL_PARAMS))))) {
           fprintf(stderr, "ERROR: memory allocation failed\n");
           free_values(v);
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      v->F_iso_top = xrtm_get_F_iso_top(d->d);
@@ -1062,7 +1062,7 @@ static int save_values(xrtm_fd_data *d, enum xrtm_solver_mask solver, input_valu
           if (xrtm_get_levels_b(d->d, v->levels_b)) {
                fprintf(stderr, "ERROR: xrtm_get_levels_b()\n");
                free_values(v);
-               return -1;
+               return XRTM_INT_ERROR;
           }
 
           v->surface_b = xrtm_get_surface_b(d->d);
@@ -1134,7 +1134,7 @@ static int restore_values(xrtm_fd_data *d, enum xrtm_solver_mask solver, input_v
 
      if (flag) {
           fprintf(stderr, "ERROR: inputs could not be restored\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -1159,24 +1159,24 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
      if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
           fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
           fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
            if (! (levels_b = alloc_array1_d(d->d->n_layers + 1))) {
                 fprintf(stderr, "ERROR: memory allocation failed\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
 
            if (xrtm_get_levels_b(d->d, levels_b)) {
                 fprintf(stderr, "ERROR: xrtm_get_levels_b()\n");
                 free_array1_d(levels_b);
-                return -1;
+                return XRTM_INT_ERROR;
            }
 
            for (i = 0; i < d->d->n_layers + 1; ++i) {
@@ -1186,7 +1186,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
            if (xrtm_set_levels_b(d->d, levels_b)) {
                 fprintf(stderr, "ERROR: xrtm_set_levels_b()\n");
                 free_array1_d(levels_b);
-                return -1;
+                return XRTM_INT_ERROR;
            }
 
            free_array1_d(levels_b);
@@ -1194,7 +1194,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
            if (xrtm_set_surface_b(d->d, xrtm_get_surface_b(d->d) + f * d->surface_b_p[j])) {
                 fprintf(stderr, "ERROR: xrtm_set_surface_b()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
      }
 
@@ -1202,7 +1202,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
            for (i = 0; i < d->d->n_layers; ++i) {
                 if (xrtm_set_g_1(d->d, i, xrtm_get_g(d->d, i) + f * d->g_p[i][j])) {
                      fprintf(stderr, "ERROR: xrtm_set_g_1()\n");
-                     return -1;
+                     return XRTM_INT_ERROR;
                 }
            }
       }
@@ -1218,7 +1218,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
                 if (xrtm_set_coef_1(d->d, i, n_coef_layer, coef)) {
                      fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
-                     return -1;
+                     return XRTM_INT_ERROR;
                 }
            }
       }
@@ -1226,21 +1226,21 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
       for (i = 0; i < d->d->n_layers; ++i) {
            if (xrtm_set_omega_1(d->d, i, xrtm_get_omega(d->d, i) + f * d->omega_p[i][j])) {
                 fprintf(stderr, "ERROR: xrtm_set_omega_1()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
       }
 
       for (i = 0; i < d->d->n_layers; ++i) {
            if (xrtm_set_ltau_1(d->d,  i, xrtm_get_ltau(d->d, i)  + f * d->ltau_p [i][j])) {
                 fprintf(stderr, "ERROR: xrtm_set_ltau_1()\n");
-                return -1;
+                return XRTM_INT_ERROR;
            }
      }
 
      for (i = 0; i < d->d->n_kernels; ++i) {
           if (xrtm_set_kernel_ampfac(d->d, i, xrtm_get_kernel_ampfac(d->d, i) + f * d->kernel_ampfac_p[i][j])) {
                 fprintf(stderr, "ERROR: xrtm_set_ampfac()\n");
-                return -1;
+                return XRTM_INT_ERROR;
           }
 
           n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i]);
@@ -1248,7 +1248,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
           for (k = 0; k < n_params; ++k) {
                 if (xrtm_set_kernel_params_1(d->d, i, k, xrtm_get_kernel_params(d->d, i, k) + f * d->kernel_params_p[i][j][k])) {
                       fprintf(stderr, "ERROR: xrtm_set_kernel_param_1()\n");
-                      return -1;
+                      return XRTM_INT_ERROR;
                 }
           }
      }
@@ -1309,17 +1309,17 @@ static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int soluti
 
                if (perturb_values(d, j, solver, f, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, x2[0], x2[1], NULL, NULL, x2[2], x2[3], NULL, NULL, x2[4], NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (restore_values(d, solver, values)) {
                     fprintf(stderr, "ERROR: restore_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                for (i = 0; solutions & XRTM_OUTPUT_RADIANCE && i < d->d->n_ulevels; ++i) {
@@ -1352,12 +1352,12 @@ static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int soluti
           else {
                if (perturb_values(d, j, solver,  1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, x2[0], x2[1], NULL, NULL, x2[2], x2[3], NULL, NULL, x2[4], NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                for (i = 0; solutions & XRTM_OUTPUT_RADIANCE && i < d->d->n_ulevels; ++i) {
@@ -1384,17 +1384,17 @@ static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int soluti
 
                if (restore_values(d, solver, values)) {
                     fprintf(stderr, "ERROR: restore_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (perturb_values(d, j, solver, -1., coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, x2[0], x2[1], NULL, NULL, x2[2], x2[3], NULL, NULL, x2[4], NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
 
                for (i = 0; solutions & XRTM_OUTPUT_RADIANCE && i < d->d->n_ulevels; ++i) {
@@ -1421,7 +1421,7 @@ static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int soluti
 
                if (restore_values(d, solver, values)) {
                     fprintf(stderr, "ERROR: restore_values()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
           }
      }
@@ -1465,7 +1465,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
       *-----------------------------------------------------------------------*/
      if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p, I_m, NULL, NULL, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, flux_div, NULL)) {
           fprintf(stderr, "ERROR: xrtm_solution()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
 
@@ -1481,7 +1481,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 
      if (! coef || ! I_p2 || ! I_m2 || ! x2) {
           fprintf(stderr, "ERROR: memory allocation failed\n");
-          r = -1;
+          r = XRTM_INT_ERROR;
      }
      else if ((r = save_values(d, solver, &values))) {
           fprintf(stderr, "ERROR: save_values()\n");
@@ -1525,7 +1525,7 @@ int xrtm_fd_radiance(xrtm_fd_data *d, enum xrtm_solver_mask solver, enum xrtm_fd
 
      if (xrtm_fd_solution(d, solver, XRTM_OUTPUT_RADIANCE, fd_method, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
-- 
2.43.0


From 8cc4e5671d0c7c6adba35be28ee0198a7b3025c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:23 +0000
Subject: [PATCH 096/115] fix: xrtm_get_levels_b_l() returned its status as a
 double, which Fortran 90 and Julia take for an integer

---
 src/prototypes/xrtm_interface_p.h | 2 +-
 src/xrtm_interface.c              | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/prototypes/xrtm_interface_p.h b/src/prototypes/xrtm_interface_p.h
index c7ff6f8..2995ed6 100644
--- a/src/prototypes/xrtm_interface_p.h
+++ b/src/prototypes/xrtm_interface_p.h
@@ -104,7 +104,7 @@ int xrtm_set_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_get_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_set_levels_b_l_1(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l);
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_surface_b(xrtm_data *d, double surface_b);
 double xrtm_get_surface_b(xrtm_data *d);
 int xrtm_set_surface_b_l_1(xrtm_data *d, int i_deriv, double surface_b_l);
diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index a973fe2..40ff0d9 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3817,16 +3817,16 @@ int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l) {
 
 
 
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
 
      int i;
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_DBL_ERROR;
+          return XRTM_INT_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      for (i = 0; i < d->n_layers + 1; ++i)
           levels_b_l[i] = d->levels_b_l[i][i_deriv];
-- 
2.43.0


From 4246c8dbb8099b66cfec81732cfc372dcbe570dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:29 +0000
Subject: [PATCH 097/115] fix: Python, IDL and Julia interfaces allocated too
 little for the quadrature and required angle tables with no rows without user
 angles

---
 interfaces/xrtm_int_idl.c     | 20 ++++++++++----------
 interfaces/xrtm_int_jl_util.c |  4 ++--
 interfaces/xrtm_int_py.c      |  8 ++++----
 interfaces/xrtm_interface.def |  4 ++--
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/interfaces/xrtm_int_idl.c b/interfaces/xrtm_int_idl.c
index 2d8529e..ac66e24 100644
--- a/interfaces/xrtm_int_idl.c
+++ b/interfaces/xrtm_int_idl.c
@@ -3696,11 +3696,11 @@ void IDL_CDECL xrtm_qx_dlm(int argc, IDL_VPTR argv[], char *argk)
      if (argv[0]->type != IDL_TYP_BYTE)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: Invalid xrtm instance");
      d = (xrtm_data *) argv[0]->value.arr->data;
-     qx = malloc((d->n_quad) * sizeof(double));
+     qx = malloc((d->n_quad + d->n_umus) * sizeof(double));
      r = xrtm_qx(d, qx);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_qx()");
-     dim_idl[0] = d->n_quad;
+     dim_idl[0] = d->n_quad + d->n_umus;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) qx, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[1]);
      return;
@@ -3718,11 +3718,11 @@ void IDL_CDECL xrtm_qw_dlm(int argc, IDL_VPTR argv[], char *argk)
      if (argv[0]->type != IDL_TYP_BYTE)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: Invalid xrtm instance");
      d = (xrtm_data *) argv[0]->value.arr->data;
-     qw = malloc((d->n_quad) * sizeof(double));
+     qw = malloc((d->n_quad + d->n_umus) * sizeof(double));
      r = xrtm_qw(d, qw);
      if (r == XRTM_INT_ERROR)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: xrtm_qw()");
-     dim_idl[0] = d->n_quad;
+     dim_idl[0] = d->n_quad + d->n_umus;
      ptr = IDL_ImportArray(1, (IDL_MEMINT *) dim_idl, IDL_TYP_DOUBLE, (UCHAR *) qw, 0, NULL);
      IDL_VarCopy((IDL_VPTR) ptr, argv[1]);
      return;
@@ -3836,11 +3836,11 @@ void IDL_CDECL xrtm_solution_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be of type double");
      if (argv[4]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be an array with 2 dimensions");
-     if (argv[4]->value.arr->dim[1] != (d->n_out_thetas))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas elements");
+     if (argv[4]->value.arr->dim[1] != (d->n_out_thetas_2))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas_2 elements");
      if (argv[4]->value.arr->dim[0] != (n_out_phis))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 1 must have n_out_phis elements");
-     dim[0] = d->n_out_thetas;
+     dim[0] = d->n_out_thetas_2;
      dim[1] = n_out_phis;
      out_phis = (double **) array_from_mem((void *) argv[4]->value.arr->data, 2, dim, sizeof(double), 1);
      I_p_data = malloc((d->n_out_levels) * (d->n_out_thetas_2) * (n_out_phis) * (d->n_stokes) * sizeof(double));
@@ -4012,11 +4012,11 @@ void IDL_CDECL xrtm_radiance_dlm(int argc, IDL_VPTR argv[], char *argk)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be of type double");
      if (argv[3]->value.arr->n_dim != 2)
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis must be an array with 2 dimensions");
-     if (argv[3]->value.arr->dim[1] != (d->n_out_thetas))
-          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas elements");
+     if (argv[3]->value.arr->dim[1] != (d->n_out_thetas_2))
+          IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 2 must have d->n_out_thetas_2 elements");
      if (argv[3]->value.arr->dim[0] != (n_out_phis))
           IDL_Message(IDL_M_NAMED_GENERIC, IDL_MSG_LONGJMP, "ERROR: out_phis dimension 1 must have n_out_phis elements");
-     dim[0] = d->n_out_thetas;
+     dim[0] = d->n_out_thetas_2;
      dim[1] = n_out_phis;
      out_phis = (double **) array_from_mem((void *) argv[3]->value.arr->data, 2, dim, sizeof(double), 1);
      I_p_data = malloc((d->n_out_levels) * (d->n_out_thetas_2) * (n_out_phis) * (d->n_stokes) * sizeof(double));
diff --git a/interfaces/xrtm_int_jl_util.c b/interfaces/xrtm_int_jl_util.c
index 3d09b5f..1a20ba2 100644
--- a/interfaces/xrtm_int_jl_util.c
+++ b/interfaces/xrtm_int_jl_util.c
@@ -309,14 +309,14 @@ int set_kernel_params_l_nn_params_l_dims(xrtm_data *d, int i_kernel, double **pa
 
 int qx_qx_dims(xrtm_data *d, size_t *dims)
 {
-    dims[0] = d->n_quad;
+    dims[0] = d->n_quad + d->n_umus;
     return 0;
 }
 
 
 int qw_qw_dims(xrtm_data *d, size_t *dims)
 {
-    dims[0] = d->n_quad;
+    dims[0] = d->n_quad + d->n_umus;
     return 0;
 }
 
diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 82b0302..97c8b09 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -2287,7 +2287,7 @@ static PyObject *xrtm_qx_py(xrtm_data_py *self, PyObject *args)
      double *qx;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_quad;
+     dims[0] = d->n_quad + d->n_umus;
      qx_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (qx_ndarray == NULL)
           return NULL;
@@ -2310,7 +2310,7 @@ static PyObject *xrtm_qw_py(xrtm_data_py *self, PyObject *args)
      double *qw;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_quad;
+     dims[0] = d->n_quad + d->n_umus;
      qw_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (qw_ndarray == NULL)
           return NULL;
@@ -2420,7 +2420,7 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
+     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
           return NULL;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
@@ -2561,7 +2561,7 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
+     if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
           return NULL;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
diff --git a/interfaces/xrtm_interface.def b/interfaces/xrtm_interface.def
index 2f4a1d0..8311d6b 100644
--- a/interfaces/xrtm_interface.def
+++ b/interfaces/xrtm_interface.def
@@ -115,8 +115,8 @@ subprogram_general int 0 set_kernel_params_l_nn		0, int 0 i_kernel in, double 2
 subprogram_general double 0 get_kernel_params_l		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 subprogram_general int 0 update_varied_layers		0;
 
-subprogram_general int 0 qx			        0, double 1 "d->n_quad" qx out;
-subprogram_general int 0 qw			        0, double 1 "d->n_quad" qw out;
+subprogram_general int 0 qx			        0, double 1 "d->n_quad + d->n_umus" qx out;
+subprogram_general int 0 qw			        0, double 1 "d->n_quad + d->n_umus" qw out;
 subprogram_general int 0 kernel_qx			0, double 1 "d->n_kernel_quad" kernel_qx out;
 subprogram_general int 0 kernel_qw			0, double 1 "d->n_kernel_quad" kernel_qw out;
 subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_mask xrtm_solver_name_to_mask, int 0 solutions in, int 0 n_out_phis in, double 2 "d->n_out_thetas_2" "n_out_phis" out_phis in, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_p out, double 4 "d->n_out_levels" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" I_m out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_p out, double 5 "d->n_out_levels" "d->n_derivs" "d->n_out_thetas_2" "n_out_phis" "d->n_stokes" K_m out, double 1 "d->n_out_levels" mean_p out, double 1 "d->n_out_levels" mean_m out, double 2 "d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->n_out_levels" flux_p out, double 1 "d->n_out_levels" flux_m out, double 2 "d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->n_out_levels" flux_div out, double 2 "d->n_out_levels" "d->n_derivs" flux_div_l out;
-- 
2.43.0


From 0a479baf17725e78c756c887986b60ae3919cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:00 +0000
Subject: [PATCH 098/115] fix: two_os instances could be created for output at
 optical depths, at which it returns zero radiances

---
 src/xrtm_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 40ff0d9..79d6811 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -688,7 +688,7 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
      }
 
      if (options & XRTM_OPTION_OUTPUT_AT_TAUS) {
-          if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_OUTPUT_AT_TAUS), XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SOS, 0))
+          if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_OUTPUT_AT_TAUS), XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SOS, XRTM_SOLVER_TWO_OS, 0))
                return XRTM_INT_ERROR;
      }
 
-- 
2.43.0


From 95846da2ea0436c7933aa7a7a0f36295fb59d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:00 +0000
Subject: [PATCH 099/115] fix: the direct beam in mean radiances and fluxes was
 that of the top or the bottom, whichever the output level

---
 src/xrtm_model.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 19ce87d..66f8b14 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6078,6 +6078,26 @@ static int apply_corrections_fourier(xrtm_data *d, int i_four, double **I_p, dou
 
 
 
+/*******************************************************************************
+ * Transmittance of the direct solar beam from the top to an output level.
+ ******************************************************************************/
+static double direct_beam(xrtm_data *d, int i_ulevel) {
+
+     int i;
+
+     if (! (d->options & XRTM_OPTION_SOURCE_SOLAR))
+          return 0.;
+
+     i = d->ulevels[i_ulevel];
+
+     if (d->options & XRTM_OPTION_OUTPUT_AT_LEVELS)
+          return d->btran[i];
+
+     return d->btran[i] * exp(-d->utaus2[i_ulevel] * d->as_0[i]);
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -6289,12 +6309,12 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_RADIANCE_MEAN   && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
+                    b = direct_beam(d, j);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         mean_p[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
+                         mean_p[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_p[j]);
                     if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         mean_m[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + (d->options & XRTM_OPTION_SOURCE_SOLAR ? d->F_0 * d->btran[jj] / (4. * PI) : 0.);
+                         mean_m[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_m[j]) + (d->options & XRTM_OPTION_SOURCE_SOLAR ? d->F_0 * b / (4. * PI) : 0.);
                }
           }
 
@@ -6304,12 +6324,12 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_FLUX            && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
+                    b = direct_beam(d, j);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         flux_p[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
+                         flux_p[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_p[j]);
                     if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         flux_m[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + (d->options & XRTM_OPTION_SOURCE_SOLAR ? d->F_0 * d->mu_0 * d->btran[jj] : 0.);
+                         flux_m[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, b, i_m[j]) + (d->options & XRTM_OPTION_SOURCE_SOLAR ? d->F_0 * d->mu_0 * b : 0.);
                }
           }
 
-- 
2.43.0


From 3f4bd2c9148705f18186b4163aadcab86e976cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:35 +0000
Subject: [PATCH 100/115] fix: two_os returned the radiances of the top for an
 instance with output at the bottom only

---
 src/xrtm_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 79d6811..da59c94 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3243,6 +3243,11 @@ int xrtm_set_out_levels(xrtm_data *d, int *out_levels) {
           }
      }
 
+     if (out_levels[0] != 0) {
+          if (check_solvers(d->solvers, 0, 1, "option", "out_levels[0] != 0", XRTM_SOLVER_TWO_OS, 0))
+               return XRTM_INT_ERROR;
+     }
+
      if (d->options & XRTM_OPTION_TOP_DOWN_ADDING) {
           if (out_levels[0] != d->n_layers) {
                fprintf(stderr, "ERROR: out_levels[0] must be equal to n_layers for option %s\n", xrtm_option_mask_to_name(XRTM_OPTION_TOP_DOWN_ADDING));
-- 
2.43.0


From 249a20bb0aa11dc15cede828a52627f4b2d071a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:00 +0000
Subject: [PATCH 101/115] fix: derivatives with respect to the surface thermal
 source used the reflectance of the last angle for all angles

---
 src/xrtm_model.c | 20 ++++++++++++++++----
 src/xrtm_sfi_x.c | 10 ++++++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 66f8b14..67cdbc4 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4125,10 +4125,16 @@ if (i_four == 0) {
 
                     if (d->derivs.layers[d->n_layers][i]) {
 */
-                         c = d->surface_b_l[i] * (1. - a);
-
                          jj = 0;
                          for (j = 0; j < d->n_quad_x; ++j) {
+                              a  = 0.;
+                              kk = 0;
+                              for (k = 0; k < d->n_quad_x; ++k) {
+                                   a  += Rs_qq[jj][kk];
+                                   kk += d->n_stokes;
+                              }
+                              c  = d->surface_b_l[i] * (1. - a);
+
                               e  = 0.;
                               kk = 0;
 if (d->derivs.layers[d->n_layers][i]) {
@@ -4142,10 +4148,16 @@ if (d->derivs.layers[d->n_layers][i]) {
                               jj += d->n_stokes;
                          }
 
-                         c = d->surface_b_l[i] * (1. - b);
-
                          jjj = jj; jj = 0;
                          for ( ; j < d->n_quad + d->n_umus; ++j) {
+                              b  = 0.;
+                              kk = 0;
+                              for (k = 0; k < d->n_quad_x; ++k) {
+                                   b  += Rs_uq[jj][kk];
+                                   kk += d->n_stokes;
+                              }
+                              c  = d->surface_b_l[i] * (1. - b);
+
                               e  = 0.;
                               kk = 0;
 if (d->derivs.layers[d->n_layers][i]) {
diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 1bf5421..610f9f1 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -1281,10 +1281,16 @@ void SFI_UP(int i_four,
           }
 
           for (i = 0; i < n_derivs; ++i) {
-               b = surface_b_l[i] * (1. - a);
-
                jj = 0;
                for (j = 0; j < n_umus; ++j) {
+                    a  = 0.;
+                    kk = 0;
+                    for (k = 0; k < n_quad; ++k) {
+                         a  += Rs_uq[jj][kk];
+                         kk += n_stokes;
+                    }
+                    b  = surface_b_l[i] * (1. - a);
+
                     c  = 0.;
                     kk = 0;
 
-- 
2.43.0


From 37e96aac87a2d2c63a8aed5ca5e9b80373769457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:45 +0000
Subject: [PATCH 102/115] fix: Python get_kernel() took the kernel's number for
 the address of its name

---
 interfaces/xrtm_int_py.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 97c8b09..a1ed96c 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -333,7 +333,7 @@ static PyObject *xrtm_get_kernel_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_kernel()");
           return NULL;
      }
-     return Py_BuildValue("s", r);
+     return Py_BuildValue("s", xrtm_kernel_value_to_name(r));
 }
 
 
-- 
2.43.0


From 0be829eed3b1e39f0eab794d1303506e56e8dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:45 +0000
Subject: [PATCH 103/115] fix: arrays returned by the Python interface were
 never released

---
 interfaces/xrtm_int_py.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index a1ed96c..5f115ad 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -620,7 +620,7 @@ static PyObject *xrtm_get_levels_z_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_levels_z()");
           return NULL;
      }
-     return Py_BuildValue("O", levels_z_ndarray);
+     return Py_BuildValue("N", levels_z_ndarray);
 }
 
 
@@ -668,7 +668,7 @@ static PyObject *xrtm_get_out_levels_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_out_levels()");
           return NULL;
      }
-     return Py_BuildValue("O", out_levels_ndarray);
+     return Py_BuildValue("N", out_levels_ndarray);
 }
 
 
@@ -716,7 +716,7 @@ static PyObject *xrtm_get_out_taus_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_out_taus()");
           return NULL;
      }
-     return Py_BuildValue("O", out_taus_ndarray);
+     return Py_BuildValue("N", out_taus_ndarray);
 }
 
 
@@ -764,7 +764,7 @@ static PyObject *xrtm_get_out_thetas_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_out_thetas()");
           return NULL;
      }
-     return Py_BuildValue("O", out_thetas_ndarray);
+     return Py_BuildValue("N", out_thetas_ndarray);
 }
 
 
@@ -1083,7 +1083,7 @@ static PyObject *xrtm_get_levels_b_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_levels_b()");
           return NULL;
      }
-     return Py_BuildValue("O", levels_b_ndarray);
+     return Py_BuildValue("N", levels_b_ndarray);
 }
 
 
@@ -1159,7 +1159,7 @@ static PyObject *xrtm_get_levels_b_l_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_levels_b_l()");
           return NULL;
      }
-     return Py_BuildValue("O", levels_b_l_ndarray);
+     return Py_BuildValue("N", levels_b_l_ndarray);
 }
 
 
@@ -2297,7 +2297,7 @@ static PyObject *xrtm_qx_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_qx()");
           return NULL;
      }
-     return Py_BuildValue("O", qx_ndarray);
+     return Py_BuildValue("N", qx_ndarray);
 }
 
 
@@ -2320,7 +2320,7 @@ static PyObject *xrtm_qw_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_qw()");
           return NULL;
      }
-     return Py_BuildValue("O", qw_ndarray);
+     return Py_BuildValue("N", qw_ndarray);
 }
 
 
@@ -2343,7 +2343,7 @@ static PyObject *xrtm_kernel_qx_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_kernel_qx()");
           return NULL;
      }
-     return Py_BuildValue("O", kernel_qx_ndarray);
+     return Py_BuildValue("N", kernel_qx_ndarray);
 }
 
 
@@ -2366,7 +2366,7 @@ static PyObject *xrtm_kernel_qw_py(xrtm_data_py *self, PyObject *args)
           PyErr_SetString(XRTMError, "ERROR: xrtm_kernel_qw()");
           return NULL;
      }
-     return Py_BuildValue("O", kernel_qw_ndarray);
+     return Py_BuildValue("N", kernel_qw_ndarray);
 }
 
 
@@ -2528,7 +2528,7 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      free_array(flux_p_l, 2);
      free_array(flux_m_l, 2);
      free_array(flux_div_l, 2);
-     return Py_BuildValue("OOOOOOOOOOOOOO", I_p_ndarray, I_m_ndarray, K_p_ndarray, K_m_ndarray, mean_p_ndarray, mean_m_ndarray, mean_p_l_ndarray, mean_m_l_ndarray, flux_p_ndarray, flux_m_ndarray, flux_p_l_ndarray, flux_m_l_ndarray, flux_div_ndarray, flux_div_l_ndarray);
+     return Py_BuildValue("NNNNNNNNNNNNNN", I_p_ndarray, I_m_ndarray, K_p_ndarray, K_m_ndarray, mean_p_ndarray, mean_m_ndarray, mean_p_l_ndarray, mean_m_l_ndarray, flux_p_ndarray, flux_m_ndarray, flux_p_l_ndarray, flux_m_l_ndarray, flux_div_ndarray, flux_div_l_ndarray);
 }
 
 
@@ -2609,7 +2609,7 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      free_array(I_m, 4);
      free_array(K_p, 5);
      free_array(K_m, 5);
-     return Py_BuildValue("OOOO", I_p_ndarray, I_m_ndarray, K_p_ndarray, K_m_ndarray);
+     return Py_BuildValue("NNNN", I_p_ndarray, I_m_ndarray, K_p_ndarray, K_m_ndarray);
 }
 
 
@@ -2664,7 +2664,7 @@ static PyObject *xrtm_mean_radiance_py(xrtm_data_py *self, PyObject *args)
      }
      free_array(mean_p_l, 2);
      free_array(mean_m_l, 2);
-     return Py_BuildValue("OOOO", mean_p_ndarray, mean_m_ndarray, mean_p_l_ndarray, mean_m_l_ndarray);
+     return Py_BuildValue("NNNN", mean_p_ndarray, mean_m_ndarray, mean_p_l_ndarray, mean_m_l_ndarray);
 }
 
 
@@ -2719,7 +2719,7 @@ static PyObject *xrtm_flux_py(xrtm_data_py *self, PyObject *args)
      }
      free_array(flux_p_l, 2);
      free_array(flux_m_l, 2);
-     return Py_BuildValue("OOOO", flux_p_ndarray, flux_m_ndarray, flux_p_l_ndarray, flux_m_l_ndarray);
+     return Py_BuildValue("NNNN", flux_p_ndarray, flux_m_ndarray, flux_p_l_ndarray, flux_m_l_ndarray);
 }
 
 
@@ -2758,7 +2758,7 @@ static PyObject *xrtm_flux_divergence_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      }
      free_array(flux_div_l, 2);
-     return Py_BuildValue("OO", flux_div_ndarray, flux_div_l_ndarray);
+     return Py_BuildValue("NN", flux_div_ndarray, flux_div_l_ndarray);
 }
 
 
-- 
2.43.0


From 10c7f4b9ef852659ecbdbfce73372a8a70257013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:45 +0000
Subject: [PATCH 104/115] fix: the message of the Python interface for a wrong
 number of dimensions read an argument that was not given

---
 interfaces/xrtm_int_py.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 5f115ad..506ba6a 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -98,7 +98,7 @@ static int check_pyarray_shape(PyObject *array, const char *name, int n, ...)
      va_list valist;
      n_py = PyArray_NDIM((PyArrayObject *) array);
      if (n_py != n) {
-          PyErr_Format(XRTMError, "ERROR: Number of dimensions for %s input (%d) must be == %d", name, n_py);
+          PyErr_Format(XRTMError, "ERROR: Number of dimensions for %s input (%d) must be == %d", name, n_py, n);
           return -1;
      }
      va_start(valist, n);
-- 
2.43.0


From de87851ec8d48aec89d4e00667447351d6c1ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:45 +0000
Subject: [PATCH 105/115] fix: Python interface looked up sizes with unchecked
 indices

---
 interfaces/xrtm_int_py.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 506ba6a..b8d207e 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -1535,7 +1535,7 @@ static PyObject *xrtm_set_coef_l_11_py(xrtm_data_py *self, PyObject *args)
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(coef_l_ndarray, "coef_l", 2, d->n_elem, d->n_coef_layer[i_layer]) < 0)
+     if (check_pyarray_shape(coef_l_ndarray, "coef_l", 2, d->n_elem, d->n_coef_layer && i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0) < 0)
           return NULL;
      coef_l = (double **) array_from_ndarray(coef_l_ndarray, 8);
      r = xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l);
@@ -1589,7 +1589,7 @@ static PyObject *xrtm_set_coef_l_1n_py(xrtm_data_py *self, PyObject *args)
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(coef_l_ndarray, "coef_l", 3, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]) < 0)
+     if (check_pyarray_shape(coef_l_ndarray, "coef_l", 3, d->n_derivs, d->n_elem, d->n_coef_layer && i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0) < 0)
           return NULL;
      coef_l = (double ***) array_from_ndarray(coef_l_ndarray, 8);
      r = xrtm_set_coef_l_1n(d, i_layer, coef_l);
@@ -2054,7 +2054,7 @@ static PyObject *xrtm_set_kernel_params_n_py(xrtm_data_py *self, PyObject *args)
      params_ndarray = PyArray_FROM_OTF(params_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(params_ndarray, "params", 1, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])) < 0)
+     if (check_pyarray_shape(params_ndarray, "params", 1, i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0) < 0)
           return NULL;
      params = (double *) array_from_ndarray(params_ndarray, 8);
      r = xrtm_set_kernel_params_n(d, i_kernel, params);
@@ -2178,7 +2178,7 @@ static PyObject *xrtm_set_kernel_params_l_1n_py(xrtm_data_py *self, PyObject *ar
      params_l_ndarray = PyArray_FROM_OTF(params_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(params_l_ndarray, "params_l", 1, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])) < 0)
+     if (check_pyarray_shape(params_l_ndarray, "params_l", 1, i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0) < 0)
           return NULL;
      params_l = (double *) array_from_ndarray(params_l_ndarray, 8);
      r = xrtm_set_kernel_params_l_1n(d, i_kernel, i_deriv, params_l);
@@ -2231,7 +2231,7 @@ static PyObject *xrtm_set_kernel_params_l_nn_py(xrtm_data_py *self, PyObject *ar
      params_l_ndarray = PyArray_FROM_OTF(params_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(params_l_ndarray, "params_l", 2, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])) < 0)
+     if (check_pyarray_shape(params_l_ndarray, "params_l", 2, d->n_derivs, i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0) < 0)
           return NULL;
      params_l = (double **) array_from_ndarray(params_l_ndarray, 8);
      r = xrtm_set_kernel_params_l_nn(d, i_kernel, params_l);
-- 
2.43.0


From a05e615791dd417c49494f62e4e2406719932cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:06 +0000
Subject: [PATCH 106/115] fix: calls through the Python interface that fail
 lost the arrays they had made and did not check for them

---
 interfaces/xrtm_int_py.c | 851 ++++++++++++++++++++++++++++-----------
 1 file changed, 619 insertions(+), 232 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index b8d207e..0544582 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -107,6 +107,7 @@ static int check_pyarray_shape(PyObject *array, const char *name, int n, ...)
           dim_py = PyArray_DIM((PyArrayObject *) array, i);
           if (dim_py != dim) {
               PyErr_Format(XRTMError, "ERROR: Dimension %d of %s input (%d) must be == %d", i, name, dim_py, dim);
+              va_end(valist);
               return -1;
           }
      }
@@ -123,10 +124,16 @@ static void *array_from_ndarray(PyObject *ndarray, size_t size)
      void *array;
      n_dims = PyArray_NDIM((PyArrayObject *) ndarray);
      dims = malloc(n_dims * sizeof(long));
+     if (dims == NULL) {
+          PyErr_NoMemory();
+          return NULL;
+     }
      for (i = 0; i < n_dims; ++i)
           dims[i] = PyArray_DIM((PyArrayObject *) ndarray, i);
      array = array_from_mem(PyArray_DATA((PyArrayObject *) ndarray), n_dims, dims, size, 1);
      free(dims);
+     if (array == NULL)
+          PyErr_NoMemory();
      return array;
 }
 
@@ -582,22 +589,27 @@ static PyObject *xrtm_set_levels_z_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *levels_z_object  = NULL;
      PyObject *levels_z_ndarray = NULL;
-     double *levels_z;
+     double *levels_z = NULL;
      if (! PyArg_ParseTuple(args, "O", &levels_z_object))
           return NULL;
      levels_z_ndarray = PyArray_FROM_OTF(levels_z_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_z_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(levels_z_ndarray, "levels_z", 1, d->n_layers + 1) < 0)
-          return NULL;
+          goto error;
      levels_z = (double *) array_from_ndarray(levels_z_ndarray, 8);
+     if (levels_z == NULL)
+          goto error;
      r = xrtm_set_levels_z(d, levels_z);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_levels_z()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(levels_z_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(levels_z_ndarray);
+     return NULL;
 }
 
 
@@ -607,20 +619,25 @@ static PyObject *xrtm_get_levels_z_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      npy_intp dims[1];
      PyObject *levels_z_ndarray = NULL;
-     double *levels_z;
+     double *levels_z = NULL;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
      dims[0] = d->n_layers + 1;
      levels_z_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_z_ndarray == NULL)
-          return NULL;
+          goto error;
      levels_z = (double *) array_from_ndarray(levels_z_ndarray, 8);
+     if (levels_z == NULL)
+          goto error;
      r = xrtm_get_levels_z(d, levels_z);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_levels_z()");
-          return NULL;
+          goto error;
      }
      return Py_BuildValue("N", levels_z_ndarray);
+error:
+     Py_XDECREF(levels_z_ndarray);
+     return NULL;
 }
 
 
@@ -630,22 +647,27 @@ static PyObject *xrtm_set_out_levels_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *out_levels_object  = NULL;
      PyObject *out_levels_ndarray = NULL;
-     int *out_levels;
+     int *out_levels = NULL;
      if (! PyArg_ParseTuple(args, "O", &out_levels_object))
           return NULL;
      out_levels_ndarray = PyArray_FROM_OTF(out_levels_object, NPY_INT, NPY_ARRAY_IN_ARRAY);
      if (out_levels_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(out_levels_ndarray, "out_levels", 1, d->n_out_levels) < 0)
-          return NULL;
+          goto error;
      out_levels = (int *) array_from_ndarray(out_levels_ndarray, 4);
+     if (out_levels == NULL)
+          goto error;
      r = xrtm_set_out_levels(d, out_levels);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_out_levels()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(out_levels_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(out_levels_ndarray);
+     return NULL;
 }
 
 
@@ -655,20 +677,25 @@ static PyObject *xrtm_get_out_levels_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      npy_intp dims[1];
      PyObject *out_levels_ndarray = NULL;
-     int *out_levels;
+     int *out_levels = NULL;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
      dims[0] = d->n_out_levels;
      out_levels_ndarray = PyArray_SimpleNew(1, dims, NPY_INT);
      if (out_levels_ndarray == NULL)
-          return NULL;
+          goto error;
      out_levels = (int *) array_from_ndarray(out_levels_ndarray, 4);
+     if (out_levels == NULL)
+          goto error;
      r = xrtm_get_out_levels(d, out_levels);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_out_levels()");
-          return NULL;
+          goto error;
      }
      return Py_BuildValue("N", out_levels_ndarray);
+error:
+     Py_XDECREF(out_levels_ndarray);
+     return NULL;
 }
 
 
@@ -678,22 +705,27 @@ static PyObject *xrtm_set_out_taus_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *out_taus_object  = NULL;
      PyObject *out_taus_ndarray = NULL;
-     double *out_taus;
+     double *out_taus = NULL;
      if (! PyArg_ParseTuple(args, "O", &out_taus_object))
           return NULL;
      out_taus_ndarray = PyArray_FROM_OTF(out_taus_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_taus_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(out_taus_ndarray, "out_taus", 1, d->n_out_levels) < 0)
-          return NULL;
+          goto error;
      out_taus = (double *) array_from_ndarray(out_taus_ndarray, 8);
+     if (out_taus == NULL)
+          goto error;
      r = xrtm_set_out_taus(d, out_taus);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_out_taus()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(out_taus_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(out_taus_ndarray);
+     return NULL;
 }
 
 
@@ -703,20 +735,25 @@ static PyObject *xrtm_get_out_taus_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      npy_intp dims[1];
      PyObject *out_taus_ndarray = NULL;
-     double *out_taus;
+     double *out_taus = NULL;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
      dims[0] = d->n_out_levels;
      out_taus_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (out_taus_ndarray == NULL)
-          return NULL;
+          goto error;
      out_taus = (double *) array_from_ndarray(out_taus_ndarray, 8);
+     if (out_taus == NULL)
+          goto error;
      r = xrtm_get_out_taus(d, out_taus);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_out_taus()");
-          return NULL;
+          goto error;
      }
      return Py_BuildValue("N", out_taus_ndarray);
+error:
+     Py_XDECREF(out_taus_ndarray);
+     return NULL;
 }
 
 
@@ -726,22 +763,27 @@ static PyObject *xrtm_set_out_thetas_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *out_thetas_object  = NULL;
      PyObject *out_thetas_ndarray = NULL;
-     double *out_thetas;
+     double *out_thetas = NULL;
      if (! PyArg_ParseTuple(args, "O", &out_thetas_object))
           return NULL;
      out_thetas_ndarray = PyArray_FROM_OTF(out_thetas_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_thetas_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(out_thetas_ndarray, "out_thetas", 1, d->n_out_thetas) < 0)
-          return NULL;
+          goto error;
      out_thetas = (double *) array_from_ndarray(out_thetas_ndarray, 8);
+     if (out_thetas == NULL)
+          goto error;
      r = xrtm_set_out_thetas(d, out_thetas);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_out_thetas()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(out_thetas_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(out_thetas_ndarray);
+     return NULL;
 }
 
 
@@ -751,20 +793,25 @@ static PyObject *xrtm_get_out_thetas_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      npy_intp dims[1];
      PyObject *out_thetas_ndarray = NULL;
-     double *out_thetas;
+     double *out_thetas = NULL;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
      dims[0] = d->n_out_thetas;
      out_thetas_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (out_thetas_ndarray == NULL)
-          return NULL;
+          goto error;
      out_thetas = (double *) array_from_ndarray(out_thetas_ndarray, 8);
+     if (out_thetas == NULL)
+          goto error;
      r = xrtm_get_out_thetas(d, out_thetas);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_out_thetas()");
-          return NULL;
+          goto error;
      }
      return Py_BuildValue("N", out_thetas_ndarray);
+error:
+     Py_XDECREF(out_thetas_ndarray);
+     return NULL;
 }
 
 
@@ -822,22 +869,27 @@ static PyObject *xrtm_set_F_iso_top_l_n_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *F_iso_top_l_object  = NULL;
      PyObject *F_iso_top_l_ndarray = NULL;
-     double *F_iso_top_l;
+     double *F_iso_top_l = NULL;
      if (! PyArg_ParseTuple(args, "O", &F_iso_top_l_object))
           return NULL;
      F_iso_top_l_ndarray = PyArray_FROM_OTF(F_iso_top_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (F_iso_top_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(F_iso_top_l_ndarray, "F_iso_top_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      F_iso_top_l = (double *) array_from_ndarray(F_iso_top_l_ndarray, 8);
+     if (F_iso_top_l == NULL)
+          goto error;
      r = xrtm_set_F_iso_top_l_n(d, F_iso_top_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_F_iso_top_l_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(F_iso_top_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(F_iso_top_l_ndarray);
+     return NULL;
 }
 
 
@@ -911,22 +963,27 @@ static PyObject *xrtm_set_F_iso_bot_l_n_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *F_iso_bot_l_object  = NULL;
      PyObject *F_iso_bot_l_ndarray = NULL;
-     double *F_iso_bot_l;
+     double *F_iso_bot_l = NULL;
      if (! PyArg_ParseTuple(args, "O", &F_iso_bot_l_object))
           return NULL;
      F_iso_bot_l_ndarray = PyArray_FROM_OTF(F_iso_bot_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (F_iso_bot_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(F_iso_bot_l_ndarray, "F_iso_bot_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      F_iso_bot_l = (double *) array_from_ndarray(F_iso_bot_l_ndarray, 8);
+     if (F_iso_bot_l == NULL)
+          goto error;
      r = xrtm_set_F_iso_bot_l_n(d, F_iso_bot_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_F_iso_bot_l_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(F_iso_bot_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(F_iso_bot_l_ndarray);
+     return NULL;
 }
 
 
@@ -1045,22 +1102,27 @@ static PyObject *xrtm_set_levels_b_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *levels_b_object  = NULL;
      PyObject *levels_b_ndarray = NULL;
-     double *levels_b;
+     double *levels_b = NULL;
      if (! PyArg_ParseTuple(args, "O", &levels_b_object))
           return NULL;
      levels_b_ndarray = PyArray_FROM_OTF(levels_b_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_out_levels) < 0)
-          return NULL;
+          goto error;
      levels_b = (double *) array_from_ndarray(levels_b_ndarray, 8);
+     if (levels_b == NULL)
+          goto error;
      r = xrtm_set_levels_b(d, levels_b);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_levels_b()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(levels_b_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(levels_b_ndarray);
+     return NULL;
 }
 
 
@@ -1070,20 +1132,25 @@ static PyObject *xrtm_get_levels_b_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      npy_intp dims[1];
      PyObject *levels_b_ndarray = NULL;
-     double *levels_b;
+     double *levels_b = NULL;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
      dims[0] = d->n_out_levels;
      levels_b_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_ndarray == NULL)
-          return NULL;
+          goto error;
      levels_b = (double *) array_from_ndarray(levels_b_ndarray, 8);
+     if (levels_b == NULL)
+          goto error;
      r = xrtm_get_levels_b(d, levels_b);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_levels_b()");
-          return NULL;
+          goto error;
      }
      return Py_BuildValue("N", levels_b_ndarray);
+error:
+     Py_XDECREF(levels_b_ndarray);
+     return NULL;
 }
 
 
@@ -1094,22 +1161,27 @@ static PyObject *xrtm_set_levels_b_l_1_py(xrtm_data_py *self, PyObject *args)
      int i_deriv;
      PyObject *levels_b_l_object  = NULL;
      PyObject *levels_b_l_ndarray = NULL;
-     double *levels_b_l;
+     double *levels_b_l = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_deriv, &levels_b_l_object))
           return NULL;
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      levels_b_l = (double *) array_from_ndarray(levels_b_l_ndarray, 8);
+     if (levels_b_l == NULL)
+          goto error;
      r = xrtm_set_levels_b_l_1(d, i_deriv, levels_b_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_levels_b_l_1()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(levels_b_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(levels_b_l_ndarray);
+     return NULL;
 }
 
 
@@ -1119,23 +1191,30 @@ static PyObject *xrtm_set_levels_b_l_n_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *levels_b_l_object  = NULL;
      PyObject *levels_b_l_ndarray = NULL;
-     double **levels_b_l;
+     double **levels_b_l = NULL;
      if (! PyArg_ParseTuple(args, "O", &levels_b_l_object))
           return NULL;
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_out_levels, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      levels_b_l = (double **) array_from_ndarray(levels_b_l_ndarray, 8);
+     if (levels_b_l == NULL)
+          goto error;
      r = xrtm_set_levels_b_l_n(d, levels_b_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_levels_b_l_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(levels_b_l_ndarray);
      free_array(levels_b_l, 2);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(levels_b_l_ndarray);
+     if (levels_b_l != NULL)
+          free_array(levels_b_l, 2);
+     return NULL;
 }
 
 
@@ -1146,20 +1225,25 @@ static PyObject *xrtm_get_levels_b_l_py(xrtm_data_py *self, PyObject *args)
      int i_deriv;
      npy_intp dims[1];
      PyObject *levels_b_l_ndarray = NULL;
-     double *levels_b_l;
+     double *levels_b_l = NULL;
      if (! PyArg_ParseTuple(args, "i", &i_deriv))
           return NULL;
      dims[0] = d->n_out_levels;
      levels_b_l_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_l_ndarray == NULL)
-          return NULL;
+          goto error;
      levels_b_l = (double *) array_from_ndarray(levels_b_l_ndarray, 8);
+     if (levels_b_l == NULL)
+          goto error;
      r = xrtm_get_levels_b_l(d, i_deriv, levels_b_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_levels_b_l()");
-          return NULL;
+          goto error;
      }
      return Py_BuildValue("N", levels_b_l_ndarray);
+error:
+     Py_XDECREF(levels_b_l_ndarray);
+     return NULL;
 }
 
 
@@ -1217,22 +1301,27 @@ static PyObject *xrtm_set_surface_b_l_n_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *surface_b_l_object  = NULL;
      PyObject *surface_b_l_ndarray = NULL;
-     double *surface_b_l;
+     double *surface_b_l = NULL;
      if (! PyArg_ParseTuple(args, "O", &surface_b_l_object))
           return NULL;
      surface_b_l_ndarray = PyArray_FROM_OTF(surface_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (surface_b_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(surface_b_l_ndarray, "surface_b_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      surface_b_l = (double *) array_from_ndarray(surface_b_l_ndarray, 8);
+     if (surface_b_l == NULL)
+          goto error;
      r = xrtm_set_surface_b_l_n(d, surface_b_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_surface_b_l_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(surface_b_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(surface_b_l_ndarray);
+     return NULL;
 }
 
 
@@ -1275,22 +1364,27 @@ static PyObject *xrtm_set_g_n_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *g_object  = NULL;
      PyObject *g_ndarray = NULL;
-     double *g;
+     double *g = NULL;
      if (! PyArg_ParseTuple(args, "O", &g_object))
           return NULL;
      g_ndarray = PyArray_FROM_OTF(g_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (g_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(g_ndarray, "g", 1, d->n_layers) < 0)
-          return NULL;
+          goto error;
      g = (double *) array_from_ndarray(g_ndarray, 8);
+     if (g == NULL)
+          goto error;
      r = xrtm_set_g_n(d, g);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_g_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(g_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(g_ndarray);
+     return NULL;
 }
 
 
@@ -1335,22 +1429,27 @@ static PyObject *xrtm_set_g_l_n1_py(xrtm_data_py *self, PyObject *args)
      int i_deriv;
      PyObject *g_l_object  = NULL;
      PyObject *g_l_ndarray = NULL;
-     double *g_l;
+     double *g_l = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_deriv, &g_l_object))
           return NULL;
      g_l_ndarray = PyArray_FROM_OTF(g_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (g_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(g_l_ndarray, "g_l", 1, d->n_layers) < 0)
-          return NULL;
+          goto error;
      g_l = (double *) array_from_ndarray(g_l_ndarray, 8);
+     if (g_l == NULL)
+          goto error;
      r = xrtm_set_g_l_n1(d, i_deriv, g_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_g_l_n1()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(g_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(g_l_ndarray);
+     return NULL;
 }
 
 
@@ -1361,22 +1460,27 @@ static PyObject *xrtm_set_g_l_1n_py(xrtm_data_py *self, PyObject *args)
      int i_layer;
      PyObject *g_l_object  = NULL;
      PyObject *g_l_ndarray = NULL;
-     double *g_l;
+     double *g_l = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_layer, &g_l_object))
           return NULL;
      g_l_ndarray = PyArray_FROM_OTF(g_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (g_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(g_l_ndarray, "g_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      g_l = (double *) array_from_ndarray(g_l_ndarray, 8);
+     if (g_l == NULL)
+          goto error;
      r = xrtm_set_g_l_1n(d, i_layer, g_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_g_l_1n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(g_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(g_l_ndarray);
+     return NULL;
 }
 
 
@@ -1386,23 +1490,30 @@ static PyObject *xrtm_set_g_l_nn_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *g_l_object  = NULL;
      PyObject *g_l_ndarray = NULL;
-     double **g_l;
+     double **g_l = NULL;
      if (! PyArg_ParseTuple(args, "O", &g_l_object))
           return NULL;
      g_l_ndarray = PyArray_FROM_OTF(g_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (g_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(g_l_ndarray, "g_l", 2, d->n_layers, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      g_l = (double **) array_from_ndarray(g_l_ndarray, 8);
+     if (g_l == NULL)
+          goto error;
      r = xrtm_set_g_l_nn(d, g_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_g_l_nn()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(g_l_ndarray);
      free_array(g_l, 2);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(g_l_ndarray);
+     if (g_l != NULL)
+          free_array(g_l, 2);
+     return NULL;
 }
 
 
@@ -1431,23 +1542,30 @@ static PyObject *xrtm_set_coef_1_py(xrtm_data_py *self, PyObject *args)
      int n_coef_layer;
      PyObject *coef_object  = NULL;
      PyObject *coef_ndarray = NULL;
-     double **coef;
+     double **coef = NULL;
      if (! PyArg_ParseTuple(args, "iiO", &i_layer, &n_coef_layer, &coef_object))
           return NULL;
      coef_ndarray = PyArray_FROM_OTF(coef_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(coef_ndarray, "coef", 2, d->n_elem, n_coef_layer) < 0)
-          return NULL;
+          goto error;
      coef = (double **) array_from_ndarray(coef_ndarray, 8);
+     if (coef == NULL)
+          goto error;
      r = xrtm_set_coef_1(d, i_layer, n_coef_layer, coef);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_coef_1()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(coef_ndarray);
      free_array(coef, 2);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(coef_ndarray);
+     if (coef != NULL)
+          free_array(coef, 2);
+     return NULL;
 }
 
 
@@ -1457,33 +1575,43 @@ static PyObject *xrtm_set_coef_n_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *n_coef_layer_object  = NULL;
      PyObject *n_coef_layer_ndarray = NULL;
-     int *n_coef_layer;
+     int *n_coef_layer = NULL;
      PyObject *coef_object  = NULL;
      PyObject *coef_ndarray = NULL;
-     double ***coef;
+     double ***coef = NULL;
      if (! PyArg_ParseTuple(args, "OO", &n_coef_layer_object, &coef_object))
           return NULL;
      n_coef_layer_ndarray = PyArray_FROM_OTF(n_coef_layer_object, NPY_INT, NPY_ARRAY_IN_ARRAY);
      if (n_coef_layer_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(n_coef_layer_ndarray, "n_coef_layer", 1, d->n_layers) < 0)
-          return NULL;
+          goto error;
      n_coef_layer = (int *) array_from_ndarray(n_coef_layer_ndarray, 4);
+     if (n_coef_layer == NULL)
+          goto error;
      coef_ndarray = PyArray_FROM_OTF(coef_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(coef_ndarray, "coef", 3, d->n_layers, d->n_elem, d->n_coef) < 0)
-          return NULL;
+          goto error;
      coef = (double ***) array_from_ndarray(coef_ndarray, 8);
+     if (coef == NULL)
+          goto error;
      r = xrtm_set_coef_n(d, n_coef_layer, coef);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_coef_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(n_coef_layer_ndarray);
      Py_DECREF(coef_ndarray);
      free_array(coef, 3);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(n_coef_layer_ndarray);
+     Py_XDECREF(coef_ndarray);
+     if (coef != NULL)
+          free_array(coef, 3);
+     return NULL;
 }
 
 
@@ -1529,23 +1657,30 @@ static PyObject *xrtm_set_coef_l_11_py(xrtm_data_py *self, PyObject *args)
      int i_deriv;
      PyObject *coef_l_object  = NULL;
      PyObject *coef_l_ndarray = NULL;
-     double **coef_l;
+     double **coef_l = NULL;
      if (! PyArg_ParseTuple(args, "iiO", &i_layer, &i_deriv, &coef_l_object))
           return NULL;
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(coef_l_ndarray, "coef_l", 2, d->n_elem, d->n_coef_layer && i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0) < 0)
-          return NULL;
+          goto error;
      coef_l = (double **) array_from_ndarray(coef_l_ndarray, 8);
+     if (coef_l == NULL)
+          goto error;
      r = xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_coef_l_11()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(coef_l_ndarray);
      free_array(coef_l, 2);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(coef_l_ndarray);
+     if (coef_l != NULL)
+          free_array(coef_l, 2);
+     return NULL;
 }
 
 
@@ -1556,23 +1691,30 @@ static PyObject *xrtm_set_coef_l_n1_py(xrtm_data_py *self, PyObject *args)
      int i_deriv;
      PyObject *coef_l_object  = NULL;
      PyObject *coef_l_ndarray = NULL;
-     double ***coef_l;
+     double ***coef_l = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_deriv, &coef_l_object))
           return NULL;
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(coef_l_ndarray, "coef_l", 3, d->n_layers, d->n_elem, d->n_coef) < 0)
-          return NULL;
+          goto error;
      coef_l = (double ***) array_from_ndarray(coef_l_ndarray, 8);
+     if (coef_l == NULL)
+          goto error;
      r = xrtm_set_coef_l_n1(d, i_deriv, coef_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_coef_l_n1()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(coef_l_ndarray);
      free_array(coef_l, 3);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(coef_l_ndarray);
+     if (coef_l != NULL)
+          free_array(coef_l, 3);
+     return NULL;
 }
 
 
@@ -1583,23 +1725,30 @@ static PyObject *xrtm_set_coef_l_1n_py(xrtm_data_py *self, PyObject *args)
      int i_layer;
      PyObject *coef_l_object  = NULL;
      PyObject *coef_l_ndarray = NULL;
-     double ***coef_l;
+     double ***coef_l = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_layer, &coef_l_object))
           return NULL;
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(coef_l_ndarray, "coef_l", 3, d->n_derivs, d->n_elem, d->n_coef_layer && i_layer >= 0 && i_layer < d->n_layers ? d->n_coef_layer[i_layer] : 0) < 0)
-          return NULL;
+          goto error;
      coef_l = (double ***) array_from_ndarray(coef_l_ndarray, 8);
+     if (coef_l == NULL)
+          goto error;
      r = xrtm_set_coef_l_1n(d, i_layer, coef_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_coef_l_1n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(coef_l_ndarray);
      free_array(coef_l, 3);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(coef_l_ndarray);
+     if (coef_l != NULL)
+          free_array(coef_l, 3);
+     return NULL;
 }
 
 
@@ -1609,23 +1758,30 @@ static PyObject *xrtm_set_coef_l_nn_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *coef_l_object  = NULL;
      PyObject *coef_l_ndarray = NULL;
-     double ****coef_l;
+     double ****coef_l = NULL;
      if (! PyArg_ParseTuple(args, "O", &coef_l_object))
           return NULL;
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(coef_l_ndarray, "coef_l", 4, d->n_layers, d->n_derivs, d->n_elem, d->n_coef) < 0)
-          return NULL;
+          goto error;
      coef_l = (double ****) array_from_ndarray(coef_l_ndarray, 8);
+     if (coef_l == NULL)
+          goto error;
      r = xrtm_set_coef_l_nn(d, coef_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_coef_l_nn()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(coef_l_ndarray);
      free_array(coef_l, 4);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(coef_l_ndarray);
+     if (coef_l != NULL)
+          free_array(coef_l, 4);
+     return NULL;
 }
 
 
@@ -1671,22 +1827,27 @@ static PyObject *xrtm_set_omega_n_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *omega_object  = NULL;
      PyObject *omega_ndarray = NULL;
-     double *omega;
+     double *omega = NULL;
      if (! PyArg_ParseTuple(args, "O", &omega_object))
           return NULL;
      omega_ndarray = PyArray_FROM_OTF(omega_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (omega_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(omega_ndarray, "omega", 1, d->n_layers) < 0)
-          return NULL;
+          goto error;
      omega = (double *) array_from_ndarray(omega_ndarray, 8);
+     if (omega == NULL)
+          goto error;
      r = xrtm_set_omega_n(d, omega);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_omega_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(omega_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(omega_ndarray);
+     return NULL;
 }
 
 
@@ -1731,22 +1892,27 @@ static PyObject *xrtm_set_omega_l_n1_py(xrtm_data_py *self, PyObject *args)
      int i_deriv;
      PyObject *omega_l_object  = NULL;
      PyObject *omega_l_ndarray = NULL;
-     double *omega_l;
+     double *omega_l = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_deriv, &omega_l_object))
           return NULL;
      omega_l_ndarray = PyArray_FROM_OTF(omega_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (omega_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(omega_l_ndarray, "omega_l", 1, d->n_layers) < 0)
-          return NULL;
+          goto error;
      omega_l = (double *) array_from_ndarray(omega_l_ndarray, 8);
+     if (omega_l == NULL)
+          goto error;
      r = xrtm_set_omega_l_n1(d, i_deriv, omega_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_omega_l_n1()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(omega_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(omega_l_ndarray);
+     return NULL;
 }
 
 
@@ -1757,22 +1923,27 @@ static PyObject *xrtm_set_omega_l_1n_py(xrtm_data_py *self, PyObject *args)
      int i_layer;
      PyObject *omega_l_object  = NULL;
      PyObject *omega_l_ndarray = NULL;
-     double *omega_l;
+     double *omega_l = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_layer, &omega_l_object))
           return NULL;
      omega_l_ndarray = PyArray_FROM_OTF(omega_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (omega_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(omega_l_ndarray, "omega_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      omega_l = (double *) array_from_ndarray(omega_l_ndarray, 8);
+     if (omega_l == NULL)
+          goto error;
      r = xrtm_set_omega_l_1n(d, i_layer, omega_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_omega_l_1n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(omega_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(omega_l_ndarray);
+     return NULL;
 }
 
 
@@ -1782,23 +1953,30 @@ static PyObject *xrtm_set_omega_l_nn_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *omega_l_object  = NULL;
      PyObject *omega_l_ndarray = NULL;
-     double **omega_l;
+     double **omega_l = NULL;
      if (! PyArg_ParseTuple(args, "O", &omega_l_object))
           return NULL;
      omega_l_ndarray = PyArray_FROM_OTF(omega_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (omega_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(omega_l_ndarray, "omega_l", 2, d->n_layers, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      omega_l = (double **) array_from_ndarray(omega_l_ndarray, 8);
+     if (omega_l == NULL)
+          goto error;
      r = xrtm_set_omega_l_nn(d, omega_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_omega_l_nn()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(omega_l_ndarray);
      free_array(omega_l, 2);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(omega_l_ndarray);
+     if (omega_l != NULL)
+          free_array(omega_l, 2);
+     return NULL;
 }
 
 
@@ -1842,22 +2020,27 @@ static PyObject *xrtm_set_ltau_n_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *ltau_object  = NULL;
      PyObject *ltau_ndarray = NULL;
-     double *ltau;
+     double *ltau = NULL;
      if (! PyArg_ParseTuple(args, "O", &ltau_object))
           return NULL;
      ltau_ndarray = PyArray_FROM_OTF(ltau_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (ltau_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(ltau_ndarray, "ltau", 1, d->n_layers) < 0)
-          return NULL;
+          goto error;
      ltau = (double *) array_from_ndarray(ltau_ndarray, 8);
+     if (ltau == NULL)
+          goto error;
      r = xrtm_set_ltau_n(d, ltau);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_ltau_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(ltau_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(ltau_ndarray);
+     return NULL;
 }
 
 
@@ -1902,22 +2085,27 @@ static PyObject *xrtm_set_ltau_l_n1_py(xrtm_data_py *self, PyObject *args)
      int i_deriv;
      PyObject *ltau_l_object  = NULL;
      PyObject *ltau_l_ndarray = NULL;
-     double *ltau_l;
+     double *ltau_l = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_deriv, &ltau_l_object))
           return NULL;
      ltau_l_ndarray = PyArray_FROM_OTF(ltau_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (ltau_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(ltau_l_ndarray, "ltau_l", 1, d->n_layers) < 0)
-          return NULL;
+          goto error;
      ltau_l = (double *) array_from_ndarray(ltau_l_ndarray, 8);
+     if (ltau_l == NULL)
+          goto error;
      r = xrtm_set_ltau_l_n1(d, i_deriv, ltau_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_ltau_l_n1()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(ltau_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(ltau_l_ndarray);
+     return NULL;
 }
 
 
@@ -1928,22 +2116,27 @@ static PyObject *xrtm_set_ltau_l_1n_py(xrtm_data_py *self, PyObject *args)
      int i_layer;
      PyObject *ltau_l_object  = NULL;
      PyObject *ltau_l_ndarray = NULL;
-     double *ltau_l;
+     double *ltau_l = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_layer, &ltau_l_object))
           return NULL;
      ltau_l_ndarray = PyArray_FROM_OTF(ltau_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (ltau_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(ltau_l_ndarray, "ltau_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      ltau_l = (double *) array_from_ndarray(ltau_l_ndarray, 8);
+     if (ltau_l == NULL)
+          goto error;
      r = xrtm_set_ltau_l_1n(d, i_layer, ltau_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_ltau_l_1n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(ltau_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(ltau_l_ndarray);
+     return NULL;
 }
 
 
@@ -1953,23 +2146,30 @@ static PyObject *xrtm_set_ltau_l_nn_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *ltau_l_object  = NULL;
      PyObject *ltau_l_ndarray = NULL;
-     double **ltau_l;
+     double **ltau_l = NULL;
      if (! PyArg_ParseTuple(args, "O", &ltau_l_object))
           return NULL;
      ltau_l_ndarray = PyArray_FROM_OTF(ltau_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (ltau_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(ltau_l_ndarray, "ltau_l", 2, d->n_layers, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      ltau_l = (double **) array_from_ndarray(ltau_l_ndarray, 8);
+     if (ltau_l == NULL)
+          goto error;
      r = xrtm_set_ltau_l_nn(d, ltau_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_ltau_l_nn()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(ltau_l_ndarray);
      free_array(ltau_l, 2);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(ltau_l_ndarray);
+     if (ltau_l != NULL)
+          free_array(ltau_l, 2);
+     return NULL;
 }
 
 
@@ -2048,22 +2248,27 @@ static PyObject *xrtm_set_kernel_params_n_py(xrtm_data_py *self, PyObject *args)
      int i_kernel;
      PyObject *params_object  = NULL;
      PyObject *params_ndarray = NULL;
-     double *params;
+     double *params = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_kernel, &params_object))
           return NULL;
      params_ndarray = PyArray_FROM_OTF(params_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(params_ndarray, "params", 1, i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0) < 0)
-          return NULL;
+          goto error;
      params = (double *) array_from_ndarray(params_ndarray, 8);
+     if (params == NULL)
+          goto error;
      r = xrtm_set_kernel_params_n(d, i_kernel, params);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_kernel_params_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(params_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(params_ndarray);
+     return NULL;
 }
 
 
@@ -2109,22 +2314,27 @@ static PyObject *xrtm_set_kernel_ampfac_l_n_py(xrtm_data_py *self, PyObject *arg
      int i_kernel;
      PyObject *ampfac_l_object  = NULL;
      PyObject *ampfac_l_ndarray = NULL;
-     double *ampfac_l;
+     double *ampfac_l = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_kernel, &ampfac_l_object))
           return NULL;
      ampfac_l_ndarray = PyArray_FROM_OTF(ampfac_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (ampfac_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(ampfac_l_ndarray, "ampfac_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      ampfac_l = (double *) array_from_ndarray(ampfac_l_ndarray, 8);
+     if (ampfac_l == NULL)
+          goto error;
      r = xrtm_set_kernel_ampfac_l_n(d, i_kernel, ampfac_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_kernel_ampfac_l_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(ampfac_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(ampfac_l_ndarray);
+     return NULL;
 }
 
 
@@ -2172,22 +2382,27 @@ static PyObject *xrtm_set_kernel_params_l_1n_py(xrtm_data_py *self, PyObject *ar
      int i_deriv;
      PyObject *params_l_object  = NULL;
      PyObject *params_l_ndarray = NULL;
-     double *params_l;
+     double *params_l = NULL;
      if (! PyArg_ParseTuple(args, "iiO", &i_kernel, &i_deriv, &params_l_object))
           return NULL;
      params_l_ndarray = PyArray_FROM_OTF(params_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(params_l_ndarray, "params_l", 1, i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0) < 0)
-          return NULL;
+          goto error;
      params_l = (double *) array_from_ndarray(params_l_ndarray, 8);
+     if (params_l == NULL)
+          goto error;
      r = xrtm_set_kernel_params_l_1n(d, i_kernel, i_deriv, params_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_kernel_params_l_1n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(params_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(params_l_ndarray);
+     return NULL;
 }
 
 
@@ -2199,22 +2414,27 @@ static PyObject *xrtm_set_kernel_params_l_n1_py(xrtm_data_py *self, PyObject *ar
      int i_param;
      PyObject *params_l_object  = NULL;
      PyObject *params_l_ndarray = NULL;
-     double *params_l;
+     double *params_l = NULL;
      if (! PyArg_ParseTuple(args, "iiO", &i_kernel, &i_param, &params_l_object))
           return NULL;
      params_l_ndarray = PyArray_FROM_OTF(params_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(params_l_ndarray, "params_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      params_l = (double *) array_from_ndarray(params_l_ndarray, 8);
+     if (params_l == NULL)
+          goto error;
      r = xrtm_set_kernel_params_l_n1(d, i_kernel, i_param, params_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_kernel_params_l_n1()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(params_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(params_l_ndarray);
+     return NULL;
 }
 
 
@@ -2225,23 +2445,30 @@ static PyObject *xrtm_set_kernel_params_l_nn_py(xrtm_data_py *self, PyObject *ar
      int i_kernel;
      PyObject *params_l_object  = NULL;
      PyObject *params_l_ndarray = NULL;
-     double **params_l;
+     double **params_l = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_kernel, &params_l_object))
           return NULL;
      params_l_ndarray = PyArray_FROM_OTF(params_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(params_l_ndarray, "params_l", 2, d->n_derivs, i_kernel >= 0 && i_kernel < d->n_kernels ? kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]) : 0) < 0)
-          return NULL;
+          goto error;
      params_l = (double **) array_from_ndarray(params_l_ndarray, 8);
+     if (params_l == NULL)
+          goto error;
      r = xrtm_set_kernel_params_l_nn(d, i_kernel, params_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_kernel_params_l_nn()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(params_l_ndarray);
      free_array(params_l, 2);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(params_l_ndarray);
+     if (params_l != NULL)
+          free_array(params_l, 2);
+     return NULL;
 }
 
 
@@ -2284,20 +2511,25 @@ static PyObject *xrtm_qx_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      npy_intp dims[1];
      PyObject *qx_ndarray = NULL;
-     double *qx;
+     double *qx = NULL;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
      dims[0] = d->n_quad + d->n_umus;
      qx_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (qx_ndarray == NULL)
-          return NULL;
+          goto error;
      qx = (double *) array_from_ndarray(qx_ndarray, 8);
+     if (qx == NULL)
+          goto error;
      r = xrtm_qx(d, qx);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_qx()");
-          return NULL;
+          goto error;
      }
      return Py_BuildValue("N", qx_ndarray);
+error:
+     Py_XDECREF(qx_ndarray);
+     return NULL;
 }
 
 
@@ -2307,20 +2539,25 @@ static PyObject *xrtm_qw_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      npy_intp dims[1];
      PyObject *qw_ndarray = NULL;
-     double *qw;
+     double *qw = NULL;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
      dims[0] = d->n_quad + d->n_umus;
      qw_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (qw_ndarray == NULL)
-          return NULL;
+          goto error;
      qw = (double *) array_from_ndarray(qw_ndarray, 8);
+     if (qw == NULL)
+          goto error;
      r = xrtm_qw(d, qw);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_qw()");
-          return NULL;
+          goto error;
      }
      return Py_BuildValue("N", qw_ndarray);
+error:
+     Py_XDECREF(qw_ndarray);
+     return NULL;
 }
 
 
@@ -2330,20 +2567,25 @@ static PyObject *xrtm_kernel_qx_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      npy_intp dims[1];
      PyObject *kernel_qx_ndarray = NULL;
-     double *kernel_qx;
+     double *kernel_qx = NULL;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
      dims[0] = d->n_kernel_quad;
      kernel_qx_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (kernel_qx_ndarray == NULL)
-          return NULL;
+          goto error;
      kernel_qx = (double *) array_from_ndarray(kernel_qx_ndarray, 8);
+     if (kernel_qx == NULL)
+          goto error;
      r = xrtm_kernel_qx(d, kernel_qx);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_kernel_qx()");
-          return NULL;
+          goto error;
      }
      return Py_BuildValue("N", kernel_qx_ndarray);
+error:
+     Py_XDECREF(kernel_qx_ndarray);
+     return NULL;
 }
 
 
@@ -2353,20 +2595,25 @@ static PyObject *xrtm_kernel_qw_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      npy_intp dims[1];
      PyObject *kernel_qw_ndarray = NULL;
-     double *kernel_qw;
+     double *kernel_qw = NULL;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
      dims[0] = d->n_kernel_quad;
      kernel_qw_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (kernel_qw_ndarray == NULL)
-          return NULL;
+          goto error;
      kernel_qw = (double *) array_from_ndarray(kernel_qw_ndarray, 8);
+     if (kernel_qw == NULL)
+          goto error;
      r = xrtm_kernel_qw(d, kernel_qw);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_kernel_qw()");
-          return NULL;
+          goto error;
      }
      return Py_BuildValue("N", kernel_qw_ndarray);
+error:
+     Py_XDECREF(kernel_qw_ndarray);
+     return NULL;
 }
 
 
@@ -2380,36 +2627,36 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      int n_out_phis;
      PyObject *out_phis_object  = NULL;
      PyObject *out_phis_ndarray = NULL;
-     double **out_phis;
+     double **out_phis = NULL;
      npy_intp dims[5];
      PyObject *I_p_ndarray = NULL;
-     double ****I_p;
+     double ****I_p = NULL;
      PyObject *I_m_ndarray = NULL;
-     double ****I_m;
+     double ****I_m = NULL;
      PyObject *K_p_ndarray = NULL;
-     double *****K_p;
+     double *****K_p = NULL;
      PyObject *K_m_ndarray = NULL;
-     double *****K_m;
+     double *****K_m = NULL;
      PyObject *mean_p_ndarray = NULL;
-     double *mean_p;
+     double *mean_p = NULL;
      PyObject *mean_m_ndarray = NULL;
-     double *mean_m;
+     double *mean_m = NULL;
      PyObject *mean_p_l_ndarray = NULL;
-     double **mean_p_l;
+     double **mean_p_l = NULL;
      PyObject *mean_m_l_ndarray = NULL;
-     double **mean_m_l;
+     double **mean_m_l = NULL;
      PyObject *flux_p_ndarray = NULL;
-     double *flux_p;
+     double *flux_p = NULL;
      PyObject *flux_m_ndarray = NULL;
-     double *flux_m;
+     double *flux_m = NULL;
      PyObject *flux_p_l_ndarray = NULL;
-     double **flux_p_l;
+     double **flux_p_l = NULL;
      PyObject *flux_m_l_ndarray = NULL;
-     double **flux_m_l;
+     double **flux_m_l = NULL;
      PyObject *flux_div_ndarray = NULL;
-     double *flux_div;
+     double *flux_div = NULL;
      PyObject *flux_div_l_ndarray = NULL;
-     double **flux_div_l;
+     double **flux_div_l = NULL;
      if (! PyArg_ParseTuple(args, "siiO", &solver_string, &solutions, &n_out_phis, &out_phis_object))
           return NULL;
      solver = xrtm_solver_name_to_mask(solver_string);
@@ -2419,26 +2666,32 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      }
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
-          return NULL;
+          goto error;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
+     if (out_phis == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_out_thetas_2;
      dims[2] = n_out_phis;
      dims[3] = d->n_stokes;
      I_p_ndarray = PyArray_SimpleNew(4, dims, NPY_DOUBLE);
      if (I_p_ndarray == NULL)
-          return NULL;
+          goto error;
      I_p = (double ****) array_from_ndarray(I_p_ndarray, 8);
+     if (I_p == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_out_thetas_2;
      dims[2] = n_out_phis;
      dims[3] = d->n_stokes;
      I_m_ndarray = PyArray_SimpleNew(4, dims, NPY_DOUBLE);
      if (I_m_ndarray == NULL)
-          return NULL;
+          goto error;
      I_m = (double ****) array_from_ndarray(I_m_ndarray, 8);
+     if (I_m == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      dims[2] = d->n_out_thetas_2;
@@ -2446,8 +2699,10 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      dims[4] = d->n_stokes;
      K_p_ndarray = PyArray_SimpleNew(5, dims, NPY_DOUBLE);
      if (K_p_ndarray == NULL)
-          return NULL;
+          goto error;
      K_p = (double *****) array_from_ndarray(K_p_ndarray, 8);
+     if (K_p == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      dims[2] = d->n_out_thetas_2;
@@ -2455,67 +2710,89 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      dims[4] = d->n_stokes;
      K_m_ndarray = PyArray_SimpleNew(5, dims, NPY_DOUBLE);
      if (K_m_ndarray == NULL)
-          return NULL;
+          goto error;
      K_m = (double *****) array_from_ndarray(K_m_ndarray, 8);
+     if (K_m == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      mean_p_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (mean_p_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_p = (double *) array_from_ndarray(mean_p_ndarray, 8);
+     if (mean_p == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      mean_m_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (mean_m_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_m = (double *) array_from_ndarray(mean_m_ndarray, 8);
+     if (mean_m == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      mean_p_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (mean_p_l_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_p_l = (double **) array_from_ndarray(mean_p_l_ndarray, 8);
+     if (mean_p_l == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      mean_m_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (mean_m_l_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_m_l = (double **) array_from_ndarray(mean_m_l_ndarray, 8);
+     if (mean_m_l == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      flux_p_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (flux_p_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_p = (double *) array_from_ndarray(flux_p_ndarray, 8);
+     if (flux_p == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      flux_m_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (flux_m_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_m = (double *) array_from_ndarray(flux_m_ndarray, 8);
+     if (flux_m == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      flux_p_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (flux_p_l_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_p_l = (double **) array_from_ndarray(flux_p_l_ndarray, 8);
+     if (flux_p_l == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      flux_m_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (flux_m_l_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_m_l = (double **) array_from_ndarray(flux_m_l_ndarray, 8);
+     if (flux_m_l == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      flux_div_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (flux_div_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_div = (double *) array_from_ndarray(flux_div_ndarray, 8);
+     if (flux_div == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      flux_div_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (flux_div_l_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_div_l = (double **) array_from_ndarray(flux_div_l_ndarray, 8);
+     if (flux_div_l == NULL)
+          goto error;
      r = xrtm_solution(d, (enum xrtm_solver_mask) solver, solutions, n_out_phis, out_phis, I_p, I_m, K_p, K_m, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_solution()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(out_phis_ndarray);
      free_array(out_phis, 2);
@@ -2529,6 +2806,43 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      free_array(flux_m_l, 2);
      free_array(flux_div_l, 2);
      return Py_BuildValue("NNNNNNNNNNNNNN", I_p_ndarray, I_m_ndarray, K_p_ndarray, K_m_ndarray, mean_p_ndarray, mean_m_ndarray, mean_p_l_ndarray, mean_m_l_ndarray, flux_p_ndarray, flux_m_ndarray, flux_p_l_ndarray, flux_m_l_ndarray, flux_div_ndarray, flux_div_l_ndarray);
+error:
+     Py_XDECREF(out_phis_ndarray);
+     Py_XDECREF(I_p_ndarray);
+     Py_XDECREF(I_m_ndarray);
+     Py_XDECREF(K_p_ndarray);
+     Py_XDECREF(K_m_ndarray);
+     Py_XDECREF(mean_p_ndarray);
+     Py_XDECREF(mean_m_ndarray);
+     Py_XDECREF(mean_p_l_ndarray);
+     Py_XDECREF(mean_m_l_ndarray);
+     Py_XDECREF(flux_p_ndarray);
+     Py_XDECREF(flux_m_ndarray);
+     Py_XDECREF(flux_p_l_ndarray);
+     Py_XDECREF(flux_m_l_ndarray);
+     Py_XDECREF(flux_div_ndarray);
+     Py_XDECREF(flux_div_l_ndarray);
+     if (out_phis != NULL)
+          free_array(out_phis, 2);
+     if (I_p != NULL)
+          free_array(I_p, 4);
+     if (I_m != NULL)
+          free_array(I_m, 4);
+     if (K_p != NULL)
+          free_array(K_p, 5);
+     if (K_m != NULL)
+          free_array(K_m, 5);
+     if (mean_p_l != NULL)
+          free_array(mean_p_l, 2);
+     if (mean_m_l != NULL)
+          free_array(mean_m_l, 2);
+     if (flux_p_l != NULL)
+          free_array(flux_p_l, 2);
+     if (flux_m_l != NULL)
+          free_array(flux_m_l, 2);
+     if (flux_div_l != NULL)
+          free_array(flux_div_l, 2);
+     return NULL;
 }
 
 
@@ -2541,16 +2855,16 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      int n_out_phis;
      PyObject *out_phis_object  = NULL;
      PyObject *out_phis_ndarray = NULL;
-     double **out_phis;
+     double **out_phis = NULL;
      npy_intp dims[5];
      PyObject *I_p_ndarray = NULL;
-     double ****I_p;
+     double ****I_p = NULL;
      PyObject *I_m_ndarray = NULL;
-     double ****I_m;
+     double ****I_m = NULL;
      PyObject *K_p_ndarray = NULL;
-     double *****K_p;
+     double *****K_p = NULL;
      PyObject *K_m_ndarray = NULL;
-     double *****K_m;
+     double *****K_m = NULL;
      if (! PyArg_ParseTuple(args, "siO", &solver_string, &n_out_phis, &out_phis_object))
           return NULL;
      solver = xrtm_solver_name_to_mask(solver_string);
@@ -2560,26 +2874,32 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      }
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas_2, n_out_phis) < 0)
-          return NULL;
+          goto error;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
+     if (out_phis == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_out_thetas_2;
      dims[2] = n_out_phis;
      dims[3] = d->n_stokes;
      I_p_ndarray = PyArray_SimpleNew(4, dims, NPY_DOUBLE);
      if (I_p_ndarray == NULL)
-          return NULL;
+          goto error;
      I_p = (double ****) array_from_ndarray(I_p_ndarray, 8);
+     if (I_p == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_out_thetas_2;
      dims[2] = n_out_phis;
      dims[3] = d->n_stokes;
      I_m_ndarray = PyArray_SimpleNew(4, dims, NPY_DOUBLE);
      if (I_m_ndarray == NULL)
-          return NULL;
+          goto error;
      I_m = (double ****) array_from_ndarray(I_m_ndarray, 8);
+     if (I_m == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      dims[2] = d->n_out_thetas_2;
@@ -2587,8 +2907,10 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      dims[4] = d->n_stokes;
      K_p_ndarray = PyArray_SimpleNew(5, dims, NPY_DOUBLE);
      if (K_p_ndarray == NULL)
-          return NULL;
+          goto error;
      K_p = (double *****) array_from_ndarray(K_p_ndarray, 8);
+     if (K_p == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      dims[2] = d->n_out_thetas_2;
@@ -2596,12 +2918,14 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      dims[4] = d->n_stokes;
      K_m_ndarray = PyArray_SimpleNew(5, dims, NPY_DOUBLE);
      if (K_m_ndarray == NULL)
-          return NULL;
+          goto error;
      K_m = (double *****) array_from_ndarray(K_m_ndarray, 8);
+     if (K_m == NULL)
+          goto error;
      r = xrtm_radiance(d, (enum xrtm_solver_mask) solver, n_out_phis, out_phis, I_p, I_m, K_p, K_m);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_radiance()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(out_phis_ndarray);
      free_array(out_phis, 2);
@@ -2610,6 +2934,23 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      free_array(K_p, 5);
      free_array(K_m, 5);
      return Py_BuildValue("NNNN", I_p_ndarray, I_m_ndarray, K_p_ndarray, K_m_ndarray);
+error:
+     Py_XDECREF(out_phis_ndarray);
+     Py_XDECREF(I_p_ndarray);
+     Py_XDECREF(I_m_ndarray);
+     Py_XDECREF(K_p_ndarray);
+     Py_XDECREF(K_m_ndarray);
+     if (out_phis != NULL)
+          free_array(out_phis, 2);
+     if (I_p != NULL)
+          free_array(I_p, 4);
+     if (I_m != NULL)
+          free_array(I_m, 4);
+     if (K_p != NULL)
+          free_array(K_p, 5);
+     if (K_m != NULL)
+          free_array(K_m, 5);
+     return NULL;
 }
 
 
@@ -2621,13 +2962,13 @@ static PyObject *xrtm_mean_radiance_py(xrtm_data_py *self, PyObject *args)
      const char *solver_string = NULL;
      npy_intp dims[2];
      PyObject *mean_p_ndarray = NULL;
-     double *mean_p;
+     double *mean_p = NULL;
      PyObject *mean_m_ndarray = NULL;
-     double *mean_m;
+     double *mean_m = NULL;
      PyObject *mean_p_l_ndarray = NULL;
-     double **mean_p_l;
+     double **mean_p_l = NULL;
      PyObject *mean_m_l_ndarray = NULL;
-     double **mean_m_l;
+     double **mean_m_l = NULL;
      if (! PyArg_ParseTuple(args, "s", &solver_string))
           return NULL;
      solver = xrtm_solver_name_to_mask(solver_string);
@@ -2638,33 +2979,51 @@ static PyObject *xrtm_mean_radiance_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_out_levels;
      mean_p_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (mean_p_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_p = (double *) array_from_ndarray(mean_p_ndarray, 8);
+     if (mean_p == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      mean_m_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (mean_m_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_m = (double *) array_from_ndarray(mean_m_ndarray, 8);
+     if (mean_m == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      mean_p_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (mean_p_l_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_p_l = (double **) array_from_ndarray(mean_p_l_ndarray, 8);
+     if (mean_p_l == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      mean_m_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (mean_m_l_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_m_l = (double **) array_from_ndarray(mean_m_l_ndarray, 8);
+     if (mean_m_l == NULL)
+          goto error;
      r = xrtm_mean_radiance(d, (enum xrtm_solver_mask) solver, mean_p, mean_m, mean_p_l, mean_m_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_mean_radiance()");
-          return NULL;
+          goto error;
      }
      free_array(mean_p_l, 2);
      free_array(mean_m_l, 2);
      return Py_BuildValue("NNNN", mean_p_ndarray, mean_m_ndarray, mean_p_l_ndarray, mean_m_l_ndarray);
+error:
+     Py_XDECREF(mean_p_ndarray);
+     Py_XDECREF(mean_m_ndarray);
+     Py_XDECREF(mean_p_l_ndarray);
+     Py_XDECREF(mean_m_l_ndarray);
+     if (mean_p_l != NULL)
+          free_array(mean_p_l, 2);
+     if (mean_m_l != NULL)
+          free_array(mean_m_l, 2);
+     return NULL;
 }
 
 
@@ -2676,13 +3035,13 @@ static PyObject *xrtm_flux_py(xrtm_data_py *self, PyObject *args)
      const char *solver_string = NULL;
      npy_intp dims[2];
      PyObject *flux_p_ndarray = NULL;
-     double *flux_p;
+     double *flux_p = NULL;
      PyObject *flux_m_ndarray = NULL;
-     double *flux_m;
+     double *flux_m = NULL;
      PyObject *flux_p_l_ndarray = NULL;
-     double **flux_p_l;
+     double **flux_p_l = NULL;
      PyObject *flux_m_l_ndarray = NULL;
-     double **flux_m_l;
+     double **flux_m_l = NULL;
      if (! PyArg_ParseTuple(args, "s", &solver_string))
           return NULL;
      solver = xrtm_solver_name_to_mask(solver_string);
@@ -2693,33 +3052,51 @@ static PyObject *xrtm_flux_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_out_levels;
      flux_p_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (flux_p_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_p = (double *) array_from_ndarray(flux_p_ndarray, 8);
+     if (flux_p == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      flux_m_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (flux_m_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_m = (double *) array_from_ndarray(flux_m_ndarray, 8);
+     if (flux_m == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      flux_p_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (flux_p_l_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_p_l = (double **) array_from_ndarray(flux_p_l_ndarray, 8);
+     if (flux_p_l == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      flux_m_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (flux_m_l_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_m_l = (double **) array_from_ndarray(flux_m_l_ndarray, 8);
+     if (flux_m_l == NULL)
+          goto error;
      r = xrtm_flux(d, (enum xrtm_solver_mask) solver, flux_p, flux_m, flux_p_l, flux_m_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_flux()");
-          return NULL;
+          goto error;
      }
      free_array(flux_p_l, 2);
      free_array(flux_m_l, 2);
      return Py_BuildValue("NNNN", flux_p_ndarray, flux_m_ndarray, flux_p_l_ndarray, flux_m_l_ndarray);
+error:
+     Py_XDECREF(flux_p_ndarray);
+     Py_XDECREF(flux_m_ndarray);
+     Py_XDECREF(flux_p_l_ndarray);
+     Py_XDECREF(flux_m_l_ndarray);
+     if (flux_p_l != NULL)
+          free_array(flux_p_l, 2);
+     if (flux_m_l != NULL)
+          free_array(flux_m_l, 2);
+     return NULL;
 }
 
 
@@ -2731,9 +3108,9 @@ static PyObject *xrtm_flux_divergence_py(xrtm_data_py *self, PyObject *args)
      const char *solver_string = NULL;
      npy_intp dims[2];
      PyObject *flux_div_ndarray = NULL;
-     double *flux_div;
+     double *flux_div = NULL;
      PyObject *flux_div_l_ndarray = NULL;
-     double **flux_div_l;
+     double **flux_div_l = NULL;
      if (! PyArg_ParseTuple(args, "s", &solver_string))
           return NULL;
      solver = xrtm_solver_name_to_mask(solver_string);
@@ -2744,21 +3121,31 @@ static PyObject *xrtm_flux_divergence_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_out_levels;
      flux_div_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (flux_div_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_div = (double *) array_from_ndarray(flux_div_ndarray, 8);
+     if (flux_div == NULL)
+          goto error;
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      flux_div_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (flux_div_l_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_div_l = (double **) array_from_ndarray(flux_div_l_ndarray, 8);
+     if (flux_div_l == NULL)
+          goto error;
      r = xrtm_flux_divergence(d, (enum xrtm_solver_mask) solver, flux_div, flux_div_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_flux_divergence()");
-          return NULL;
+          goto error;
      }
      free_array(flux_div_l, 2);
      return Py_BuildValue("NN", flux_div_ndarray, flux_div_l_ndarray);
+error:
+     Py_XDECREF(flux_div_ndarray);
+     Py_XDECREF(flux_div_l_ndarray);
+     if (flux_div_l != NULL)
+          free_array(flux_div_l, 2);
+     return NULL;
 }
 
 
-- 
2.43.0


From e8a96638adfdaf4b9c00500d963056183aaa88ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:06 +0000
Subject: [PATCH 107/115] fix: Python instances that could not be created were
 destroyed all the same

---
 interfaces/xrtm_int_py.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 0544582..94436c3 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -17,6 +17,7 @@
 typedef struct {
      PyObject_HEAD
      xrtm_data xrtm;
+     int created;
 } xrtm_data_py;
 
 
@@ -69,6 +70,10 @@ static int list_to_array(PyObject *list, int *n, int **array, int (*name_to_valu
      char *error;
      *n = PyList_Size(list);
      *array = malloc(*n * sizeof(int));
+     if (*array == NULL && *n > 0) {
+          PyErr_NoMemory();
+          return -1;
+     }
      for (i = 0; i < *n; ++i) {
 #if PY_MAJOR_VERSION < 3
           r = name_to_value(PyString_AsString(PyList_GetItem(list, i)));
@@ -81,6 +86,7 @@ static int list_to_array(PyObject *list, int *n, int **array, int (*name_to_valu
                sprintf(error, format, name);
                PyErr_SetString(XRTMError, error);
                free(error);
+               free(*array);
                return -1;
           }
           (*array)[i] = r;
@@ -169,9 +175,11 @@ static int xrtm_init(xrtm_data_py *self, PyObject *args)
      r = xrtm_create(d, options, solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernels, n_kernel_quad, (enum xrtm_kernel_type *) kernels, n_out_levels, n_out_thetas);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_create()");
+          free(kernels);
           return -1;
      }
      free(kernels);
+     self->created = 1;
      return 0;
 }
 
@@ -180,10 +188,12 @@ static void xrtm_dealloc(xrtm_data_py *self)
 {
      int r;
      xrtm_data *d = &self->xrtm;
-     r = xrtm_destroy(d);
-     if (r == XRTM_INT_ERROR) {
-          PyErr_SetString(XRTMError, "ERROR: xrtm_destroy()");
-          return ;
+     if (self->created) {
+          r = xrtm_destroy(d);
+          if (r == XRTM_INT_ERROR) {
+               PyErr_SetString(XRTMError, "ERROR: xrtm_destroy()");
+               return ;
+          }
      }
 #if PY_MAJOR_VERSION < 3
      self->ob_type->tp_free((PyObject *) self);
-- 
2.43.0


From a203d7a7709e858c40e5279be32b9b3dd7104c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:45 +0000
Subject: [PATCH 108/115] fix: Python interface sized level temperatures by the
 number of output levels

---
 interfaces/xrtm_int_py.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 94436c3..7d992fe 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -1118,7 +1118,7 @@ static PyObject *xrtm_set_levels_b_py(xrtm_data_py *self, PyObject *args)
      levels_b_ndarray = PyArray_FROM_OTF(levels_b_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_ndarray == NULL)
           goto error;
-     if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_out_levels) < 0)
+     if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_layers + 1) < 0)
           goto error;
      levels_b = (double *) array_from_ndarray(levels_b_ndarray, 8);
      if (levels_b == NULL)
@@ -1145,7 +1145,7 @@ static PyObject *xrtm_get_levels_b_py(xrtm_data_py *self, PyObject *args)
      double *levels_b = NULL;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_out_levels;
+     dims[0] = d->n_layers + 1;
      levels_b_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_ndarray == NULL)
           goto error;
@@ -1207,7 +1207,7 @@ static PyObject *xrtm_set_levels_b_l_n_py(xrtm_data_py *self, PyObject *args)
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
           goto error;
-     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_out_levels, d->n_derivs) < 0)
+     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_layers + 1, d->n_derivs) < 0)
           goto error;
      levels_b_l = (double **) array_from_ndarray(levels_b_l_ndarray, 8);
      if (levels_b_l == NULL)
@@ -1238,7 +1238,7 @@ static PyObject *xrtm_get_levels_b_l_py(xrtm_data_py *self, PyObject *args)
      double *levels_b_l = NULL;
      if (! PyArg_ParseTuple(args, "i", &i_deriv))
           return NULL;
-     dims[0] = d->n_out_levels;
+     dims[0] = d->n_layers + 1;
      levels_b_l_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_l_ndarray == NULL)
           goto error;
-- 
2.43.0


From 6e3dba128cad94947613e04532a010333339d14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:45 +0000
Subject: [PATCH 109/115] fix: Python set_coef_1() refused a negative number of
 coefficients, which stands for all of them

---
 interfaces/xrtm_int_py.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 7d992fe..9445985 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -1558,7 +1558,7 @@ static PyObject *xrtm_set_coef_1_py(xrtm_data_py *self, PyObject *args)
      coef_ndarray = PyArray_FROM_OTF(coef_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_ndarray == NULL)
           goto error;
-     if (check_pyarray_shape(coef_ndarray, "coef", 2, d->n_elem, n_coef_layer) < 0)
+     if (check_pyarray_shape(coef_ndarray, "coef", 2, d->n_elem, n_coef_layer < 0 ? d->n_coef : n_coef_layer) < 0)
           goto error;
      coef = (double **) array_from_ndarray(coef_ndarray, 8);
      if (coef == NULL)
-- 
2.43.0


From 62abb152e2a90babfec503581b6b86a333299203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:26 +0000
Subject: [PATCH 110/115] fix: Python set_levels_b_l_1() expected as many
 values as there are derivatives

---
 interfaces/xrtm_int_py.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 9445985..d9018b5 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -1177,7 +1177,7 @@ static PyObject *xrtm_set_levels_b_l_1_py(xrtm_data_py *self, PyObject *args)
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
           goto error;
-     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_derivs) < 0)
+     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_layers + 1) < 0)
           goto error;
      levels_b_l = (double *) array_from_ndarray(levels_b_l_ndarray, 8);
      if (levels_b_l == NULL)
-- 
2.43.0


From 0daa67118802ebc97006d6257723097ec665ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:53 +0000
Subject: [PATCH 111/115] fix: finite differences of mean radiances and fluxes
 were taken of directions that are not output

---
 src/xrtm_fd_interface.c | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index e8f6d52..67c66bb 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1335,12 +1335,16 @@ static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int soluti
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
                     if (solutions & XRTM_OUTPUT_RADIANCE_MEAN) {
-                         mean_p_l[i][j] = (x2[0][i] - mean_p[i]) / delta;
-                         mean_m_l[i][j] = (x2[1][i] - mean_m[i]) / delta;
+                         if (d->d->options & XRTM_OPTION_UPWELLING_OUTPUT)
+                              mean_p_l[i][j] = (x2[0][i] - mean_p[i]) / delta;
+                         if (d->d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
+                              mean_m_l[i][j] = (x2[1][i] - mean_m[i]) / delta;
                     }
                     if (solutions & XRTM_OUTPUT_FLUX) {
-                         flux_p_l[i][j] = (x2[2][i] - flux_p[i]) / delta;
-                         flux_m_l[i][j] = (x2[3][i] - flux_m[i]) / delta;
+                         if (d->d->options & XRTM_OPTION_UPWELLING_OUTPUT)
+                              flux_p_l[i][j] = (x2[2][i] - flux_p[i]) / delta;
+                         if (d->d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
+                              flux_m_l[i][j] = (x2[3][i] - flux_m[i]) / delta;
                     }
                }
           }
@@ -1373,12 +1377,16 @@ static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int soluti
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
                     if (solutions & XRTM_OUTPUT_RADIANCE_MEAN) {
-                         mean_p_l[i][j]  = x2[0][i] / d->delta[j];
-                         mean_m_l[i][j]  = x2[1][i] / d->delta[j];
+                         if (d->d->options & XRTM_OPTION_UPWELLING_OUTPUT)
+                              mean_p_l[i][j]  = x2[0][i] / d->delta[j];
+                         if (d->d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
+                              mean_m_l[i][j]  = x2[1][i] / d->delta[j];
                     }
                     if (solutions & XRTM_OUTPUT_FLUX) {
-                         flux_p_l[i][j]  = x2[2][i] / d->delta[j];
-                         flux_m_l[i][j]  = x2[3][i] / d->delta[j];
+                         if (d->d->options & XRTM_OPTION_UPWELLING_OUTPUT)
+                              flux_p_l[i][j]  = x2[2][i] / d->delta[j];
+                         if (d->d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
+                              flux_m_l[i][j]  = x2[3][i] / d->delta[j];
                     }
                }
 
@@ -1410,12 +1418,16 @@ static int fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int soluti
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
                     if (solutions & XRTM_OUTPUT_RADIANCE_MEAN) {
-                         mean_p_l[i][j] -= x2[0][i] / d->delta[j];
-                         mean_m_l[i][j] -= x2[1][i] / d->delta[j];
+                         if (d->d->options & XRTM_OPTION_UPWELLING_OUTPUT)
+                              mean_p_l[i][j] -= x2[0][i] / d->delta[j];
+                         if (d->d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
+                              mean_m_l[i][j] -= x2[1][i] / d->delta[j];
                     }
                     if (solutions & XRTM_OUTPUT_FLUX) {
-                         flux_p_l[i][j] -= x2[2][i] / d->delta[j];
-                         flux_m_l[i][j] -= x2[3][i] / d->delta[j];
+                         if (d->d->options & XRTM_OPTION_UPWELLING_OUTPUT)
+                              flux_p_l[i][j] -= x2[2][i] / d->delta[j];
+                         if (d->d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
+                              flux_m_l[i][j] -= x2[3][i] / d->delta[j];
                     }
                }
 
-- 
2.43.0


From 637c2b9ad05d90d3a011f4583efcdf05195638cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:24 +0000
Subject: [PATCH 112/115] fix: xrtm_get_theta_0 and the xrtm_get_surface_b
 functions returned the wrong error value

---
 src/xrtm_interface.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index da59c94..25357d6 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3679,7 +3679,7 @@ double xrtm_get_theta_0(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
           fprintf(stderr, "ERROR: model not initialized for solar sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_mu_0, xrtm_input_index_to_name(INPUT_THETA_0), XRTM_DBL_ERROR);
@@ -3872,7 +3872,7 @@ double xrtm_get_surface_b(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_surface_b, xrtm_input_index_to_name(INPUT_SURFACE_B), XRTM_DBL_ERROR);
@@ -3927,7 +3927,7 @@ double xrtm_get_surface_b_l(xrtm_data *d, int i_deriv) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
-- 
2.43.0


From 353c77cd7c36e1964f7bba61624ac9a5ab2d364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:21 +0000
Subject: [PATCH 113/115] fix: REVERSE_DERIVS without SOURCE_SOLAR followed
 null pointers

The adding solvers saved the solar phase and source vectors, which are only
allocated when there is a solar source, so that every solution ended in a
segmentation fault.
---
 src/xrtm_eig_rts.c | 6 ++++--
 src/xrtm_model.c   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_eig_rts.c b/src/xrtm_eig_rts.c
index a08c0dd..8fb92cd 100644
--- a/src/xrtm_eig_rts.c
+++ b/src/xrtm_eig_rts.c
@@ -405,8 +405,10 @@ else
       *
       *-----------------------------------------------------------------------*/
      if (save_tree.t) {
-          dvec_copy(save->Fs_p,  Fs_p,  n_quad_v);
-          dvec_copy(save->Fs_m,  Fs_m,  n_quad_v);
+          if (solar) {
+               dvec_copy(save->Fs_p,  Fs_p,  n_quad_v);
+               dvec_copy(save->Fs_m,  Fs_m,  n_quad_v);
+          }
 
           dmat_copy(save->tpr,   tpr,   n_quad_v, n_quad_v);
           dmat_copy(save->tmr,   tmr,   n_quad_v, n_quad_v);
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 67cdbc4..4d07aad 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2323,8 +2323,10 @@ if (d->options & XRTM_OPTION_SOURCE_SOLAR) {
 
 
           if (d->options & XRTM_OPTION_REVERSE_DERIVS) {
-               dvec_copy(save->P_q0_mm, P_q0_mm, d->n_quad_v_x);
-               dvec_copy(save->P_q0_pm, P_q0_pm, d->n_quad_v_x);
+               if (d->options & XRTM_OPTION_SOURCE_SOLAR) {
+                    dvec_copy(save->P_q0_mm, P_q0_mm, d->n_quad_v_x);
+                    dvec_copy(save->P_q0_pm, P_q0_pm, d->n_quad_v_x);
+               }
 
                dmat_copy(save->r_p, r_p, d->n_quad_v_x, d->n_quad_v_x);
                dmat_copy(save->t_p, t_p, d->n_quad_v_x, d->n_quad_v_x);
-- 
2.43.0


From d391e64213490effa322a023ac8997df24228fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:57 +0000
Subject: [PATCH 114/115] fix: a solution after a failed update of the varied
 layers followed null pointers

---
 src/xrtm_interface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 25357d6..f623cc8 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5475,6 +5475,12 @@ int xrtm_update_varied_layers(xrtm_data *d) {
      }
 
 
+     /*-------------------------------------------------------------------------
+      * Solutions need this again until it is finished.
+      *-----------------------------------------------------------------------*/
+     d->varied_layers_updated = 1;
+
+
      /*-------------------------------------------------------------------------
       * What is saved follows the layers varied so far.
       *-----------------------------------------------------------------------*/
-- 
2.43.0


From b742d0b6d156c1b394236302d8ab96129f3ed684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:40 +0000
Subject: [PATCH 115/115] fix: Pade orders above the size of the coefficient
 table overflowed the stack

---
 src/xrtm_interface.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index f623cc8..bfd3aa3 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -22,6 +22,7 @@
 #include "xrtm_interface.h"
 #include "xrtm_model.h"
 #include "xrtm_model_a.h"
+#include "xrtm_pade_rts.h"
 #include "xrtm_support.h"
 #include "xrtm_utility.h"
 #include "version.h"
@@ -2954,6 +2955,12 @@ int xrtm_set_pade_params(xrtm_data *d, int pade_s, int pade_r) {
           return XRTM_INT_ERROR;
      }
 */
+     if (pade_r >= MAX_PADE_R) {
+          fprintf(stderr, "ERROR: invalid value for r: %d, "
+                  "must be < %d\n", pade_r, MAX_PADE_R);
+          return XRTM_INT_ERROR;
+     }
+
      d->pade_s = pade_s;
      d->pade_r = pade_r;
 
-- 
2.43.0

