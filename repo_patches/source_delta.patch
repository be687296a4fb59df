From f07bffd9758e8ac49b6074c5825ff747b5dd9ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 001/131] fix: layer R/T/S cache ignores changes of F_0,
 thermal sources and doub_d_tau

---
 src/xrtm_model.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 32ff345..551647b 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2093,9 +2093,18 @@ static int layer_R_T_S_U_W_V_deps(xrtm_data *d) {
      int deps = opt_props_deps(d) | beam_params_deps(d) | phase_vecs_deps_q0(d) |
                 local_r_t_u_w_deps(d);
 
+     if (d->solvers & XRTM_SOLVER_DOUB_ADD)
+          deps |= DEP_MASK_DOUB_D_TAU;
+
      if (d->solvers & XRTM_SOLVER_PADE_ADD)
           deps |= DEP_MASK_PADE_PARAMS;
 
+     if (d->options & XRTM_OPTION_SOURCE_SOLAR)
+          deps |= DEP_MASK_F_0;
+
+     if (d->options & XRTM_OPTION_SOURCE_THERMAL)
+          deps |= DEP_MASK_LEVELS_B | DEP_MASK_LEVELS_B_L;
+
      return deps;
 }
 
-- 
2.43.0


From dd774d5d307094137bdc45935d8ec7c71a21369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 002/131] fix: boundary input cache ignores changes of
 isotropic and surface thermal input and output angles

---
 src/xrtm_model.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 551647b..92f9f91 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4170,7 +4170,8 @@ if (d->derivs.layers[d->n_layers][i]) {
 static int diff_bound_input_deps(xrtm_data *d) {
 
      return opt_props_deps(d) | beam_params_deps(d) |
-            DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_BOT | DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
+            DEP_MASK_UMUS | DEP_MASK_F_ISO_TOP | DEP_MASK_F_ISO_TOP_L | DEP_MASK_F_ISO_BOT | DEP_MASK_F_ISO_BOT_L |
+            DEP_MASK_F_0 | DEP_MASK_MU_0 | DEP_MASK_SURFACE_B | DEP_MASK_SURFACE_B_L | DEP_MASK_BRDF | DEP_MASK_BRDF_L;
 }
 
 
-- 
2.43.0


From c65c3cd84cbf8848fad0c77efc649fedfd0abb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 003/131] fix: beam parameters of lower layers not updated when
 a layer above changes

---
 src/xrtm_interface.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index ee7a45d..80fd21e 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -434,8 +434,11 @@ static void set_deps(xrtm_data *d, int dep, int i_layer, int n_layers) {
           d->dep_flags_diff_bound_input [i] |= dep;
      }
 
-     for (i = i_layer; i < n_layers; ++i) {
+     for (i = i_layer; i < n_layers; ++i)
           d->dep_flags_opt_props   [i]      |= dep;
+
+     /* beam parameters depend on all the layers above */
+     for (i = i_layer; i < d->n_layers; ++i) {
 /*
           d->dep_flags_beam_params0[i]      |= dep;
 */
-- 
2.43.0


From 02af1da467a4c60e71242cd6de4b4e8da5472b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 004/131] fix: saved linearized quantities used for layers that
 were not varied when saved

---
 src/xrtm_interface.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 80fd21e..e645a8e 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -1406,6 +1406,9 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
                fprintf(stderr, "ERROR: flags_alloc2()\n");
                return XRTM_INT_ERROR;
           }
+
+          flags_init2(d->derivs.layers,   d->n_layers + 1, d->n_derivs, 0);
+          flags_init2(d->derivs.layers_m, d->n_layers + 1, d->n_derivs, 0);
      }
 
      if (d->options & XRTM_OPTION_REVERSE_DERIVS) {
@@ -4935,7 +4938,7 @@ void xrtm_clear_saved(xrtm_data *d) {
 /*******************************************************************************
  *
  ******************************************************************************/
-static void build_derivs_layers(xrtm_data *d, uchar **derivs_layers, int flag) {
+static int build_derivs_layers(xrtm_data *d, uchar **derivs_layers, int flag) {
 
      int i;
      int j;
@@ -4944,8 +4947,16 @@ static void build_derivs_layers(xrtm_data *d, uchar **derivs_layers, int flag) {
 
      int n_params;
 
+     int changed;
+
+     uchar old;
+
+     changed = 0;
+
      for (i = 0; i < d->n_layers; ++i) {
           for (j = 0; j < d->n_derivs; ++j) {
+               old = derivs_layers[i][j];
+
                derivs_layers[i][j] = 0;
 
                if (d->ltau0_l[i][j] != 0.) {
@@ -4968,11 +4979,14 @@ static void build_derivs_layers(xrtm_data *d, uchar **derivs_layers, int flag) {
 
                derivs_layers[i][j] = 0;
 
-L1:            continue;
+L1:            if (derivs_layers[i][j] != old)
+                    changed = 1;
           }
      }
 
      for (j = 0; j < d->n_derivs; ++j) {
+          old = derivs_layers[i][j];
+
           derivs_layers[i][j] = 0;
 
           if (flag || brdf_needs_fourier(d->kernels, d->n_kernels)) {
@@ -4993,10 +5007,13 @@ L1:            continue;
                }
           }
 
-L2:       continue;
+L2:       if (derivs_layers[i][j] != old)
+               changed = 1;
      }
 
      flags_fill_meta2(derivs_layers, d->n_layers + 1, d->n_derivs);
+
+     return changed;
 }
 
 
@@ -5374,7 +5391,10 @@ int xrtm_update_varied_layers(xrtm_data *d) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     build_derivs_layers(d, d->derivs.layers, 1);
+     /* saved linearized quantities are only valid for the layers that varied when they were calculated */
+     if (build_derivs_layers(d, d->derivs.layers, 1))
+          set_deps(d, DEP_MASK_COEF_L | DEP_MASK_BRDF_L, 0, d->n_layers);
+
      build_derivs_stacks(d, d->derivs.layers, d->derivs.stacks);
 
      if (d->options & XRTM_OPTION_SOURCE_SOLAR)
-- 
2.43.0


From ac7909b8dd694aec3db988d5a13ee2d49262cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 005/131] fix: mu_0 dependencies not updated when a singularity
 adjustment is undone

---
 src/xrtm_interface.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index e645a8e..e827a8e 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2661,6 +2661,9 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
      int count;
 
      double a;
+     double mu_0;
+
+     mu_0 = d->mu_0;
 
      d->mu_0 = d->mu_0_0;
 
@@ -2680,7 +2683,7 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
           }
      }
 
-     if (count > 0)
+     if (d->mu_0 != mu_0)
           set_deps(d, DEP_MASK_MU_0, 0, d->n_layers);
 
      return 0;
-- 
2.43.0


From 9d04e6ea94582bc7962e6114d105a939723095e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 006/131] fix: saved layer sources not updated with PSA when a
 layer above changes

---
 src/xrtm_interface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index e827a8e..c466162 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -456,6 +456,12 @@ static void set_deps(xrtm_data *d, int dep, int i_layer, int n_layers) {
                d->dep_flags_local_r_t_u_w    [i][j] |= dep;
                d->dep_flags_layer_R_T_S_U_W_V[i][j] |= dep;
           }
+
+          /* with the pseudo-spherical approximation the solar sources of a layer depend on all the layers above */
+          if (d->options & XRTM_OPTION_PSA) {
+               for (j = n_layers; j < d->n_layers; ++j)
+                    d->dep_flags_layer_R_T_S_U_W_V[i][j] |= dep;
+          }
      }
 }
 
-- 
2.43.0


From 1587d17cbe9d1333ce7116f41b8cd19839c12b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 007/131] fix: saved layer and total R, T, and S of one solver
 used by another

---
 src/xrtm_interface.c |  1 +
 src/xrtm_interface.h |  1 +
 src/xrtm_model.c     | 19 +++++++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index c466162..bdc1924 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -1745,6 +1745,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
       *-----------------------------------------------------------------------*/
      d->inputs_initialized = 1;
      d->varied_layers_updated = 1;
+     d->solver_saved = 0;
 
 
      /*-------------------------------------------------------------------------
diff --git a/src/xrtm_interface.h b/src/xrtm_interface.h
index 24f59f2..da6c9b8 100644
--- a/src/xrtm_interface.h
+++ b/src/xrtm_interface.h
@@ -208,6 +208,7 @@ typedef struct {
      int varied_layers_updated;
 
      int solvers;
+     int solver_saved;
      int options;
 
      int n_four;
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 92f9f91..ee7807c 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6405,6 +6405,25 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
  ******************************************************************************/
 int get_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_phis, double **phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l, save_tree_data save_tree, work_data work) {
 
+     int i;
+     int j;
+
+
+     /*-------------------------------------------------------------------------
+      * Layer and total R, T, and S saved with another solver cannot be used.
+      *-----------------------------------------------------------------------*/
+     if (solver != d->solver_saved) {
+          for (i = 0; i < d->n_four; ++i) {
+               d->dep_flags_total_R_T_S_U_W_V[i] = DEP_MASK_MASK;
+
+               for (j = 0; j < d->n_layers; ++j)
+                    d->dep_flags_layer_R_T_S_U_W_V[i][j] = DEP_MASK_MASK;
+          }
+
+          d->solver_saved = solver;
+     }
+
+
      if (solver & XRTM_SOLVERS_INTERNAL) {
           if (get_solution_internal(d, solver, solutions, n_phis, phis, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, save_tree, work)) {
                fprintf(stderr, "ERROR: get_radiance_internal()\n");
-- 
2.43.0


From 3e3d132fc85510f42d6c174a206b9eba7488e6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:34 +0000
Subject: [PATCH 008/131] fix: derivatives of BRDF kernels with respect to
 kernel inputs left uninitialized

---
 src/xrtm_brdf.c | 159 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 159 insertions(+)

diff --git a/src/xrtm_brdf.c b/src/xrtm_brdf.c
index 6e5fe1d..d6300ce 100644
--- a/src/xrtm_brdf.c
+++ b/src/xrtm_brdf.c
@@ -367,6 +367,21 @@ static void direct_and_diffuse_kernel_a(brdf_aux_data *aux, void *aux2, enum xrt
 */
 
 
+/*******************************************************************************
+ *
+ ******************************************************************************/
+static void brdf_no_param_derivs(int n_derivs, uchar *derivs, double *f_l) {
+
+     int i;
+
+     for (i = 0; i < n_derivs; ++i) {
+          if (derivs[i])
+               f_l[i] = 0.;
+     }
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -396,6 +411,8 @@ static double roujean_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrt
 
      delta = (aux2->roujean.a + sqrt(aux2->roujean.b - aux2->roujean.c * aux->cos_phi[k])) / PI;
 
+     brdf_no_param_derivs(n_derivs, derivs, f_l);
+
      return ((PI - a * phi) * aux->cos_phi[k] + aux->sin_phi[k]) * aux2->roujean.d - delta;
 }
 
@@ -463,16 +480,81 @@ static void li_common(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_
 
 
 
+static void li_common_l(brdf_aux_data *aux, kernel_aux_data *aux2, int i, int j, int k, double *p, double *p_l, double *p__l, double *q_l, double *r_l) {
+
+     double tan_i_l;
+     double tan_r_l;
+     double theta_i_l;
+     double theta_r_l;
+     double cos_i_l;
+     double cos_r_l;
+     double sin_i_l;
+     double sin_r_l;
+     double cos_ksi_p;
+     double cos_ksi_p_l;
+     double h;
+     double h_l;
+     double cos_t;
+     double cos_t_l;
+
+     tan_i_l     = p_l[0] * aux->tan_theta[i];
+     tan_r_l     = p_l[0] * aux->tan_theta[j];
+
+     theta_i_l   = tan_i_l / (1. + aux2->li.tan_theta_i_p2);
+     theta_r_l   = tan_r_l / (1. + aux2->li.tan_theta_r_p2);
+
+     cos_i_l     = -aux2->li.sin_theta_i_p * theta_i_l;
+     cos_r_l     = -aux2->li.sin_theta_r_p * theta_r_l;
+     sin_i_l     =  aux2->li.cos_theta_i_p * theta_i_l;
+     sin_r_l     =  aux2->li.cos_theta_r_p * theta_r_l;
+
+    *r_l         = -cos_i_l / (aux2->li.cos_theta_i_p * aux2->li.cos_theta_i_p) - cos_r_l / (aux2->li.cos_theta_r_p * aux2->li.cos_theta_r_p);
+
+     cos_ksi_p   = aux2->li.a + aux2->li.b * aux->cos_phi[k];
+     cos_ksi_p_l = cos_i_l * aux2->li.cos_theta_r_p + aux2->li.cos_theta_i_p * cos_r_l + (sin_i_l * aux2->li.sin_theta_r_p + aux2->li.sin_theta_i_p * sin_r_l) * aux->cos_phi[k];
+
+    *p__l        = cos_ksi_p_l / aux2->li.cos_theta_r_p - (1. + cos_ksi_p) * cos_r_l / (aux2->li.cos_theta_r_p * aux2->li.cos_theta_r_p);
+
+     h           = sqrt(aux2->li.c - aux2->li.d * aux->cos_phi[k] + aux2->li.e * aux->sin_phi2[k]);
+
+     h_l         = aux2->li.tan_theta_i_p * tan_i_l + aux2->li.tan_theta_r_p * tan_r_l - (tan_i_l * aux2->li.tan_theta_r_p + aux2->li.tan_theta_i_p * tan_r_l) * aux->cos_phi[k] +
+                   aux2->li.tan_theta_i_p * aux2->li.tan_theta_r_p * (tan_i_l * aux2->li.tan_theta_r_p + aux2->li.tan_theta_i_p * tan_r_l) * aux->sin_phi2[k];
+     h_l         = h > 0. ? h_l / h : 0.;
+
+     cos_t       = aux2->li.g * h;
+     cos_t_l     = (p_l[1] - aux2->li.g * *r_l) / aux2->li.r * h + aux2->li.g * h_l;
+
+     if (cos_t > 1.)
+          *q_l = 0.;
+     else
+          *q_l = 2. * sqrt(1. - cos_t * cos_t) * cos_t_l / PI;
+}
+
+
+
 
 static double li_sparse_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_geometry brdf_geom, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, double *f_l) {
 
      /* Wanner 1995, Spurr 2004 (contains a typo) */
 
+     int ii;
+
      double p_;
      double q;
 
+     double p__l;
+     double q_l;
+     double r_l;
+
      li_common(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, &p_, &q);
 
+     for (ii = 0; ii < n_derivs; ++ii) {
+          if (derivs[ii]) {
+               li_common_l(aux, aux2, i, j, k, p, p_l[ii], &p__l, &q_l, &r_l);
+               f_l[ii] = .5 * p__l - q_l * aux2->li.r - q * r_l;
+          }
+     }
+
      return .5 * p_ - q * aux2->li.r;
 }
 
@@ -482,11 +564,24 @@ static double li_dense_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xr
 
      /* Wanner 1995, Spurr 2004 (contains a typo) */
 
+     int ii;
+
      double p_;
      double q;
 
+     double p__l;
+     double q_l;
+     double r_l;
+
      li_common(aux, aux2, brdf_geom, i, j, k, phi, n_derivs, derivs, p, p_l, &p_, &q);
 
+     for (ii = 0; ii < n_derivs; ++ii) {
+          if (derivs[ii]) {
+               li_common_l(aux, aux2, i, j, k, p, p_l[ii], &p__l, &q_l, &r_l);
+               f_l[ii] = (p__l - p_ * (q_l / q + r_l / aux2->li.r)) / (q * aux2->li.r);
+          }
+     }
+
      return p_ / (q * aux2->li.r) - 2.;
 }
 
@@ -515,6 +610,8 @@ static double ross_thin_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum x
 
      ksi     = acos(cos_ksi);
 
+     brdf_no_param_derivs(n_derivs, derivs, f_l);
+
      return ((PI / 2. - ksi) * cos_ksi + sin(ksi)) / aux2->ross.a - PI / 2.;
 }
 
@@ -531,6 +628,8 @@ static double ross_thick_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum
 
      ksi         = acos(cos_ksi);
 
+     brdf_no_param_derivs(n_derivs, derivs, f_l);
+
      return ((PI / 2. - ksi) * cos_ksi + sin(ksi)) / aux2->ross.c - PI / 4.;
 }
 
@@ -570,11 +669,19 @@ static double hapke_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_
 
      /* Spurr 2004 (contains a typo) */
 
+     int ii;
+
+     double a;
      double cos_ksi;
      double ksi;
      double P;
      double B;
 
+     double gamma;
+     double gamma_l;
+     double d_l;
+     double B_l;
+
      cos_ksi = aux2->hapke.a + aux2->hapke.b * aux->cos_phi[k];
 
      P       = 1. + .5 * cos_ksi;
@@ -583,6 +690,22 @@ static double hapke_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_
 
      B       = aux2->hapke.c / (p[2] + tan(ksi / 2.));
 
+     for (ii = 0; ii < n_derivs; ++ii) {
+          if (derivs[ii]) {
+               gamma   = sqrt(1. - p[0]);
+               gamma_l = -.5 * p_l[ii][0] / gamma;
+
+               a       = 2. * aux->cos_theta[i];
+               d_l     = -aux2->hapke.d * gamma_l * a / (1. + a * gamma);
+               a       = 2. * aux->cos_theta[j];
+               d_l    += -aux2->hapke.d * gamma_l * a / (1. + a * gamma);
+
+               B_l     = (p_l[ii][1] * p[2] + p[1] * p_l[ii][2] - B * p_l[ii][2]) / (p[2] + tan(ksi / 2.));
+
+               f_l[ii] = p_l[ii][0] / ((aux->cos_theta[i] + aux->cos_theta[j]) * 4.) * ((1. + B) * P + aux2->hapke.d - 1.) + aux2->hapke.R_ir * (B_l * P + d_l);
+          }
+     }
+
      return aux2->hapke.R_ir * ((1. + B) * P + aux2->hapke.d - 1.);
 }
 
@@ -614,11 +737,17 @@ static double rahman_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm
 
      /* Rahman 1993b, Spurr 2004 (contains 2 errors) */
 
+     int ii;
+
+     double a;
      double cos_ksi;
      double P;
      double delta;
      double R;
 
+     double P_l;
+     double R_l;
+
      cos_ksi     = aux2->rahman.a + aux2->rahman.b * aux->cos_phi[k];
 
      P           = (1. - aux2->rahman.gamma1_2) / pow((1. + aux2->rahman.gamma1_2 + aux2->rahman.c * cos_ksi), 1.5);
@@ -627,6 +756,16 @@ static double rahman_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm
 
      R           = (1. - p[0]) / (1. + delta);
 
+     for (ii = 0; ii < n_derivs; ++ii) {
+          if (derivs[ii]) {
+               a       = 1. + aux2->rahman.gamma1_2 + aux2->rahman.c * cos_ksi;
+               P_l     = p_l[ii][1] * (-2. * p[1] / pow(a, 1.5) - 1.5 * P / a * (2. * p[1] + 2. * cos_ksi));
+               R_l     = -p_l[ii][0] / (1. + delta);
+
+               f_l[ii] = ((p_l[ii][0] * P + p[0] * P_l) * (1. + R) + p[0] * P * R_l + p[0] * P * (1. + R) * p_l[ii][2] * log(aux2->rahman.g)) * pow(aux2->rahman.g, p[2] - 1.);
+          }
+     }
+
      return p[0] * P * (1. + R) * pow(aux2->rahman.g, p[2] - 1.);
 }
 
@@ -651,6 +790,8 @@ static void cox_munk_aux(brdf_aux_data *aux, kernel_aux_data *aux2, int i, int j
 
 static double cox_munk_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xrtm_brdf_geometry brdf_geom, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, double *f_l) {
 
+     int ii;
+
      double a;
      double cos_ksi;
      double lambda;
@@ -663,6 +804,11 @@ static double cox_munk_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xr
      double tau;
      double P;
 
+     double a_l;
+     double c_l;
+     double R_l;
+     double P_l;
+
      cos_ksi     = aux2->cox_munk.a + aux2->cox_munk.b *  aux->cos_phi[k];
 /*
      cos_ksi     = aux2->cox_munk.a + aux2->cox_munk.b * -aux->cos_phi[k];
@@ -687,6 +833,19 @@ static double cox_munk_kernel(brdf_aux_data *aux, kernel_aux_data *aux2, enum xr
 /*
      P           = 1. / (aux2->cox_munk.d * gamma2*gamma2) * exp(-tau*tau / p[0]);
 */
+     for (ii = 0; ii < n_derivs; ++ii) {
+          if (derivs[ii]) {
+               a_l     = p_l[ii][1] * lambda;
+               c_l     = p_l[ii][1] / (2. * c);
+
+               R_l     = r_p * 2. * (a_l * c - a * c_l) / ((a + c) * (a + c)) - r_m * 2. * lambda * c_l / ((lambda + c) * (lambda + c));
+
+               P_l     = P * (tau*tau / p[0] - 1.) * p_l[ii][0] / p[0];
+
+               f_l[ii] = R_l * P + R * P_l;
+          }
+     }
+
      return R * P;
 }
 
-- 
2.43.0


From e649c4022b57ef91f9d1e1bcb34554e4ac7e2abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:33 +0000
Subject: [PATCH 009/131] fix: direct beam of mean radiances and fluxes at
 internal levels, their derivatives, and vector and thermal only fluxes

---
 src/prototypes/xrtm_radiance_p.h |  4 +-
 src/xrtm_model.c                 | 67 +++++++++++++++++++++++++++++---
 src/xrtm_radiance.c              | 20 +++++-----
 3 files changed, 73 insertions(+), 18 deletions(-)

diff --git a/src/prototypes/xrtm_radiance_p.h b/src/prototypes/xrtm_radiance_p.h
index d8344aa..e0f9fa4 100644
--- a/src/prototypes/xrtm_radiance_p.h
+++ b/src/prototypes/xrtm_radiance_p.h
@@ -4,5 +4,5 @@ void radiance_toa_ref(int n_quad, int n_derivs, double **R_m, double *S_p, doubl
 void radiance_boa_ref(int n_quad, int n_derivs, double **R12_p, double *S12_m, double ***R12_p_l, double **S12_m_l, double **R23_m, double ***R23_m_l, double *I3_p, double **I3_p_l, double *I2_p, double **I2_p_l, double *I2_m, double **I2_m_l, uchar *derivs, work_data work);
 void radiance_toa_all(int n_quad, int n_derivs, double **R_m, double **T_p, double *S_p, double ***R_m_l, double ***T_p_l, double **S_p_l, double *I1_m, double *I2_p, double **I1_m_l, double **I2_p_l, double *I1_p, double *I1m_, double **I1_p_l, double **I1m_l_, uchar *derivs, work_data work);
 void radiance_boa_all(int n_quad, int n_derivs, double **R12_p, double **T12_m, double **R23_m, double *S12_m, double ***R12_p_l, double ***T12_m_l, double ***R23_m_l, double **S12_m_l, double *I3_p, double *I1_m, double **I3_p_l, double **I1_m_l, double *I2_p, double *I2_m, double **I2_p_l, double **I2_m_l, uchar *derivs, save_tree_data save_tree, work_data work);
-double radiance_to_mean(int n_quad, double *qx_v, double *qw_v, double F_0, double mu_0, double btran, double *I);
-double radiance_to_flux(int n_quad, double *qx_v, double *qw_v, double F_0, double mu_0, double btran, double *I);
+double radiance_to_mean(int n_quad, int n_stokes, double *qx, double *qw, double *I);
+double radiance_to_flux(int n_quad, int n_stokes, double *qx, double *qw, double *I);
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index ee7807c..ebecd73 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -6120,6 +6120,39 @@ static double max_radiance_ratio(double I1, double I2) {
 
 
 
+static double direct_beam(xrtm_data *d, int i_ulevel, int i_deriv, double fac) {
+
+     int i;
+
+     double a;
+     double a_l;
+     double utau;
+     double utau_l;
+
+     if (! (d->options & XRTM_OPTION_SOURCE_SOLAR))
+          return 0.;
+
+     i = d->ulevels[i_ulevel];
+
+     if (! (d->options & XRTM_OPTION_OUTPUT_AT_TAUS))
+          return fac * d->F_0 * (i_deriv < 0 ? d->btran[i] : d->btran_l[i][i_deriv]);
+
+     utau = d->utaus2[i_ulevel];
+
+     a    = exp(-utau * d->as_0[i]);
+
+     if (i_deriv < 0)
+          return fac * d->F_0 * d->btran[i] * a;
+
+     utau_l = utau * d->ltau_l[i][i_deriv] / d->ltau[i];
+
+     a_l    = -(utau_l * d->as_0[i] + utau * d->as_0_l[i][i_deriv]) * a;
+
+     return fac * d->F_0 * (d->btran_l[i][i_deriv] * a + d->btran[i] * a_l);
+}
+
+
+
 static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_phis, double **phis, double ****I_p, double ****I_m, double *****I_p_l, double *****I_m_l, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l, save_tree_data save_tree, work_data work) {
 
      int i;
@@ -6275,12 +6308,23 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_RADIANCE_MEAN   && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
+                    a = direct_beam(d, j, -1, 1. / (4. * PI));
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         mean_p[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
+                         mean_p[j] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx, d->qw, i_p[j]);
                     if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         mean_m[j] = radiance_to_mean(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + d->F_0 * d->btran[jj] / (4. * PI);
+                         mean_m[j] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx, d->qw, i_m[j]) + a;
+
+                    if (d->options & XRTM_OPTION_CALC_DERIVS) {
+                         for (k = 0; k < d->n_derivs; ++k) {
+                              a = direct_beam(d, j, k, 1. / (4. * PI));
+
+                              if (d->options & XRTM_OPTION_UPWELLING_OUTPUT   && mean_p_l)
+                                   mean_p_l[j][k] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx, d->qw, i_p_l[j][k]);
+                              if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT && mean_m_l)
+                                   mean_m_l[j][k] = radiance_to_mean(d->n_quad, d->n_stokes, d->qx, d->qw, i_m_l[j][k]) + a;
+                         }
+                    }
                }
           }
 
@@ -6290,12 +6334,23 @@ static int get_solution_internal(xrtm_data *d, enum xrtm_solver_mask solver, int
            *------------------------------------------------------------------*/
           if (solutions & XRTM_OUTPUT_FLUX            && i == 0) {
                for (j = 0; j < d->n_ulevels; ++j) {
-                    jj = j == 0 ? 0 : d->n_layers;
+                    a = direct_beam(d, j, -1, d->mu_0);
 
                     if (d->options & XRTM_OPTION_UPWELLING_OUTPUT)
-                         flux_p[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_p[j]);
+                         flux_p[j] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx, d->qw, i_p[j]);
                     if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT)
-                         flux_m[j] = radiance_to_flux(d->n_quad_v, d->qx_v, d->qw_v, d->F_0, d->mu_0, d->btran[jj], i_m[j]) + d->F_0 * d->mu_0 * d->btran[jj];
+                         flux_m[j] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx, d->qw, i_m[j]) + a;
+
+                    if (d->options & XRTM_OPTION_CALC_DERIVS) {
+                         for (k = 0; k < d->n_derivs; ++k) {
+                              a = direct_beam(d, j, k, d->mu_0);
+
+                              if (d->options & XRTM_OPTION_UPWELLING_OUTPUT   && flux_p_l)
+                                   flux_p_l[j][k] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx, d->qw, i_p_l[j][k]);
+                              if (d->options & XRTM_OPTION_DOWNWELLING_OUTPUT && flux_m_l)
+                                   flux_m_l[j][k] = radiance_to_flux(d->n_quad, d->n_stokes, d->qx, d->qw, i_m_l[j][k]) + a;
+                         }
+                    }
                }
           }
 
diff --git a/src/xrtm_radiance.c b/src/xrtm_radiance.c
index 72041c3..3c327f3 100644
--- a/src/xrtm_radiance.c
+++ b/src/xrtm_radiance.c
@@ -571,17 +571,17 @@ void radiance_boa_all(int n_quad, int n_derivs,
 /*******************************************************************************
  *
  ******************************************************************************/
-double radiance_to_mean(int n_quad, double *qx_v, double *qw_v,
-                        double F_0, double mu_0, double btran, double *I) {
+double radiance_to_mean(int n_quad, int n_stokes, double *qx, double *qw, double *I) {
 
      int i;
+     int ii;
 
      double a = 0.;
 
-     for (i = 0; i < n_quad; ++i)
-          a += qw_v[i] * I[i];
+     for (i = 0, ii = 0; i < n_quad; ++i, ii += n_stokes)
+          a += qw[i] * I[ii];
 
-     return a / 2.; // + F_0 * btran / (4. * PI);
+     return a / 2.;
 }
 
 
@@ -589,17 +589,17 @@ double radiance_to_mean(int n_quad, double *qx_v, double *qw_v,
 /*******************************************************************************
  *
  ******************************************************************************/
-double radiance_to_flux(int n_quad, double *qx_v, double *qw_v,
-                        double F_0, double mu_0, double btran, double *I) {
+double radiance_to_flux(int n_quad, int n_stokes, double *qx, double *qw, double *I) {
 
      int i;
+     int ii;
 
      double a = 0.;
 
-     for (i = 0; i < n_quad; ++i)
-          a += qx_v[i] * qw_v[i] * I[i];
+     for (i = 0, ii = 0; i < n_quad; ++i, ii += n_stokes)
+          a += qx[i] * qw[i] * I[ii];
 
-     return a * 2. * PI; // + F_0 * mu_0 * btran;
+     return a * 2. * PI;
 }
 
 
-- 
2.43.0


From 3334541be6967051ee15534b9923ae0fbfc671ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 010/131] fix: mean radiances and fluxes of the Eigenmatrix/BVP
 solver not calculated with SFI

---
 src/xrtm_eig_bvp.c | 124 ++++++++++++++++++++++-----------------------
 1 file changed, 60 insertions(+), 64 deletions(-)

diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 92aab4f..2b3fda6 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -658,38 +658,36 @@ else {
                      derivs->layers, derivs->beam, derivs->thermal,
                      save_tree, work);
 
-          if (! sfi) {
-               if (! utau_output)
-                    calc_radiance_levels(n_quad_v_x, n_layers, n_derivs,
-                                         n_ulevels, ulevels,
-                                         ltau, ltau_l,
-                                         atran2, atran2_l,
-                                         nu, X_p, X_m,
-                                         Fs_p, Fs_m, Fs1_p, Fs1_m,
-                                         Ft0_p, Ft0_m, Ft1_p, Ft1_m,
-                                         nu_l, X_p_l, X_m_l,
-                                         Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
-                                         Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
-                                         B, B_l,
-                                         I_p, I_m, I_p_l, I_m_l,
-                                         solar, thermal,
-                                         derivs->layers, derivs->beam, derivs->thermal,
-                                         save_tree, work);
-               else
-                    calc_radiance_taus  (n_quad_v_x, n_layers, n_derivs,
-                                         n_ulevels, ulevels, utaus,
-                                         ltau, ltau_l,
-                                         as_0, as_0_l, atran2, atran2_l,
-                                         nu, X_p, X_m,
-                                         Fs_p, Fs_m,
-                                         nu_l, X_p_l, X_m_l,
-                                         Fs_p_l, Fs_m_l,
-                                         B, B_l,
-                                         I_p, I_m, I_p_l, I_m_l,
-                                         solar, thermal,
-                                         derivs->layers, derivs->beam, derivs->thermal,
-                                         save_tree, work);
-          }
+          if (! utau_output)
+               calc_radiance_levels(n_quad_v_x, n_layers, n_derivs,
+                                    n_ulevels, ulevels,
+                                    ltau, ltau_l,
+                                    atran2, atran2_l,
+                                    nu, X_p, X_m,
+                                    Fs_p, Fs_m, Fs1_p, Fs1_m,
+                                    Ft0_p, Ft0_m, Ft1_p, Ft1_m,
+                                    nu_l, X_p_l, X_m_l,
+                                    Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
+                                    Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
+                                    B, B_l,
+                                    I_p, I_m, I_p_l, I_m_l,
+                                    solar, thermal,
+                                    derivs->layers, derivs->beam, derivs->thermal,
+                                    save_tree, work);
+          else
+               calc_radiance_taus  (n_quad_v_x, n_layers, n_derivs,
+                                    n_ulevels, ulevels, utaus,
+                                    ltau, ltau_l,
+                                    as_0, as_0_l, atran2, atran2_l,
+                                    nu, X_p, X_m,
+                                    Fs_p, Fs_m,
+                                    nu_l, X_p_l, X_m_l,
+                                    Fs_p_l, Fs_m_l,
+                                    B, B_l,
+                                    I_p, I_m, I_p_l, I_m_l,
+                                    solar, thermal,
+                                    derivs->layers, derivs->beam, derivs->thermal,
+                                    save_tree, work);
      }
      else {
           solve_bvp2(n_quad_x, n_stokes, n_derivs, n_layers,
@@ -710,38 +708,36 @@ else {
                      derivs->layers, derivs->beam, derivs->thermal,
                      save_tree, work);
 
-          if (! sfi) {
-               if (! utau_output)
-                    calc_radiance_levels2(n_quad_v_x, n_layers, n_derivs,
-                                          n_ulevels, ulevels,
-                                          ltau, ltau_l,
-                                          atran2, atran2_l,
-                                          nu_c, X_p_c, X_m_c,
-                                          Fs_p, Fs_m, Fs1_p, Fs1_m,
-                                          Ft0_p, Ft0_m, Ft1_p, Ft1_m,
-                                          nu_l_c, X_p_l_c, X_m_l_c,
-                                          Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
-                                          Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
-                                          B_c, B_l_c,
-                                          I_p, I_m, I_p_l, I_m_l,
-                                          solar, thermal,
-                                          derivs->layers, derivs->beam, derivs->thermal,
-                                          save_tree, work);
-               else
-                    calc_radiance_taus2  (n_quad_v_x, n_layers, n_derivs,
-                                          n_ulevels, ulevels, utaus,
-                                          ltau, ltau_l,
-                                          as_0, as_0_l, atran2, atran2_l,
-                                          nu_c, X_p_c, X_m_c,
-                                          Fs_p, Fs_m,
-                                          nu_l_c, X_p_l_c, X_m_l_c,
-                                          Fs_p_l, Fs_m_l,
-                                          B_c, B_l_c,
-                                          I_p, I_m, I_p_l, I_m_l,
-                                          solar, thermal,
-                                          derivs->layers, derivs->beam, derivs->thermal,
-                                          save_tree, work);
-               }
+          if (! utau_output)
+               calc_radiance_levels2(n_quad_v_x, n_layers, n_derivs,
+                                     n_ulevels, ulevels,
+                                     ltau, ltau_l,
+                                     atran2, atran2_l,
+                                     nu_c, X_p_c, X_m_c,
+                                     Fs_p, Fs_m, Fs1_p, Fs1_m,
+                                     Ft0_p, Ft0_m, Ft1_p, Ft1_m,
+                                     nu_l_c, X_p_l_c, X_m_l_c,
+                                     Fs_p_l, Fs_m_l, Fs1_p_l, Fs1_m_l,
+                                     Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
+                                     B_c, B_l_c,
+                                     I_p, I_m, I_p_l, I_m_l,
+                                     solar, thermal,
+                                     derivs->layers, derivs->beam, derivs->thermal,
+                                     save_tree, work);
+          else
+               calc_radiance_taus2  (n_quad_v_x, n_layers, n_derivs,
+                                     n_ulevels, ulevels, utaus,
+                                     ltau, ltau_l,
+                                     as_0, as_0_l, atran2, atran2_l,
+                                     nu_c, X_p_c, X_m_c,
+                                     Fs_p, Fs_m,
+                                     nu_l_c, X_p_l_c, X_m_l_c,
+                                     Fs_p_l, Fs_m_l,
+                                     B_c, B_l_c,
+                                     I_p, I_m, I_p_l, I_m_l,
+                                     solar, thermal,
+                                     derivs->layers, derivs->beam, derivs->thermal,
+                                     save_tree, work);
      }
 
 
-- 
2.43.0


From 3536f1193367cf202e11ae484ece52d0083c8583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 011/131] fix: option phase_matrix_lc accepted by builds that
 cannot calculate its phase matrices

---
 src/xrtm_interface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index bdc1924..61310a1 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -533,6 +533,12 @@ int xrtm_check_options(int options, int report) {
           return XRTM_INT_ERROR;
      }
 
+#ifndef INCLUDE_DEV_SOURCE
+     if (options & XRTM_OPTION_PHASE_MATRIX_LC) {
+          if (report) fprintf(stderr, "ERROR: option \"%s\" is not available in this build\n", xrtm_option_mask_to_name(XRTM_OPTION_PHASE_MATRIX_LC));
+          return XRTM_INT_ERROR;
+     }
+#endif
      if (((options & XRTM_OPTION_PHASE_SCALAR)    && (options & XRTM_OPTION_PHASE_MATRIX_GC)) ||
          ((options & XRTM_OPTION_PHASE_SCALAR)    && (options & XRTM_OPTION_PHASE_MATRIX_LC)) ||
          ((options & XRTM_OPTION_PHASE_MATRIX_GC) && (options & XRTM_OPTION_PHASE_MATRIX_LC))) {
-- 
2.43.0


From d014de37f752f0c61abcac9f6b00aaa98e0bdc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 012/131] fix: call of calc_radiance_levels() in the four
 stream solver with outdated arguments

---
 src/xrtm_four_stream.c | 32 --------------------------------
 1 file changed, 32 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index f73d873..57ae481 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -925,38 +925,6 @@ if (n_umus == 0) {
 #endif
                }
           }
-
-          void calc_radiance_levels(int n_quad, int n_layers, int n_derivs,
-                                    int n_ulevels, int *ulevels,
-                                    double *ltau, double **ltau_l,
-                                    double *atran, double **atran_l,
-                                    double **nu, double ***X_p, double ***X_m,
-                                    double **F_p, double **F_m,
-                                    double **F0_p, double **F0_m, double **F1_p, double **F1_m,
-                                    double ***nu_l, double ****X_p_l, double ****X_m_l,
-                                    double ***F_p_l, double ***F_m_l,
-                                    double ***F0_p_l, double ***F0_m_l, double ***F1_p_l, double ***F1_m_l,
-                                    double *B, double **B_l,
-                                    double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
-                                    int thermal,
-                                    uchar **derivs_layers, uchar **derivs_beam,
-                                    save_tree_data save_tree, work_data work);
-
-          calc_radiance_levels(2, n_layers, 0,
-                               n_ulevels, ulevels,
-                               ltau, ltau_l,
-                               atran, atran_l,
-                               nu, X_p, X_m,
-                               F_p, F_m,
-                               NULL, NULL, NULL, NULL,
-                               NULL, NULL, NULL,
-                               NULL, NULL,
-                               NULL, NULL, NULL, NULL,
-                               b, NULL,
-                               I_p, I_m, I_p_l, I_m_l,
-                               0,
-                               NULL, NULL, save_tree, work);
-
      }
 
 
-- 
2.43.0


From 81f4b7010b76bffffaa732962f8353ecc05e9301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:14 +0000
Subject: [PATCH 013/131] fix: arrays initialized in the single scattering
 solver with the dimensions for phi and theta swapped

---
 src/xrtm_model.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index ebecd73..38d31f6 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4379,14 +4379,14 @@ static void get_single(xrtm_data *d, int n_phis, double **phis, double ****I_p,
       *
       *-----------------------------------------------------------------------*/
 /*
-     init_array4_d(I_p, d->n_ulevels, n_phis, n_mus2, d->n_stokes, 0.);
+     init_array4_d(I_p, d->n_ulevels, n_mus2, n_phis, d->n_stokes, 0.);
 */
-     init_array4_d(I_m, d->n_ulevels, n_phis, n_mus2, d->n_stokes, 0.);
+     init_array4_d(I_m, d->n_ulevels, n_mus2, n_phis, d->n_stokes, 0.);
 
      if (d->options & XRTM_OPTION_CALC_DERIVS) {
-          init_array5_d(I_p_l, d->n_ulevels, d->n_derivs, n_phis, n_mus2, d->n_stokes, 0.);
+          init_array5_d(I_p_l, d->n_ulevels, d->n_derivs, n_mus2, n_phis, d->n_stokes, 0.);
 /*
-          init_array5_d(I_m_l, d->n_ulevels, d->n_derivs, n_phis, n_mus2, d->n_stokes, 0.);
+          init_array5_d(I_m_l, d->n_ulevels, d->n_derivs, n_mus2, n_phis, d->n_stokes, 0.);
 */
      }
 
-- 
2.43.0


From 53c27c1affc5d760b01e761e9235de9bf417649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:26 +0000
Subject: [PATCH 014/131] fix: stream solvers using more phase function
 coefficients than a layer has

---
 src/xrtm_model.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 38d31f6..6f4d043 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4964,6 +4964,29 @@ static int fourier_get_add_both_ways(xrtm_data *d, int i_four, int solver, doubl
 
 
 
+/*******************************************************************************
+ * The n-stream solvers use a fixed number of coefficients.  For layers with less
+ * than that the remaining coefficients are zero.
+ ******************************************************************************/
+static double ***get_stream_coefs(xrtm_data *d, int n, work_data *work) {
+
+     int i;
+     int j;
+
+     double ***coef;
+
+     coef = get_work_d3(work, d->n_layers, 1, n);
+
+     for (i = 0; i < d->n_layers; ++i) {
+          for (j = 0; j < n; ++j)
+               coef[i][0][j] = j < d->n_coef_layer2[i] ? d->coef[i][0][j] : 0.;
+     }
+
+     return coef;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -5287,7 +5310,7 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
                          d->qx[0], d->F_0, d->mu_0,
                          d->n_ulevels, d->ulevels, d->utaus2,
                          d->n_umus, d->umus,
-                         d->coef, d->coef_l, d->omega, d->omega_l, d->ltau, d->ltau_l,
+                         get_stream_coefs(d, 2, &work), d->coef_l, d->omega, d->omega_l, d->ltau, d->ltau_l,
                          d->btran, d->btran_l,
                          d->as_0, d->as_0_l, d->atran, d->atran_l,
                          Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
@@ -5307,7 +5330,7 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
                           d->qx, d->qw, d->F_0, d->mu_0,
                           d->n_ulevels, d->ulevels, d->utaus2,
                           d->n_umus, d->umus,
-                          d->coef, d->coef_l, d->omega, d->omega_l, d->ltau, d->ltau_l,
+                          get_stream_coefs(d, 4, &work), d->coef_l, d->omega, d->omega_l, d->ltau, d->ltau_l,
                           d->btran, d->btran_l,
                           d->as_0, d->as_0_l, d->atran, d->atran_l,
                           Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
@@ -5326,7 +5349,7 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
                           d->qx, d->qw, d->F_0, d->mu_0,
                           d->n_ulevels, d->ulevels, d->utaus2,
                           d->n_umus, d->umus,
-                          d->coef, d->coef_l,
+                          get_stream_coefs(d, 6, &work), d->coef_l,
                           d->omega, d->omega_l, d->ltau, d->ltau_l,
                           d->btran, d->btran_l,
                           d->as_0, d->as_0_l, d->atran, d->atran_l,
-- 
2.43.0


From 02ca5172ad31897fddcf18f30ba4842cf4bf115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 015/131] fix: stream solvers accepted for vector calculations
 and derivatives that they do not provide

---
 src/xrtm_interface.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 61310a1..32f2326 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -685,6 +685,16 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
                return XRTM_INT_ERROR;
      }
 
+     if (options & XRTM_OPTION_VECTOR) {
+          if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_VECTOR), XRTM_SOLVER_TWO_STREAM, XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_SIX_STREAM, 0))
+               return XRTM_INT_ERROR;
+     }
+
+     if (options & XRTM_OPTION_CALC_DERIVS) {
+          if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_CALC_DERIVS), XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_SIX_STREAM, 0))
+               return XRTM_INT_ERROR;
+     }
+
      if (options & XRTM_OPTION_N_T_TMS) {
           if (check_solvers(solvers, 0, report, "option", xrtm_option_mask_to_name(XRTM_OPTION_N_T_TMS), XRTM_SOLVER_TWO_OS, 0))
                return XRTM_INT_ERROR;
-- 
2.43.0


From 35c00b2f51c3da98aadf2ec41a13f490b13917da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 016/131] fix: four and six stream solvers using constants for
 the double Gauss-Legendre quadrature with other quadratures

---
 src/xrtm_four_stream.c |  61 -------------------
 src/xrtm_six_stream.c  | 133 -----------------------------------------
 2 files changed, 194 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 57ae481..cd55231 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -51,63 +51,6 @@ void dgbtrs_(const char *, int *, int *, int *, int *, double *, int *, int *, d
 #endif
 
 
-/*******************************************************************************
- *
- ******************************************************************************/
-static void calc_Y_1(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  2.1132486540518713e-01;
-          Y[2] = -4.3301270189221930e-01;
-          Y[3] = -2.9339382851364088e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -6.9113739634803417e-01;
-          Y[2] = -2.5297384456881489e-01;
-          Y[3] =  3.2872926407690672e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  5.8502498576049988e-01;
-          Y[3] =  2.7644581385388761e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.2199120072772409e-01;
-     }
-}
-
-
-
-static void calc_Y_2(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  7.8867513459481287e-01;
-          Y[2] =  4.3301270189221941e-01;
-          Y[3] =  4.3393828513641042e-02;
-     }
-     else if (i_four == 1) {
-          Y[1] = -4.3473643283710062e-01;
-          Y[2] = -5.9386101120610690e-01;
-          Y[3] = -5.6173675511805921e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  2.3147159516722612e-01;
-          Y[3] =  4.0820738302757004e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -1.2991165542275507e-01;
-     }
-}
-
-
-
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -303,12 +246,8 @@ void rtm_four_stream(int i_four,
 
      exit(1);
 */
-     calc_Y_1(i_four, Y_q[0]);
-     calc_Y_2(i_four, Y_q[1]);
-/*
      calc_Y_x(i_four, qx[0], Y_q[0]);
      calc_Y_x(i_four, qx[1], Y_q[1]);
-*/
      calc_Y_x(i_four, -mu_0, Y_0);
 
 if (n_derivs > 0) {
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 802e099..672609f 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -50,134 +50,6 @@ void dgbtrs_(const char *, int *, int *, int *, int *, double *, int *, int *, d
 #endif
 
 
-/*******************************************************************************
- *
- ******************************************************************************/
-static void calc_Y_1(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  1.1270166537925830e-01;
-          Y[2] = -4.8094750193111252e-01;
-          Y[3] = -1.6547375096555625e-01;
-          Y[4] =  3.2807458365518544e-01;
-          Y[5] =  1.9893319427622813e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -7.0260171314221176e-01;
-          Y[2] = -1.3715137481548439e-01;
-          Y[3] =  4.0292921564868400e-01;
-          Y[4] = -1.8223631786344985e-01;
-          Y[5] =  2.8081218084679899e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  6.0459428593010522e-01;
-          Y[3] =  1.5236295047544621e-01;
-          Y[4] = -3.5556492019184532e-01;
-          Y[5] = -1.9387690021392759e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.4840021642031433e-01;
-          Y[4] =  1.6352229402102095e-01;
-          Y[5] = -3.2126686945422495e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  5.0971315964803132e-01;
-          Y[5] =  1.7233656587417068e-01;
-     }
-     else if (i_four == 5) {
-          Y[5] =  4.8047556172276995e-01;
-     }
-}
-
-
-
-static void calc_Y_2(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  5.0000000000000000e-01;
-          Y[2] = -1.2500000000000000e-01;
-          Y[3] = -4.3750000000000000e-01;
-          Y[4] = -2.8906250000000000e-01;
-          Y[5] =  8.9843750000000000e-02;
-     }
-     else if (i_four == 1) {
-          Y[1] = -6.1237243569579447e-01;
-          Y[2] = -5.3033008588991071e-01;
-          Y[3] = -9.3750000000000014e-02;
-          Y[4] = -3.0257682392245444e-01;
-          Y[5] = -3.5205044263593283e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  4.5927932677184591e-01;
-          Y[3] =  5.1348989766109321e-01;
-          Y[4] =  2.2234764798058917e-01;
-          Y[5] = -1.6982082124440748e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -3.6309218870694526e-01;
-          Y[4] =  4.8032581715435607e-01;
-          Y[5] =  3.0020363572147252e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  2.9413829057838586e-01;
-          Y[5] =  4.4120743586757882e-01;
-     }
-     else if (i_four == 5) {
-          Y[5] =  2.4165926516368683e-01;
-     }
-}
-
-
-
-static void calc_Y_3(int i_four, double *Y) {
-
-     /* This code was automatically generated
-        with function print_Y_x_constant_code() */
-
-     if (i_four == 0) {
-          Y[0] =  1.0000000000000000e+00;
-          Y[1] =  8.8729833462074170e-01;
-          Y[2] =  6.8094750193111264e-01;
-          Y[3] =  4.1547375096555617e-01;
-          Y[4] =  1.3442541634481442e-01;
-          Y[5] = -1.1768319427622852e-01;
-     }
-     else if (i_four == 1) {
-          Y[1] = -3.2611475386683919e-01;
-          Y[2] = -5.0118808883115185e-01;
-          Y[3] = -5.8642821144342672e-01;
-          Y[4] =  5.7443661482497066e-01;
-          Y[5] =  4.7276033207965390e-01;
-     }
-     else if (i_four == 2) {
-          Y[2] =  1.3025263690484826e-01;
-          Y[3] =  2.5842896765342832e-01;
-          Y[4] =  3.7928200264310813e-01;
-          Y[5] =  4.6559021420497959e-01;
-     }
-     else if (i_four == 3) {
-          Y[3] = -5.4837967049776844e-02;
-          Y[4] =  1.2873600645546979e-01;
-          Y[5] =  2.2073939349622659e-01;
-     }
-     else if (i_four == 4) {
-          Y[4] =  2.3657607267441809e-02;
-          Y[5] =  6.2974066588538019e-02;
-     }
-     else if (i_four == 5) {
-          Y[5] =  1.0350885816619845e-02;
-     }
-}
-
-
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -463,14 +335,9 @@ void rtm_six_stream(int i_four,
 
      exit(1);
 */
-     calc_Y_1(i_four, Y_q[0]);
-     calc_Y_2(i_four, Y_q[1]);
-     calc_Y_3(i_four, Y_q[2]);
-/*
      calc_Y_x(i_four, qx[0], Y_q[0]);
      calc_Y_x(i_four, qx[1], Y_q[1]);
      calc_Y_x(i_four, qx[2], Y_q[2]);
-*/
      calc_Y_x(i_four, -mu_0, Y_0);
 
 if (n_derivs > 0) {
-- 
2.43.0


From cf1fdaf118ee3e0b71e4d3cf50bf9f5c23ea3ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 017/131] fix: eigenvectors of the six stream solver for layers
 without scattering

---
 src/xrtm_six_stream.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 672609f..a7e5900 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -497,24 +497,35 @@ if (n_derivs > 0) {
 
           dd = gamma[0][0] * gamma[1][1] * gamma[2][2] + gamma[0][1] * gamma[1][2] * gamma[2][0] + gamma[0][2] * gamma[1][0] * gamma[2][1] - gamma[0][2] * gamma[1][1] * gamma[2][0] - gamma[0][0] * gamma[1][2] * gamma[2][1] - gamma[0][1] * gamma[1][0] * gamma[2][2];
 
-          cubic_roots_general(1., bb, cc, dd, &evals[0], &evals[1], &evals[2]);
-          evals[0] *= -1.;
-          evals[1] *= -1.;
-          evals[2] *= -1.;
+          if (gamma[0][1] == 0. && gamma[0][2] == 0. && gamma[1][0] == 0. &&
+              gamma[1][2] == 0. && gamma[2][0] == 0. && gamma[2][1] == 0.) {
+               /* No scattering.  The eigenvectors below would be 0 / 0. */
+               for (j = 0; j < 3; ++j) {
+                    evals[j] = gamma[j][j];
+                    for (k = 0; k < 3; ++k)
+                         evecs[j][k] = j == k ? 1. : 0.;
+               }
+          }
+          else {
+               cubic_roots_general(1., bb, cc, dd, &evals[0], &evals[1], &evals[2]);
+               evals[0] *= -1.;
+               evals[1] *= -1.;
+               evals[2] *= -1.;
 /*
-          cubic_roots_cardano(1., bb, cc, dd, &evals[0], &evals[1], &evals[2]);
+               cubic_roots_cardano(1., bb, cc, dd, &evals[0], &evals[1], &evals[2]);
 */
-          evecs[0][0] = 1.;
-          evecs[0][1] = (gamma[1][2] * gamma[0][1] - gamma[0][2] * (gamma[1][1] - evals[1])) / (gamma[0][2] * gamma[1][0] - gamma[1][2] * (gamma[0][0] - evals[1]));
-          evecs[0][2] = (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[2])) / (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[2]));
+               evecs[0][0] = 1.;
+               evecs[0][1] = (gamma[1][2] * gamma[0][1] - gamma[0][2] * (gamma[1][1] - evals[1])) / (gamma[0][2] * gamma[1][0] - gamma[1][2] * (gamma[0][0] - evals[1]));
+               evecs[0][2] = (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[2])) / (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[2]));
 
-          evecs[1][0] = (gamma[0][2] * gamma[1][0] - gamma[1][2] * (gamma[0][0] - evals[0])) / (gamma[1][2] * gamma[0][1] - gamma[0][2] * (gamma[1][1] - evals[0]));
-          evecs[1][1] = 1.;
-          evecs[1][2] = (gamma[0][2] * gamma[1][0] - gamma[1][2] * (gamma[0][0] - evals[2])) / (gamma[1][2] * gamma[0][1] - gamma[0][2] * (gamma[1][1] - evals[2])) * evecs[0][2];
+               evecs[1][0] = (gamma[0][2] * gamma[1][0] - gamma[1][2] * (gamma[0][0] - evals[0])) / (gamma[1][2] * gamma[0][1] - gamma[0][2] * (gamma[1][1] - evals[0]));
+               evecs[1][1] = 1.;
+               evecs[1][2] = (gamma[0][2] * gamma[1][0] - gamma[1][2] * (gamma[0][0] - evals[2])) / (gamma[1][2] * gamma[0][1] - gamma[0][2] * (gamma[1][1] - evals[2])) * evecs[0][2];
 
-          evecs[2][0] = (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[0])) / (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[0]));
-          evecs[2][1] = (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[1])) / (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[1])) * evecs[0][1];
-          evecs[2][2] = 1.;
+               evecs[2][0] = (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[0])) / (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[0]));
+               evecs[2][1] = (gamma[0][1] * gamma[2][0] - gamma[2][1] * (gamma[0][0] - evals[1])) / (gamma[0][2] * gamma[2][1] - gamma[0][1] * (gamma[2][2] - evals[1])) * evecs[0][1];
+               evecs[2][2] = 1.;
+          }
 
 
           /*--------------------------------------------------------------------
-- 
2.43.0


From c0ea93dbdfbdb6d990bfe4f22235c14ce73512a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 018/131] fix: Green's function particular solution accepted
 with zero weight output angles, for which it is 0 / 0

---
 src/xrtm_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 32f2326..abc63bb 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -680,6 +680,11 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
               return XRTM_INT_ERROR;
      }
 
+     if (options & XRTM_OPTION_PART_SOL_GREENS && n_out_thetas > 0 && ! (options & XRTM_OPTION_SFI)) {
+          if (check_solvers(solvers, 0, report, "option", "part_sol_greens with n_out_thetas > 0 without sfi turned on", XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_EIG_BVP, 0))
+              return XRTM_INT_ERROR;
+     }
+
      if (options & XRTM_OPTION_DELTA_M && ! (options & XRTM_OPTION_N_T_TMS)) {
           if (check_solvers(solvers, 0, report, "option", "delta_m without n_t_tms", XRTM_SOLVER_SINGLE, 0))
                return XRTM_INT_ERROR;
-- 
2.43.0


From adc8a711c9bde302c1eb5deaad4ccb7ab69e9987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 019/131] fix: mean radiances and fluxes of the two and four
 stream solvers not calculated with SFI

---
 src/xrtm_four_stream.c | 2 --
 src/xrtm_two_stream.c  | 4 ++--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index cd55231..3505f73 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -718,7 +718,6 @@ if (thermal) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-if (n_umus == 0) {
      if (! utau_output) {
           for (i = 0; i < n_ulevels; ++i) {
                ii = ulevels[i];
@@ -984,7 +983,6 @@ if (n_umus == 0) {
                              save_tree, work);
 */
      }
-}
 
      /*-------------------------------------------------------------------------
       *
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 504c6af..9dff98a 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -865,7 +865,7 @@ if (0)
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (n_umus == 0) {
+     {
           if (! utau_output) {
                for (i = 0; i < n_ulevels; ++i) {
                     ii = ulevels[i];
@@ -1028,7 +1028,7 @@ else {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     else {
+     if (n_umus != 0) {
           v1      = get_work_d1(&work, n_umus);
           v2      = get_work_d1(&work, n_umus);
           v3      = get_work_d1(&work, n_umus);
-- 
2.43.0


From 30e5f7da0d6ef1bd34024b89ac1688a35731d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 020/131] fix: arguments of sfi_layer() swapped for output at
 optical depths in the two stream solver

---
 src/xrtm_two_stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 9dff98a..6bb1296 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -1715,9 +1715,9 @@ void sfi(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, doubl
                          I_u_l2 = I_u_l[i_out_level];
 
                     if (n_derivs == 0)
-                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, n_umus, F_0, umus, omega[i], NULL, ltau[i], NULL, btran[i], NULL, as_0[i], NULL, atran[i], NULL, P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, NULL, work, flag);
+                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, F_0, n_umus, umus, omega[i], NULL, ltau[i], NULL, btran[i], NULL, as_0[i], NULL, atran[i], NULL, P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, NULL, work, flag);
                     else
-                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, n_umus, F_0, umus, omega[i], omega_l[i], ltau[i], ltau_l[i], btran[i], btran_l[i], as_0[i], as_0_l[i], atran[i], atran_l[i], P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], P_u0_pm_l[i], P_uq_pp_l[i], P_uq_mp_l[i], nu_l[i], X_p_l[i], X_m_l[i], F_p_l[i], F_m_l[i], B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, derivs, work, flag);
+                         sfi_layer(i, atau, btau, ptau, i_four, n_derivs, F_0, n_umus, umus, omega[i], omega_l[i], ltau[i], ltau_l[i], btran[i], btran_l[i], as_0[i], as_0_l[i], atran[i], atran_l[i], P_u0_pm[i], P_uq_pp[i], P_uq_mp[i], nu[i], X_p[i], X_m[i], F_p[i], F_m[i], P_u0_pm_l[i], P_uq_pp_l[i], P_uq_mp_l[i], nu_l[i], X_p_l[i], X_m_l[i], F_p_l[i], F_m_l[i], B, B_l, I_0, I_0_l, offset, I_u[i_out_level], I_u_l2, add_single_scattering, solar, thermal, utau_output, derivs, work, flag);
 
                     i_out_level += inc;
                }
-- 
2.43.0


From 19515611ced9672093d3fee03a899c1990c4d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 021/131] fix: basic_matrix() writing beyond its array with one
 coefficient

---
 src/xrtm_scatter.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index f2d741f..79e3b83 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -634,9 +634,11 @@ void basic_matrix(int i_four, int n_coef, int n_stokes, double mu, double ***A)
           if (n_stokes >= 4)
                A[0][3][3] = 1.;
 
-          A[1][0][0] = mu;
-          if (n_stokes >= 4)
-               A[1][3][3] = mu;
+          if (n_coef >= 2) {
+               A[1][0][0] = mu;
+               if (n_stokes >= 4)
+                    A[1][3][3] = mu;
+          }
 
           if (n_coef >= 3) {
                leg_poly(3, mu, P);
-- 
2.43.0


From 0595fc1f72971ec942520c045ad0de02c4e08316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 022/131] fix: derivatives and thermal sources of layers
 without scattering in the adding solvers

---
 src/xrtm_model.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 6f4d043..3583721 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2133,6 +2133,8 @@ static int get_layer_R_T_S_U_W_V
 
      int flag2;
 
+     int no_scatter;
+
      int deps;
 
      double b0;
@@ -2282,7 +2284,19 @@ static int get_layer_R_T_S_U_W_V
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (d->omega[i_layer] == 0. || i_four >= d->n_coef_layer[i_layer])
+     no_scatter = d->omega[i_layer] == 0. && ! (d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0);
+
+     if (no_scatter && d->options & XRTM_OPTION_CALC_DERIVS) {
+          for (i = 0; i < d->n_derivs; ++i) {
+               if (d->derivs.layers[i_layer][i] && omega_l[i] != 0.)
+                    no_scatter = 0;
+          }
+     }
+
+     if (i_four >= d->n_coef_layer[i_layer])
+          no_scatter = 1;
+
+     if (no_scatter)
           no_scatter_r_t_s(d->n_quad_v_x, d->n_derivs, d->qx_v, d->qw_v, d->ltau[i_layer], ltau_l, *R_p, *T_p, *R_m, *T_m, *S_p, *S_m, *Sl_p, *Sl_m, *R_p_l, *T_p_l, *R_m_l, *T_m_l, *S_p_l, *S_m_l, *Sl_p_l, *Sl_m_l, d->options & XRTM_OPTION_SOURCE_SOLAR, d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0, derivs_layers, derivs_beam, derivs_thermal);
 
 
-- 
2.43.0


From 823587eac2c36bacc8ce0cf2f196be61e6b6e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:39 +0000
Subject: [PATCH 023/131] fix: derivatives of eigenvalues with trivial
 eigenvectors that are not constant

---
 src/xrtm_eig_util.c   | 30 +++++++++++++++++++++++++++++-
 src/xrtm_eig_util_a.c |  6 ------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_eig_util.c b/src/xrtm_eig_util.c
index 3d05951..7989dea 100644
--- a/src/xrtm_eig_util.c
+++ b/src/xrtm_eig_util.c
@@ -92,6 +92,34 @@ int is_degenerate_eigenvalue(int i, int n_quad, double *evals) {
 
 
 
+/* gamma_l times the eigenvector is zero: neither it nor its eigenvalue varies */
+static int is_constant_eigenvector(int i, int n_quad, int n_derivs, double **evecs, double ***gamma_l, uchar *derivs) {
+
+     int j;
+     int k;
+     int l;
+
+     double a;
+
+     for (j = 0; j < n_derivs; ++j) {
+          if (! derivs[j])
+               continue;
+
+          for (k = 0; k < n_quad; ++k) {
+               a = 0.;
+               for (l = 0; l < n_quad; ++l)
+                    a += gamma_l[j][k][l] * evecs[l][i];
+
+               if (a != 0.)
+                    return 0;
+          }
+     }
+
+     return 1;
+}
+
+
+
 void zero_eigen_derivs(int i, int n_quad, int n_derivs, double **evals_r_l, double **evals_i_l, double ***evecs_l, uchar *derivs) {
 
      int j;
@@ -338,7 +366,7 @@ static void eig_1n_gen_real(int n_quad, int n_derivs,
 
           for (i = 0; i < n_quad; ++i) {
 
-               if (is_trivial_eigenvector(i, n_quad, evecs))
+               if (is_trivial_eigenvector(i, n_quad, evecs) && (is_degenerate_eigenvalue(i, n_quad, evals) || is_constant_eigenvector(i, n_quad, n_derivs, evecs, gamma_l, derivs)))
 /*
                if (is_dummy_node_eigenvector(i, n_quad, evecs))
 */
diff --git a/src/xrtm_eig_util_a.c b/src/xrtm_eig_util_a.c
index 2ce0996..1dfd8e2 100644
--- a/src/xrtm_eig_util_a.c
+++ b/src/xrtm_eig_util_a.c
@@ -29,12 +29,6 @@ static void eigen_derivatives_real_a(int i, int n_quad, double **gamma, double *
      double a;
      double b;
 
-     if (is_trivial_eigenvector(i, n_quad, evecs))
-/*
-     if (is_dummy_node_eigenvector(i, n_quad, evecs))
-*/
-          return;
-
      if (is_degenerate_eigenvalue(i, n_quad, evals_r))
           return;
 if (! flag) {
-- 
2.43.0


From c06f5291287d93593c8bbbf2dca2f9f494c1f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:42 +0000
Subject: [PATCH 024/131] fix: derivatives of doubling in the symmetric form
 with output angles of zero weight

---
 src/xrtm_model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 3583721..79a9fbd 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2047,7 +2047,7 @@ static void call_solver
      }
 
      if (solver & XRTM_SOLVER_DOUB_ADD) {
-          rtm_doub_rts (d->n_quad_x, d->n_stokes, d->n_derivs, d->F_0, d->qx_v, d->qw_v, planck0, planck1, planck0_l, planck1_l, omega, omega_l, ltau, ltau_l, as_0, as_0_l, P_q0_mm, P_q0_pm, r_p, t_p, r_x, t_x, R_p, T_p, R_m, T_m, S_p, S_m, Sl_p, Sl_m, P_q0_mm_l, P_q0_pm_l, r_p_l, t_p_l, r_x_l, t_x_l, R_p_l, T_p_l, R_m_l, T_m_l, S_p_l, S_m_l, Sl_p_l, Sl_m_l, d->doub_d_tau, symmetric, solar, thermal, vector, derivs_layers, derivs_beam, derivs_thermal, save_tree, work);
+          rtm_doub_rts (d->n_quad_x, d->n_stokes, d->n_derivs, d->F_0, d->qx_v, d->qw_v, planck0, planck1, planck0_l, planck1_l, omega, omega_l, ltau, ltau_l, as_0, as_0_l, P_q0_mm, P_q0_pm, r_p, t_p, r_x, t_x, R_p, T_p, R_m, T_m, S_p, S_m, Sl_p, Sl_m, P_q0_mm_l, P_q0_pm_l, r_p_l, t_p_l, r_x_l, t_x_l, R_p_l, T_p_l, R_m_l, T_m_l, S_p_l, S_m_l, Sl_p_l, Sl_m_l, d->doub_d_tau, symmetric && d->n_quad_x == d->n_quad, solar, thermal, vector, derivs_layers, derivs_beam, derivs_thermal, save_tree, work);
      }
      else
      if (solver & XRTM_SOLVER_EIG_ADD) {
-- 
2.43.0


From e87b5c8012a82bed94b5fea2992046f5a16bb8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 025/131] fix: derivatives with respect to F_iso_bot of the
 Eigenmatrix/BVP solver ignored without a surface

---
 src/xrtm_eig_bvp_x.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_eig_bvp_x.c b/src/xrtm_eig_bvp_x.c
index 3a71343..d5462a3 100644
--- a/src/xrtm_eig_bvp_x.c
+++ b/src/xrtm_eig_bvp_x.c
@@ -507,10 +507,10 @@ else {
                     }
 
                     b += c;
-
-                    b += In_p_l[m][j];
                }
 
+               b += In_p_l[m][j];
+
                for (k = 0; k < n_quad_v; ++k) {
                     if (derivs_layers[i][m])
                          b -= B[ii + k] * (lambda_l[i][k] * X_p[i][j][k] + lambda[i][k] * X_p_l[i][m][j][k]) + B[ii + k + n_quad_v] * X_m_l[i][m][j][k];
-- 
2.43.0


From f9324ddfa9ac3d46a5fd7c4488df7369be741669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 026/131] fix: derivatives of average secants and of coincident
 angles in the two orders of scattering solver

---
 src/xrtm_two_os.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 72a3105..68863f8 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -655,11 +655,11 @@ if (0) {
 
                     for (m = 0; m < n_derivs; ++m) {
                          if (y[k] == x[l])
-                              Phi2_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * ((-ltau_l[j][m] * (y[k] + as_0[j]) - as_0_l[j][m]))) * b;
+                              Phi2_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * (-ltau_l[j][m] * (y[k] + as_0[j]) - ltau[j] * as_0_l[j][m])) * b;
                          else
                               Phi2_l[j][m][k][l] = ((-ltau_l[j][m] * (y[k] + as_0[j]) - ltau[j] * as_0_l[j][m]) * b - (-ltau_l[j][m] * (x[l] + as_0[j]) - ltau[j] * as_0_l[j][m]) * c) / (x[l] - y[k]);
                          if (as_0[j] == x[l])
-                              Phi3_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * -ltau[j] * (x[l] + y[k])) * d;
+                              Phi3_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * (-ltau_l[j][m] * (x[l] + y[k]) - ltau[j] * as_0_l[j][m] / 2.)) * d;
                          else
                               Phi3_l[j][m][k][l] = ((-ltau_l[j][m] * (x[l] + y[k]) * d - (-ltau_l[j][m] * (as_0[j] + y[k]) - ltau[j] * as_0_l[j][m]) * e) - Phi3[j][k][l] * as_0_l[j][m]) / (as_0[j] - x[l]);
                     }
@@ -742,7 +742,7 @@ if (0) {
                     a = 0.;
                     for (l = 0; l < n_quad_v_x; ++l) {
                          a += (Phi3_l[j][m][k][l] * R_p[j+1][k][l] + Phi3[j][k][l] * R_p_l[j+1][m][k][l] +
-                               r_m_l[j][m][k][l] * w4[k][l] + r_m[j][k][l] * w1[k][l] * as_0_l[j][m] * (x[l] + y[k]) / ((y[k] + as_0[j]) * (x[l] + y[k])) * w2[k][l] + w3[k][l] * (- Psi1_l[j][m][k] - as_0_l[j][m] * Phi3[j][k][l] - (y[k] + as_0[j]) * Phi3_l[j][m][k][l])) * t_0[j][l];
+                               r_m_l[j][m][k][l] * w4[k][l] - r_m[j][k][l] * w1[k][l] * as_0_l[j][m] / (y[k] + as_0[j]) * w2[k][l] + w3[k][l] * (- Psi1_l[j][m][k] - as_0_l[j][m] * Phi3[j][k][l] - (y[k] + as_0[j]) * Phi3_l[j][m][k][l])) * t_0[j][l];
 
                          if (derivs->layers[j][m])
                               a += (Phi3[j][k][l] * R_p[j+1][k][l] + r_m[j][k][l] * w4[k][l]) * t_0_l[j][m][l];
-- 
2.43.0


From 38cd4ae73d409365cb418e1f9d7c4cf0159f189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:31 +0000
Subject: [PATCH 027/131] fix: derivatives of thermal emission of
 non-Lambertian surfaces

---
 src/xrtm_model.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 79a9fbd..2761ccb 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -4137,10 +4137,16 @@ if (i_four == 0) {
 
                     if (d->derivs.layers[d->n_layers][i]) {
 */
-                         c = d->surface_b_l[i] * (1. - a);
-
                          jj = 0;
                          for (j = 0; j < d->n_quad_x; ++j) {
+                              a  = 0.;
+                              kk = 0;
+                              for (k = 0; k < d->n_quad_x; ++k) {
+                                   a  += Rs_qq[jj][kk];
+                                   kk += d->n_stokes;
+                              }
+                              c = d->surface_b_l[i] * (1. - a);
+
                               e  = 0.;
                               kk = 0;
 if (d->derivs.layers[d->n_layers][i]) {
@@ -4154,10 +4160,16 @@ if (d->derivs.layers[d->n_layers][i]) {
                               jj += d->n_stokes;
                          }
 
-                         c = d->surface_b_l[i] * (1. - b);
-
                          jjj = jj; jj = 0;
                          for ( ; j < d->n_quad + d->n_umus; ++j) {
+                              b  = 0.;
+                              kk = 0;
+                              for (k = 0; k < d->n_quad_x; ++k) {
+                                   b  += Rs_uq[jj][kk];
+                                   kk += d->n_stokes;
+                              }
+                              c = d->surface_b_l[i] * (1. - b);
+
                               e  = 0.;
                               kk = 0;
 if (d->derivs.layers[d->n_layers][i]) {
-- 
2.43.0


From 303a02485a896013933e15877d646907c67d6bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:38 +0000
Subject: [PATCH 028/131] fix: boundary radiances added at each order, and
 missing from the output, in the successive orders of scattering solver

---
 src/xrtm_sos.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_sos.c b/src/xrtm_sos.c
index 03ac50d..5b3dce7 100644
--- a/src/xrtm_sos.c
+++ b/src/xrtm_sos.c
@@ -222,15 +222,15 @@ int rtm_sos(int i_four,
 i_last_ulevel = n_ulevels - 1;
 
 if (ulevels[0] == 0)
-     init_array1_d(I_m[0], n_quad_v, 0.);
+     dvec_copy(I_m[0], I1_m, n_quad_v);
 if (ulevels[i_last_ulevel] == n_layers)
-     init_array1_d(I_p[i_last_ulevel], n_quad_v, 0.);
+     dvec_copy(I_p[i_last_ulevel], In_p, n_quad_v);
 
      if (n_derivs > 0) {
 if (ulevels[0            ] == 0)
-          init_array2_d(I_m_l[0], n_derivs, n_quad_v, 0.);
+          dmat_copy(I_m_l[0], I1_m_l, n_derivs, n_quad_v);
 if (ulevels[i_last_ulevel] == n_layers)
-          init_array2_d(I_p_l[i_last_ulevel], n_derivs, n_quad_v, 0.);
+          dmat_copy(I_p_l[i_last_ulevel], In_p_l, n_derivs, n_quad_v);
      }
 
 
@@ -467,9 +467,9 @@ if (ulevels[0] == 0) {
           if (n_derivs > 0)
                dmat_add(I_p_l[0], i_p_l[i][0], I_p_l[0], n_derivs, n_quad_v);
 }
-          dvec_copy(i_m[i][0], I1_m, n_quad_v);
+          init_array1_d(i_m[i][0], n_quad_v, 0.);
           if (n_derivs > 0)
-               dmat_copy(i_m_l[i][0], I1_m_l, n_derivs, n_quad_v);
+               init_array2_d(i_m_l[i][0], n_derivs, n_quad_v, 0.);
 
           for (j = 0; j < n_layers2; ++j) {
                dm_v_diag_mul(T[j], i_m[i][j], i_m[i][j+1], n_quad_v);
@@ -525,8 +525,11 @@ if (ulevels[i_last_ulevel] == n_layers) {
                dmat_copy(I_m_l[i_last_ulevel], i_m_l[i][n_layers2], n_derivs, n_quad_v);
 */
           dvec_add(I_m[i_last_ulevel], i_m[i][n_layers2], I_m[i_last_ulevel], n_quad_v);
-          if (n_derivs > 0)
+          dvec_add(I_p[i_last_ulevel], i_p[i][n_layers2], I_p[i_last_ulevel], n_quad_v);
+          if (n_derivs > 0) {
                dmat_add(I_m_l[i_last_ulevel], i_m_l[i][n_layers2], I_m_l[i_last_ulevel], n_derivs, n_quad_v);
+               dmat_add(I_p_l[i_last_ulevel], i_p_l[i][n_layers2], I_p_l[i_last_ulevel], n_derivs, n_quad_v);
+          }
 }
           if (a < sos_tol)
                break;
-- 
2.43.0


From bcf41105e8c7306072bfe200797eadc67f0b8bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 029/131] fix: Green's function particular solution accepted
 with SFI and derivatives, which it does not provide

---
 src/xrtm_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index abc63bb..f2c9f4f 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -685,6 +685,11 @@ int xrtm_check_solvers(int options, int solvers, int max_coef, int n_quad, int n
               return XRTM_INT_ERROR;
      }
 
+     if (options & XRTM_OPTION_PART_SOL_GREENS && options & XRTM_OPTION_SFI && options & XRTM_OPTION_CALC_DERIVS) {
+          if (check_solvers(solvers, 0, report, "option", "part_sol_greens with sfi and calc_derivs turned on", XRTM_SOLVER_EIG_BVP, 0))
+              return XRTM_INT_ERROR;
+     }
+
      if (options & XRTM_OPTION_DELTA_M && ! (options & XRTM_OPTION_N_T_TMS)) {
           if (check_solvers(solvers, 0, report, "option", "delta_m without n_t_tms", XRTM_SOLVER_SINGLE, 0))
                return XRTM_INT_ERROR;
-- 
2.43.0


From 032a3279b683ddc3af51bf36883018fb2551d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 030/131] fix: derivatives of SFI with respect to average
 secants of lower layers and surface thermal emission

---
 src/xrtm_sfi_x.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 592c4ea..4f0f21a 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -130,11 +130,23 @@ static void SFI_SOURCE_SOLAR_CLASSIC(double ptau, double *ptau_l,
 
           if (derivs_layers[j])
                e2_l = (-ptau_l[j] * as_0 - ptau * as_0_l[j]) * e2;
+          else
+          if (derivs_beam[j])
+               e2_l =                    - ptau * as_0_l[j]  * e2;
 
           for (k = 0; k < n_umus_v; ++k) {
                if (derivs_beam[j])
                     I_u_l[j][offset + k] += Fu_0_l[k] * Eu_0[k];
 
+               if (! derivs_layers[j] && derivs_beam[j]) {
+                    if (! flag)
+                         Eu_0_l = (e2_l - atran_l[j] * e1[k] - Eu_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
+                    else
+                         Eu_0_l = (e2_l                      - Eu_0[k] * (-umus[k] * as_0_l[j])) / (1. - umus[k] * as_0);
+
+                    I_u_l[j][offset + k] += Fu_0[k] * Eu_0_l;
+               }
+
                if (derivs_layers[j]) {
                     if (! flag)
                          Eu_0_l = ((e2_l - atran_l[j] * e1[k] - atran * e1_l[j][k]) - Eu_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
@@ -1273,10 +1285,16 @@ void SFI_UP(int i_four,
           }
 
           for (i = 0; i < n_derivs; ++i) {
-               b = surface_b_l[i] * (1. - a);
-
                jj = 0;
                for (j = 0; j < n_umus; ++j) {
+                    a  = 0.;
+                    kk = 0;
+                    for (k = 0; k < n_quad; ++k) {
+                         a  += Rs_uq[jj][kk];
+                         kk += n_stokes;
+                    }
+                    b = surface_b_l[i] * (1. - a);
+
                     c  = 0.;
                     kk = 0;
 
-- 
2.43.0


From 7b95e8cfc235a7c9ecf11f6792cd0ea809dff715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 031/131] fix: derivatives of SFI in the two stream solver with
 respect to average secants of lower layers, and without varied layers

---
 src/xrtm_two_stream.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 6bb1296..4473d6a 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -277,7 +277,7 @@ void rtm_two_stream(int i_four,
 #endif
      }
 
-     if (flags_or2(derivs->layers, n_layers, n_derivs)) {
+     if (n_derivs > 0) {
           nu_l      = get_work_d2(&work, n_layers, n_derivs);
 
           X_p_l     = get_work_d2(&work, n_layers, n_derivs);
@@ -1486,11 +1486,23 @@ else
 
                e2_l = (-ptau_l[j] * as_0 - ptau * as_0_l[j]) * e2;
           }
+          else
+          if (derivs->beam[i_layer][j])
+               e2_l =                    - ptau * as_0_l[j]  * e2;
 
           for (k = 0; k < n_umus; ++k) {
                if (derivs->beam[i_layer][j])
                     I_u_l[j][offset + k] += Gu_0[k] * Du_0[k];
 
+               if (! derivs->layers[i_layer][j] && derivs->beam[i_layer][j]) {
+                    if (! flag)
+                         Eu_0 = (e2_l - atran_l[j] * e1[k] - Du_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
+                    else
+                         Eu_0 = (e2_l                      - Du_0[k] * (-umus[k] * as_0_l[j])) / (1. - umus[k] * as_0);
+
+                    I_u_l[j][offset + k] += Fu_0[k] * Eu_0;
+               }
+
                if (derivs->layers[i_layer][j]) {
                     if (! flag)
                          Eu_0 = ((e2_l - atran_l[j] * e1[k] - atran * e1_l[j][k]) - Du_0[k] * ( umus[k] * as_0_l[j])) / (1. + umus[k] * as_0);
-- 
2.43.0


From 53966f2a5aeb92f71c44a6f3efbc6040a5c1e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:48 +0000
Subject: [PATCH 032/131] fix: thermal sources missing from output at optical
 depths of the Eigenmatrix/BVP solver

---
 src/prototypes/xrtm_eig_bvp_p.h |  4 ++--
 src/xrtm_eig_bvp.c              |  4 ++++
 src/xrtm_eig_bvp_x.c            | 16 ++++++++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/prototypes/xrtm_eig_bvp_p.h b/src/prototypes/xrtm_eig_bvp_p.h
index 192a73d..9564098 100644
--- a/src/prototypes/xrtm_eig_bvp_p.h
+++ b/src/prototypes/xrtm_eig_bvp_p.h
@@ -1,6 +1,6 @@
 /* xrtm_eig_bvp.c */
 void calc_radiance_levels(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *ltau, double **ltau_l, double *atran, double **atran_l, double **nu, double ***X_p, double ***X_m, double **Fs_p, double **Fs_m, double **Fs1_p, double **Fs1_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, double ***nu_l, double ****X_p_l, double ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Fs1_p_l, double ***Fs1_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, double *B, double **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
-void calc_radiance_taus(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *utaus, double *ltau, double **ltau_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **nu, double ***X_p, double ***X_m, double **Fs_p, double **Fs_m, double ***nu_l, double ****X_p_l, double ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double *B, double **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
+void calc_radiance_taus(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *utaus, double *ltau, double **ltau_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **nu, double ***X_p, double ***X_m, double **Fs_p, double **Fs_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, double ***nu_l, double ****X_p_l, double ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, double *B, double **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
 void calc_radiance_levels2(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *ltau, double **ltau_l, double *atran, double **atran_l, dcomplex **nu, dcomplex ***X_p, dcomplex ***X_m, double **Fs_p, double **Fs_m, double **Fs1_p, double **Fs1_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, dcomplex ***nu_l, dcomplex ****X_p_l, dcomplex ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Fs1_p_l, double ***Fs1_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, dcomplex *B, dcomplex **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
-void calc_radiance_taus2(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *utaus, double *ltau, double **ltau_l, double *as_0, double **as_0_l, double *atran, double **atran_l, dcomplex **nu, dcomplex ***X_p, dcomplex ***X_m, double **Fs_p, double **Fs_m, dcomplex ***nu_l, dcomplex ****X_p_l, dcomplex ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, dcomplex *B, dcomplex **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
+void calc_radiance_taus2(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *utaus, double *ltau, double **ltau_l, double *as_0, double **as_0_l, double *atran, double **atran_l, dcomplex **nu, dcomplex ***X_p, dcomplex ***X_m, double **Fs_p, double **Fs_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, dcomplex ***nu_l, dcomplex ****X_p_l, dcomplex ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, dcomplex *B, dcomplex **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
 void rtm_eig_bvp(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, double qf, double *qx_v, double *qw_v, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double *planck, double **planck_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double surface_b, double *surface_b_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **P_q0_mm, double **P_q0_pm, double **P_u0_mm, double **P_u0_pm, double ***P_uq_pp, double ***P_uq_mp, double ***P_uq_mm, double ***P_uq_pm, double ***r_p, double ***t_p, double ***r_m, double ***t_m, double ***P_q0_mm_l, double ***P_q0_pm_l, double ***P_u0_mm_l, double ***P_u0_pm_l, double ****P_uq_pp_l, double ****P_uq_mp_l, double ****P_uq_mm_l, double ****P_uq_pm_l, double ****r_p_l, double ****t_p_l, double ****r_m_l, double ****t_m_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double F_iso_top, double *F_iso_top_l, double F_iso_bot, double *F_iso_bot_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int greens, int sfi, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, int vector, int eigen_solver_real, int eigen_solver_complex, derivs_data *derivs, save_tree_data save_tree, work_data work);
diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 2b3fda6..4c4bd35 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -681,8 +681,10 @@ else {
                                     as_0, as_0_l, atran2, atran2_l,
                                     nu, X_p, X_m,
                                     Fs_p, Fs_m,
+                                    Ft0_p, Ft0_m, Ft1_p, Ft1_m,
                                     nu_l, X_p_l, X_m_l,
                                     Fs_p_l, Fs_m_l,
+                                    Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
                                     B, B_l,
                                     I_p, I_m, I_p_l, I_m_l,
                                     solar, thermal,
@@ -731,8 +733,10 @@ else {
                                      as_0, as_0_l, atran2, atran2_l,
                                      nu_c, X_p_c, X_m_c,
                                      Fs_p, Fs_m,
+                                     Ft0_p, Ft0_m, Ft1_p, Ft1_m,
                                      nu_l_c, X_p_l_c, X_m_l_c,
                                      Fs_p_l, Fs_m_l,
+                                     Ft0_p_l, Ft0_m_l, Ft1_p_l, Ft1_m_l,
                                      B_c, B_l_c,
                                      I_p, I_m, I_p_l, I_m_l,
                                      solar, thermal,
diff --git a/src/xrtm_eig_bvp_x.c b/src/xrtm_eig_bvp_x.c
index d5462a3..45719cb 100644
--- a/src/xrtm_eig_bvp_x.c
+++ b/src/xrtm_eig_bvp_x.c
@@ -887,8 +887,10 @@ void CALC_RADIANCE_TAUS(int n_quad, int n_layers, int n_derivs,
                         double *as_0, double **as_0_l, double *atran, double **atran_l,
                         TYPE **nu, TYPE ***X_p, TYPE ***X_m,
                         double **Fs_p, double **Fs_m,
+                        double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m,
                         TYPE ***nu_l, TYPE ****X_p_l, TYPE ****X_m_l,
                         double ***Fs_p_l, double ***Fs_m_l,
+                        double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l,
                         TYPE *B, TYPE **B_l,
                         double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
                         int solar, int thermal,
@@ -906,6 +908,8 @@ void CALC_RADIANCE_TAUS(int n_quad, int n_layers, int n_derivs,
 
      TYPE a;
 
+     double f;
+
      double utau_l;
 
      TYPE *v1;
@@ -962,6 +966,8 @@ void CALC_RADIANCE_TAUS(int n_quad, int n_layers, int n_derivs,
                lambda_m[j] = XEXP(-nu[ii][j] * (ltau[ii] - utaus[i]));
           }
 
+          f = utaus[i] / ltau[ii];
+
           iii = ii * n_quad2;
 if (LEGACY_MODE) {
           for (j = 0; j < n_quad; ++j) {
@@ -974,6 +980,8 @@ if (LEGACY_MODE) {
                I_p[i][j] = XREAL(a);
                if (solar)
                     I_p[i][j] += Fs_p[ii][j] * XEXP(-utaus[i] * as_0[ii]);
+               if (thermal)
+                    I_p[i][j] += Ft0_p[ii][j] + (Ft1_p[ii][j] - Ft0_p[ii][j]) * f;
           }
 }
 else {
@@ -997,6 +1005,8 @@ if (LEGACY_MODE) {
                I_m[i][j] = XREAL(a);
                if (solar)
                     I_m[i][j] += Fs_m[ii][j] * XEXP(-utaus[i] * as_0[ii]);
+               if (thermal)
+                    I_m[i][j] += Ft0_m[ii][j] + (Ft1_m[ii][j] - Ft0_m[ii][j]) * f;
           }
 }
 else {
@@ -1036,6 +1046,8 @@ else {
 
                iii = ii * n_quad2;
 
+               f = utaus[i] / ltau[ii];
+
                utau_l = utaus[i] * ltau_l[ii][m] / ltau[ii];
 
                for (j = 0; j < n_quad; ++j) {
@@ -1054,6 +1066,8 @@ else {
 
                     if (solar && derivs_beam[ii][m])
                          I_p_l[i][m][j] += (double) (Fs_p_l[ii][m][j] * XEXP(-utaus[i] * as_0[ii]) + Fs_p[ii][j] * -(utau_l * as_0[ii] + utaus[i] * as_0_l[ii][m]) * XEXP(-utaus[i] * as_0[ii]));
+                    if (thermal && derivs_thermal[ii][m])
+                         I_p_l[i][m][j] += Ft0_p_l[ii][m][j] + (Ft1_p_l[ii][m][j] - Ft0_p_l[ii][m][j]) * f;
                }
 
                for (j = 0; j < n_quad; ++j) {
@@ -1072,6 +1086,8 @@ else {
 
                     if (solar && derivs_beam[ii][m])
                          I_m_l[i][m][j] += (double) (Fs_m_l[ii][m][j] * XEXP(-utaus[i] * as_0[ii]) + Fs_m[ii][j] * -(utau_l * as_0[ii] + utaus[i] * as_0_l[ii][m]) * XEXP(-utaus[i] * as_0[ii]));
+                    if (thermal && derivs_thermal[ii][m])
+                         I_m_l[i][m][j] += Ft0_m_l[ii][m][j] + (Ft1_m_l[ii][m][j] - Ft0_m_l[ii][m][j]) * f;
                }
           }
      }
-- 
2.43.0


From 319b32f00f57d4ca9997fd5770311bc47423fa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:50 +0000
Subject: [PATCH 033/131] fix: upwelling radiance at the top of the two orders
 of scattering solver returned for the bottom

---
 src/xrtm_two_os.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 68863f8..2fca58f 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -753,6 +753,9 @@ if (0) {
           }
      }
 
+     if (ulevels[0] != 0)
+          return 0;
+
      dvec_copy(I_p[0]+offset, i_p[i][0], n_xmus_v);
      for (j = 0; j < n_derivs; ++j)
           dvec_copy(I_p_l[0][j]+offset, i_p_l[i][0][j], n_xmus_v);
-- 
2.43.0


From 21abbb8cc89821204870fc6abc3558db7fcdce64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:00 +0000
Subject: [PATCH 034/131] fix: loss of precision in the two orders of
 scattering solver for output angles close to quadrature angles

---
 src/xrtm_two_os.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_two_os.c b/src/xrtm_two_os.c
index 2fca58f..fe3063a 100644
--- a/src/xrtm_two_os.c
+++ b/src/xrtm_two_os.c
@@ -644,7 +644,7 @@ if (0) {
                     c = alpha[j][l] * a;
                     d = beta[j][k] * alpha[j][l];
 
-                    if (y[k] == x[l])
+                    if (fabs(y[k] - x[l]) <= 1.e-7 * x[l])
                          Phi2[j][k][l] = ltau[j] * b;
                     else
                          Phi2[j][k][l] = (b - c) / (x[l] - y[k]);
@@ -654,7 +654,7 @@ if (0) {
                          Phi3[j][k][l] = (d - e) / (as_0[j] - x[l]);
 
                     for (m = 0; m < n_derivs; ++m) {
-                         if (y[k] == x[l])
+                         if (fabs(y[k] - x[l]) <= 1.e-7 * x[l])
                               Phi2_l[j][m][k][l] = (ltau_l[j][m] + ltau[j] * (-ltau_l[j][m] * (y[k] + as_0[j]) - ltau[j] * as_0_l[j][m])) * b;
                          else
                               Phi2_l[j][m][k][l] = ((-ltau_l[j][m] * (y[k] + as_0[j]) - ltau[j] * as_0_l[j][m]) * b - (-ltau_l[j][m] * (x[l] + as_0[j]) - ltau[j] * as_0_l[j][m]) * c) / (x[l] - y[k]);
-- 
2.43.0


From 8a639241c2ae0cd6bf0e1b9fb2fb9a2fe5df86b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:41 +0000
Subject: [PATCH 035/131] fix: isotropic illumination and its derivatives with
 top-down and bottom-up adding

---
 src/xrtm_interface.c |  16 +++++-
 src/xrtm_model.c     |  85 ++++++++++++++++++++-------
 src/xrtm_model_a.c   |   9 ++-
 src/xrtm_radiance.c  | 133 ++++++-------------------------------------
 4 files changed, 100 insertions(+), 143 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index f2c9f4f..13aa245 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5124,7 +5124,7 @@ static void build_derivs_thermal(xrtm_data *d, uchar **derivs_layers, uchar **de
 
 
 
-static void build_derivs_sources(xrtm_data *d, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, uchar **derivs_sources) {
+static void build_derivs_sources(xrtm_data *d, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, uchar **derivs_sources, int flag) {
 
      int i;
      int j;
@@ -5137,7 +5137,17 @@ static void build_derivs_sources(xrtm_data *d, uchar **derivs_layers, uchar **de
                     derivs_sources[i][j] |= derivs_beam[i][j];
                if (d->options & XRTM_OPTION_SOURCE_THERMAL)
                     derivs_sources[i][j] |= derivs_thermal[i][j];
+
+               /* When adding in one direction only the boundary input is part
+                  of the source vectors. */
+               if (d->options & (XRTM_OPTION_TOP_DOWN_ADDING | XRTM_OPTION_BOTTOM_UP_ADDING))
+                    derivs_sources[i][j] |= derivs_layers[i][j];
           }
+
+          if (d->options & XRTM_OPTION_TOP_DOWN_ADDING)
+               derivs_sources[0][j] = 1;
+          if (d->options & XRTM_OPTION_BOTTOM_UP_ADDING && flag)
+               derivs_sources[d->n_layers][j] = 1;
      }
 
      flags_fill_meta2(derivs_sources, d->n_layers + 1, d->n_derivs);
@@ -5439,7 +5449,7 @@ int xrtm_update_varied_layers(xrtm_data *d) {
      if (d->options & XRTM_OPTION_SOURCE_THERMAL)
           build_derivs_thermal(d, d->derivs.layers, d->derivs.thermal);
 
-     build_derivs_sources(d, d->derivs.layers, d->derivs.beam, d->derivs.thermal, d->derivs.sources);
+     build_derivs_sources(d, d->derivs.layers, d->derivs.beam, d->derivs.thermal, d->derivs.sources, 1);
 
      build_derivs_total(d, d->derivs.layers, d->derivs.sources, d->derivs.total);
 
@@ -5459,7 +5469,7 @@ int xrtm_update_varied_layers(xrtm_data *d) {
      if (d->options & XRTM_OPTION_SOURCE_THERMAL)
           build_derivs_thermal(d, d->derivs.layers_m, d->derivs.thermal_m);
 
-     build_derivs_sources(d, d->derivs.layers_m, d->derivs.beam_m, d->derivs.thermal_m, d->derivs.sources_m);
+     build_derivs_sources(d, d->derivs.layers_m, d->derivs.beam_m, d->derivs.thermal_m, d->derivs.sources_m, 0);
 
      build_derivs_total(d, d->derivs.layers_m, d->derivs.sources_m, d->derivs.total_m);
 
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 2761ccb..92d944b 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2565,11 +2565,14 @@ static int get_total_BOA_R_S_U_V
      uchar *derivs_adding_down;
 
      int i;
+     int j;
 
      int deps;
 
      int flag2;
 
+     double *v1;
+
      double *trans_l;
 
      double *btran_l;
@@ -2658,6 +2661,8 @@ static int get_total_BOA_R_S_U_V
           S1_m_l = *S_m_l;
      }
 
+     v1   = get_work1(&work2, WORK_DX);
+
      S3_p = get_work1(&work2, WORK_DX);
      S3_m = get_work1(&work2, WORK_DX);
 
@@ -2676,16 +2681,6 @@ static int get_total_BOA_R_S_U_V
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-/*
-     dvec_copy(S1_m, S_t, d->n_quad_v_x);
-
-     if (d->options & XRTM_OPTION_CALC_DERIVS && flags_or(d->derivs.sources[d->n_layers], d->n_derivs)) {
-          for (i = 0; i < d->n_derivs; ++i) {
-               if (d->derivs.sources[d->n_layers][i])
-                    dvec_copy(S1_m_l[i], S_t_l[i], d->n_quad_v_x);
-          }
-     }
-*/
      for (i = 0; i < d->n_layers; ++i) {
           work3 = work2;
 
@@ -2716,8 +2711,26 @@ static int get_total_BOA_R_S_U_V
 
           scale_add_source_vectors(d->n_quad_v_x, d->n_derivs, d->btran[i], btran_l, S2_p, S2_m, Sl2_p, Sl2_m, S3_p, S3_m, S2_p_l, S2_m_l, Sl2_p_l, Sl2_m_l, S3_p_l, S3_m_l, d->options & XRTM_OPTION_SOURCE_SOLAR, d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0, derivs_layers, derivs_beam, derivs_thermal, derivs_sources, work3);
 
-          if (i == 0)
+          if (i == 0) {
+               /* S3_m = S3_m + T2_m * S_t */
+               dm_v_mul(T2_m, S_t, d->n_quad_v_x, d->n_quad_v_x, v1);
+               dvec_add(S3_m, v1, S3_m, d->n_quad_v_x);
+
+               for (j = 0; j < d->n_derivs; ++j) {
+                    if (! derivs_sources[j])
+                         continue;
+
+                    dm_v_mul(T2_m, S_t_l[j], d->n_quad_v_x, d->n_quad_v_x, v1);
+                    dvec_add(S3_m_l[j], v1, S3_m_l[j], d->n_quad_v_x);
+
+                    if (derivs_layers[j]) {
+                         dm_v_mul(T2_m_l[j], S_t, d->n_quad_v_x, d->n_quad_v_x, v1);
+                         dvec_add(S3_m_l[j], v1, S3_m_l[j], d->n_quad_v_x);
+                    }
+               }
+
                layer_copy_ref_l(R1_p, S1_m, R2_p, S3_m, R1_p_l, S1_m_l, R2_p_l, S3_m_l, d->n_quad_v_x, d->n_derivs, derivs_layers, derivs_sources);
+          }
           else
                layer_add_ref   (R2_p, T2_p, S3_p, R2_m, T2_m, S3_m, R1_p, S1_m, R1_p, S1_m, R2_p_l, T2_p_l, S3_p_l, R2_m_l, T2_m_l, S3_m_l, R1_p_l, S1_m_l, R1_p_l, S1_m_l, d->n_quad_v_x, d->n_derivs, 1., trans_l, derivs_adding_down, 1, 1, save_tree, work3);
      }
@@ -4546,6 +4559,8 @@ static int fourier_get_add_top_down(xrtm_data *d, int i_four, int solver, double
      double **I_p_l1;
      double **I_m_l1;
 
+     double *v1;
+
      double *S_m;
 
      double **S_m_l;
@@ -4610,16 +4625,28 @@ static int fourier_get_add_top_down(xrtm_data *d, int i_four, int solver, double
       *
       *-----------------------------------------------------------------------*/
      if (! surface) {
-          init_array1_d(I_p[0], d->n_quad_v_x, 0.);
-          copy_array1_d(I_m[0], S_m, d->n_quad_v_x);
+          v1 = get_work1(&work, WORK_DX);
+
+          dvec_copy(I_p[0], d->In_p[i_four], d->n_quad_v_x);
+
+          dm_v_mul(R_p, d->In_p[i_four], d->n_quad_v_x, d->n_quad_v_x, I_m[0]);
+          dvec_add(I_m[0], S_m, I_m[0], d->n_quad_v_x);
 
           if (d->options & XRTM_OPTION_CALC_DERIVS) {
+               derivs_adding_down = d->derivs.adding_down[d->n_layers];
+
                for (i = 0; i < d->n_derivs; ++i) {
-                    init_array1_d(I_p_l[0][i], d->n_quad_v_x, 0.);
-                    if (! (d->derivs.adding_down[d->n_layers][i] & DERIV_TOP_S))
-                         init_array1_d(I_m_l[0][i], d->n_quad_v_x, 0.);
-                    else
-                         copy_array1_d(I_m_l[0][i], S_m_l[i], d->n_quad_v_x);
+                    dvec_copy(I_p_l[0][i], In_p_l[i], d->n_quad_v_x);
+
+                    dm_v_mul(R_p, In_p_l[i], d->n_quad_v_x, d->n_quad_v_x, I_m_l[0][i]);
+
+                    if (derivs_adding_down[i] & DERIV_TOP_L) {
+                         dm_v_mul(R_p_l[i], d->In_p[i_four], d->n_quad_v_x, d->n_quad_v_x, v1);
+                         dvec_add(I_m_l[0][i], v1, I_m_l[0][i], d->n_quad_v_x);
+                    }
+
+                    if (derivs_adding_down[i] & DERIV_TOP_S)
+                         dvec_add(I_m_l[0][i], S_m_l[i], I_m_l[0][i], d->n_quad_v_x);
                }
           }
      }
@@ -4649,6 +4676,7 @@ static int fourier_get_add_bottom_up(xrtm_data *d, int i_four, int solver, doubl
      int i;
 
      int surface;
+     int boundary;
 
      double **Rs_qq;
      double ***Rs_qq_l;
@@ -4671,6 +4699,9 @@ static int fourier_get_add_bottom_up(xrtm_data *d, int i_four, int solver, doubl
 
      surface = solar_surface_for_i_four(d, i_four);
 
+     /* Without a surface isotropic illumination from below is still to be added. */
+     boundary = surface || i_four == 0;
+
 
      /*-------------------------------------------------------------------------
       *
@@ -4686,7 +4717,7 @@ static int fourier_get_add_bottom_up(xrtm_data *d, int i_four, int solver, doubl
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (surface) {
+     if (boundary) {
           Rs_qq = get_work1(&work, WORK_DXX);
 
           if (d->options & XRTM_OPTION_CALC_DERIVS && flags_or(d->derivs.layers[d->n_layers], d->n_derivs))
@@ -4701,6 +4732,16 @@ static int fourier_get_add_bottom_up(xrtm_data *d, int i_four, int solver, doubl
 
      if (surface)
           get_brdf_mats_qq(d, i_four, Rs_qq, Rs_qq_l, work);
+     else if (boundary) {
+          dmat_zero(Rs_qq, d->n_quad_v_x, d->n_quad_v_x);
+
+          if (d->options & XRTM_OPTION_CALC_DERIVS) {
+               for (i = 0; i < d->n_derivs; ++i) {
+                    if (d->derivs.layers[d->n_layers][i])
+                         dmat_zero(Rs_qq_l[i], d->n_quad_v_x, d->n_quad_v_x);
+               }
+          }
+     }
 
 
      /*-------------------------------------------------------------------------
@@ -4716,13 +4757,13 @@ static int fourier_get_add_bottom_up(xrtm_data *d, int i_four, int solver, doubl
       *
       *-----------------------------------------------------------------------*/
      if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) || ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING)) {
-          if (get_total_TOA_R_S_U_V  (d, i_four, solver, Rs_qq, d->In_p[i_four], Rs_qq_l, In_p_l, &R_m, &S_p, &R_m_l, &S_p_l, surface, 1, save_tree, &work)) {
+          if (get_total_TOA_R_S_U_V  (d, i_four, solver, Rs_qq, d->In_p[i_four], Rs_qq_l, In_p_l, &R_m, &S_p, &R_m_l, &S_p_l, boundary, 1, save_tree, &work)) {
                fprintf(stderr, "ERROR: get_total_TOA_R_S_U_V()\n");
                return -1;
           }
      }
      else {
-          if (get_total_TOA_R_S_U_V_2(d, i_four, solver, Rs_qq, d->In_p[i_four], Rs_qq_l, In_p_l, &R_m, &S_p, &R_m_l, &S_p_l, surface, 1, save_tree, &work)) {
+          if (get_total_TOA_R_S_U_V_2(d, i_four, solver, Rs_qq, d->In_p[i_four], Rs_qq_l, In_p_l, &R_m, &S_p, &R_m_l, &S_p_l, boundary, 1, save_tree, &work)) {
                fprintf(stderr, "ERROR: get_total_TOA_R_S_U_V_2()\n");
                return -1;
           }
@@ -4759,7 +4800,7 @@ static int fourier_get_add_bottom_up(xrtm_data *d, int i_four, int solver, doubl
           dmat_copy(save->R_m, R_m, d->n_quad_v_x, d->n_quad_v_x);
           dvec_copy(save->S_p, S_p, d->n_quad_v_x);
 
-          if (surface)
+          if (boundary)
                dmat_copy(save->Rs_qq, Rs_qq, d->n_quad_v_x, d->n_quad_v_x);
      }
 
diff --git a/src/xrtm_model_a.c b/src/xrtm_model_a.c
index 69dc4eb..1a331b8 100644
--- a/src/xrtm_model_a.c
+++ b/src/xrtm_model_a.c
@@ -2137,6 +2137,7 @@ static void forward_save_fourier_get_add_bottom_up_free(forward_save_fourier_get
 static int fourier_get_add_bottom_up_a(xrtm_data *d, int i_four, int solver, double **I_p, double **I_m, double **I_p_a, double **I_m_a, save_tree_data save_tree, work_data work) {
 
      int surface;
+     int boundary;
 
      double **Rs_qq_a;
 
@@ -2149,6 +2150,8 @@ static int fourier_get_add_bottom_up_a(xrtm_data *d, int i_four, int solver, dou
 
      surface = solar_surface_for_i_four(d, i_four);
 
+     boundary = surface || i_four == 0;
+
 
      /*-------------------------------------------------------------------------
       *
@@ -2164,7 +2167,7 @@ static int fourier_get_add_bottom_up_a(xrtm_data *d, int i_four, int solver, dou
      R_m_a = get_work1(&work, WORK_DXX);
      S_p_a = get_work1(&work, WORK_DX);
 
-     if (surface)
+     if (boundary)
           Rs_qq_a = get_work1(&work, WORK_DXX);
 
 
@@ -2174,7 +2177,7 @@ static int fourier_get_add_bottom_up_a(xrtm_data *d, int i_four, int solver, dou
      dmat_zero(R_m_a, d->n_quad_v_x, d->n_quad_v_x);
      dvec_zero(S_p_a, d->n_quad_v_x);
 
-     if (surface)
+     if (boundary)
           dmat_zero(Rs_qq_a, d->n_quad_v_x, d->n_quad_v_x);
 
 
@@ -2190,7 +2193,7 @@ static int fourier_get_add_bottom_up_a(xrtm_data *d, int i_four, int solver, dou
       *
       *-----------------------------------------------------------------------*/
      if ( ! (d->options & XRTM_OPTION_CALC_DERIVS) || ! (d->options & XRTM_OPTION_STACK_REUSE_ADDING)) {
-          if (get_total_TOA_R_S_U_V_a(d, i_four, solver, save->Rs_qq, d->In_p[i_four], Rs_qq_a, d->In_p_a[i_four], save->R_m, save->S_p, R_m_a, S_p_a, surface, 1, save_tree, &work)) {
+          if (get_total_TOA_R_S_U_V_a(d, i_four, solver, save->Rs_qq, d->In_p[i_four], Rs_qq_a, d->In_p_a[i_four], save->R_m, save->S_p, R_m_a, S_p_a, boundary, 1, save_tree, &work)) {
                fprintf(stderr, "ERROR: get_total_TOA_R_S_U_V_a()\n");
                return -1;
           }
diff --git a/src/xrtm_radiance.c b/src/xrtm_radiance.c
index 3c327f3..8c6ca7a 100644
--- a/src/xrtm_radiance.c
+++ b/src/xrtm_radiance.c
@@ -161,8 +161,6 @@ void radiance_boa_ref(int n_quad, int n_derivs,
      double *v2;
 
      double **w1;
-     double **w2;
-     double **w3;
 
      i1 = get_work1(&work, WORK_IX);
 
@@ -182,127 +180,32 @@ void radiance_boa_ref(int n_quad, int n_derivs,
 
      dm_v_mul(R23_m, I2_m, n_quad, n_quad, I2_p);
      dvec_add(I2_p, I3_p, I2_p, n_quad);
-/*
-     if (flags_or(derivs, n_derivs)) {
-*/
-          w2 = get_work1(&work, WORK_DXX);
-          w3 = get_work1(&work, WORK_DXX);
-
-          for (i = 0; i < n_derivs; ++i) {
-               if (derivs[i] == ADDING_U_U) {
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, I2_m_l[i]);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_U_L || derivs[i] == ADDING_U_B) {
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_L_U) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
 
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_L_L) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
-                    dmat_add(w2, w3, w2,  n_quad, n_quad);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_B_U || derivs[i] == ADDING_B_S) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+     for (i = 0; i < n_derivs; ++i) {
+          dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, I2_m_l[i]);
 
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_B_L || derivs[i] == ADDING_B_B) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
-                    dmat_add(w2, w3, w2,  n_quad, n_quad);
+          if (derivs[i] & DERIV_TOP_L) {
+               dm_v_mul(R12_p_l[i], I2_p, n_quad, n_quad, v1);
+               dvec_add(I2_m_l[i], v1, I2_m_l[i], n_quad);
+          }
 
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
+          if (derivs[i] & DERIV_TOP_S)
+               dvec_add(I2_m_l[i], S12_m_l[i], I2_m_l[i], n_quad);
 
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
+          if (derivs[i] & DERIV_BOTTOM_L) {
+               dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
+               dm_v_mul(R12_p, v1, n_quad, n_quad, v2);
+               dvec_add(I2_m_l[i], v2, I2_m_l[i], n_quad);
+          }
 
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
+          dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
 
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
+          dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+          dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
 
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-#ifdef DEBUG
-               else {
-                    fprintf(stderr, "ERROR: radiance_boa_ref(), invalid adding combination: %d\n", derivs[i]);
-                    exit(1);
-               }
-#endif
-          }
-/*
+          if (derivs[i] & DERIV_BOTTOM_L)
+               dvec_add(I2_p_l[i], v1, I2_p_l[i], n_quad);
      }
-*/
 }
 
 
-- 
2.43.0


From 2b214c922e6a2211bcbda888832cf221cfdb931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:20 +0000
Subject: [PATCH 036/131] fix: derivatives of illumination from below with
 stack reuse and bottom-up adding

---
 src/xrtm_model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 92d944b..a827b6f 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -3192,7 +3192,7 @@ static int get_total_TOA_R_S_U_V_2
                     i2     = i;
                     n_c    = 0;
                     n_a    = 1;
-                    d_a[0] = (uchar) (derivs_layers[d->n_layers][j] ? ADDING_U_B : ADDING_U_U);
+                    d_a[0] = (uchar) (derivs_layers[d->n_layers][j] ? ADDING_U_B : derivs_sources[d->n_layers][j] ? ADDING_U_S : ADDING_U_U);
                     s_a[0] = d->stack_grid[i2][i1];
                     flag2  = 1;
                     i1     = i - 1;
-- 
2.43.0


From f7c0723257a18bffa9fc2253cf9587bfeb4f8077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 037/131] fix: single scattering ignores illumination of the
 boundaries when there is no beam

---
 src/xrtm_single.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/xrtm_single.c b/src/xrtm_single.c
index 62c7698..4e9239a 100644
--- a/src/xrtm_single.c
+++ b/src/xrtm_single.c
@@ -158,11 +158,17 @@ void single_scattered_radiance_up(int n_stokes, int n_derivs, int n_layers,
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     /* Without a beam nothing is scattered but boundary input is transmitted. */
      if (F_0 == 0.) {
-          init_array2_d(I_ss, n_ulevels, n_umus_v, 0.);
-          if (n_derivs > 0)
-               init_array3_d(I_ss_l, n_ulevels, n_derivs, n_umus_v, 0.);
-          return;
+          F_0 = 1.;
+
+          omega = get_work_d1(&work, n_layers);
+          init_array1_d(omega, n_layers, 0.);
+
+          if (n_derivs > 0) {
+               omega_l = get_work_d2(&work, n_layers, n_derivs);
+               init_array2_d(omega_l, n_layers, n_derivs, 0.);
+          }
      }
 
 
@@ -446,11 +452,17 @@ void single_scattered_radiance_dn(int n_stokes, int n_derivs, int n_layers,
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     /* Without a beam nothing is scattered but boundary input is transmitted. */
      if (F_0 == 0.) {
-          init_array2_d(I_ss, n_ulevels, n_umus_v, 0.);
-          if (n_derivs > 0)
-               init_array3_d(I_ss_l, n_ulevels, n_derivs, n_umus_v, 0.);
-          return;
+          F_0 = 1.;
+
+          omega = get_work_d1(&work, n_layers);
+          init_array1_d(omega, n_layers, 0.);
+
+          if (n_derivs > 0) {
+               omega_l = get_work_d2(&work, n_layers, n_derivs);
+               init_array2_d(omega_l, n_layers, n_derivs, 0.);
+          }
      }
 
 
-- 
2.43.0


From 5d52f553d4ac819d620099dc126f8a70b2c02aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 038/131] fix: polarized thermal emission for vector radiative
 transfer

---
 src/xrtm_source.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_source.c b/src/xrtm_source.c
index 8c5a70e..a89a274 100644
--- a/src/xrtm_source.c
+++ b/src/xrtm_source.c
@@ -398,6 +398,19 @@ void build_source_vectors_solar_classic_2n2
 
 
 
+/*******************************************************************************
+ *
+ ******************************************************************************/
+static void vec_init_unpolarized(double *v, double a, int n, int n_stokes) {
+
+     int i;
+
+     for (i = 0; i < n; ++i)
+          v[i] = i % n_stokes == 0 ? a : 0.;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -472,7 +485,7 @@ void build_thermal_source_coefficients
 
      bb = aa * c[n - 1];
 
-     dvec_init(a[n - 1], bb, n_quad_v2);
+     vec_init_unpolarized(a[n - 1], bb, n_quad_v2, n_stokes);
 
      dmat_getrs(w1, &a[n - 1], n_quad_v2, 1, i1);
 
@@ -488,8 +501,8 @@ void build_thermal_source_coefficients
 
           jj = n_quad_v;
           for (j = 0; j < n_quad_v; ++j) {
-               a[i][j ] = bb + a[i + 1][j ] * (i + 1) *  qx_v[j];
-               a[i][jj] = bb + a[i + 1][jj] * (i + 1) * -qx_v[j];
+               a[i][j ] = (j % n_stokes == 0 ? bb : 0.) + a[i + 1][j ] * (i + 1) *  qx_v[j];
+               a[i][jj] = (j % n_stokes == 0 ? bb : 0.) + a[i + 1][jj] * (i + 1) * -qx_v[j];
                jj++;
           }
 
@@ -534,7 +547,7 @@ void build_thermal_source_coefficients
 
                bb = -omega_l[i] * c[n - 1] + (1. - omega) * c_l[n - 1];
 
-               dvec_init(v2, bb, n_quad_v2);
+               vec_init_unpolarized(v2, bb, n_quad_v2, n_stokes);
 
                dvec_sub(v2, v1, a_l, n_quad_v2);
 
@@ -559,7 +572,7 @@ void build_thermal_source_coefficients
 
                     bb = -omega_l[i] * c[j] + (1. - omega) * c_l[j];
 
-                    dvec_init(v2, bb, n_quad_v2);
+                    vec_init_unpolarized(v2, bb, n_quad_v2, n_stokes);
 
                     dvec_sub(v2, v1, v1, n_quad_v2);
 
@@ -597,7 +610,7 @@ void build_thermal_source_coefficients
 */
                bb = (1. - omega) * c_l[n - 1];
 
-               dvec_init(v2, bb, n_quad_v2);
+               vec_init_unpolarized(v2, bb, n_quad_v2, n_stokes);
 
 dvec_copy(a_l, v2, n_quad_v2);
 /*
@@ -624,7 +637,7 @@ dvec_copy(a_l, v2, n_quad_v2);
 */
                     bb = (1. - omega) * c_l[j];
 
-                    dvec_init(v2, bb, n_quad_v2);
+                    vec_init_unpolarized(v2, bb, n_quad_v2, n_stokes);
 /*
                     dvec_sub(v2, v1, v1, n_quad_v2);
 */
-- 
2.43.0


From 99466f0edb5ccb7bd2e946a97c917b1ef4ddf407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 039/131] fix: isotropic illumination from above ignored in the
 matrix exponential boundary value solver

---
 src/xrtm_mem_bvp_x.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_mem_bvp_x.c b/src/xrtm_mem_bvp_x.c
index 5581202..6c2f4e4 100644
--- a/src/xrtm_mem_bvp_x.c
+++ b/src/xrtm_mem_bvp_x.c
@@ -184,7 +184,7 @@ static void SOLVE_BVP(int n_quad, int n_stokes, int n_derivs, int n_layers,
       *
       *-----------------------------------------------------------------------*/
      for (i = 0; i < n_quad_v; ++i)
-          B[i] = 0.;
+          B[i] = I1_m[i];
 
 
      for (i = 0; i < n_quad_v; ++i)
@@ -334,7 +334,7 @@ static void SOLVE_BVP(int n_quad, int n_stokes, int n_derivs, int n_layers,
           xvec_zero(B_l[m], n_comp);
 
           for (i = 0; i < n_quad_v; ++i)
-               B_l[m][i] = 0.;
+               B_l[m][i] = I1_m_l[m][i];
 
           for (i = 0; i < n_quad_v; ++i) {
                B_l[m][n_comp - n_quad_v + i] = In_p_l[m][i];
-- 
2.43.0


From 820dd8f80e1809165ee00127aee0772441916f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:47 +0000
Subject: [PATCH 040/131] fix: polarized thermal emission for vector radiative
 transfer with doubling

---
 src/xrtm_doub_rts.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xrtm_doub_rts.c b/src/xrtm_doub_rts.c
index e70d53b..c693c51 100644
--- a/src/xrtm_doub_rts.c
+++ b/src/xrtm_doub_rts.c
@@ -215,7 +215,7 @@ void rtm_doub_rts(int n_quad, int n_stokes, int n_derivs, double F_0,
 
           c = (1. - omega) * planck0 * d_tau;
           for (i = 0; i < n_quad_v; ++i)
-               v1[i] = c;
+               v1[i] = i % n_stokes == 0 ? c : 0.;
           dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
           dvec_copy(Sl_p, v1, n_quad_v);
           dvec_copy(Sl_m, v1, n_quad_v);
@@ -257,7 +257,7 @@ if (thermal) {
                         (1. - omega)     * planck0_l[i] * d_tau +
                         (1. - omega)     * planck0      * d_tau_l[i];
                     for (j = 0; j < n_quad_v; ++j)
-                         v1[j] = d;
+                         v1[j] = j % n_stokes == 0 ? d : 0.;
                     dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
                     dvec_copy(Sl_p_l[i], v1, n_quad_v);
                     dvec_copy(Sl_m_l[i], v1, n_quad_v);
@@ -266,7 +266,7 @@ if (thermal) {
                if (derivs_thermal[i]) {
                     d = (1. - omega)     * planck0_l[i] * d_tau;
                     for (j = 0; j < n_quad_v; ++j)
-                         v1[j] = d;
+                         v1[j] = j % n_stokes == 0 ? d : 0.;
                     dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
                     dvec_copy(Sl_p_l[i], v1, n_quad_v);
                     dvec_copy(Sl_m_l[i], v1, n_quad_v);
-- 
2.43.0


From 8749bf4c5dd795596a85b26a7cfc2615646d0e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:56 +0000
Subject: [PATCH 041/131] fix: third Stokes component of single scattering
 symmetric rather than antisymmetric about the principal plane

---
 src/xrtm_scatter.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index 79e3b83..acb834d 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -1068,8 +1068,11 @@ void scat_vector_rotate_hovenier(int n_stokes, double mu, double mu_prime, doubl
 
      if (1. - cos_sig1_2 < 0.)
           S1 = 0.;
-     else
+     else {
           S1 = 2.* sqrt(1. - cos_sig1_2) * cos_sig1;
+          if (sin(D2R*d_phi) < 0.)
+               S1 = -S1;
+     }
 
      if (n_stokes >= 2)
           P2[1] =  P1_01*C1;
@@ -1120,8 +1123,11 @@ void scat_vector_rotate_hovenier_a(int n_stokes, double mu, double mu_prime, dou
 
      if (1. - cos_sig1_2 < 0.)
           S1 = 0.;
-     else
+     else {
           S1 = 2.* sqrt(1. - cos_sig1_2) * cos_sig1;
+          if (sin(D2R*d_phi) < 0.)
+               S1 = -S1;
+     }
 
      if (n_stokes >= 2)
           P1_a[1]  =  P2_a[1]*C1;
-- 
2.43.0


From c879473f633f9078e330f73d69a02a7196fbb814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:43 +0000
Subject: [PATCH 042/131] fix: Green's function particular solution not scaled
 by the beam at layer bottoms in the Eigenmatrix/BVP solver

---
 src/xrtm_eig_bvp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 4c4bd35..8014a7e 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -526,6 +526,8 @@ else {
                     }
 
                     scale_source_vectors_solar(n_quad_v_x, n_derivs, btran[i], btran_l2, Fs_p[i], Fs_m[i], Fs_p[i], Fs_m[i], Fs_p_l2, Fs_m_l2, Fs_p_l2, Fs_m_l2, derivs_layers2, derivs_beam2, work2);
+                    if (greens)
+                         scale_source_vectors_solar(n_quad_v_x, n_derivs, btran[i], btran_l2, Fs1_p[i], Fs1_m[i], Fs1_p[i], Fs1_m[i], Fs1_p_l2, Fs1_m_l2, Fs1_p_l2, Fs1_m_l2, derivs_layers2, derivs_beam2, work2);
 
                     if (save_tree.t) {
                          copy_array1_d(save->Fs_p2[i], Fs_p[i], n_quad_v_x);
@@ -588,6 +590,8 @@ else {
                     }
 
                     scale_source_vectors_solar(n_quad_v_x, n_derivs, btran[i], btran_l2, Fs_p[i], Fs_m[i], Fs_p[i], Fs_m[i], Fs_p_l2, Fs_m_l2, Fs_p_l2, Fs_m_l2, derivs_layers2, derivs_beam2, work2);
+                    if (greens)
+                         scale_source_vectors_solar(n_quad_v_x, n_derivs, btran[i], btran_l2, Fs1_p[i], Fs1_m[i], Fs1_p[i], Fs1_m[i], Fs1_p_l2, Fs1_m_l2, Fs1_p_l2, Fs1_m_l2, derivs_layers2, derivs_beam2, work2);
                     if (save_tree.t) {
                          copy_array1_d(save->Fs_p2[i], Fs_p[i], n_quad_v_x);
                          copy_array1_d(save->Fs_m2[i], Fs_m[i], n_quad_v_x);
-- 
2.43.0


From fc80cd77e34b01261f3788252bebc5e4ad5df59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:43 +0000
Subject: [PATCH 043/131] fix: isotropic illumination of the boundaries ignored
 in the four and six stream solvers

---
 src/xrtm_four_stream.c | 4 +++-
 src/xrtm_six_stream.c  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 3505f73..0c16df4 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -662,7 +662,8 @@ if (thermal) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     insert_vector1_d(2, 0, b, -1., F_m[0]);
+     dvec_sub(I1_m, F_m[0], v1, 2);
+     insert_vector1_d(2, 0, b, 1., v1);
 
      ii = 1;
      for (i = 1; i < n_layers; ++i) {
@@ -679,6 +680,7 @@ if (thermal) {
 
      if (! surface) {
           dvec_scale(-atran[n_layers - 1], F_p[n_layers - 1], v1, 2);
+          dvec_add(In_p, v1, v1, 2);
 
           insert_vector1_d(2, 2 * n_layers - 1, b, 1., v1);
      }
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index a7e5900..b9eb9fe 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -832,7 +832,8 @@ if (n_derivs > 0) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     insert_vector1_d(3, 0, b, -1., F_m[0]);
+     dvec_sub(I1_m, F_m[0], v1, 3);
+     insert_vector1_d(3, 0, b, 1., v1);
 
      ii = 1;
      for (i = 1; i < n_layers; ++i) {
@@ -849,6 +850,7 @@ if (n_derivs > 0) {
 
      if (! surface) {
           dvec_scale(-atran[n_layers - 1], F_p[n_layers - 1], v1, 3);
+          dvec_add(In_p, v1, v1, 3);
 
           insert_vector1_d(3, 2 * n_layers - 1, b, 1., v1);
      }
-- 
2.43.0


From 23f092a6eae098b5910aeea6e42cb800ce609636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:43 +0000
Subject: [PATCH 044/131] fix: particular solution of the four and six stream
 solvers with pseudo-spherical geometry

---
 src/xrtm_four_stream.c |  8 ++++----
 src/xrtm_six_stream.c  | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index 0c16df4..ef40ae9 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -481,8 +481,8 @@ if (solar) {
           h[0] = apb[0][0] * p[0] + apb[0][1] * p[1] + e[0];
           h[1] = apb[1][0] * p[0] + apb[1][1] * p[1] + e[1];
 
-          F_p[i][0] = (mu_0 * h[0] + p[0]) / 2.;
-          F_p[i][1] = (mu_0 * h[1] + p[1]) / 2.;
+          F_p[i][0] = (h[0] / as_0[i] + p[0]) / 2.;
+          F_p[i][1] = (h[1] / as_0[i] + p[1]) / 2.;
 
           F_m[i][0] = F_p[i][0] - p[0];
           F_m[i][1] = F_p[i][1] - p[1];
@@ -497,7 +497,7 @@ if (solar) {
           mat2d_matvec(apb, p, v1);
           vec2d_add(v1, e, h);
 
-          vec2d_scale(mu_0, h, v1);
+          vec2d_scale(1. / as_0[i], h, v1);
           vec2d_add(v1, p, v1);
           vec2d_scale(.5, v1, F_p[i]);
 
@@ -513,7 +513,7 @@ if (solar) {
           dm_v_mul(apb, p, 2, 2, v1);
           dvec_add(v1, e, h, 2);
 
-          dvec_scale(mu_0, h, v1, 2);
+          dvec_scale(1. / as_0[i], h, v1, 2);
           dvec_add(v1, p, v1, 2);
           dvec_scale(.5, v1, F_p[i], 2);
 
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index b9eb9fe..6e01c41 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -670,9 +670,9 @@ if (n_derivs > 0) {
           h[1] = apb[1][0] * p[0] + apb[1][1] * p[1] + apb[1][2] * p[2] + e[1];
           h[2] = apb[2][0] * p[0] + apb[2][1] * p[1] + apb[2][2] * p[2] + e[2];
 
-          F_p[i][0] = (mu_0 * h[0] + p[0]) / 2.;
-          F_p[i][1] = (mu_0 * h[1] + p[1]) / 2.;
-          F_p[i][2] = (mu_0 * h[2] + p[2]) / 2.;
+          F_p[i][0] = (h[0] / as_0[i] + p[0]) / 2.;
+          F_p[i][1] = (h[1] / as_0[i] + p[1]) / 2.;
+          F_p[i][2] = (h[2] / as_0[i] + p[2]) / 2.;
 
           F_m[i][0] = F_p[i][0] - p[0];
           F_m[i][1] = F_p[i][1] - p[1];
@@ -688,7 +688,7 @@ if (n_derivs > 0) {
           mat3d_matvec(apb, p, v1);
           vec3d_add(v1, e, h);
 
-          vec3d_scale(mu_0, h, v1);
+          vec3d_scale(1. / as_0[i], h, v1);
           vec3d_add(v1, p, v1);
           vec3d_scale(.5, v1, F_p[i]);
 
@@ -704,7 +704,7 @@ if (n_derivs > 0) {
           dm_v_mul(apb, p, 3, 3, v1);
           dvec_add(v1, e, h, 3);
 
-          dvec_scale(mu_0, h, v1, 3);
+          dvec_scale(1. / as_0[i], h, v1, 3);
           dvec_add(v1, p, v1, 3);
           dvec_scale(.5, v1, F_p[i], 3);
 
-- 
2.43.0


From 042e0c3a4e885f6b5accf36ceed5f9bbabcb8efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:27 +0000
Subject: [PATCH 045/131] fix: saved totals kept when the boundary input
 changes with top-down adding

---
 src/xrtm_model.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index a827b6f..3b0f7b3 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2542,9 +2542,21 @@ static int build_layer_stacks(xrtm_data *d, int i_four, int solver, save_tree_da
 /*******************************************************************************
  *
  ******************************************************************************/
+static int diff_bound_input_deps(xrtm_data *d);
+
+
 static int total_R_T_S_U_W_V_deps(xrtm_data *d) {
 
-     return layer_R_T_S_U_W_V_deps(d);
+     int deps;
+
+     deps = layer_R_T_S_U_W_V_deps(d);
+
+     /* When adding in one direction only the boundary input is part of the
+        source vectors. */
+     if (d->options & (XRTM_OPTION_TOP_DOWN_ADDING | XRTM_OPTION_BOTTOM_UP_ADDING))
+          deps |= diff_bound_input_deps(d);
+
+     return deps;
 }
 
 
-- 
2.43.0


From b74a3d730294ca6ddc56a83fd5667db6a4d26770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:47 +0000
Subject: [PATCH 046/131] fix: polarized thermal emission with source function
 integration

---
 src/xrtm_sfi_x.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 4f0f21a..3bbe0a7 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -386,7 +386,8 @@ static void SFI_SOURCE_THERMAL(double ptau, double *ptau_l,
           a3 = pow(tau0, j);
 
           for (k = 0; k < n_umus_v; ++k) {
-               u22[j][k] += a1;
+               if (k % n_stokes == 0)
+                    u22[j][k] += a1;
 
                if (j == 0)
                     u24[j][k] = 1. - e1[k];
@@ -445,7 +446,8 @@ static void SFI_SOURCE_THERMAL(double ptau, double *ptau_l,
                }
 
                for (l = 0; l < n_umus_v; ++l) {
-                    u2[l] += a1_l;
+                    if (l % n_stokes == 0)
+                         u2[l] += a1_l;
 
                     u5[l] += u2[l] * u24[k][l];
 
-- 
2.43.0


From abe39a471a734d631b9656eaeab957c043ec66a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:46 +0000
Subject: [PATCH 047/131] fix: sign of the third Stokes component of single
 scattering into the nadir

---
 src/xrtm_scatter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_scatter.c b/src/xrtm_scatter.c
index acb834d..7af3693 100644
--- a/src/xrtm_scatter.c
+++ b/src/xrtm_scatter.c
@@ -1057,7 +1057,7 @@ void scat_vector_rotate_hovenier(int n_stokes, double mu, double mu_prime, doubl
 /*
                cos_sig1 = 1.;
 */
-               cos_sig1 = cos(D2R*d_phi);
+               cos_sig1 = mu_prime > 0. ? -cos(D2R*d_phi) : cos(D2R*d_phi);
           else
                cos_sig1 = (mu - mu_prime * MU) / (sin_theta2 * sin_scat);
      }
@@ -1112,7 +1112,7 @@ void scat_vector_rotate_hovenier_a(int n_stokes, double mu, double mu_prime, dou
 /*
                cos_sig1 = 1.;
 */
-               cos_sig1 = cos(D2R*d_phi);
+               cos_sig1 = mu_prime > 0. ? -cos(D2R*d_phi) : cos(D2R*d_phi);
           else
                cos_sig1 = (mu - mu_prime * MU) / (sin_theta2 * sin_scat);
      }
-- 
2.43.0


From 6ba88650fd333c19a2657637f1ffc9d578ee0466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:48 +0000
Subject: [PATCH 048/131] fix: derivatives with respect to thermal sources of
 only some layers

---
 src/xrtm_interface.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 13aa245..4c82662 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5013,6 +5013,14 @@ static int build_derivs_layers(xrtm_data *d, uchar **derivs_layers, int flag) {
                     }
                }
 
+               /* Stacks are only aware of layers that vary and of the beam so
+                  that a layer in which thermal emission varies must be one. */
+               if (d->options & XRTM_OPTION_SOURCE_THERMAL && d->options & XRTM_OPTION_STACK_REUSE_ADDING &&
+                   (d->levels_b_l[i][j] != 0. || d->levels_b_l[i + 1][j] != 0.)) {
+                    derivs_layers[i][j] = 1;
+                    goto L1;
+               }
+
                derivs_layers[i][j] = 0;
 
 L1:            if (derivs_layers[i][j] != old)
@@ -5148,6 +5156,11 @@ static void build_derivs_sources(xrtm_data *d, uchar **derivs_layers, uchar **de
                derivs_sources[0][j] = 1;
           if (d->options & XRTM_OPTION_BOTTOM_UP_ADDING && flag)
                derivs_sources[d->n_layers][j] = 1;
+
+          /* The adding combinations are those for which, as with a beam, all
+             sources below one that varies vary. */
+          for (i = 1; i < d->n_layers + 1; ++i)
+               derivs_sources[i][j] |= derivs_sources[i - 1][j];
      }
 
      flags_fill_meta2(derivs_sources, d->n_layers + 1, d->n_derivs);
-- 
2.43.0


From 488066657d7f7b50ee8189dcdcb2a8180a105a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:48 +0000
Subject: [PATCH 049/131] fix: derivatives of thermal sources over a surface in
 adding

---
 src/xrtm_radiance.c | 171 +++++---------------------------------------
 1 file changed, 19 insertions(+), 152 deletions(-)

diff --git a/src/xrtm_radiance.c b/src/xrtm_radiance.c
index 8c6ca7a..5b5b03d 100644
--- a/src/xrtm_radiance.c
+++ b/src/xrtm_radiance.c
@@ -251,8 +251,6 @@ void radiance_boa_all(int n_quad, int n_derivs,
      double *v2;
 
      double **w1;
-     double **w2;
-     double **w3;
 
      forward_save_radiance_boa_all_data *save;
 
@@ -304,165 +302,34 @@ void radiance_boa_all(int n_quad, int n_derivs,
 /*
      if (flags_or(derivs, n_derivs)) {
 */
-          w2 = get_work1(&work, WORK_DXX);
-          w3 = get_work1(&work, WORK_DXX);
-
           for (i = 0; i < n_derivs; ++i) {
-               if (derivs[i] == ADDING_U_U || derivs[i] == ADDING_U_S) {
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v1);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
+               dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v1);
+               dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
+               dvec_add(v1, v2, I2_m_l[i], n_quad);
+
+               if (derivs[i] & DERIV_TOP_L) {
+                    dm_v_mul(R12_p_l[i], I2_p, n_quad, n_quad, v1);
+                    dvec_add(I2_m_l[i], v1, I2_m_l[i], n_quad);
+                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v1);
+                    dvec_add(I2_m_l[i], v1, I2_m_l[i], n_quad);
                }
-               else
-               if (derivs[i] == ADDING_U_L || derivs[i] == ADDING_U_B) {
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
 
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
+               if (derivs[i] & DERIV_TOP_S)
+                    dvec_add(I2_m_l[i], S12_m_l[i], I2_m_l[i], n_quad);
 
+               if (derivs[i] & DERIV_BOTTOM_L) {
                     dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_S_U) {
-/*
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-*/
-                    dvec_copy(I2_m_l[i], S12_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+                    dm_v_mul(R12_p, v1, n_quad, n_quad, v2);
+                    dvec_add(I2_m_l[i], v2, I2_m_l[i], n_quad);
                }
-               else
-               if (derivs[i] == ADDING_L_U) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
 
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
+               dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
 
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
+               dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
+               dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
 
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_L_L) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
-                    dmat_add(w2, w3, w2,  n_quad, n_quad);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_B_U || derivs[i] == ADDING_B_S) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, I2_p_l[i]);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-               else
-               if (derivs[i] == ADDING_B_L || derivs[i] == ADDING_B_B) {
-                    dmat_mul(R12_p_l[i], R23_m, n_quad, n_quad, n_quad, w2);
-                    dmat_mul(R12_p, R23_m_l[i], n_quad, n_quad, n_quad, w3);
-                    dmat_add(w2, w3, w2,  n_quad, n_quad);
-
-                    dm_v_mul(w2, I2_m, n_quad, n_quad, v1);
-
-                    dm_v_mul(R12_p_l[i], I3_p, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(R12_p, I3_p_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m_l[i], I1_m, n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dm_v_mul(T12_m, I1_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, v1, n_quad);
-                    dvec_add(v1, S12_m_l[i], I2_m_l[i], n_quad);
-
-                    dmat_getrs(w1, &I2_m_l[i], n_quad, 1, i1);
-
-                    dm_v_mul(R23_m_l[i], I2_m, n_quad, n_quad, v1);
-                    dm_v_mul(R23_m, I2_m_l[i], n_quad, n_quad, v2);
-                    dvec_add(v1, v2, I2_p_l[i], n_quad);
-
-                    dvec_add(I2_p_l[i], I3_p_l[i], I2_p_l[i], n_quad);
-               }
-#ifdef DEBUG
-               else {
-                    fprintf(stderr, "ERROR: radiance_boa_all(), invalid adding combination: %d\n", derivs[i]);
-                    exit(1);
-               }
-#endif
+               if (derivs[i] & DERIV_BOTTOM_L)
+                    dvec_add(I2_p_l[i], v1, I2_p_l[i], n_quad);
           }
 /*
      }
-- 
2.43.0


From 3eaff75c4a1614a91fb586c2ded0da235ca01f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:57 +0000
Subject: [PATCH 050/131] fix: getters check their indexes before using them
 and return the error value of their type

---
 src/xrtm_interface.c | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 4c82662..a9e8583 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2829,7 +2829,7 @@ int xrtm_get_n_kernel_quad(xrtm_data *d) {
  ******************************************************************************/
 enum xrtm_kernel_type xrtm_get_kernel(xrtm_data *d, int i_kernel) {
 
-     if (i_kernel > d->n_kernels - 1) {
+     if (i_kernel < 0 || i_kernel > d->n_kernels - 1) {
           fprintf(stderr, "ERROR: invalid kernel index: %d\n", i_kernel);
           return XRTM_INT_ERROR;
      }
@@ -3625,7 +3625,7 @@ double xrtm_get_theta_0(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
           fprintf(stderr, "ERROR: model not initialized for solar sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_mu_0, xrtm_input_index_to_name(INPUT_THETA_0), XRTM_DBL_ERROR);
@@ -3818,7 +3818,7 @@ double xrtm_get_surface_b(xrtm_data *d) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_surface_b, xrtm_input_index_to_name(INPUT_SURFACE_B), XRTM_DBL_ERROR);
@@ -3873,7 +3873,7 @@ double xrtm_get_surface_b_l(xrtm_data *d, int i_deriv) {
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_INT_ERROR;
+          return XRTM_DBL_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
@@ -3955,10 +3955,10 @@ double xrtm_get_g(xrtm_data *d, int i_layer) {
           return XRTM_DBL_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_g[i_layer], xrtm_input_index_to_name(INPUT_G), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_g[i_layer], xrtm_input_index_to_name(INPUT_G), XRTM_DBL_ERROR);
+
      return d->g0[i_layer];
 }
 
@@ -4176,10 +4176,10 @@ int xrtm_get_n_coef(xrtm_data *d, int i_layer) {
           return XRTM_INT_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_INT_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], "n_coef", XRTM_INT_ERROR);
+
      return d->n_coef_layer[i_layer];
 }
 
@@ -4192,9 +4192,10 @@ double xrtm_get_coef(xrtm_data *d, int i_layer, int i_elem, int i_coef) {
           return XRTM_DBL_ERROR;
      }
 
+     CHECK_INDEX_RANGE(i_layer, d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
+
      GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_coef[i_layer], xrtm_input_index_to_name(INPUT_COEF), XRTM_DBL_ERROR);
 
-     CHECK_INDEX_RANGE(i_layer, d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_elem,  d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_coef,  d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
@@ -4410,10 +4411,10 @@ int xrtm_set_omega_n(xrtm_data *d, double *omega) {
 
 double xrtm_get_omega(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_omega[i_layer], xrtm_input_index_to_name(INPUT_OMEGA), XRTM_DBL_ERROR);
+
      return d->omega0[i_layer];
 }
 
@@ -4561,10 +4562,10 @@ int xrtm_set_ltau_n(xrtm_data *d, double *ltau) {
 
 double xrtm_get_ltau(xrtm_data *d, int i_layer) {
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_layer, d->n_layers, "i_layer", "n_layers", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_ltau[i_layer], xrtm_input_index_to_name(INPUT_LTAU), XRTM_DBL_ERROR);
+
      return d->ltau0[i_layer];
 }
 
@@ -4680,10 +4681,10 @@ double xrtm_get_kernel_ampfac(xrtm_data *d, int i_kernel) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_ampfac[i_kernel], xrtm_input_index_to_name(INPUT_KERNEL_AMPFAC),  XRTM_DBL_ERROR);
+
      return d->kernel_ampfac[i_kernel];
 }
 
@@ -4745,14 +4746,14 @@ double xrtm_get_kernel_params(xrtm_data *d, int i_kernel, int i_param) {
 
      CHECK_N_KERNELS_NOT_ZERO(d, XRTM_DBL_ERROR);
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
-
      CHECK_INDEX_RANGE(i_kernel, d->n_kernels, "i_kernel", "n_kernels", XRTM_DBL_ERROR);
 
      n_params = kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]);
 
      CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params",  XRTM_DBL_ERROR);
 
+     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_kernel_params[i_kernel][i_param], xrtm_input_index_to_name(INPUT_KERNEL_PARAMS), XRTM_DBL_ERROR);
+
      return d->kernel_params[i_kernel][i_param];
 }
 
-- 
2.43.0


From d38b048536a0b53433bee2e7ee03691c2d4ff5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:22 +0000
Subject: [PATCH 051/131] fix: set_out_taus and set_coef change nothing when
 they reject a value

---
 src/xrtm_interface.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index a9e8583..c7a77bd 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3275,9 +3275,10 @@ int xrtm_set_out_taus(xrtm_data *d, double *out_taus) {
                fprintf(stderr, "ERROR: invalid value for out_taus[%d]: %e, must be >= zero\n", i, out_taus[i]);
                return XRTM_INT_ERROR;
           }
+     }
 
+     for (i = 0; i < d->n_ulevels; ++i)
           d->utaus[i] = out_taus[i];
-     }
 
      d->set_flags_utaus = 1;
 
@@ -4091,6 +4092,15 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
           }
      }
 
+     for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
+          if ((n_coef_layer ? n_coef_layer[ii] : d->n_coef) > 1) {
+               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
+                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
+                    return -1;
+               }
+          }
+     }
+
      for (i = i_layer, ii = 0; i < n_layers; ++i, ++ii) {
           if (! n_coef_layer) {
                d->n_coef_layer [i] = d->n_coef;
@@ -4101,13 +4111,6 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
                d->n_coef_layer2[i] = MIN(n_coef_layer[ii], d->n_coef2);
           }
 
-          if (d->n_coef_layer[i] > 1) {
-               if (fabs(1. - coef[ii][0][0]) > DBL_EPSILON) {
-                    fprintf(stderr, "ERROR: the first phase function coefficient for layer %d is not = one: %.16e\n", i, coef[ii][0][0]);
-                    return -1;
-               }
-          }
-
           for (j = 0; j < d->n_elem; ++j) {
                for (k = 0; k < d->n_coef_layer[i]; ++k) {
                     d->coef0[i][j][k] = coef[ii][j][k];
-- 
2.43.0


From de50181531c41677101f40a4d85c8f11f123c3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:19 +0000
Subject: [PATCH 052/131] fix: set_theta_0 and set_out_thetas change nothing
 when they reject an angle

---
 src/xrtm_interface.c | 54 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index c7a77bd..e95ab69 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3318,6 +3318,12 @@ int xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) {
      int j;
      int jj;
 
+     uchar flag;
+
+     double mu_0;
+
+     double *umus0;
+
      if (d->n_umus == 0) {
           fprintf(stderr, "ERROR: model not initialized for user defined output angles (n_out_thetas == 0)\n");
           return XRTM_INT_ERROR;
@@ -3331,13 +3337,40 @@ int xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) {
           }
      }
 
+     mu_0  = d->mu_0;
+
+     flag  = d->set_flags_umus;
+
+     umus0 = alloc_array1_d(d->n_umus);
+     if (umus0 == NULL) {
+          fprintf(stderr, "ERROR: memory allocation failed\n");
+          return XRTM_INT_ERROR;
+     }
+
      ii = d->n_quad;
      for (i = 0; i < d->n_umus; ++i) {
+          umus0[i]  = d->qx[ii];
           d->qx[ii] = cos(out_thetas[i]*D2R);
           d->qw[ii] = 0.;
           ii++;
      }
 
+     d->set_flags_umus = 1;
+
+     if (d->set_flags_mu_0) {
+          if (mu_0_singularity_adjust(d)) {
+               fprintf(stderr, "ERROR: mu_0_singularity_adjust()\n");
+               d->mu_0 = mu_0;
+               d->set_flags_umus = flag;
+               for (i = 0; i < d->n_umus; ++i)
+                    d->qx[d->n_quad + i] = umus0[i];
+               free_array1_d(umus0);
+               return XRTM_INT_ERROR;
+          }
+     }
+
+     free_array1_d(umus0);
+
      if (d->solvers & XRTM_SOLVERS_INTERNAL) {
           ii = d->n_quad_v;
           for (i = 0; i < d->n_umus; ++i) {
@@ -3351,17 +3384,8 @@ int xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) {
           }
      }
 
-     d->set_flags_umus = 1;
-
      update_n_four2(d, d->set_flags_mu_0, 1);
 
-     if (d->set_flags_mu_0) {
-          if (mu_0_singularity_adjust(d)) {
-               fprintf(stderr, "ERROR: mu_0_singularity_adjust()\n");
-               return XRTM_INT_ERROR;
-          }
-     }
-
      if (d->solvers & XRTM_SOLVERS_INTERNAL && d->misc_input.use_symmetric_form)
           build_sim_vectors(0, d->n_umus_v, d->qx_v + d->n_quad_v, d->qw_v + d->n_quad_v, d->alpha1 + d->n_quad_v, d->alpha2 + d->n_quad_v);
 
@@ -3590,6 +3614,9 @@ double xrtm_get_F_0(xrtm_data *d) {
  ******************************************************************************/
 int xrtm_set_theta_0(xrtm_data *d, double theta_0) {
 
+     double mu_0;
+     double mu_0_0;
+
      if (! (d->options & XRTM_OPTION_SOURCE_SOLAR)) {
           fprintf(stderr, "ERROR: model not initialized for solar sources\n");
           return XRTM_INT_ERROR;
@@ -3601,15 +3628,20 @@ int xrtm_set_theta_0(xrtm_data *d, double theta_0) {
           return XRTM_INT_ERROR;
      }
 
-     d->mu_0_0 = cos(theta_0*D2R);
+     mu_0   = d->mu_0;
+     mu_0_0 = d->mu_0_0;
 
-     update_n_four2(d, 1, d->set_flags_umus);
+     d->mu_0_0 = cos(theta_0*D2R);
 
      if (mu_0_singularity_adjust(d)) {
           fprintf(stderr, "ERROR: mu_0_singularity_adjust()\n");
+          d->mu_0   = mu_0;
+          d->mu_0_0 = mu_0_0;
           return XRTM_INT_ERROR;
      }
 
+     update_n_four2(d, 1, d->set_flags_umus);
+
      if (d->solvers & XRTM_SOLVERS_INTERNAL && d->n_kernels > 0)
           brdf_aux_calc_mu_0(&d->kernel_aux, d->n_quad + d->n_umus, d->mu_0, d->n_kernel_quad, d->kernel_qx);
 
-- 
2.43.0


From 60183d8cfaf93e285501beca3625449d508a1ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 053/131] fix: rejected calls return XRTM_INT_ERROR

---
 src/xrtm_support.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_support.h b/src/xrtm_support.h
index 3eaf101..37e86ae 100644
--- a/src/xrtm_support.h
+++ b/src/xrtm_support.h
@@ -169,7 +169,7 @@ extern "C" {
      if (! (d->options & XRTM_OPTION_CALC_DERIVS)) {				\
           fprintf(stderr, "ERROR: can't set linearized inputs when model is "		\
                   "not initialized to evaluate derivatives\n");			\
-          return -1;								\
+          return XRTM_INT_ERROR;							\
      }										\
 } while (0)
 
@@ -191,7 +191,7 @@ extern "C" {
 #define SOLUTION_PREPROCESS()  do {						\
      if (solution_preprocess(d)) {						\
           fprintf(stderr, "ERROR: solution_preprocess()\n");				\
-          return -1;								\
+          return XRTM_INT_ERROR;							\
      }										\
 } while (0)
 
-- 
2.43.0


From 0a38a426671a8493432b9cbaf7a3bc7c0ee2b93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:08 +0000
Subject: [PATCH 054/131] fix: xrtm_get_lambda returned memory never set

---
 src/xrtm_interface.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index e95ab69..96e0e88 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3071,7 +3071,11 @@ double xrtm_get_lambda(xrtm_data *d) {
           return XRTM_DBL_ERROR;
      }
 
-     GET_INPUTS_CHECK_SET_FLAGS(d->set_flags_lambda, xrtm_input_index_to_name(INPUT_LAMBDA), XRTM_DBL_ERROR);
+     /* lambda is not a required input */
+     if (! d->set_flags_lambda) {
+          fprintf(stderr, "ERROR: can't get %s until it is set\n", xrtm_input_index_to_name(INPUT_LAMBDA));
+          return XRTM_DBL_ERROR;
+     }
 
      return d->lambda;
 }
-- 
2.43.0


From f69cff6d98c90e6ad958bea711496cb5f29f45cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:43 +0000
Subject: [PATCH 055/131] fix: the lists of masks stay within the length of
 their buffers

---
 misc/gindex_name_value.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index 4c064a9..6386a42 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -108,11 +108,11 @@ int mask_to_index_list(long mask, long *values, int n_values, int *indexes, int
      ii = 0;
 
      for (i = 0; i < n_values; ++i) {
-          if (mask & values[i])
-               indexes[ii++] = i;
-
           if (ii >= length)
                return ii;
+
+          if (mask & values[i])
+               indexes[ii++] = i;
      }
 
      return ii;
@@ -162,20 +162,23 @@ char *mask_to_name_list(long mask, long *values, int n_values, const char **name
 
      int flag;
 
+     if (length <= 0)
+          return s;
+
      n = 0;
 
+     s[n] = '\0';
+
      flag = 0;
      for (i = 0; i < n_values; ++i) {
           if (mask & values[i]) {
-               if (flag)
-                    n += snprintf(s + n, length - n, ",");
-               n += snprintf(s + n, length - n, "%s", names[i]);
+               n += snprintf(s + n, length - n, "%s%s", flag ? "," : "", names[i]);
                flag = 1;
+               if (n >= length)
+                    break;
           }
      }
 
-     s[n] = '\0';
-
      return s;
 }
 
@@ -217,11 +220,11 @@ int mask_to_value_list(long mask, long *values, int n_values, long *values2, int
      ii = 0;
 
      for (i = 0; i < n_values; ++i) {
-          if (mask & values[i])
-               values2[ii++] = values[i];
-
           if (ii >= length)
                return ii;
+
+          if (mask & values[i])
+               values2[ii++] = values[i];
      }
 
      return ii;
-- 
2.43.0


From 39f440c1906f06154d5fcc297d0e147d0dff2daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 056/131] fix: masks made from lists have the width of the
 values

---
 misc/gindex_name_value.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misc/gindex_name_value.c b/misc/gindex_name_value.c
index 6386a42..92bb461 100644
--- a/misc/gindex_name_value.c
+++ b/misc/gindex_name_value.c
@@ -189,14 +189,14 @@ long name_list_to_mask(char *s, long *values, const char **names, int n, const c
      char *token;
      char *lasts;
 
-     int temp;
-     int mask;
+     long temp;
+     long mask;
 
      mask = 0;
 
      if ((token = strtok_r(s, ", \t", &lasts))) {
           do {
-               if ((temp = name_to_value(token, values, names, n, desc)) < 0) {
+               if ((temp = name_to_value(token, values, names, n, desc)) == -1) {
                     fprintf(stderr, "ERROR: name_to_value()\n");
                     return -1;
                }
@@ -236,7 +236,7 @@ long value_list_to_mask(long *values, int n_values) {
 
      int i;
 
-     int mask;
+     long mask;
 
      mask = 0;
      for (i = 0; i < n_values; ++i)
-- 
2.43.0


From 30a34d9e01aff1d7f0e5a6f01a2dbd1acbce57db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:47 +0000
Subject: [PATCH 057/131] fix: the names of the inputs kernel_params_l and
 kernel_funcs were one

---
 src/xrtm_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 96e0e88..b3522ba 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -184,7 +184,7 @@ static const char *xrtm_input_names[] = {
      "kernel_ampfac",
      "kernel_ampfac_l",
      "kernel_params",
-     "kernel_params_l"
+     "kernel_params_l",
      "kernel_funcs"
 };
 
-- 
2.43.0


From 1a6f2b7f789858942d96a62349b2f05f56cca391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:56 +0000
Subject: [PATCH 058/131] fix: inserting at the front of an empty dclist
 crashed

---
 misc/gstruct_dclist.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/gstruct_dclist.h b/misc/gstruct_dclist.h
index 496e3c9..ace5933 100644
--- a/misc/gstruct_dclist.h
+++ b/misc/gstruct_dclist.h
@@ -290,7 +290,7 @@ dcelem *dclist_insert_front(dclist *list, GSTRUCT_TYPE value) {
 
      tmp = dclist_insert(list, pos, value);
 
-     list->first = pos->next;
+     list->first = tmp;
 
      return tmp;
 }
@@ -403,7 +403,7 @@ void dclist_add_front(dclist *list, dcelem *elem) {
 
      dclist_add(list, pos, elem);
 
-     list->first = pos->next;
+     list->first = elem;
 }
 
 
-- 
2.43.0


From cc80d5c61c856db01f66d8c4314ffb55a1f7987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:04 +0000
Subject: [PATCH 059/131] fix: deleting from an aatree left stale parent
 pointers

---
 misc/gstruct_aatree.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/misc/gstruct_aatree.h b/misc/gstruct_aatree.h
index 0fdb7c5..ec5daa4 100644
--- a/misc/gstruct_aatree.h
+++ b/misc/gstruct_aatree.h
@@ -477,6 +477,8 @@ static int aatpos_delete_type(aatree *tree, aatpos **tpos_, GSTRUCT_TYPE value)
                          tree->free_(POINTER(tree->dele_node->value));
                     tree->dele_node->value = tpos->value;
                     tree->dele_node = &aatree_null_node;
+                    if (tpos->right != &aatree_null_node)
+                         tpos->right->parent = tpos->parent;
                     tpos = tpos->right;
                     free(tree->last_node);
                     *tpos_ = tpos;
@@ -504,6 +506,8 @@ static int aatpos_delete_type(aatree *tree, aatpos **tpos_, GSTRUCT_TYPE value)
 
 int aatree_delete_type(aatree *tree, GSTRUCT_TYPE value) {
 
+     tree->dele_node = &aatree_null_node;
+
      return aatpos_delete_type(tree, &tree->base, value);
 }
 
@@ -536,6 +540,8 @@ static int aatpos_delete_comp(aatree *tree, aatpos **tpos_, GSTRUCT_TYPE value)
                          tree->free_(POINTER(tree->dele_node->value));
                     tree->dele_node->value = tpos->value;
                     tree->dele_node = &aatree_null_node;
+                    if (tpos->right != &aatree_null_node)
+                         tpos->right->parent = tpos->parent;
                     tpos = tpos->right;
                     free(tree->last_node);
                     *tpos_ = tpos;
@@ -563,6 +569,8 @@ static int aatpos_delete_comp(aatree *tree, aatpos **tpos_, GSTRUCT_TYPE value)
 
 int aatree_delete_comp(aatree *tree, GSTRUCT_TYPE value) {
 
+     tree->dele_node = &aatree_null_node;
+
      return aatpos_delete_comp(tree, &tree->base, value);
 }
 
-- 
2.43.0


From 1fb071306f45fa81054d63ebd21c8bd5b791da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:06 +0000
Subject: [PATCH 060/131] fix: extended_trapezoidal_quad had its abscissae off
 by one

---
 misc/rtutil_math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_math.c b/misc/rtutil_math.c
index ca385b9..d353217 100644
--- a/misc/rtutil_math.c
+++ b/misc/rtutil_math.c
@@ -47,7 +47,7 @@ void extended_trapezoidal_quad(int n, double a, double b, double *x, double *w)
 
      if (n == 1) {
           x[0] = (a + b) / 2.;
-          w[0] = 1.;
+          w[0] = b - a;
      }
      else {
           dx = (b - a) / (n - 1);
@@ -56,7 +56,7 @@ void extended_trapezoidal_quad(int n, double a, double b, double *x, double *w)
           w[0] = dx / 2.;
 
           for (i = 1; i < n-1; ++i) {
-               x[i] = a + (i - 1) * dx;
+               x[i] = a + i * dx;
                w[i] = dx;
           }
 
-- 
2.43.0


From a50125b46d898beb806761e770e6d1366dc531fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:08 +0000
Subject: [PATCH 061/131] fix: generalized spherical functions of odd p - q
 were zero

---
 misc/rtutil_math.c | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/misc/rtutil_math.c b/misc/rtutil_math.c
index d353217..3c4e005 100644
--- a/misc/rtutil_math.c
+++ b/misc/rtutil_math.c
@@ -613,6 +613,23 @@ void leg_poly_assoc2(int m, int n_mu, int n_l, double *mu,
 /*******************************************************************************
  *
  ******************************************************************************/
+static dcomplex gen_spher_funcs_phase(int n) {
+
+     /* (-i)^n */
+     switch(n % 4) {
+          case 0:
+               return  1.;
+          case 1:
+               return -_Complex_I;
+          case 2:
+               return -1.;
+          default:
+               return  _Complex_I;
+     }
+}
+
+
+
 void gen_spher_funcs(int p, int q, int n_l, double mu, dcomplex *gsf) {
 
      gen_spher_funcs2(p, q, 1, n_l, &mu, &gsf);
@@ -622,6 +639,8 @@ void gen_spher_funcs(int p, int q, int n_l, double mu, dcomplex *gsf) {
 
 void gen_spher_funcs2(int p, int q, int n_mu, int n_l, double *mu, dcomplex **gsf) {
 
+     dcomplex dc;
+
      /* Mischenko 1991 */
 
      int i;
@@ -666,8 +685,8 @@ void gen_spher_funcs2(int p, int q, int n_mu, int n_l, double *mu, dcomplex **gs
      apmqd2 = apmq / 2.;
      appqd2 = appq / 2.;
 
-     da = creal(cpow(-_Complex_I, apmq) / pow(2., r) *
-                sqrt(factorial(2 * r) / (factorial(apmq) * factorial(appq))));
+     dc = gen_spher_funcs_phase(apmq) / pow(2., r) *
+                sqrt(factorial(2 * r) / (factorial(apmq) * factorial(appq)));
 
      for (i = 0; i < n_mu; ++i) {
           if (r == 0) {
@@ -684,7 +703,7 @@ void gen_spher_funcs2(int p, int q, int n_mu, int n_l, double *mu, dcomplex **gs
                     gsf[i][j] = 0.;
                }
 
-               gsf[i][r] = da * pow(1. - mu[i], apmqd2) *
+               gsf[i][r] = dc * pow(1. - mu[i], apmqd2) *
                                 pow(1. + mu[i], appqd2);
 
                j = r;
@@ -719,6 +738,8 @@ void gen_spher_funcs_0q(int q, int n_l, double mu, dcomplex *gsf) {
 
 void gen_spher_funcs_0q_2(int q, int n_mu, int n_l, double *mu, dcomplex **gsf) {
 
+     dcomplex dc;
+
      int i;
      int j;
 
@@ -742,7 +763,7 @@ void gen_spher_funcs_0q_2(int q, int n_mu, int n_l, double *mu, dcomplex **gsf)
 
      fq  = factorial(q);
 
-     da = creal(cpow(-_Complex_I, q) / pow(2., q) * sqrt(factorial(2 * q) / (fq * fq)));
+     dc = gen_spher_funcs_phase(q) / pow(2., q) * sqrt(factorial(2 * q) / (fq * fq));
 
      for (i = 0; i < n_mu; ++i) {
           if (q == 0) {
@@ -759,7 +780,7 @@ void gen_spher_funcs_0q_2(int q, int n_mu, int n_l, double *mu, dcomplex **gsf)
                     gsf[i][j] = 0.;
                }
 
-               gsf[i][q] = da * pow(1. - mu[i], qd2) *
+               gsf[i][q] = dc * pow(1. - mu[i], qd2) *
                                 pow(1. + mu[i], qd2);
 
                j = q;
@@ -792,6 +813,8 @@ void gen_spher_funcs_p0(int p, int n_l, double mu, dcomplex *gsf) {
 
 void gen_spher_funcs_p0_2(int p, int n_mu, int n_l, double *mu, dcomplex **gsf) {
 
+     dcomplex dc;
+
      int i;
      int j;
 
@@ -815,7 +838,7 @@ void gen_spher_funcs_p0_2(int p, int n_mu, int n_l, double *mu, dcomplex **gsf)
 
      fp  = factorial(p);
 
-     da = creal(cpow(-_Complex_I, p) / pow(2., p) * sqrt(factorial(2 * p) / (fp * fp)));
+     dc = gen_spher_funcs_phase(p) / pow(2., p) * sqrt(factorial(2 * p) / (fp * fp));
 
      for (i = 0; i < n_mu; ++i) {
           if (p == 0) {
@@ -832,7 +855,7 @@ void gen_spher_funcs_p0_2(int p, int n_mu, int n_l, double *mu, dcomplex **gsf)
                     gsf[i][j] = 0.;
                }
 
-               gsf[i][p] = da * pow(1. - mu[i], pd2) *
+               gsf[i][p] = dc * pow(1. - mu[i], pd2) *
                                 pow(1. + mu[i], pd2);
 
                j = p;
-- 
2.43.0


From 2af956fb6123499b3c9df299eb740564c979f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:23 +0000
Subject: [PATCH 062/131] fix: compare arrays from their first element in
 cmp_n_* and cmp_dec_n_*

---
 misc/gutil_cmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/gutil_cmp.c b/misc/gutil_cmp.c
index 444c4f3..2333d37 100644
--- a/misc/gutil_cmp.c
+++ b/misc/gutil_cmp.c
@@ -39,7 +39,7 @@ int XCAT(cmp_n_, postfix_)(type_ *a, type_ *b, long n) {			\
 										\
      long i;									\
 										\
-     for (i = 1; i < n; ++i) {							\
+     for (i = 0; i < n; ++i) {							\
           if (a[i] < b[i])							\
                return -1;							\
           if (a[i] > b[i])							\
@@ -129,7 +129,7 @@ int XCAT(cmp_dec_n_, postfix_)(type_ *a, type_ *b, long n) {			\
 										\
      long i;									\
 										\
-     for (i = 1; i < n; ++i) {							\
+     for (i = 0; i < n; ++i) {							\
           if (a[i] > b[i])							\
                return -1;							\
           if (a[i] < b[i])							\
-- 
2.43.0


From 5c933b810328ca1b320eba34bb85703b224a305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:25 +0000
Subject: [PATCH 063/131] fix: let str_replace_char() start at the first
 character and not read past the end

---
 misc/gutil_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/gutil_string.c b/misc/gutil_string.c
index 5d95a73..c6cbee1 100644
--- a/misc/gutil_string.c
+++ b/misc/gutil_string.c
@@ -12,7 +12,7 @@
 
 void str_replace_char(char *s, char c1, char c2) {
 
-     while ((s = strchr(s+1, c1)))
+     while ((s = strchr(s, c1)))
           *s++ = c2;
 }
 
-- 
2.43.0


From 041c3f52c856beeebaef6393e5427061ab37ead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 064/131] fix: do not read past the end of the string in
 gstrtob()

---
 misc/gutil_string.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/misc/gutil_string.c b/misc/gutil_string.c
index c6cbee1..0829793 100644
--- a/misc/gutil_string.c
+++ b/misc/gutil_string.c
@@ -54,11 +54,6 @@ int gstrtob(const char *s, int *x) {
 
      if (s[i+1]) {
           if (s[i] == 'f' || s[i] == 'F') {
-                if (s[i+5]) {
-                      *x = 0;
-                      return -1;
-                }
-
                 switch(s[i+1]) {
                      case 'a':
                           break;
@@ -95,13 +90,13 @@ int gstrtob(const char *s, int *x) {
                           *x = 0;
                           return -1;
                 }
-          }
-          else if (s[i] == 't' || s[i] == 'T') {
-                if (s[i+4]) {
+
+                if (s[i+5]) {
                       *x = 0;
                       return -1;
                 }
-
+          }
+          else if (s[i] == 't' || s[i] == 'T') {
                 switch(s[i+1]) {
                      case 'r':
                           break;
@@ -129,6 +124,11 @@ int gstrtob(const char *s, int *x) {
                           *x = 0;
                           return -1;
                 }
+
+                if (s[i+4]) {
+                      *x = 0;
+                      return -1;
+                }
           }
           else {
                *x = 0;
-- 
2.43.0


From f7c33f5dde5663eb74f7cbf10a07982492ef39f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:28 +0000
Subject: [PATCH 065/131] fix: reject numbers out of the range of the type in
 gstrto*() instead of truncating them

---
 misc/gutil_string.c | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/misc/gutil_string.c b/misc/gutil_string.c
index 0829793..2314b1d 100644
--- a/misc/gutil_string.c
+++ b/misc/gutil_string.c
@@ -151,11 +151,13 @@ const char *gbtostr(int x) {
 
 
 
-#define gstrtol_frame(postfix_, function_, type_)	\
+#define gstrtol_frame(postfix_, function_, ltype_, type_, is_signed_)\
 int XCAT(gstrto, postfix_)(const char *nprt, type_ *x) {\
 							\
      char *endptr;					\
 							\
+     ltype_ y;						\
+							\
      errno = 0;						\
 							\
      if (nprt == NULL)					\
@@ -164,29 +166,37 @@ int XCAT(gstrto, postfix_)(const char *nprt, type_ *x) {\
      if (*nprt == '\0')					\
           return -1;					\
 							\
-     *x = (type_) function_(nprt, &endptr, 10);		\
+     if (! is_signed_ && strchr(nprt, '-'))		\
+          return -1;					\
+							\
+     y = function_(nprt, &endptr, 10);			\
+							\
+     *x = (type_) y;					\
 							\
      if (errno == ERANGE)				\
           return -1;					\
 							\
-     if (*endptr != '\0')				\
+     if (endptr == nprt || *endptr != '\0')		\
+          return -1;					\
+							\
+     if ((ltype_) *x != y)				\
           return -1;					\
 							\
      return 0;						\
 }
 
-gstrtol_frame(us,  strtol,  ushort)
-gstrtol_frame(s,   strtol,  short)
-gstrtol_frame(ui,  strtol,  uint)
-gstrtol_frame(i,   strtol,  int)
-gstrtol_frame(ul,  strtol,  ulong)
-gstrtol_frame(l,   strtol,  long)
+gstrtol_frame(us,  strtoul, ulong, ushort, 0)
+gstrtol_frame(s,   strtol,  long,  short,  1)
+gstrtol_frame(ui,  strtoul, ulong, uint,   0)
+gstrtol_frame(i,   strtol,  long,  int,    1)
+gstrtol_frame(ul,  strtoul, ulong, ulong,  0)
+gstrtol_frame(l,   strtol,  long,  long,   1)
 #if PLATFORM == WIN32_MSVC
-gstrtol_frame(ull, _strtoi64, uint64_t)
-gstrtol_frame(ll,  _strtoi64, int64_t)
+gstrtol_frame(ull, _strtoui64, uint64_t, uint64_t, 0)
+gstrtol_frame(ll,  _strtoi64,  int64_t,  int64_t,  1)
 #else
-gstrtol_frame(ull, strtoll, uint64_t)
-gstrtol_frame(ll,  strtoll, int64_t)
+gstrtol_frame(ull, strtoull, uint64_t, uint64_t, 0)
+gstrtol_frame(ll,  strtoll,  int64_t,  int64_t,  1)
 #endif
 
 
@@ -214,7 +224,7 @@ int XCAT(gstrto, postfix_)(const char *nprt, type_ *x) {\
      return 0;						\
 }
 
-gstrtod_frame(f,   strtod,  float)
+gstrtod_frame(f,   strtof,  float)
 gstrtod_frame(d,   strtod,  double)
 
 
-- 
2.43.0


From 64caa004192aa1893aaf0fa0853baaa20122ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:30 +0000
Subject: [PATCH 066/131] fix: do not write outside blank or empty strings in
 remove_pad() and trimm_string()

---
 misc/gutil_parse.c  | 6 +-----
 misc/gutil_string.c | 2 +-
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/misc/gutil_parse.c b/misc/gutil_parse.c
index d427d15..08ce58d 100644
--- a/misc/gutil_parse.c
+++ b/misc/gutil_parse.c
@@ -89,11 +89,7 @@ void trimm_string(char *s) {
 
      n = strlen(s + i);
 
-     if (n == 0)
-          j = 0;
-     else {
-          for (j = n - 1; s[i + j] == ' ' || s[i + j] == '\t'; --j) ;
-     }
+     for (j = n - 1; j >= 0 && (s[i + j] == ' ' || s[i + j] == '\t'); --j) ;
 
      if (i > 0) {
           for (k = 0; k < j + 1; ++k)
diff --git a/misc/gutil_string.c b/misc/gutil_string.c
index 2314b1d..5247032 100644
--- a/misc/gutil_string.c
+++ b/misc/gutil_string.c
@@ -387,7 +387,7 @@ char *remove_pad(char *s, int side) {
           s = s + i;
      }
      if (side == 1 || side == 2) {
-          for (i = strlen(s) - 1; s[i] == ' '; --i) ;
+          for (i = (int) strlen(s) - 1; i >= 0 && s[i] == ' '; --i) ;
           s[i+1] = '\0';
      }
 
-- 
2.43.0


From 9f4308a14bc5ec08d48b00d1922c872771ecc11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:31 +0000
Subject: [PATCH 067/131] fix: compare no characters in minncmp() and ncsncmp()
 when n is 0

---
 misc/gutil_string.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/misc/gutil_string.c b/misc/gutil_string.c
index 5247032..d78a2aa 100644
--- a/misc/gutil_string.c
+++ b/misc/gutil_string.c
@@ -452,6 +452,9 @@ int minncmp(const void *v1, const void *v2, int n) {
      s1 = (char *) v1;
      s2 = (char *) v2;
 
+     if (n <= 0)
+          return 0;
+
      for (i = 0; s1[i] == s2[i]; ) {
           if (s1[i] == '\0' || ++i == n)
                return 0;
@@ -498,6 +501,9 @@ int ncsncmp(const void *v1, const void *v2, int n) {
      s1 = (char *) v1;
      s2 = (char *) v2;
 
+     if (n <= 0)
+          return 0;
+
      for (i = 0; (c1 = (char) tolower(s1[i])) == (c2 = (char) tolower(s2[i])); ) {
           if (c1 == '\0' || ++i == n)
                return 0;
-- 
2.43.0


From be6efb9510be9293a6903f90708448d604207f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:35 +0000
Subject: [PATCH 068/131] fix: copy the data instead of the pointers in
 copy_array() and dup_array()

---
 misc/gutil_alloc.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/misc/gutil_alloc.c b/misc/gutil_alloc.c
index 742e28a..6383e01 100644
--- a/misc/gutil_alloc.c
+++ b/misc/gutil_alloc.c
@@ -273,9 +273,13 @@ void copy_array(void *a2, void *a1, int rank, size_t *dimen, int size) {
 
      size_t length = dimen[0];
 
-     for (i = 1; i < rank; ++i)
+     for (i = 1; i < rank; ++i) {
           length *= dimen[i];
 
+          a1 = *(void **) a1;
+          a2 = *(void **) a2;
+     }
+
      memcpy(a2, a1, length * size);
 }
 
@@ -285,7 +289,10 @@ void *dup_array(void *a1, int rank, size_t *dimen, int size) {
 
      void *a2;
 
-     a2 = ptr_array_alloc(rank, dimen, size, 0);
+     a2 = alloc_array(rank, dimen, size);
+     if (a2 == NULL)
+          return NULL;
+
      copy_array(a2, a1, rank, dimen, size);
 
      return a2;
-- 
2.43.0


From 6330147239e98d14074c2a04197fc559260d100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:37 +0000
Subject: [PATCH 069/131] fix: sum over the columns in mat_p_inf_norm() and use
 the modulus in mat_frob_norm()

---
 misc/gmatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/misc/gmatrix.h b/misc/gmatrix.h
index 4a9dde5..0e617a5 100644
--- a/misc/gmatrix.h
+++ b/misc/gmatrix.h
@@ -159,9 +159,9 @@ double XCAT(prefix_, mat_p_inf_norm)(type_ **a, long m, long n) {
      double sum;
      double max = -DBL_MAX;
 
-     for (i = 0; i < n; ++i) {
+     for (i = 0; i < m; ++i) {
           sum = 0.;
-          for (j = 0; j < m; ++j) {
+          for (j = 0; j < n; ++j) {
                sum += xabs_(a[i][j]);
           }
           if (sum > max)
@@ -183,7 +183,7 @@ double XCAT(prefix_, mat_frob_norm)(type_ **a, long m, long n) {
      sum = 0.;
      for (i = 0; i < m; ++i) {
           for (j = 0; j < n; ++j) {
-               sum += (double) xreal_(a[i][j]) * (double) xreal_(a[i][j]);
+               sum += (double) xabs_(a[i][j]) * (double) xabs_(a[i][j]);
           }
      }
 
-- 
2.43.0


From 374aebea2d9dd5501f0644b5df02579078df428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:40 +0000
Subject: [PATCH 070/131] fix: take the diagonal from the operand and the sign
 of the lower triangle in mat_add_trans() and mat_sub_trans()

---
 misc/gmatrix.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/misc/gmatrix.h b/misc/gmatrix.h
index 0e617a5..b3d805f 100644
--- a/misc/gmatrix.h
+++ b/misc/gmatrix.h
@@ -212,7 +212,7 @@ void XCAT(prefix_, mat_add_trans)(type_ **a, type_ **c, long m, long n) {
      long j;
 
      for (i = 0; i < m; ++i) {
-          c[i][i] += c[i][i];
+          c[i][i] = a[i][i] + a[i][i];
 
           for (j = i + 1; j < n; ++j) {
                c[i][j] = c[j][i] = a[i][j] + a[j][i];
@@ -257,11 +257,16 @@ void XCAT(prefix_, mat_sub_trans)(type_ **a, type_ **c, long m, long n) {
      long i;
      long j;
 
+     type_ x;
+
      for (i = 0; i < m; ++i) {
-          c[i][i] -= c[i][i];
+          c[i][i] = 0.;
 
           for (j = i + 1; j < n; ++j) {
-               c[i][j] = c[j][i] = a[i][j] - a[j][i];
+               x = a[i][j] - a[j][i];
+
+               c[i][j] =  x;
+               c[j][i] = -x;
           }
      }
 }
-- 
2.43.0


From 36997e147283aae04c02ae3ebc7aa9410558416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 071/131] fix: multiply a row vector by a matrix in v_m_mul()

---
 misc/gmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/gmatrix.h b/misc/gmatrix.h
index b3d805f..47d13f6 100644
--- a/misc/gmatrix.h
+++ b/misc/gmatrix.h
@@ -379,7 +379,7 @@ void XCAT(prefix_, mat_gxvxmx)(int trans_a, type_ **a, const type_ *b, type_ alp
 
 void XCAT(prefix_, v_m_mul)(const type_ *a, type_ **b, long m, type_ **c) {
 
-     XCAT(prefix_, mat_mul)((type_ **) &a, b, m, m, 1, c);
+     XCAT(prefix_, mat_mul)((type_ **) &a, b, 1, m, m, c);
 }
 
 
-- 
2.43.0


From 0da679c4611bb62eb628175791a9e71be141f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:45 +0000
Subject: [PATCH 072/131] fix: leading dimensions of the transposed operands in
 mat_gxgxmx()

---
 misc/gmatrix.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/misc/gmatrix.h b/misc/gmatrix.h
index 47d13f6..cab6a49 100644
--- a/misc/gmatrix.h
+++ b/misc/gmatrix.h
@@ -447,8 +447,11 @@ void XCAT(prefix_, mat_gxgxmx)(int trans_a, type_ **a, int trans_b, type_ **b,
      char transa = trans_a ? 't' : 'n';
      char transb = trans_b ? 't' : 'n';
 
+     long lda = trans_a ? m : o;
+     long ldb = trans_b ? o : n;
+
      XCAT(prefix_, gemm_)(&transb, &transa, &n, &m, &o, &alpha,
-                          (type_ *) *b, &n, (type_ *) *a, &o, &beta, (type_ *) *c, &n);
+                          (type_ *) *b, &ldb, (type_ *) *a, &lda, &beta, (type_ *) *c, &n);
 #else
      long i;
      long j;
-- 
2.43.0


From d43528d96098bcf53fd7c5626232304899561b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:47 +0000
Subject: [PATCH 073/131] fix: leading dimension of the right hand sides in
 mat_potrs()

---
 misc/gmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/gmatrix.h b/misc/gmatrix.h
index cab6a49..1cb83da 100644
--- a/misc/gmatrix.h
+++ b/misc/gmatrix.h
@@ -975,7 +975,7 @@ void XCAT(prefix_, mat_potrs)(type_ **a, type_ **b, int n, int nrhs) {
 
      int info;
 
-     XCAT(prefix_, potrs_)("l", &n, &nrhs, *a, &n, *b, &nrhs, &info);
+     XCAT(prefix_, potrs_)("l", &n, &nrhs, *a, &n, *b, &n, &info);
 
      if (info) {
           fprintf(stderr, "ERROR: dpotrs() info = %d\n", info);
-- 
2.43.0


From b9b7acfec921a45e8b3dc7ccdff37c58fcc1aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:49 +0000
Subject: [PATCH 074/131] fix: set the last element of the inverse in
 mat2d_inv()

---
 misc/gmath_mat2d3d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/gmath_mat2d3d.c b/misc/gmath_mat2d3d.c
index 472f84a..54a1430 100644
--- a/misc/gmath_mat2d3d.c
+++ b/misc/gmath_mat2d3d.c
@@ -353,7 +353,7 @@ int mat2d_inv(double a[2][2], double b[2][2]) {
           b[0][0] =  a[1][1] / det;
           b[0][1] = -a[0][1] / det;
           b[1][0] = -a[1][0] / det;
-          b[0][0] =  a[0][0] / det;
+          b[1][1] =  a[0][0] / det;
 
           return 1;
      }
-- 
2.43.0


From c26e85dc08f944aa02dcb8fda7247d6fff805e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:51 +0000
Subject: [PATCH 075/131] fix: let dmat_complex2() handle every alpha and beta

---
 src/xrtm_matrix.c | 75 +++++------------------------------------------
 1 file changed, 8 insertions(+), 67 deletions(-)

diff --git a/src/xrtm_matrix.c b/src/xrtm_matrix.c
index 667c366..f1ad97b 100644
--- a/src/xrtm_matrix.c
+++ b/src/xrtm_matrix.c
@@ -695,78 +695,19 @@ void dmat_complex2(double **dr, double **di, double alpha, dcomplex **z, double
      long i;
      long j;
 
-     if (alpha == 0.) {
-          if (beta == 0.) {
-
-          }
-          else
-          if (beta == 1.) {
-
-          }
-          else
-          if (beta == -1.) {
-
-          }
-          else {
-          }
-     }
-     else
-     if (alpha == 1.) {
-          if (beta == 0.) {
-               for (i = 0; i < m; ++i) {
-                    for (j = 0; j < n; ++j) {
-                         z[i][j] = dr[i][j] + _Complex_I * di[i][j];
-                    }
-               }
-          }
-          else
-          if (beta == 1.) {
-               for (i = 0; i < m; ++i) {
-                    for (j = 0; j < n; ++j) {
-                         z[i][j] += dr[i][j] + _Complex_I * di[i][j];
-                    }
-               }
-          }
-          else
-          if (beta == -1.) {
-               for (i = 0; i < m; ++i) {
-                    for (j = 0; j < n; ++j) {
-                         z[i][j] = dr[i][j] + _Complex_I * di[i][j] - z[i][j];
-                    }
+     if (beta == 0.) {
+          for (i = 0; i < m; ++i) {
+               for (j = 0; j < n; ++j) {
+                    z[i][j] = alpha * (dr[i][j] + _Complex_I * di[i][j]);
                }
           }
-          else {
-          }
      }
-     else
-     if (alpha == -1.) {
-          if (beta == 0.) {
-               for (i = 0; i < m; ++i) {
-                    for (j = 0; j < n; ++j) {
-                         z[i][j] = -(dr[i][j] + _Complex_I * di[i][j]);
-                    }
-               }
-          }
-          else
-          if (beta == 1.) {
-               for (i = 0; i < m; ++i) {
-                    for (j = 0; j < n; ++j) {
-                         z[i][j] -= dr[i][j] + _Complex_I * di[i][j];
-                    }
-               }
-          }
-          else
-          if (beta == -1.) {
-               for (i = 0; i < m; ++i) {
-                    for (j = 0; j < n; ++j) {
-                         z[i][j] = -(dr[i][j] + _Complex_I * di[i][j]) - z[i][j];
-                    }
+     else {
+          for (i = 0; i < m; ++i) {
+               for (j = 0; j < n; ++j) {
+                    z[i][j] = alpha * (dr[i][j] + _Complex_I * di[i][j]) + beta * z[i][j];
                }
           }
-          else {
-          }
-     }
-     else {
      }
 }
 
-- 
2.43.0


From dbbe3a3bd4ad059aa03f1bd602988115d931a410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:24 +0000
Subject: [PATCH 076/131] fix: column offset of the block in insert_matrix2_d()
 for blocks that are not square

---
 src/xrtm_matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xrtm_matrix.c b/src/xrtm_matrix.c
index f1ad97b..87d784e 100644
--- a/src/xrtm_matrix.c
+++ b/src/xrtm_matrix.c
@@ -849,7 +849,7 @@ void insert_matrix2_d(int m, int n, int i, int j, double **a, double alpha, doub
      int jjj;
 
      i *= m;
-     j *= m;
+     j *= n;
 
      if (alpha ==  1.) {
           for (ii = i, iii = 0; iii < m; ++ii, ++iii) {
-- 
2.43.0


From 2aeea7543f2e4001288825ac6de4c89e735049cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:41 +0000
Subject: [PATCH 077/131] fix: leak of the derivatives of the beam
 transmittance in the solution with Green's functions

---
 src/xrtm_eig_bvp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 8014a7e..86cb842 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -1036,6 +1036,10 @@ else {
                }
           }
      }
-     if (greens)
+     if (greens) {
           free_array1_d(atran2);
+
+          if (n_derivs > 0)
+               free_array2_d(atran2_l);
+     }
 }
-- 
2.43.0


From f05f79c622f1eb34bae74f4a1a8bf4c24d8c0f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:44 +0000
Subject: [PATCH 078/131] fix: leak of the set flags for user defined kernels

---
 src/xrtm_interface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index b3522ba..a31ac67 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2617,6 +2617,7 @@ static int check_inputs_initialized(xrtm_data *d) {
      if (d->n_kernels > 0) {
           free_array1_uc(d->set_flags_kernel_ampfac);
           free_array2_uc(d->set_flags_kernel_params);
+          free_array1_uc(d->set_flags_kernel_func);
      }
 
      d->inputs_initialized = 0;
-- 
2.43.0


From 4fe3a8c45791738757ca627a9a83a042687fd064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:37 +0000
Subject: [PATCH 079/131] fix: memory allocation failures during the creation
 of an instance crash or leak

---
 misc/gstruct_aatree.h |  4 +++-
 src/xrtm_interface.c  | 31 +++++++++++++++++++++++++------
 src/xrtm_save_tree.c  | 13 ++++++++++++-
 src/xrtm_utility.c    | 26 ++++++++++++++++----------
 src/xrtm_work.c       |  3 +++
 5 files changed, 59 insertions(+), 18 deletions(-)

diff --git a/misc/gstruct_aatree.h b/misc/gstruct_aatree.h
index ec5daa4..33a7dec 100644
--- a/misc/gstruct_aatree.h
+++ b/misc/gstruct_aatree.h
@@ -144,8 +144,10 @@ aatree *aatree_create(void) {
 
      tree = (aatree *) malloc(sizeof(aatree));
 
-     if (tree == NULL)
+     if (tree == NULL) {
           fprintf(stderr, "Memory allocation error: aatree_create()");
+          return NULL;
+     }
 
      tree->comp  = NULL;
      tree->free_ = NULL;
diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index a31ac67..d66d239 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -805,9 +805,14 @@ xrtm_data *xrtm_create2(int options, int solvers, int max_coef, int n_quad, int
      xrtm_data *d;
 
      d = (xrtm_data *) malloc(sizeof(xrtm_data));
+     if (d == NULL) {
+          fprintf(stderr, "ERROR: memory allocation failed\n");
+          return NULL;
+     }
 
      if (xrtm_create(d, options, solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernels, n_kernel_quad, kernels, n_out_levels, n_out_thetas) == XRTM_INT_ERROR) {
           fprintf(stderr, "ERROR: xrtm_create()\n");
+          free(d);
           return NULL;
      }
 
@@ -833,7 +838,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     memset(d, 0xffffffff, sizeof(xrtm_data));
+     memset(d, 0, sizeof(xrtm_data));
 
 
      /*-------------------------------------------------------------------------
@@ -1073,6 +1078,8 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     d->inputs_initialized = 1;
+
      if ((r = setjmp(env)) == 0) {
 
 
@@ -1238,6 +1245,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
 
           if (brdf_aux_alloc(&d->kernel_aux, d->n_quad + d->n_umus, d->n_kernel_quad)) {
                fprintf(stderr, "ERROR: brdf_aux_alloc()\n");
+               xrtm_destroy(d);
                return XRTM_INT_ERROR;
           }
           brdf_aux_calc_base(&d->kernel_aux, d->n_quad, d->qx, d->n_kernel_quad, d->kernel_qx);
@@ -1434,8 +1442,12 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
           if (d->options & XRTM_OPTION_SOURCE_THERMAL)
                d->derivs.thermal_m   = flags_alloc2(d->n_layers + 1, d->n_derivs);
 
-          if (0) {
+          if (! (d->derivs.layers && d->derivs.total && d->derivs.stacks && d->derivs.sources &&
+                 d->derivs.adding_up && d->derivs.adding_down && d->derivs.beam && d->derivs.thermal &&
+                 d->derivs.layers_m && d->derivs.total_m && d->derivs.stacks_m && d->derivs.sources_m &&
+                 d->derivs.adding_up_m && d->derivs.adding_down_m && d->derivs.beam_m && d->derivs.thermal_m)) {
                fprintf(stderr, "ERROR: flags_alloc2()\n");
+               xrtm_destroy(d);
                return XRTM_INT_ERROR;
           }
 
@@ -1739,8 +1751,10 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
       *
       *-----------------------------------------------------------------------*/
      }
-     else if (r < 0)
+     else {
+          xrtm_destroy(d);
           return XRTM_INT_ERROR;
+     }
 
 
      /*-------------------------------------------------------------------------
@@ -1753,6 +1767,7 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
 #endif
           if (work_init(&d->work, d->n_quad, d->n_quad_x, d->n_stokes, d->n_derivs, d->n_layers, d->n_umus)) {
                fprintf(stderr, "ERROR: work_init()\n");
+               xrtm_destroy(d);
                return XRTM_INT_ERROR;
           }
      }
@@ -1762,14 +1777,18 @@ int xrtm_create_misc(xrtm_data *d, int options, int solvers, int max_coef, int n
       *
       *-----------------------------------------------------------------------*/
      d->save_tree.t = NULL;
-     if (d->options & XRTM_OPTION_REVERSE_DERIVS)
-          save_tree_init(&d->save_tree);
+     if (d->options & XRTM_OPTION_REVERSE_DERIVS) {
+          if (save_tree_init(&d->save_tree)) {
+               fprintf(stderr, "ERROR: save_tree_init()\n");
+               xrtm_destroy(d);
+               return XRTM_INT_ERROR;
+          }
+     }
 
 
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     d->inputs_initialized = 1;
      d->varied_layers_updated = 1;
      d->solver_saved = 0;
 
diff --git a/src/xrtm_save_tree.c b/src/xrtm_save_tree.c
index 42c2ae3..c6209f5 100644
--- a/src/xrtm_save_tree.c
+++ b/src/xrtm_save_tree.c
@@ -61,9 +61,19 @@ int save_tree_init(save_tree_data *d) {
      d->i = 0;
 
      d->hash = (ulong *) malloc(128 * sizeof(ulong));
+     if (! d->hash) {
+          fprintf(stderr, "ERROR: memory allocation failed\n");
+          return -1;
+     }
+
      d->hash[0] = 5381;
 
      d->t = gaatree_create();
+     if (! d->t) {
+          fprintf(stderr, "ERROR: gaatree_create()\n");
+          return -1;
+     }
+
      gaatree_set_comp(d->t, (int (*)(const void *, const void *)) save_tree_comp);
      gaatree_set_free(d->t, (void (*)(void *)) save_node_free);
 
@@ -76,7 +86,8 @@ void save_tree_free(save_tree_data *d) {
 
      free(d->hash);
 
-     gaatree_free(d->t);
+     if (d->t)
+          gaatree_free(d->t);
 }
 
 
diff --git a/src/xrtm_utility.c b/src/xrtm_utility.c
index 5cd2e13..08f9cea 100644
--- a/src/xrtm_utility.c
+++ b/src/xrtm_utility.c
@@ -60,14 +60,13 @@ uchar *flags_alloc(int n) {
 
      uchar *a;
 
-     a = (uchar *) malloc(sizeof(flags_meta_data) +
-         n * sizeof(uchar)) + sizeof(flags_meta_data);
+     a = (uchar *) malloc(sizeof(flags_meta_data) + n * sizeof(uchar));
      if (a == NULL) {
           fprintf(stderr, "ERROR: memory allocation failed\n");
           return NULL;
      }
 
-     return a;
+     return a + sizeof(flags_meta_data);
 }
 
 
@@ -103,23 +102,27 @@ uchar **flags_alloc2(int m, int n) {
 
      int i;
 
+     uchar *p;
+
      uchar **a;
 
-     a = (uchar **)
-         ((uchar *) malloc(sizeof(flags_meta_data) +
-         m * sizeof(uchar *)) + sizeof(flags_meta_data));
-     if (a == NULL) {
+     p = (uchar *) malloc(sizeof(flags_meta_data) + m * sizeof(uchar *));
+     if (p == NULL) {
           fprintf(stderr, "ERROR: memory allocation failed\n");
           return NULL;
      }
 
-     a[0] = (uchar *) malloc(m * (sizeof(flags_meta_data) +
-            n * sizeof(uchar))) + sizeof(flags_meta_data);
-     if (a[0] == NULL) {
+     a = (uchar **) (p + sizeof(flags_meta_data));
+
+     p = (uchar *) malloc(m * (sizeof(flags_meta_data) + n * sizeof(uchar)));
+     if (p == NULL) {
           fprintf(stderr, "ERROR: memory allocation failed\n");
+          free((uchar *) a - sizeof(flags_meta_data));
           return NULL;
      }
 
+     a[0] = p + sizeof(flags_meta_data);
+
      for (i = 1; i < m; ++i)
           a[i] = a[0] + i * (sizeof(flags_meta_data) + n);
 
@@ -130,6 +133,9 @@ uchar **flags_alloc2(int m, int n) {
 
 void flags_free2(uchar **a) {
 
+     if (! a)
+          return;
+
      free((uchar *) a[0] - sizeof(flags_meta_data));
      free((uchar *) a    - sizeof(flags_meta_data));
 }
diff --git a/src/xrtm_work.c b/src/xrtm_work.c
index 2ce52be..9ae7d0f 100644
--- a/src/xrtm_work.c
+++ b/src/xrtm_work.c
@@ -110,6 +110,9 @@ void work_free(work_data *work) {
 
      w = work->w;
 
+     if (! w)
+          return;
+
      for (i = 0; i < WORK_MAX_PAGES; ++i) {
           if (w->n_bytes[i] > 0)
                free(w->pages[i]);
-- 
2.43.0


From deefe01eab79bf7724da507d55a3894d1a944e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 080/131] fix: memory allocation failures in
 xrtm_update_varied_layers() crash or leak

---
 src/xrtm_adding.c    |  2 +-
 src/xrtm_interface.c |  9 +++++-
 src/xrtm_stacks.c    | 69 ++++++++++++++++++++++++++++----------------
 3 files changed, 53 insertions(+), 27 deletions(-)

diff --git a/src/xrtm_adding.c b/src/xrtm_adding.c
index c99ea4c..c5d8022 100644
--- a/src/xrtm_adding.c
+++ b/src/xrtm_adding.c
@@ -33,7 +33,7 @@ int layer_add_aux_alloc(layer_add_aux_data *d, int n) {
      d->B13 = alloc_array2_d(n, n);
      d->B31 = alloc_array2_d(n, n);
 
-     if (! (d->P13 && d->P31 && d->A13 && d->A31 && d->B13 && d->B31)) {
+     if (! (d->i13 && d->i31 && d->P13 && d->P31 && d->A13 && d->A31 && d->B13 && d->B31)) {
           fprintf(stderr, "ERROR: alloc_array2_d(%d, %d)\n", n, n);
           return -1;
      }
diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index d66d239..5fad341 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -5600,10 +5600,17 @@ int xrtm_update_varied_layers(xrtm_data *d) {
                return XRTM_INT_ERROR;
           }
 
-          n_stacks = build_stack_chain(d->n_layers, d->n_derivs, d->derivs.layers, stack_chain);
+          memset(stack_chain, 0, size * sizeof(stack_data));
+
+          if ((n_stacks = build_stack_chain(d->n_layers, d->n_derivs, d->derivs.layers, stack_chain)) < 0) {
+               fprintf(stderr, "ERROR: build_stack_chain()\n");
+               free_array1((void *) stack_chain);
+               return XRTM_INT_ERROR;
+          }
 
           if (stack_chain_alloc(d->n_four, d->n_quad_v_x, d->n_derivs, d->n_layers, d->n_stacks, d->stack_chain, n_stacks, stack_chain, d->derivs.layers, d->derivs.stacks, d->derivs.adding_down)) {
                fprintf(stderr, "ERROR: stack_chain_alloc()\n");
+               free_array1((void *) stack_chain);
                return XRTM_INT_ERROR;
           }
 
diff --git a/src/xrtm_stacks.c b/src/xrtm_stacks.c
index 5bc9bda..071b17b 100644
--- a/src/xrtm_stacks.c
+++ b/src/xrtm_stacks.c
@@ -332,6 +332,10 @@ int build_stack_chain(int n_layers, int n_derivs, uchar **derivs, stack_data *st
      grid_data **grid;
 
      grid = (grid_data **) alloc_array2(n_layers, n_derivs, sizeof(grid_data));
+     if (! grid) {
+          fprintf(stderr, "ERROR: alloc_array2(%d, %d)\n", n_layers, n_derivs);
+          return -1;
+     }
 
      for (i = 0; i < n_layers; ++i) {
           stacks[i].i1    = i;
@@ -508,9 +512,13 @@ int stack_chain_alloc(int n_four, int n_quad, int n_derivs, int n_layers, int n_
                     if (flags_or(derivs_layers[i], n_derivs)) {
 */
                          stacks[i].R_p_l = ALLOC_ARRAY2(n_four, n_derivs, double **);
+                         memset(stacks[i].R_p_l[0], 0, n_four * n_derivs * sizeof(void *));
                          stacks[i].T_p_l = ALLOC_ARRAY2(n_four, n_derivs, double **);
+                         memset(stacks[i].T_p_l[0], 0, n_four * n_derivs * sizeof(void *));
                          stacks[i].R_m_l = ALLOC_ARRAY2(n_four, n_derivs, double **);
+                         memset(stacks[i].R_m_l[0], 0, n_four * n_derivs * sizeof(void *));
                          stacks[i].T_m_l = ALLOC_ARRAY2(n_four, n_derivs, double **);
+                         memset(stacks[i].T_m_l[0], 0, n_four * n_derivs * sizeof(void *));
 
                          for (j = 0; j < n_four; ++j) {
                               for (k = 0; k < n_derivs; ++k) {
@@ -532,10 +540,14 @@ if (derivs_layers[i][k]) {
                     if (flags_or(derivs_d[i], n_derivs)) {
 */
                          stacks[i].S_p_l = ALLOC_ARRAY2(n_four, n_derivs, double *);
+                         memset(stacks[i].S_p_l[0], 0, n_four * n_derivs * sizeof(void *));
                          stacks[i].S_m_l = ALLOC_ARRAY2(n_four, n_derivs, double *);
+                         memset(stacks[i].S_m_l[0], 0, n_four * n_derivs * sizeof(void *));
 
                          stacks[i].Sl_p_l = ALLOC_ARRAY2(n_four, n_derivs, double *);
+                         memset(stacks[i].Sl_p_l[0], 0, n_four * n_derivs * sizeof(void *));
                          stacks[i].Sl_m_l = ALLOC_ARRAY2(n_four, n_derivs, double *);
+                         memset(stacks[i].Sl_m_l[0], 0, n_four * n_derivs * sizeof(void *));
 
                          for (j = 0; j < n_four; ++j) {
                               for (k = 0; k < n_derivs; ++k) {
@@ -561,10 +573,14 @@ if (derivs_d[i][k]) {
                     if (flags_or(derivs_s2, n_derivs)) {
 */
                          stacks[i].S_p_l = ALLOC_ARRAY2(n_four, n_derivs, double *);
+                         memset(stacks[i].S_p_l[0], 0, n_four * n_derivs * sizeof(void *));
                          stacks[i].S_m_l = ALLOC_ARRAY2(n_four, n_derivs, double *);
+                         memset(stacks[i].S_m_l[0], 0, n_four * n_derivs * sizeof(void *));
 
                          stacks[i].Sl_p_l = ALLOC_ARRAY2(n_four, n_derivs, double *);
+                         memset(stacks[i].Sl_p_l[0], 0, n_four * n_derivs * sizeof(void *));
                          stacks[i].Sl_m_l = ALLOC_ARRAY2(n_four, n_derivs, double *);
+                         memset(stacks[i].Sl_m_l[0], 0, n_four * n_derivs * sizeof(void *));
 
                          for (j = 0; j < n_four; ++j) {
                               for (k = 0; k < n_derivs; ++k) {
@@ -584,11 +600,12 @@ if (derivs_s2[k]) {
                     }
 */
                     stacks[i].d = ALLOC_ARRAY1(n_four, layer_add_aux_data);
+                    memset(stacks[i].d, 0, n_four * sizeof(layer_add_aux_data));
 
                     for (j = 0; j < n_four; ++j) {
                          if (layer_add_aux_alloc(&stacks[i].d[j], n_quad)) {
                               fprintf(stderr, "ERROR: layer_add_aux_alloc()");
-                              return -1;
+                              longjmp(env, -1);
                          }
                     }
                }
@@ -596,8 +613,20 @@ if (derivs_s2[k]) {
      }
 
      }
-     else if (r < 0)
+     else {
+          for (i = 0; i < n_stacks; ++i) {
+               if (stacks0 && (ii = stack_chain_find(n_stacks0, stacks0, stacks[i].i1, stacks[i].i2)) >= 0) {
+                    stacks [i ].allocated = 0;
+                    stacks0[ii].allocated = 1;
+               }
+          }
+
+          stack_chain_free(n_four, n_quad, n_derivs, n_layers, n_stacks, stacks, derivs_layers, derivs_s, derivs_d);
+
+          flags_free(derivs_s2);
+
           return -1;
+     }
 
      flags_free(derivs_s2);
 
@@ -611,8 +640,6 @@ if (derivs_s2[k]) {
  ******************************************************************************/
 int stack_chain_free(int n_four, int n_quad, int n_derivs, int n_layers, int n_stacks, stack_data *stacks, uchar **derivs_layers, uchar **derivs_s, uchar **derivs_d) {
 
-     uchar *derivs_s2;
-
      int i;
      int j;
      int k;
@@ -620,11 +647,6 @@ int stack_chain_free(int n_four, int n_quad, int n_derivs, int n_layers, int n_s
      if (! stacks)
           return 0;
 
-     if (! (derivs_s2 = flags_alloc(n_derivs))) {
-          fprintf(stderr, "ERROR: flags_alloc()");
-          return -1;
-     }
-
      for (i = 0; i < n_stacks; ++i) {
           if (stacks[i].allocated) {
                free_array3_d(stacks[i].R_p);
@@ -647,10 +669,10 @@ int stack_chain_free(int n_four, int n_quad, int n_derivs, int n_layers, int n_s
 /*
 if (derivs_layers[i][k]) {
 */
-                                   free_array2_d(stacks[i].R_p_l[j][k]);
-                                   free_array2_d(stacks[i].T_p_l[j][k]);
-                                   free_array2_d(stacks[i].R_m_l[j][k]);
-                                   free_array2_d(stacks[i].T_m_l[j][k]);
+                                   if (stacks[i].R_p_l) free_array2_d(stacks[i].R_p_l[j][k]);
+                                   if (stacks[i].T_p_l) free_array2_d(stacks[i].T_p_l[j][k]);
+                                   if (stacks[i].R_m_l) free_array2_d(stacks[i].R_m_l[j][k]);
+                                   if (stacks[i].T_m_l) free_array2_d(stacks[i].T_m_l[j][k]);
 /*
 }
 */
@@ -671,13 +693,13 @@ if (derivs_layers[i][k]) {
 /*
 if (derivs_d[i][k]) {
 */
-                                   free_array1_d(stacks[i].S_p_l[j][k]);
-                                   free_array1_d(stacks[i].S_m_l[j][k]);
+                                   if (stacks[i].S_p_l) free_array1_d(stacks[i].S_p_l[j][k]);
+                                   if (stacks[i].S_m_l) free_array1_d(stacks[i].S_m_l[j][k]);
 /*
 }
 */
-                                   free_array1_d(stacks[i].Sl_p_l[j][k]);
-                                   free_array1_d(stacks[i].Sl_m_l[j][k]);
+                                   if (stacks[i].Sl_p_l) free_array1_d(stacks[i].Sl_p_l[j][k]);
+                                   if (stacks[i].Sl_m_l) free_array1_d(stacks[i].Sl_m_l[j][k]);
                               }
                          }
 
@@ -691,7 +713,6 @@ if (derivs_d[i][k]) {
 */
                }
                else {
-                    derivs_merge_s(n_derivs, derivs_s[stacks[i].i1], derivs_s[stacks[i].i2], derivs_s2);
 /*
                     if (flags_or(derivs_s2, n_derivs)) {
 */
@@ -700,13 +721,13 @@ if (derivs_d[i][k]) {
 /*
 if (derivs_s2[k]) {
 */
-                                   free_array1_d(stacks[i].S_p_l[j][k]);
-                                   free_array1_d(stacks[i].S_m_l[j][k]);
+                                   if (stacks[i].S_p_l) free_array1_d(stacks[i].S_p_l[j][k]);
+                                   if (stacks[i].S_m_l) free_array1_d(stacks[i].S_m_l[j][k]);
 /*
 }
 */
-                                   free_array1_d(stacks[i].Sl_p_l[j][k]);
-                                   free_array1_d(stacks[i].Sl_m_l[j][k]);
+                                   if (stacks[i].Sl_p_l) free_array1_d(stacks[i].Sl_p_l[j][k]);
+                                   if (stacks[i].Sl_m_l) free_array1_d(stacks[i].Sl_m_l[j][k]);
                               }
                          }
 
@@ -718,7 +739,7 @@ if (derivs_s2[k]) {
 /*
                     }
 */
-                    for (j = 0; j < n_four; ++j)
+                    for (j = 0; j < n_four && stacks[i].d; ++j)
                          layer_add_aux_free(&stacks[i].d[j]);
 
                     free_array1(stacks[i].d);
@@ -726,8 +747,6 @@ if (derivs_s2[k]) {
           }
      }
 
-     flags_free(derivs_s2);
-
      return 0;
 }
 
-- 
2.43.0


From c24f0dc3a310dbbdcba9ba16fed79ec4331d78d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:40 +0000
Subject: [PATCH 081/131] fix: memory allocation failure in
 check_for_duplicates() crashes

---
 src/xrtm_stacks.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/xrtm_stacks.c b/src/xrtm_stacks.c
index 071b17b..1050c7b 100644
--- a/src/xrtm_stacks.c
+++ b/src/xrtm_stacks.c
@@ -284,6 +284,10 @@ static int check_for_duplicates(stack_data *stacks, int n_stacks, int n_layers)
      uchar **grid;
 
      grid = alloc_array2_uc(n_layers, n_layers);
+     if (! grid) {
+          fprintf(stderr, "ERROR: alloc_array2_uc(%d, %d)\n", n_layers, n_layers);
+          return -1;
+     }
 
      init_array2_uc(grid, n_layers, n_layers, 0);
 
@@ -417,7 +421,10 @@ int build_stack_chain(int n_layers, int n_derivs, uchar **derivs, stack_data *st
 
      free_array2((void **) grid);
 
-     check_for_duplicates(stacks, n_stacks, n_layers);
+     if (check_for_duplicates(stacks, n_stacks, n_layers) < 0) {
+          fprintf(stderr, "ERROR: check_for_duplicates()\n");
+          return -1;
+     }
 /*
      print_stacks(stacks, n_stacks);
      printf("\n");
-- 
2.43.0


From 7b81c5b4e492575dd8dca9898c0194abe90dd524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:43 +0000
Subject: [PATCH 082/131] fix: delta-M scaling of derivatives uses phase
 function coefficients that were never set

---
 src/xrtm_interface.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 5fad341..1c6ee95 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -4124,6 +4124,7 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
      int ii;
      int j;
      int k;
+     int l;
 
      int deps;
 
@@ -4171,6 +4172,13 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
                for (k = 0; k < d->n_coef_layer[i]; ++k) {
                     d->coef0[i][j][k] = coef[ii][j][k];
                }
+
+               for ( ; k < d->n_coef; ++k) {
+                    d->coef0[i][j][k] = 0.;
+
+                    for (l = 0; d->options & XRTM_OPTION_CALC_DERIVS && l < d->n_derivs; ++l)
+                         d->coef0_l[i][l][j][k] = 0.;
+               }
           }
 
           if (d->inputs_initialized)
-- 
2.43.0


From 7108607e37a5ff55008d8bcb7ee82b566cc4b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:37 +0000
Subject: [PATCH 083/131] fix: two-stream derivatives use derivatives of phase
 function coefficients beyond those of the layer

---
 src/xrtm_interface.c |  7 +------
 src/xrtm_model.c     | 27 ++++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 1c6ee95..412b768 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -4124,7 +4124,6 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
      int ii;
      int j;
      int k;
-     int l;
 
      int deps;
 
@@ -4173,12 +4172,8 @@ static int xrtm_set_coef_x(xrtm_data *d, double ***coef,
                     d->coef0[i][j][k] = coef[ii][j][k];
                }
 
-               for ( ; k < d->n_coef; ++k) {
+               for ( ; k < d->n_coef; ++k)
                     d->coef0[i][j][k] = 0.;
-
-                    for (l = 0; d->options & XRTM_OPTION_CALC_DERIVS && l < d->n_derivs; ++l)
-                         d->coef0_l[i][l][j][k] = 0.;
-               }
           }
 
           if (d->inputs_initialized)
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 3b0f7b3..5e57198 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5066,6 +5066,31 @@ static double ***get_stream_coefs(xrtm_data *d, int n, work_data *work) {
 
 
 
+static double ****get_stream_coefs_l(xrtm_data *d, int n, work_data *work) {
+
+     int i;
+     int j;
+     int k;
+
+     double ****coef_l;
+
+     if (! (d->options & XRTM_OPTION_CALC_DERIVS))
+          return NULL;
+
+     coef_l = get_work_d4(work, d->n_layers, d->n_derivs, 1, n);
+
+     for (i = 0; i < d->n_layers; ++i) {
+          for (j = 0; j < d->n_derivs; ++j) {
+               for (k = 0; k < n; ++k)
+                    coef_l[i][j][0][k] = k < d->n_coef_layer2[i] ? d->coef_l[i][j][0][k] : 0.;
+          }
+     }
+
+     return coef_l;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -5389,7 +5414,7 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
                          d->qx[0], d->F_0, d->mu_0,
                          d->n_ulevels, d->ulevels, d->utaus2,
                          d->n_umus, d->umus,
-                         get_stream_coefs(d, 2, &work), d->coef_l, d->omega, d->omega_l, d->ltau, d->ltau_l,
+                         get_stream_coefs(d, 2, &work), get_stream_coefs_l(d, 2, &work), d->omega, d->omega_l, d->ltau, d->ltau_l,
                          d->btran, d->btran_l,
                          d->as_0, d->as_0_l, d->atran, d->atran_l,
                          Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
-- 
2.43.0


From 94c8ae2ee30cf3793e033ccfae2f47daa8a6a696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:25 +0000
Subject: [PATCH 084/131] fix: scattering file header writers opened their file
 for reading

---
 misc/rtutil_scat_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 414280d..797c037 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -229,7 +229,7 @@ int scat_header_write_fn(const char *filename, scat_header_data *h) {
 
      FILE *fp;
 
-     if ((fp = fopen(filename, "r")) == NULL) {
+     if ((fp = fopen(filename, "w")) == NULL) {
           fprintf(stderr, "ERROR: Problem opening file for writing: %s ... %s\n",
                   filename, strerror(errno));
           return -1;
@@ -400,7 +400,7 @@ int scat_header_write_bin_fn(const char *filename, scat_header_data *h) {
 
      FILE *fp;
 
-     if ((fp = fopen(filename, "r")) == NULL) {
+     if ((fp = fopen(filename, "w")) == NULL) {
           fprintf(stderr, "ERROR: Problem opening file for writing: %s ... %s\n",
                   filename, strerror(errno));
           return -1;
-- 
2.43.0


From 11f861200ebec16b83e8fe1a2ebcf26d4f879730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:27 +0000
Subject: [PATCH 085/131] fix: scattering file functions left files open after
 errors and missed write errors at close

---
 misc/rtutil_scat_io.c | 56 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 797c037..ee0dc9a 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -142,6 +142,7 @@ int scat_header_read_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_read_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_read_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -237,10 +238,15 @@ int scat_header_write_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_write_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_write_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing to file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
@@ -331,6 +337,7 @@ int scat_header_read_bin_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_read_bin_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_read_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -408,10 +415,15 @@ int scat_header_write_bin_fn(const char *filename, scat_header_data *h) {
 
      if (scat_header_write_bin_fp(fp, h)) {
           fprintf(stderr, "ERROR: scat_header_write_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing to file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
@@ -537,6 +549,7 @@ int phase_func_read_fn(const char *filename, scat_header_data *h,
 
      if ((n_angles = phase_func_read_fp(fp, h, theta, phase, allsix)) < 0) {
           fprintf(stderr, "ERROR: phase_func_read_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -623,10 +636,15 @@ int phase_func_write_fn(const char *filename, scat_header_data *h,
 
      if (phase_func_write_fp(fp, h, theta, phase, n_angles, allsix) < 0) {
           fprintf(stderr, "ERROR: phase_func_write_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing to file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
@@ -716,6 +734,7 @@ int scat_coefs_read_fn(const char *filename, int n_coef,
 
      if ((n_total = scat_coefs_read_fp(fp, n_coef, h, coefs, allsix)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_read_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -810,10 +829,15 @@ int scat_coefs_write_fn(const char *filename, int n_coef2,
 
      if ((ret_val = scat_coefs_write_fp(fp, n_coef2, h, coefs, allsix)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_write_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing to file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return ret_val;
 }
@@ -910,6 +934,7 @@ int scat_coefs_read_bin_fn(const char *filename, int n_coef,
 
      if ((n_total = scat_coefs_read_bin_fp(fp, n_coef, h, coefs, size, n_elem)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_read_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1029,10 +1054,15 @@ int scat_coefs_write_bin_fn(const char *filename, int n_coef2,
 
      if ((ret_val = scat_coefs_write_bin_fp(fp, n_coef2, h, coefs, size, n_elem)) < 0) {
           fprintf(stderr, "ERROR: scat_coefs_write_bin_fp(): %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing to file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return ret_val;
 }
@@ -1297,6 +1327,7 @@ int scat_total_read_fn(const char *filename, scat_header_data *h, int *n_quad,
      if (scat_total_read_fp(fp, h, n_quad, n_four, quad_type, cextx, cexty,
                             cscatx, cscaty, cbackx, cbacky, gx, gy)) {
           fprintf(stderr, "ERROR: scat_total_read_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1385,10 +1416,15 @@ int scat_total_write_fn(const char *filename, scat_header_data *h, int n_quad,
      if (scat_total_write_fp(fp, h, n_quad, n_four, quad_type, cextx, cexty,
                              cscatx, cscaty, cbackx, cbacky, gx, gy)) {
           fprintf(stderr, "ERROR: scat_total_write_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing to file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
@@ -1452,6 +1488,7 @@ int phase_mats_read_fn(const char *filename, scat_header_data *h, int *n_quad,
 
      if (phase_mats_read_fp(fp, h, n_quad, n_four, quad_type, P, Kext, Kemi)) {
           fprintf(stderr, "ERROR: phase_mats_read_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
@@ -1629,10 +1666,15 @@ int phase_mats_write_fn(const char *filename, scat_header_data *h, int n_quad,
 
      if (phase_mats_write_fp(fp, h, n_quad, n_four, quad_type, qx, P, Kext, Kemi)) {
           fprintf(stderr, "ERROR: phase_mats_write_fp(), %s\n", filename);
+          fclose(fp);
           return -1;
      }
 
-     fclose(fp);
+     if (fclose(fp)) {
+          fprintf(stderr, "ERROR: Problem writing to file: %s ... %s\n",
+                  filename, strerror(errno));
+          return -1;
+     }
 
      return 0;
 }
-- 
2.43.0


From c926522874125ca9210bb3b28d132f2b399e49c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:28 +0000
Subject: [PATCH 086/131] fix: counts and types in scattering files were not
 checked and phase function arrays not freed on errors

---
 misc/rtutil_scat_io.c | 53 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index ee0dc9a..93bd2d8 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -7,6 +7,8 @@
 **
 *******************************************************************************/
 
+#include <ctype.h>
+
 #include <gutil.h>
 
 #include "rtutil_scat_io.h"
@@ -16,6 +18,30 @@
 #define USE_NEW_FORMAT
 */
 
+/*******************************************************************************
+ * Read an integer, which must be a complete word and not less than min.
+ ******************************************************************************/
+static int read_int(FILE *fp, int min, int *value) {
+
+     int c;
+
+     if (fscanf(fp, "%d", value) < 1)
+          return -1;
+
+     if ((c = fgetc(fp)) != EOF) {
+          ungetc(c, fp);
+          if (! isspace(c))
+               return -1;
+     }
+
+     if (*value < min)
+          return -1;
+
+     return 0;
+}
+
+
+
 /*******************************************************************************
  * Phase function (pf1)
  * 	F11
@@ -157,6 +183,8 @@ int scat_header_read_fp(FILE *fp, scat_header_data *h) {
 
      char *name;
 
+     int i;
+
      int length = 15 + 20 + 1;
 
      char format[length];
@@ -170,9 +198,11 @@ int scat_header_read_fp(FILE *fp, scat_header_data *h) {
      max_length = size_dist_name_max_length();
      snprintf(format, length, "dist_type = %%%ds\n", max_length);
      name = (char *) malloc(max_length + 1);
-     if (fscanf(fp, format,  name)                      < 1) goto L1;
-     h->dist_type = size_dist_code(name);
+     if (fscanf(fp, format,  name)                      < 1) { free(name); goto L1; }
+     i = (int) size_dist_code(name);
      free(name);
+     if (i < 0) goto L1;
+     h->dist_type = (enum size_dist_type) i;
 
      if (fscanf(fp, "a1        = %lf\n", &h->a1)        < 1) goto L1;
      if (fscanf(fp, "a2        = %lf\n", &h->a2)        < 1) goto L1;
@@ -350,10 +380,14 @@ int scat_header_read_bin_fn(const char *filename, scat_header_data *h) {
 
 int scat_header_read_bin_fp(FILE *fp, scat_header_data *h) {
 
+     int i;
+
      if (fread(&h->lambda,    sizeof(double), 1, fp) < 1) goto L1;
      if (fread(&h->mr,        sizeof(double), 1, fp) < 1) goto L1;
      if (fread(&h->mi,        sizeof(double), 1, fp) < 1) goto L1;
-     if (fread(&h->dist_type, sizeof(int),    1, fp) < 1) goto L1;
+     if (fread(&i,            sizeof(int),    1, fp) < 1) goto L1;
+     if (i < 0 || i >= N_SIZE_DIST_TYPES) goto L1;
+     h->dist_type = (enum size_dist_type) i;
      if (fread(&h->a1,        sizeof(double), 1, fp) < 1) goto L1;
      if (fread(&h->a2,        sizeof(double), 1, fp) < 1) goto L1;
      if (fread(&h->a3,        sizeof(double), 1, fp) < 1) goto L1;
@@ -567,9 +601,9 @@ int phase_func_read_fp(FILE *fp, scat_header_data *h,
 
      int n_angles;
 
-     double *theta;
+     double *theta  = NULL;
 
-     double **phase;
+     double **phase = NULL;
 
      if (! h) {
           if (scat_header_skip(fp)) {
@@ -584,10 +618,10 @@ int phase_func_read_fp(FILE *fp, scat_header_data *h,
           }
      }
 
-     if (fscanf(fp, "%d", &n_angles) < 1) goto L1;
+     if (read_int(fp, 1, &n_angles)) goto L1;
 
-     theta = alloc_array1_d(n_angles);
-     phase = alloc_array2_d(6, n_angles);
+     if ((theta = alloc_array1_d(n_angles))    == NULL) goto L1;
+     if ((phase = alloc_array2_d(6, n_angles)) == NULL) goto L1;
 
      for (i = 0; i < n_angles; ++i) {
           if (fscanf(fp, "%lf", &theta[i]) < 1) goto L1;
@@ -618,6 +652,9 @@ L1:  if (errno == 0)
      else
           fprintf(stderr, "ERROR: Problem reading phase function from file: %s\n", strerror(errno));
 
+     if (theta) free_array1_d(theta);
+     if (phase) free_array2_d(phase);
+
      return -1;
 }
 
-- 
2.43.0


From 19cd548572b463d5284a05611def2815a57a76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:30 +0000
Subject: [PATCH 087/131] fix: one column coefficient files could not be read
 and arrays were not freed on errors

---
 misc/rtutil_scat_io.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 93bd2d8..4536f97 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -794,7 +794,11 @@ int scat_coefs_read_fp(FILE *fp, int n_coef,
      int n_coef2;
      int n_total;
 
-     double **coefs;
+     int c;
+
+     double skip;
+
+     double **coefs = NULL;
 
      n_elem = allsix ? 6 : 1;
 
@@ -820,21 +824,29 @@ int scat_coefs_read_fp(FILE *fp, int n_coef,
           return -1;
      }
 
-     if (fscanf(fp, "%d", &n_coef2) < 1) goto L1;
+     if (read_int(fp, 1, &n_coef2)) goto L1;
 
      if (n_coef <= 0)
           n_total = n_coef2;
      else
           n_total = MIN(n_coef2, n_coef);
 
-     coefs = alloc_array2_d(n_elem, n_total);
+     if ((coefs = alloc_array2_d(n_elem, n_total)) == NULL) goto L1;
 
      for (i = 0; i < n_total; ++i) {
           for (j = 0; j < n_elem; ++j)
                if (fscanf(fp, "%lf", &coefs[j][i]) < 1) goto L1;
 
+          /* files of only the first element have one value per line */
+          if (i == 0 && n_elem == 1) {
+               while ((c = fgetc(fp)) == ' ' || c == '\t' || c == '\r') ;
+               if (c == '\n' || c == EOF)
+                    n_elem2 = 1;
+               ungetc(c, fp);
+          }
+
           for (     ; j < n_elem2; ++j)
-               if (fscanf(fp, "%*s"              ) < 0) goto L1;
+               if (fscanf(fp, "%lf", &skip) < 1) goto L1;
      }
 
      *coefs_ = coefs;
@@ -846,6 +858,8 @@ L1:  if (errno == 0)
      else
           fprintf(stderr, "ERROR: Problem reading phase coefficients from file: %s\n", strerror(errno));
 
+     if (coefs) free_array2_d(coefs);
+
      return -1;
 }
 
-- 
2.43.0


From e14f62ee5213dad56cbd253e80dad8e015b15d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:32 +0000
Subject: [PATCH 088/131] fix: binary coefficient files: partial rows, sizes
 and cut ends were accepted or read wrong

---
 misc/rtutil_scat_io.c | 54 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 4536f97..4c6da76 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1009,7 +1009,10 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
      int n_coef2;
      int n_total;
 
-     void **coefs;
+     char skip[sizeof(double)];
+
+     void **coefs  = NULL;
+     void **coefs2;
 
      if (! h) {
           if (scat_header_skip_bin(fp)) {
@@ -1026,6 +1029,11 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
 
      if (fread(&size2,   sizeof(int), 1, fp) < 1) goto L1;
 
+     if (size2 != sizeof(float) && size2 != sizeof(double)) {
+          fprintf(stderr, "ERROR: invalid size of values in file: %d\n", size2);
+          return -1;
+     }
+
      if (fread(&n_elem2, sizeof(int), 1, fp) < 1) goto L1;
 
      if (n_elem2 < n_elem)  {
@@ -1035,6 +1043,11 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
 
      if (fread(&n_coef2, sizeof(int), 1, fp) < 1) goto L1;
 
+     if (n_coef2 < 1) {
+          fprintf(stderr, "ERROR: invalid n_coef in file: %d\n", n_coef2);
+          return -1;
+     }
+
      if (n_coef <= 0)
           n_total = n_coef2;
      else
@@ -1045,34 +1058,43 @@ int scat_coefs_read_bin_fp(FILE *fp, int n_coef,
      else
           coefs = (void **) alloc_array2_d(n_elem, n_total);
 
-     for (i = 0; i < n_elem; ++i)
-          if (fread(coefs[i], size2, n_total, fp) < (size_t) n_total) goto L1;
+     if (coefs == NULL) goto L1;
+
+     for (i = 0; i < n_elem2; ++i) {
+          if (i < n_elem)
+               if (fread(coefs[i], size2, n_total, fp) < (size_t) n_total) goto L1;
 
-     for (     ; i < n_elem2; ++i)
-          if (fseek(fp, size2 * n_total, SEEK_CUR) != 0             )  goto L1;
+          /* values that are not wanted, which must be there nevertheless */
+          for (j = i < n_elem ? n_total : 0; j < n_coef2; ++j)
+               if (fread(skip, size2, 1, fp) < 1) goto L1;
+     }
 
      if (size != size2) {
           if (size == 4) {
-               *coefs_ = (void **) alloc_array2_f(n_elem2, n_total);
+               if ((coefs2 = (void **) alloc_array2_f(n_elem, n_total)) == NULL) goto L1;
 
                for (i = 0; i < n_elem; ++i) {
                     for (j = 0; j < n_total; ++j) {
-                         ((float **) (*coefs_))[i][j] = (float) ((double **) coefs)[i][j];
+                         ((float **) coefs2)[i][j] = (float) ((double **) coefs)[i][j];
                     }
                }
 
                free_array2_d((double **) coefs);
+
+               *coefs_ = coefs2;
           }
           else {
-               *coefs_ = (void **) alloc_array2_d(n_elem2, n_total);
+               if ((coefs2 = (void **) alloc_array2_d(n_elem, n_total)) == NULL) goto L1;
 
                for (i = 0; i < n_elem; ++i) {
                     for (j = 0; j < n_total; ++j) {
-                         ((double **) (*coefs_))[i][j] = (double) ((float **) coefs)[i][j];
+                         ((double **) coefs2)[i][j] = (double) ((float **) coefs)[i][j];
                     }
                }
 
                free_array2_f((float **) coefs);
+
+               *coefs_ = coefs2;
           }
      }
      else
@@ -1085,6 +1107,13 @@ L1:  if (errno == 0)
      else
           fprintf(stderr, "ERROR: Problem reading phase coefficients from file: %s\n", strerror(errno));
 
+     if (coefs) {
+          if (size2 == sizeof(float))
+               free_array2_f((float **) coefs);
+          else
+               free_array2_d((double **) coefs);
+     }
+
      return -1;
 }
 
@@ -1126,7 +1155,7 @@ int scat_coefs_write_bin_fp(FILE *fp, int n_coef2,
      int i;
      int j;
 
-     void **coefs2;
+     void **coefs2 = NULL;
 
      if (! h) {
           if (scat_header_blank_bin(fp)) {
@@ -1148,7 +1177,7 @@ int scat_coefs_write_bin_fp(FILE *fp, int n_coef2,
      if (fwrite(&n_coef2, sizeof(int), 1, fp) < 1) goto L1;
 
      if (size == 4) {
-          coefs2 = (void **) alloc_array2_f(n_elem, n_coef2);
+          if ((coefs2 = (void **) alloc_array2_f(n_elem, n_coef2)) == NULL) goto L1;
 
           for (i = 0; i < n_elem; ++i) {
                for (j = 0; j < n_coef2; ++j) {
@@ -1172,6 +1201,9 @@ L1:  if (errno == 0)
      else
           fprintf(stderr, "ERROR: Problem writing phase coefficients to file: %s\n", strerror(errno));
 
+     if (size == 4 && coefs2)
+          free_array2_f((float **) coefs2);
+
      return -1;
 }
 
-- 
2.43.0


From 254dd5f2460f7dee2aef400fd49f39a217f9cfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:33 +0000
Subject: [PATCH 089/131] fix: totals and phase matrices: dimensions, long
 names, short rows, titles and leaks

---
 misc/rtutil_scat_io.c | 128 ++++++++++++++++++++++++++++--------------
 1 file changed, 86 insertions(+), 42 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index 4c6da76..a83b6aa 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1391,6 +1391,34 @@ void scat_coefs_ray_l(double rho, double rho_l, double **coefs) {
 
 
 
+/*******************************************************************************
+ *
+ ******************************************************************************/
+static int read_dimens(FILE *fp, int *n_quad, int *n_four, int *quad_type) {
+
+     char quad_name[33];
+
+     int i_four;
+
+     if (read_int(fp, 1, n_quad) || read_int(fp, 0, &i_four))
+          return -1;
+
+     if (*n_quad > INT_MAX / 2 || i_four == INT_MAX)
+          return -1;
+
+     *n_four = i_four + 1;
+
+     if (fscanf(fp, "%32s", quad_name) < 1)
+          return -1;
+
+     if ((*quad_type = (int) quadrature_code(quad_name)) < 0)
+          return -1;
+
+     return 0;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -1428,12 +1456,8 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
 
      int i;
 
-     char *quad_name;
-
      int line;
 
-     int i_four;
-
      line = 1;
 
      if (! h) {
@@ -1449,28 +1473,17 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           }
      }
 
-     quad_name = (char *) malloc(size_dist_name_max_length());
-
-     if (fscanf(fp, "%d%d%s%*[\n]", n_quad, &i_four, quad_name) < 3) {
+     if (read_dimens(fp, n_quad, n_four, quad_type)) {
           fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
           return -1;
      }
 
-     *n_four = i_four + 1;
-
-     if ((*quad_type = quadrature_code(quad_name)) < 0) {
-          fprintf(stderr, "ERROR: quadrature_code(), line %d\n", line);
-          return -1;
-     }
-
-     free(quad_name);
-
      line++;
 
      for (i = 0; i < 2 * *n_quad; ++i) {
            if (fscanf(fp, "%lf%lf%lf%lf%lf%lf%lf%lf",
                       &cextx[i], &cexty[i], &cscatx[i], &cscaty[i],
-                      &cbackx[i], &cbacky[i], &gx[i], &gy[i]) < 6) {
+                      &cbackx[i], &cbacky[i], &gx[i], &gy[i]) < 8) {
                 fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
                 return -1;
            }
@@ -1582,12 +1595,24 @@ int phase_mats_read_fn(const char *filename, scat_header_data *h, int *n_quad,
 
 
 
+static int pass_title(FILE *fp) {
+
+     int c;
+
+     while (isspace(c = fgetc(fp))) ;
+
+     if (c != 'C')
+          return -1;
+
+     return gpass_newline(fp);
+}
+
+
+
 int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                        int *n_four, int *quad_type, double ******P_,
                        double ****Kext_, double ***Kemi_) {
 
-     char *quad_name;
-
      int i;
      int j;
      int k;
@@ -1602,9 +1627,9 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
      double mu1;
      double mu2;
 
-     double *****P;
-     double ***Kext;
-     double **Kemi;
+     double *****P  = NULL;
+     double ***Kext = NULL;
+     double **Kemi  = NULL;
 
      line = 1;
 /*
@@ -1637,44 +1662,47 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           }
      }
 
-     quad_name = (char *) malloc(size_dist_name_max_length());
-
-     if (fscanf(fp, "%d%d%s%*[\n]", n_quad, &i_four, quad_name) < 3) {
+     if (read_dimens(fp, n_quad, n_four, quad_type)) {
           fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
           return -1;
      }
 
-     *n_four = i_four + 1;
+     line++;
 
-     if ((*quad_type = quadrature_code(quad_name)) < 0) {
-          fprintf(stderr, "ERROR: quadrature_code(), line %d\n", line);
+     if ((double) *n_four * *n_quad * *n_quad > LONG_MAX / 1024.) {
+          fprintf(stderr, "ERROR: invalid dimensions, line %d\n", line);
           return -1;
      }
 
-     free(quad_name);
-
-     line++;
-
      P    = alloc_array5_d(*n_four, 2 * *n_quad, 2 * *n_quad, 4, 4);
      Kext = alloc_array3_d(         2 * *n_quad, 4, 4);
      Kemi = alloc_array2_d(         2 * *n_quad, 4);
 
-     gpass_newline(fp);
+     if (P == NULL || Kext == NULL || Kemi == NULL) {
+          fprintf(stderr, "ERROR: memory allocation failed\n");
+          goto L1;
+     }
+
+     if (pass_title(fp)) {
+          fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
+          goto L1;
+     }
+
      line++;
 
      for (k = 0; k < 2 * *n_quad; ++k) {
           for (j = 0; j < 2 * *n_quad; ++j) {
                for (i = 0; i < *n_four; ++i) {
-                    if (fscanf(fp, "%lf%lf%d", &mu1, &mu2, &i_four) < 3) {
+                    if (fscanf(fp, "%lf%lf", &mu1, &mu2) < 2 || read_int(fp, 0, &i_four)) {
                          fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-                         return -1;
+                         goto L1;
                     }
 
                     line++;
 
                     if (i_four != i) {
                          fprintf(stderr, "ERROR: invalid fourier order encountered\n");
-                         return -1;
+                         goto L1;
                     }
 
                     for (l = 0; l < 4; ++l) {
@@ -1682,7 +1710,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                                     &P[i][j][k][l][0], &P[i][j][k][l][1],
                                     &P[i][j][k][l][2], &P[i][j][k][l][3]) < 4) {
                               fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-                              return -1;
+                              goto L1;
                          }
 
                          line++;
@@ -1691,12 +1719,17 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           }
      }
 
-     gpass_newline(fp);
+     if (pass_title(fp)) {
+          fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
+          goto L1;
+     }
+
+     line++;
 
      for (i = 0; i < 2 * *n_quad; ++i) {
           if (fscanf(fp, "%lf", &mu1) < 1) {
                fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-               return -1;
+               goto L1;
           }
 
           line++;
@@ -1706,21 +1739,26 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
                           &Kext[i][j][0], &Kext[i][j][1],
                           &Kext[i][j][2], &Kext[i][j][3]) < 4) {
                     fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-                    return -1;
+                    goto L1;
                }
 
                line++;
           }
      }
 
-     gpass_newline(fp);
+     if (pass_title(fp)) {
+          fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
+          goto L1;
+     }
+
+     line++;
 
      for (i = 0; i < 2 * *n_quad; ++i) {
           if (fscanf(fp, "%lf%lf%lf%lf%lf\n", &mu1,
                      &Kemi[i][0], &Kemi[i][1],
                      &Kemi[i][2], &Kemi[i][3]) < 5) {
                fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
-               return -1;
+               goto L1;
           }
 
           line++;
@@ -1731,6 +1769,12 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
      *Kemi_ = Kemi;
 
      return 0;
+
+L1:  if (P)    free_array5_d(P);
+     if (Kext) free_array3_d(Kext);
+     if (Kemi) free_array2_d(Kemi);
+
+     return -1;
 }
 
 
-- 
2.43.0


From b3a1de17e71fb4145a1889a3caa42a88cedc78a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:35 +0000
Subject: [PATCH 090/131] fix: load_scat_coefs(): normalisation, files with one
 element read as six, leaks and empty inputs

---
 misc/rtutil_scat_io.c | 67 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 11 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index a83b6aa..a4235aa 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -1955,20 +1955,29 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      double f_l;
      double rho_l;
 
-     double **coefs;
+     double norm;
+
+     double **coefs = NULL;
+     double **coefs2;
 
      temp = strdup(filename);
 
      token = strtok_r(temp, ":", &lasts);
 
+     if (token == NULL) {
+          fprintf(stderr, "ERROR: empty phase input\n");
+          goto L1;
+     }
+
      if (is_user_defined_n_coef(token)) {
           if (n_coef <= 0) {
                fprintf(stderr, "ERROR: must specifiy the number of phase function "
                       "coefficients for the %s phase function()\n", token);
-               return -1;
+               goto L1;
           }
 
-          coefs = alloc_array2_d(6, n_coef);
+          if ((coefs = alloc_array2_d(6, n_coef)) == NULL)
+               goto L1;
           init_array2_d(coefs, 6, n_coef, 0.);
      }
 
@@ -2087,9 +2096,25 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      else if (strcmp(token, "gc") == 0 || strcmp(token, "gc6") == 0) {
           token2 = strtok_r(NULL, ":", &lasts);
 
+          if (token2 == NULL) {
+               fprintf(stderr, "ERROR: no file given for phase input type: %s\n", token);
+               goto L1;
+          }
+
           if ((n_coef2 = scat_coefs_read_fn(token2, n_coef, NULL, &coefs, token[2] == '6'))  < 0) {
                fprintf(stderr, "ERROR: scat_coefs_read_fn()\n");
-               return -1;
+               goto L1;
+          }
+
+          if (token[2] != '6') {
+               /* the other elements are zero */
+               if ((coefs2 = alloc_array2_d(6, n_coef2)) == NULL)
+                    goto L1;
+               init_array2_d(coefs2, 6, n_coef2, 0.);
+               for (j = 0; j < n_coef2; ++j)
+                    coefs2[0][j] = coefs[0][j];
+               free_array2_d(coefs);
+               coefs = coefs2;
           }
 
           *flag = SCAT_COEF_GC;
@@ -2097,9 +2122,25 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      else if (strcmp(token, "lc") == 0 || strcmp(token, "lc6") == 0) {
           token2 = strtok_r(NULL, ":", &lasts);
 
+          if (token2 == NULL) {
+               fprintf(stderr, "ERROR: no file given for phase input type: %s\n", token);
+               goto L1;
+          }
+
           if ((n_coef2 = scat_coefs_read_fn(token2, n_coef, NULL, &coefs, token[2] == '6'))  < 0) {
                fprintf(stderr, "ERROR: scat_coefs_read_fn()\n");
-               return -1;
+               goto L1;
+          }
+
+          if (token[2] != '6') {
+               /* the other elements are zero */
+               if ((coefs2 = alloc_array2_d(6, n_coef2)) == NULL)
+                    goto L1;
+               init_array2_d(coefs2, 6, n_coef2, 0.);
+               for (j = 0; j < n_coef2; ++j)
+                    coefs2[0][j] = coefs[0][j];
+               free_array2_d(coefs);
+               coefs = coefs2;
           }
 
           *flag = SCAT_COEF_LC;
@@ -2112,7 +2153,7 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
           *flag = SCAT_COEF_NONE;
      }
      else if (strcmp(token, "ray") == 0) {
-          token2 = strtok_r(NULL, ":", &lasts);
+          token2 = strtok_r(NULL, "", &lasts);
 
           if (strtod_errmsg(token2, "ray depolarization factor rho", &rho)) {
                fprintf(stderr, "ERROR: strtod_errmsg()\n");
@@ -2154,13 +2195,15 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
      }
      else {
           fprintf(stderr, "ERROR: invalid phase input type: %s\n", token);
-          return -1;
+          goto L1;
      }
 
-     if (coefs[0][0] != 0. && coefs[0][0] != 1.) {
+     norm = coefs[0][0];
+
+     if (norm != 0. && norm != 1.) {
           for (i = 0; i < 6; ++i) {
                for (j = 0; j < n_coef2; ++j) {
-                    coefs[i][j] /= coefs[0][0];
+                    coefs[i][j] /= norm;
                }
           }
      }
@@ -2171,7 +2214,9 @@ int load_scat_coefs(const char *filename, int n_coef, double ***coefs_, int *fla
 
      return n_coef2;
 
-L1:  free_array2_d(coefs);
+L1:  if (coefs) free_array2_d(coefs);
+
+     free(temp);
 
      return -1;
 }
@@ -2189,7 +2234,7 @@ int load_scat_coefs2(const char *filename, int n_coef, int n_coef2, double ***co
 
      token = strtok_r(temp, ":", &lasts);
 
-     if (! is_user_defined_n_coef(token))
+     if (token && ! is_user_defined_n_coef(token))
           n_coef = n_coef2;
 
      free(temp);
-- 
2.43.0


From 1f80d67704d92d6d1f9f10a1f033599090721a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:36 +0000
Subject: [PATCH 091/131] fix: strto*_errmsg() accepted empty strings and
 integers out of range

---
 misc/gutil_error.c | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/misc/gutil_error.c b/misc/gutil_error.c
index 6fa982a..877620c 100644
--- a/misc/gutil_error.c
+++ b/misc/gutil_error.c
@@ -28,6 +28,8 @@ void check_arg_count(int i, int argc, int n, const char *s) {
  ******************************************************************************/
 int strtoi_errmsg(const char *string, const char *name, int *value) {
 
+     long value2;
+
      char *endptr;
 
      errno = 0;
@@ -37,15 +39,15 @@ int strtoi_errmsg(const char *string, const char *name, int *value) {
           return -1;
      }
 
-     if (string == NULL) {
+     if (*string == '\0') {
           fprintf(stderr, "ERROR: invalid value for %s: empty string\n", name);
           return -1;
      }
 
-     *value = strtol(string, &endptr, 0);
+     value2 = strtol(string, &endptr, 0);
 
-     if (errno == ERANGE) {
-          if (*value == INT_MIN) {
+     if (errno == ERANGE || value2 < INT_MIN || value2 > INT_MAX) {
+          if (value2 < 0) {
                fprintf(stderr, "ERROR: invalid value for %s, too small: %s\n", name, string);
                return -1;
           }
@@ -65,6 +67,8 @@ int strtoi_errmsg(const char *string, const char *name, int *value) {
           return -1;
      }
 */
+     *value = (int) value2;
+
      return 0;
 }
 
@@ -90,12 +94,12 @@ long strtol_errmsg(const char *string, const char *name, long *value) {
 
      if (string == NULL) {
           fprintf(stderr, "ERROR: invalid value for %s: NULL\n", name);
-          exit(1);
+          return -1;
      }
 
-     if (string == NULL) {
+     if (*string == '\0') {
           fprintf(stderr, "ERROR: invalid value for %s: empty string\n", name);
-          exit(1);
+          return -1;
      }
 
      *value = strtol(string, &endptr, 0);
@@ -103,22 +107,22 @@ long strtol_errmsg(const char *string, const char *name, long *value) {
      if (errno == ERANGE) {
           if (*value == LONG_MIN) {
                fprintf(stderr, "ERROR: invalid value for %s, too small: %s\n", name, string);
-               exit(1);
+               return -1;
           }
           else {
                fprintf(stderr, "ERROR: invalid value for %s, too large: %s\n", name, string);
-               exit(1);
+               return -1;
           }
      }
 
      if (*endptr != '\0') {
           fprintf(stderr, "ERROR: invalid value for %s: %s\n", name, string);
-          exit(1);
+          return -1;
      }
 /*
      if (sscanf(string, "%ld", &value) != 1) {
           fprintf(stderr, "ERROR: invalid value for %s: %s\n", name, string);
-          exit(1);
+          return -1;
      }
 */
      return 0;
@@ -146,12 +150,12 @@ double strtod_errmsg(const char *string, const char *name, double *value) {
 
      if (string == NULL) {
           fprintf(stderr, "ERROR: invalid value for %s: NULL\n", name);
-          exit(1);
+          return -1;
      }
 
-     if (string == NULL) {
+     if (*string == '\0') {
           fprintf(stderr, "ERROR: invalid value for %s: empty string\n", name);
-          exit(1);
+          return -1;
      }
 
      *value = strtod(string, &endptr);
@@ -159,22 +163,22 @@ double strtod_errmsg(const char *string, const char *name, double *value) {
      if (errno == ERANGE) {
           if (*value == HUGE_VAL) {
                fprintf(stderr, "ERROR: invalid value for %s, too small: %s\n", name, string);
-               exit(1);
+               return -1;
           }
           else {
                fprintf(stderr, "ERROR: invalid value for %s, too large: %s\n", name, string);
-               exit(1);
+               return -1;
           }
      }
 
      if (*endptr != '\0') {
           fprintf(stderr, "ERROR: invalid value for %s: %s\n", name, string);
-          exit(1);
+          return -1;
      }
 /*
      if (sscanf(string, "%lf", &value) != 1) {
           fprintf(stderr, "ERROR: invalid value for %s: %s\n", name, string);
-          exit(1);
+          return -1;
      }
 */
      return 0;
-- 
2.43.0


From 25542348cc0b1579ba448c1084545019f631d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:38 +0000
Subject: [PATCH 092/131] fix: scattering files: numbers glued to other
 characters were accepted, consecutive records in one stream

---
 misc/rtutil_scat_io.c | 47 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/misc/rtutil_scat_io.c b/misc/rtutil_scat_io.c
index a4235aa..2f8a998 100644
--- a/misc/rtutil_scat_io.c
+++ b/misc/rtutil_scat_io.c
@@ -19,20 +19,32 @@
 */
 
 /*******************************************************************************
- * Read an integer, which must be a complete word and not less than min.
+ * Whether what has been read ends with the word.
  ******************************************************************************/
-static int read_int(FILE *fp, int min, int *value) {
+static int end_of_word(FILE *fp) {
 
      int c;
 
+     if ((c = fgetc(fp)) == EOF)
+          return 1;
+
+     ungetc(c, fp);
+
+     return isspace(c) != 0;
+}
+
+
+
+/*******************************************************************************
+ * Read an integer, which must be a complete word and not less than min.
+ ******************************************************************************/
+static int read_int(FILE *fp, int min, int *value) {
+
      if (fscanf(fp, "%d", value) < 1)
           return -1;
 
-     if ((c = fgetc(fp)) != EOF) {
-          ungetc(c, fp);
-          if (! isspace(c))
-               return -1;
-     }
+     if (! end_of_word(fp))
+          return -1;
 
      if (*value < min)
           return -1;
@@ -191,7 +203,7 @@ int scat_header_read_fp(FILE *fp, scat_header_data *h) {
 
      int max_length;
 
-     if (fscanf(fp, "lambda    = %lf\n", &h->lambda)    < 1) goto L1;
+     if (fscanf(fp, " lambda    = %lf\n", &h->lambda)    < 1) goto L1;
      if (fscanf(fp, "mr        = %lf\n", &h->mr)        < 1) goto L1;
      if (fscanf(fp, "mi        = %lf\n", &h->mi)        < 1) goto L1;
 
@@ -228,7 +240,8 @@ int scat_header_read_fp(FILE *fp, scat_header_data *h) {
      if (fscanf(fp, "cext      = %lf\n", &h->cext)      < 1) goto L1;
      if (fscanf(fp, "csca      = %lf\n", &h->csca)      < 1) goto L1;
      if (fscanf(fp, "cbak      = %lf\n", &h->cbak)      < 1) goto L1;
-     if (fscanf(fp, "g         = %lf\n", &h->g)         < 1) goto L1;
+     if (fscanf(fp, "g         = %lf",   &h->g)         < 1) goto L1;
+     if (! end_of_word(fp)) goto L1;
 
      return 0;
 
@@ -641,6 +654,8 @@ int phase_func_read_fp(FILE *fp, scat_header_data *h,
           }
      }
 
+     if (! end_of_word(fp)) goto L1;
+
      *theta_ = theta;
 
      *phase_ = phase;
@@ -849,6 +864,8 @@ int scat_coefs_read_fp(FILE *fp, int n_coef,
                if (fscanf(fp, "%lf", &skip) < 1) goto L1;
      }
 
+     if (! end_of_word(fp)) goto L1;
+
      *coefs_ = coefs;
 
      return n_total;
@@ -1491,6 +1508,11 @@ int scat_total_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
            line++;
      }
 
+     if (! end_of_word(fp)) {
+          fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
+          return -1;
+     }
+
      return 0;
 }
 
@@ -1754,7 +1776,7 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
      line++;
 
      for (i = 0; i < 2 * *n_quad; ++i) {
-          if (fscanf(fp, "%lf%lf%lf%lf%lf\n", &mu1,
+          if (fscanf(fp, "%lf%lf%lf%lf%lf", &mu1,
                      &Kemi[i][0], &Kemi[i][1],
                      &Kemi[i][2], &Kemi[i][3]) < 5) {
                fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
@@ -1764,6 +1786,11 @@ int phase_mats_read_fp(FILE *fp, scat_header_data *h, int *n_quad,
           line++;
      }
 
+     if (! end_of_word(fp)) {
+          fprintf(stderr, "ERROR: Problem reading from file, line %d\n", line);
+          goto L1;
+     }
+
      *P_    = P;
      *Kext_ = Kext;
      *Kemi_ = Kemi;
-- 
2.43.0


From 910b4ea722b3cff9175b1b14b841b37fe3272bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:48 +0000
Subject: [PATCH 093/131] fix: report an uninitialised or %-laden input error
 line safely

---
 utils/input_util.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 311d7fd..5ad9c91 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -26,23 +26,17 @@
  ******************************************************************************/
 void input_error(locus_data *locus, const char *s, ...) {
 
-     char *format;
-
-     size_t size;
-
      va_list ap;
 
-     size = 7 + strlen(locus->file) + 1 + 16 + 1 + strlen(locus->statement) + 2 + strlen(s) + 2 + 1;
-
-     format = (char *) malloc(size);
-
-     snprintf(format, size, "ERROR: %s:%d:%s, %s\n", locus->file, locus->line, locus->statement, s);
+     fprintf(stderr, "ERROR: %s:%d:%s, ", locus->file, locus->line, locus->statement);
 
      va_start(ap, s);
 
-     vfprintf(stderr, format, ap);
+     vfprintf(stderr, s, ap);
 
      va_end(ap);
+
+     fprintf(stderr, "\n");
 }
 
 
@@ -2233,6 +2227,8 @@ static void input_init(input_data *input, xrtm_data *d, xrtm_fd_data *fd, misc_d
 
      input->locus.file   = file;
      input->locus.line   = 1;
+
+     input->locus.statement = "";
 }
 
 
-- 
2.43.0


From 0c816937aabbb25f4a061b855939618dbde35c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:50 +0000
Subject: [PATCH 094/131] fix: bound array dimensions, indexes and counts read
 by the input language

---
 utils/input_util.c | 94 ++++++++++++++++++++++++++++++++++++----------
 utils/parse_data.h |  2 +-
 2 files changed, 76 insertions(+), 20 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 5ad9c91..1c611e6 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -128,7 +128,7 @@ static void copy_dimens(int *dimens2, int *dimens1, int n) {
 
 static int parse_scaler_int(input_data *input);
 
-static int dimens_parse(input_data *input, int *dimens) {
+static int dimens_parse2(input_data *input, int *dimens, int n) {
 
      int r;
 
@@ -141,6 +141,11 @@ static int dimens_parse(input_data *input, int *dimens) {
           return  0;
      }
      else {
+          if (n >= MAX_DIMENS) {
+               input_error(&input->locus, "too many dimensions");
+               exit(1);
+          }
+
           r = yylex(&input->locus, &data);
 
           if (r == ':')
@@ -148,6 +153,11 @@ static int dimens_parse(input_data *input, int *dimens) {
           else {
                yyrewind(r, &data);
                dimens[0] = parse_scaler_int(input);
+
+               if (dimens[0] < 0) {
+                    input_error(&input->locus, "invalid index: %d", dimens[0]);
+                    exit(1);
+               }
           }
 
           r = yylex(&input->locus, &data);
@@ -157,12 +167,19 @@ static int dimens_parse(input_data *input, int *dimens) {
                exit(1);
           }
 
-          return 1 + dimens_parse(input, dimens + 1);
+          return 1 + dimens_parse2(input, dimens + 1, n + 1);
      }
 }
 
 
 
+static int dimens_parse(input_data *input, int *dimens) {
+
+     return dimens_parse2(input, dimens, 0);
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -793,7 +810,7 @@ static void parse_layer_param_l_double(input_data *input, void *d, int n_derivs,
           free_array1_double(x1, n_derivs);
      }
      else
-     if ((n == 0) || (n == 1 && dimens[0] == -1 && dimens[1] == -1) || (n == 1 && dimens[0] == -1) || (n == 2 && dimens[0] == -1 && dimens[1] == -1)) {
+     if ((n == 0) || (n == 1 && dimens[0] == -1) || (n == 2 && dimens[0] == -1 && dimens[1] == -1)) {
           parse_equal(input);
           n_layers = xrtm_get_n_layers(input->d);
           x2 = parse_array2_double(input, n_layers, n_derivs);
@@ -912,6 +929,10 @@ static void parse_coef(input_data *input) {
      if (n == 1 && dimens[0] > -1) {
           parse_equal(input);
           n_coef = parse_scaler_int(input);
+          if (n_coef < 0 || n_coef > xrtm_get_max_coef(input->d)) {
+               input_error(&input->locus, "invalid number of coefficients: %d", n_coef);
+               exit(1);
+          }
           parse_comma(input);
           x2 = parse_coef_1(input, n_elem, n_coef);
           if (xrtm_set_coef_1(input->d, dimens[0], n_coef, x2)) {
@@ -951,6 +972,20 @@ static void parse_coef(input_data *input) {
 
 
 
+static int get_n_coef_layer(input_data *input, int i_layer) {
+
+     int n_coef;
+
+     if ((n_coef = xrtm_get_n_coef(input->d, i_layer)) < 0) {
+          input_error(&input->locus, "the coefficients of layer %d must be set first", i_layer);
+          exit(1);
+     }
+
+     return n_coef;
+}
+
+
+
 static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *type, int (*xrtm_set_coef_x_11)(void *, int, int, double **), int (*xrtm_set_coef_x_n1)(void *, int, double ***), int (*xrtm_set_coef_x_1n)(void *, int, double ***), int (*xrtm_set_coef_x_nn)(void *, double ****)) {
 
      int i;
@@ -974,7 +1009,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
 
      if (n == 2 && dimens[0] > -1 && dimens[1] > -1) {
           parse_equal(input);
-          n_coef = xrtm_get_n_coef(input->d, dimens[0]);
+          n_coef = get_n_coef_layer(input, dimens[0]);
           x2 = parse_coef_1(input, n_elem, n_coef);
           if (xrtm_set_coef_l_11(input->d, dimens[0], dimens[1], x2)) {
                input_error(&input->locus, "xrtm_set_coef_%s_11()", type);
@@ -1004,7 +1039,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
      else
      if ((n == 1 && dimens[0] > -1) || (n == 2 && dimens[0] > -1 && dimens[1] == -1)) {
           parse_equal(input);
-          n_coef = xrtm_get_n_coef(input->d, dimens[0]);
+          n_coef = get_n_coef_layer(input, dimens[0]);
           x3 = parse_coef_2(input, n_derivs, n_elem, n_coef);
           if (xrtm_set_coef_l_1n(input->d, dimens[0], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_1n()", type);
@@ -1018,7 +1053,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           }
      }
      else
-     if ((n == 0) || (n == 1 && dimens[0] == -1 && dimens[1] == -1) || (n == 1 && dimens[0] == -1) || (n == 2 && dimens[0] == -1 && dimens[1] == -1)) {
+     if ((n == 0) || (n == 1 && dimens[0] == -1) || (n == 2 && dimens[0] == -1 && dimens[1] == -1)) {
           parse_equal(input);
           n_layers = xrtm_get_n_layers(input->d);
           x4 = parse_coef_3(input, n_layers, n_derivs, n_elem, n_coef);
@@ -1176,7 +1211,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
 
           x = parse_scaler_string(input);
 
-          n_coef_layer = xrtm_get_n_coef(input->d, dimens[0]);
+          n_coef_layer = get_n_coef_layer(input, dimens[0]);
 
           if ((n_coef2 = load_scat_coefs2(x, n_coef_layer, n_coef, &coef, &flag)) < 0) {
                fprintf(stderr, "ERROR: load_scat_coefs2(), layer %d, deriv %d\n", dimens[0], dimens[1]);
@@ -1212,7 +1247,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
           coef1 = (double ***) alloc_array1(n_layers, sizeof(double **));
 
           for (i = 0; i < n_layers; ++i) {
-               n_coef_layer = xrtm_get_n_coef(input->d, i);
+               n_coef_layer = get_n_coef_layer(input, i);
 
                if ((n_coef2 = load_scat_coefs2(x1[i], n_coef_layer, n_coef, &coef1[i], &flag)) < 0) {
                     fprintf(stderr, "ERROR: load_scat_coefs2(), layer %d, deriv %d\n", i, dimens[1]);
@@ -1251,7 +1286,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
 
           coef1 = (double ***) alloc_array1(n_derivs, sizeof(double **));
 
-          n_coef_layer = xrtm_get_n_coef(input->d, dimens[0]);
+          n_coef_layer = get_n_coef_layer(input, dimens[0]);
 
           for (i = 0; i < n_derivs; ++i) {
                if ((n_coef2 = load_scat_coefs2(x1[i], n_coef_layer, n_coef, &coef1[i], &flag)) < 0) {
@@ -1284,7 +1319,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
           free_array1(coef1);
      }
      else
-     if ((n == 0) || (n == 1 && dimens[0] == -1 && dimens[1] == -1) || (n == 1 && dimens[0] == -1) || (n == 2 && dimens[0] == -1 && dimens[1] == -1)) {
+     if ((n == 0) || (n == 1 && dimens[0] == -1) || (n == 2 && dimens[0] == -1 && dimens[1] == -1)) {
           parse_equal(input);
 
           n_layers = xrtm_get_n_layers(input->d);
@@ -1294,7 +1329,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
           coef2 = (double ****) alloc_array2(n_layers, n_derivs, sizeof(double **));
 
           for (i = 0; i < n_layers; ++i) {
-               n_coef_layer = xrtm_get_n_coef(input->d, i);
+               n_coef_layer = get_n_coef_layer(input, i);
 
                for (j = 0; j < n_derivs; ++j) {
                     if ((n_coef2 = load_scat_coefs2(x2[i][j], n_coef_layer, n_coef, &coef2[i][j], &flag)) < 0) {
@@ -1403,6 +1438,26 @@ static void parse_kernel_ampfac_l(input_data *input, void *d, int n_derivs, cons
 
 
 
+static int get_kernel_n_params(input_data *input, int i_kernel) {
+
+     int n_params;
+
+     if (i_kernel >= xrtm_get_n_kernels(input->d)) {
+          input_error(&input->locus, "invalid kernel index: %d", i_kernel);
+          exit(1);
+     }
+
+     n_params = kernel_n_params((enum xrtm_kernel_type) xrtm_get_kernel(input->d, i_kernel));
+     if (n_params == 0) {
+          input_error(&input->locus, "kernel %d requires no parameters", i_kernel);
+          exit(1);
+     }
+
+     return n_params;
+}
+
+
+
 static void parse_kernel_params(input_data *input) {
 
      int n;
@@ -1432,11 +1487,7 @@ static void parse_kernel_params(input_data *input) {
      else
      if (n == 1 || (n == 2 && dimens[1] == -1)) {
           parse_equal(input);
-          n_params = kernel_n_params((enum xrtm_kernel_type) xrtm_get_kernel(input->d, dimens[0]));
-          if (n_params == 0) {
-               input_error(&input->locus, "kernel %d requires no parameters\n", dimens[0]);
-               exit(1);
-          }
+          n_params = get_kernel_n_params(input, dimens[0]);
           x1 = parse_array1_double(input, n_params);
           if (xrtm_set_kernel_params_n(input->d, dimens[0], x1)) {
                input_error(&input->locus, "xrtm_set_kernel_params_n()");
@@ -1466,6 +1517,11 @@ static void parse_kernel_params_l(input_data *input, void *d, int n_derivs, cons
 
      n = dimens_parse(input, dimens);
 
+     if (n <= 0 || dimens[0] <= -1) {
+          input_error(&input->locus, "invalid dimensions");
+          exit(1);
+     }
+
      if (n == 3 && dimens[1] > -1 && dimens[2] > -1) {
           parse_equal(input);
           x = parse_scaler_double(input);
@@ -1487,7 +1543,7 @@ static void parse_kernel_params_l(input_data *input, void *d, int n_derivs, cons
      else
      if ((n == 2 && dimens[1] > -1) || (n == 3 && dimens[1] > -1 && dimens[2] == -1)) {
           parse_equal(input);
-          n_params = kernel_n_params((enum xrtm_kernel_type) xrtm_get_kernel(input->d, dimens[0]));
+          n_params = get_kernel_n_params(input, dimens[0]);
           x1 = parse_array1_double(input, n_params);
           if (xrtm_set_kernel_params_x_1n(d, dimens[0], dimens[1], x1)) {
                input_error(&input->locus, "xrtm_set_kernel_params_%s_1n()", type);
@@ -1496,9 +1552,9 @@ static void parse_kernel_params_l(input_data *input, void *d, int n_derivs, cons
           free_array1_double(x1, n_params);
      }
      else
-     if ((n == 1) || (n == 2 && dimens[1] == -1 && dimens[2] == -1) || (n == 2 && dimens[1]) || (n == 3 && dimens[1] == -1 && dimens[2] == -1)) {
+     if ((n == 1) || (n == 2 && dimens[1] == -1) || (n == 3 && dimens[1] == -1 && dimens[2] == -1)) {
           parse_equal(input);
-          n_params = kernel_n_params((enum xrtm_kernel_type) xrtm_get_kernel(input->d, dimens[0]));
+          n_params = get_kernel_n_params(input, dimens[0]);
           x2 = parse_array2_double(input, n_derivs, n_params);
           if (xrtm_set_kernel_params_x_nn(d, dimens[0], x2)) {
                input_error(&input->locus, "xrtm_set_kernel_params_%s_nn()", type);
diff --git a/utils/parse_data.h b/utils/parse_data.h
index 51b1e75..aeb0dfe 100644
--- a/utils/parse_data.h
+++ b/utils/parse_data.h
@@ -282,7 +282,7 @@ void XCAT(free_array4_, FILE_NAME)(C_TYPE ****array, int m, int n, int o, int p)
      dimens[0] = m;
      dimens[1] = n;
      dimens[2] = o;
-     dimens[3] = o;
+     dimens[3] = p;
 
      XCAT(free_array_, FILE_NAME)(array, 4, dimens);
 }
-- 
2.43.0


From 47e361b483ca4928bc3427bff5e6dd3ea09ba247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:53 +0000
Subject: [PATCH 095/131] fix: scan integers out of range and unterminated
 comments as errors

---
 utils/input_yylex.c | 171 +++++++++++++++++++++++---------------------
 utils/input_yylex.h |   2 +-
 utils/input_yylex.l |  13 +++-
 3 files changed, 104 insertions(+), 82 deletions(-)

diff --git a/utils/input_yylex.c b/utils/input_yylex.c
index cad15ab..e9fc4e5 100644
--- a/utils/input_yylex.c
+++ b/utils/input_yylex.c
@@ -780,12 +780,15 @@ char *yytext;
 #line 11 "input_yylex.l"
 #include <gutil.h>
 
+#include <errno.h>
+#include <limits.h>
+
 #include "input_local.h"
 
 void comment(locus_data *locus);
-#line 787 "input_yylex.c"
+#line 790 "input_yylex.c"
 #define YY_NO_UNISTD_H 1
-#line 789 "input_yylex.c"
+#line 792 "input_yylex.c"
 
 #define INITIAL 0
 
@@ -1002,9 +1005,9 @@ YY_DECL
 		}
 
 	{
-#line 24 "input_yylex.l"
+#line 27 "input_yylex.l"
 
-#line 1008 "input_yylex.c"
+#line 1011 "input_yylex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1059,317 +1062,317 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 25 "input_yylex.l"
+#line 28 "input_yylex.l"
 ;
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 27 "input_yylex.l"
+#line 30 "input_yylex.l"
 { comment(locus); }
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 28 "input_yylex.l"
+#line 31 "input_yylex.l"
 { /* consume //-comment */ }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 30 "input_yylex.l"
+#line 33 "input_yylex.l"
 { locus->statement = "fd";              return INPUT_OPTION_FD; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 32 "input_yylex.l"
+#line 35 "input_yylex.l"
 { locus->statement = "options";         return XRTM_INPUT_OPTIONS; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 33 "input_yylex.l"
+#line 36 "input_yylex.l"
 { locus->statement = "solvers";         return XRTM_INPUT_SOLVERS; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 34 "input_yylex.l"
+#line 37 "input_yylex.l"
 { locus->statement = "max_coef";        return XRTM_INPUT_MAX_COEF; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 35 "input_yylex.l"
+#line 38 "input_yylex.l"
 { locus->statement = "n_quad";          return XRTM_INPUT_N_QUAD; }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 36 "input_yylex.l"
+#line 39 "input_yylex.l"
 { locus->statement = "n_stokes";        return XRTM_INPUT_N_STOKES; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 37 "input_yylex.l"
+#line 40 "input_yylex.l"
 { locus->statement = "n_derivs";        return XRTM_INPUT_N_DERIVS; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 38 "input_yylex.l"
+#line 41 "input_yylex.l"
 { locus->statement = "n_layers";        return XRTM_INPUT_N_LAYERS; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 39 "input_yylex.l"
+#line 42 "input_yylex.l"
 { locus->statement = "n_kernels";       return XRTM_INPUT_N_KERNELS; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 40 "input_yylex.l"
+#line 43 "input_yylex.l"
 { locus->statement = "n_kernel_quad";   return XRTM_INPUT_N_KERNEL_QUAD; }
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 41 "input_yylex.l"
+#line 44 "input_yylex.l"
 { locus->statement = "kernels";         return XRTM_INPUT_KERNELS; }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 42 "input_yylex.l"
+#line 45 "input_yylex.l"
 { locus->statement = "n_out_levels";    return XRTM_INPUT_N_OUT_LEVELS; }
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 43 "input_yylex.l"
+#line 46 "input_yylex.l"
 { locus->statement = "n_out_thetas";    return XRTM_INPUT_N_OUT_THETAS; }
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 45 "input_yylex.l"
+#line 48 "input_yylex.l"
 { locus->statement = "doub_d_tau";      return XRTM_INPUT_DOUB_D_TAU; }
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 46 "input_yylex.l"
+#line 49 "input_yylex.l"
 { locus->statement = "pade_params";     return XRTM_INPUT_PADE_PARAMS; }
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 47 "input_yylex.l"
+#line 50 "input_yylex.l"
 { locus->statement = "sos_params";      return XRTM_INPUT_SOS_PARAMS; }
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 48 "input_yylex.l"
+#line 51 "input_yylex.l"
 { locus->statement = "fourier_tol";     return XRTM_INPUT_FOURIER_TOL; }
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 49 "input_yylex.l"
+#line 52 "input_yylex.l"
 { locus->statement = "lambda";          return XRTM_INPUT_LAMBDA; }
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 50 "input_yylex.l"
+#line 53 "input_yylex.l"
 { locus->statement = "planet_r";        return XRTM_INPUT_PLANET_R; }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 51 "input_yylex.l"
+#line 54 "input_yylex.l"
 { locus->statement = "levels_z";        return XRTM_INPUT_LEVELS_Z; }
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 52 "input_yylex.l"
+#line 55 "input_yylex.l"
 { locus->statement = "out_levels";      return XRTM_INPUT_OUT_LEVELS; }
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 53 "input_yylex.l"
+#line 56 "input_yylex.l"
 { locus->statement = "out_taus";        return XRTM_INPUT_OUT_TAUS; }
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 54 "input_yylex.l"
+#line 57 "input_yylex.l"
 { locus->statement = "out_thetas";      return XRTM_INPUT_OUT_THETAS; }
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 55 "input_yylex.l"
+#line 58 "input_yylex.l"
 { locus->statement = "F_0";             return XRTM_INPUT_F_0; }
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 56 "input_yylex.l"
+#line 59 "input_yylex.l"
 { locus->statement = "theta_0";         return XRTM_INPUT_THETA_0; }
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 57 "input_yylex.l"
+#line 60 "input_yylex.l"
 { locus->statement = "phi_0";           return XRTM_INPUT_PHI_0; }
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 58 "input_yylex.l"
+#line 61 "input_yylex.l"
 { locus->statement = "F_iso_top";       return XRTM_INPUT_F_ISO_TOP; }
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 59 "input_yylex.l"
+#line 62 "input_yylex.l"
 { locus->statement = "F_iso_top_l";     return XRTM_INPUT_F_ISO_TOP_L; }
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 60 "input_yylex.l"
+#line 63 "input_yylex.l"
 { locus->statement = "F_iso_bot";       return XRTM_INPUT_F_ISO_BOT; }
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 61 "input_yylex.l"
+#line 64 "input_yylex.l"
 { locus->statement = "F_iso_bot_l";     return XRTM_INPUT_F_ISO_BOT_L; }
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 62 "input_yylex.l"
+#line 65 "input_yylex.l"
 { locus->statement = "levels_b";        return XRTM_INPUT_LEVELS_B; }
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 63 "input_yylex.l"
+#line 66 "input_yylex.l"
 { locus->statement = "levels_b_l";      return XRTM_INPUT_LEVELS_B_L; }
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 64 "input_yylex.l"
+#line 67 "input_yylex.l"
 { locus->statement = "surface_b";       return XRTM_INPUT_SURFACE_B; }
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 65 "input_yylex.l"
+#line 68 "input_yylex.l"
 { locus->statement = "surface_b-l";     return XRTM_INPUT_SURFACE_B_L; }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 66 "input_yylex.l"
+#line 69 "input_yylex.l"
 { locus->statement = "g";               return XRTM_INPUT_G; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 67 "input_yylex.l"
+#line 70 "input_yylex.l"
 { locus->statement = "g_l";             return XRTM_INPUT_G_L; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 68 "input_yylex.l"
+#line 71 "input_yylex.l"
 { locus->statement = "coef";            return XRTM_INPUT_CHI; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 69 "input_yylex.l"
+#line 72 "input_yylex.l"
 { locus->statement = "coef_l";          return XRTM_INPUT_COEF_L; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 70 "input_yylex.l"
+#line 73 "input_yylex.l"
 { locus->statement = "coef_files";      return XRTM_INPUT_COEF_FILES; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 71 "input_yylex.l"
+#line 74 "input_yylex.l"
 { locus->statement = "coef_files_l";    return XRTM_INPUT_COEF_FILES_L; }
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 72 "input_yylex.l"
+#line 75 "input_yylex.l"
 { locus->statement = "omega";           return XRTM_INPUT_OMEGA; }
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 73 "input_yylex.l"
+#line 76 "input_yylex.l"
 { locus->statement = "omega_l";         return XRTM_INPUT_OMEGA_L; }
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 74 "input_yylex.l"
+#line 77 "input_yylex.l"
 { locus->statement = "ltau";            return XRTM_INPUT_LTAU; }
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 75 "input_yylex.l"
+#line 78 "input_yylex.l"
 { locus->statement = "ltau_l";          return XRTM_INPUT_LTAU_L; }
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 76 "input_yylex.l"
+#line 79 "input_yylex.l"
 { locus->statement = "kernel_ampfac";   return XRTM_INPUT_KERNEL_AMPFAC; }
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 77 "input_yylex.l"
+#line 80 "input_yylex.l"
 { locus->statement = "kernel_params";   return XRTM_INPUT_KERNEL_PARAMS; }
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 78 "input_yylex.l"
+#line 81 "input_yylex.l"
 { locus->statement = "kernel_ampfac_l"; return XRTM_INPUT_KERNEL_AMPFAC_L; }
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 79 "input_yylex.l"
+#line 82 "input_yylex.l"
 { locus->statement = "kernel_params_l"; return XRTM_INPUT_KERNEL_PARAMS_L; }
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 81 "input_yylex.l"
+#line 84 "input_yylex.l"
 { locus->statement = "delta";           return XRTM_INPUT_DELTA; }
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 82 "input_yylex.l"
+#line 85 "input_yylex.l"
 { locus->statement = "F_iso_top_p";     return XRTM_INPUT_F_ISO_TOP_P; }
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 83 "input_yylex.l"
+#line 86 "input_yylex.l"
 { locus->statement = "F_iso_bot_p";     return XRTM_INPUT_F_ISO_BOT_P; }
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 84 "input_yylex.l"
+#line 87 "input_yylex.l"
 { locus->statement = "levels_b_p";      return XRTM_INPUT_LEVELS_B_P; }
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 85 "input_yylex.l"
+#line 88 "input_yylex.l"
 { locus->statement = "surface_b_p";     return XRTM_INPUT_SURFACE_B_P; }
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 86 "input_yylex.l"
+#line 89 "input_yylex.l"
 { locus->statement = "g_p";             return XRTM_INPUT_G_P; }
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 87 "input_yylex.l"
+#line 90 "input_yylex.l"
 { locus->statement = "coef_p";          return XRTM_INPUT_COEF_P; }
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 88 "input_yylex.l"
+#line 91 "input_yylex.l"
 { locus->statement = "coef_files_p";    return XRTM_INPUT_COEF_FILES_P; }
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
-#line 89 "input_yylex.l"
+#line 92 "input_yylex.l"
 { locus->statement = "omega_p";         return XRTM_INPUT_OMEGA_P; }
 	YY_BREAK
 case 61:
 YY_RULE_SETUP
-#line 90 "input_yylex.l"
+#line 93 "input_yylex.l"
 { locus->statement = "ltau_p";          return XRTM_INPUT_LTAU_P; }
 	YY_BREAK
 case 62:
 YY_RULE_SETUP
-#line 91 "input_yylex.l"
+#line 94 "input_yylex.l"
 { locus->statement = "kernel_ampfac_p"; return XRTM_INPUT_KERNEL_AMPFAC_P; }
 	YY_BREAK
 case 63:
 YY_RULE_SETUP
-#line 92 "input_yylex.l"
+#line 95 "input_yylex.l"
 { locus->statement = "kernel_params_p"; return XRTM_INPUT_KERNEL_PARAMS_P; }
 	YY_BREAK
 /*
@@ -1379,10 +1382,10 @@ YY_RULE_SETUP
 }
  */
 case 64:
-#line 100 "input_yylex.l"
+#line 103 "input_yylex.l"
 case 65:
 YY_RULE_SETUP
-#line 100 "input_yylex.l"
+#line 103 "input_yylex.l"
 {
      char c;
      c = yytext[yyleng - 1];
@@ -1393,12 +1396,12 @@ YY_RULE_SETUP
 }
 	YY_BREAK
 case 66:
-#line 110 "input_yylex.l"
+#line 113 "input_yylex.l"
 case 67:
-#line 111 "input_yylex.l"
+#line 114 "input_yylex.l"
 case 68:
 YY_RULE_SETUP
-#line 111 "input_yylex.l"
+#line 114 "input_yylex.l"
 {
      lex_type->d = atof(yytext);
      return LEX_TYPE_DOUBLE;
@@ -1406,15 +1409,22 @@ YY_RULE_SETUP
 	YY_BREAK
 case 69:
 YY_RULE_SETUP
-#line 116 "input_yylex.l"
+#line 119 "input_yylex.l"
 {
-     lex_type->i = atoi(yytext);
+     long l;
+     errno = 0;
+     l = strtol(yytext, NULL, 10);
+     if (errno || l < INT_MIN || l > INT_MAX) {
+          lex_type->d = atof(yytext);
+          return LEX_TYPE_DOUBLE;
+     }
+     lex_type->i = (int) l;
      return LEX_TYPE_INT;
 }
 	YY_BREAK
 case 70:
 YY_RULE_SETUP
-#line 121 "input_yylex.l"
+#line 131 "input_yylex.l"
 {
      lex_type->s = strdup(yytext);
      return LEX_TYPE_STRING;
@@ -1423,20 +1433,20 @@ YY_RULE_SETUP
 case 71:
 /* rule 71 can match eol */
 YY_RULE_SETUP
-#line 126 "input_yylex.l"
+#line 136 "input_yylex.l"
 { locus->line++; }
 	YY_BREAK
 case 72:
 YY_RULE_SETUP
-#line 128 "input_yylex.l"
+#line 138 "input_yylex.l"
 { return yytext[0]; }
 	YY_BREAK
 case 73:
 YY_RULE_SETUP
-#line 130 "input_yylex.l"
+#line 140 "input_yylex.l"
 ECHO;
 	YY_BREAK
-#line 1440 "input_yylex.c"
+#line 1450 "input_yylex.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -2442,7 +2452,7 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 130 "input_yylex.l"
+#line 140 "input_yylex.l"
 
 
 
@@ -2469,6 +2479,7 @@ void comment(locus_data *locus) {
 		prev = c;
 	}
 	input_error(locus, "unterminated comment");
+	exit(1);
 }
 
 
diff --git a/utils/input_yylex.h b/utils/input_yylex.h
index 2034477..482502a 100644
--- a/utils/input_yylex.h
+++ b/utils/input_yylex.h
@@ -469,7 +469,7 @@ extern int yylex (void);
 #undef yyTABLES_NAME
 #endif
 
-#line 130 "input_yylex.l"
+#line 140 "input_yylex.l"
 
 
 #line 476 "input_yylex.h"
diff --git a/utils/input_yylex.l b/utils/input_yylex.l
index a1dd5f5..049844d 100644
--- a/utils/input_yylex.l
+++ b/utils/input_yylex.l
@@ -10,6 +10,9 @@
 %{
 #include <gutil.h>
 
+#include <errno.h>
+#include <limits.h>
+
 #include "input_local.h"
 
 void comment(locus_data *locus);
@@ -114,7 +117,14 @@ void comment(locus_data *locus);
 }
 
 -?[0-9]+				{
-     lex_type->i = atoi(yytext);
+     long l;
+     errno = 0;
+     l = strtol(yytext, NULL, 10);
+     if (errno || l < INT_MIN || l > INT_MAX) {
+          lex_type->d = atof(yytext);
+          return LEX_TYPE_DOUBLE;
+     }
+     lex_type->i = (int) l;
      return LEX_TYPE_INT;
 }
 
@@ -153,6 +163,7 @@ void comment(locus_data *locus) {
 		prev = c;
 	}
 	input_error(locus, "unterminated comment");
+	exit(1);
 }
 
 
-- 
2.43.0


From 3087128d05cd45ffc1875a41d075be81a25bd611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:55 +0000
Subject: [PATCH 096/131] fix: refuse a number of kernel names that is not
 n_kernels

---
 utils/input_util.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/input_util.c b/utils/input_util.c
index 1c611e6..4eef7d8 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1952,6 +1952,7 @@ static void input_parse1(input_data *input) {
      int n_kernels     = -999;
      int n_kernel_quad = -999;
      int *kernels      = NULL;
+     int n_kernels2    = 0;
      int n_out_levels  = -999;
      int n_out_thetas  = -999;
 
@@ -2029,6 +2030,7 @@ static void input_parse1(input_data *input) {
                          input_error(&input->locus, "invalid kernel string");
                          exit(1);
                     }
+                    n_kernels2 = fdclist_count(list);
                     fdclist_free(list);
                     break;
                case XRTM_INPUT_N_OUT_LEVELS:
@@ -2056,6 +2058,11 @@ L1:  if (flag && options & XRTM_OPTION_CALC_DERIVS) {
           exit(1);
      }
 
+     if (n_kernels >= 0 && n_kernels != n_kernels2) {
+          fprintf(stderr, "ERROR: the number of kernels does not equal \"n_kernels\": %d != %d\n", n_kernels2, n_kernels);
+          exit(1);
+     }
+
      if (! flag)
           n_derivs2 = n_derivs;
      else {
-- 
2.43.0


From c037fdc0073930b00e7546f86d4d3dd9218ff0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:57 +0000
Subject: [PATCH 097/131] fix: give the input reader a buffer of its own size

---
 utils/input_util.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 4eef7d8..2256186 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -21,6 +21,9 @@
 #include "input_yylex.h"
 
 
+#define INPUT_BUFFER_SIZE 16384
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -2381,15 +2384,19 @@ int xrtm_fread_input(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, const char *
 
      const char *file;
 
+     FILE *fp;
+
      input_data input;
 
+     YY_BUFFER_STATE buffer;
+
      if (strcmp(filename, "-") == 0) {
-          yyin = stdin;
+          fp = stdin;
 
           file = "stdin";
      }
      else {
-          if ((yyin = fopen(filename, "r")) == NULL) {
+          if ((fp = fopen(filename, "r")) == NULL) {
                fprintf(stderr, "ERROR: Error opening file for reading: %s ... %s\n",
                       filename, strerror(errno));
                return -1;
@@ -2400,10 +2407,16 @@ int xrtm_fread_input(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, const char *
 
      input_init(&input, d, fd, md, use_aligned, use_array2, use_dash, use_equal, file);
 
+     buffer = yy_create_buffer(fp, INPUT_BUFFER_SIZE);
+
+     yy_switch_to_buffer(buffer);
+
      input_parse(&input);
 
-     if (yyin != stdin)
-          fclose(yyin);
+     yy_delete_buffer(buffer);
+
+     if (fp != stdin)
+          fclose(fp);
 
      input_free(&input);
 
-- 
2.43.0


From ac2fc864cc114b437273b6660eeaa739db66b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:59 +0000
Subject: [PATCH 098/131] fix: print input that reads back as the same input

---
 utils/input_util.c | 95 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 83 insertions(+), 12 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 2256186..8905ecf 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1666,8 +1666,9 @@ static int print_array_param_double(FILE *fp, format_data *f, xrtm_data *d, cons
 
      x1 = alloc_array1_d(n);
 
-     if (xrtm_get_x(d, x1) == XRTM_DBL_ERROR) {
-          fprintf(stderr, "ERROR: xrtm_get_x()\n");
+     if (xrtm_get_x(d, x1) == XRTM_INT_ERROR) {
+          fprintf(stderr, "ERROR: xrtm_get_%s()\n", name);
+          free_array1_d(x1);
           return -1;
      }
 
@@ -2484,6 +2485,9 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
      double x;
      double y;
 
+     double *x1;
+     double **x2;
+
      fdclist *list;
 
      format_data f;
@@ -2526,15 +2530,17 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
      print_lhs(fp, &f, "n_kernels");     fprintf(fp, "%d%c", n_kernels,     f.nl);
      print_lhs(fp, &f, "n_kernel_quad"); fprintf(fp, "%d%c", n_kernel_quad, f.nl);
 
-     i1 = alloc_array1_i(n_kernels);
-     for (i = 0; i < n_kernels; ++i)
-          i1[i] = xrtm_get_kernel(d, i);
-     list = xrtm_kernels_vector_to_string_list(NULL, (enum xrtm_kernel_type *) i1, n_kernels);
-     free_array1_i(i1);
-     print_lhs(fp, &f, "kernels");
-     print_list(fp, &f, list);
-     fprintf(fp, "%c", f.nl);
-     fdclist_free(list);
+     if (n_kernels > 0) {
+          i1 = alloc_array1_i(n_kernels);
+          for (i = 0; i < n_kernels; ++i)
+               i1[i] = xrtm_get_kernel(d, i);
+          list = xrtm_kernels_vector_to_string_list(NULL, (enum xrtm_kernel_type *) i1, n_kernels);
+          free_array1_i(i1);
+          print_lhs(fp, &f, "kernels");
+          print_list(fp, &f, list);
+          fprintf(fp, "%c", f.nl);
+          fdclist_free(list);
+     }
 
      print_lhs(fp, &f, "n_out_levels"); fprintf(fp, "%d%c", n_out_levels, f.nl);
      print_lhs(fp, &f, "n_out_thetas"); fprintf(fp, "%d%c", n_out_thetas, f.nl);
@@ -2620,12 +2626,42 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
      }
      print_lhs(fp, &f, "F_iso_top"); fprintf(fp, "%e%c", x, f.nl);
 
+     if (n_derivs > 0) {
+          x1 = alloc_array1_d(n_derivs);
+          for (i = 0; i < n_derivs; ++i) {
+               if ((x1[i] = xrtm_get_F_iso_top_l(d, i)) == XRTM_DBL_ERROR) {
+                    fprintf(stderr, "ERROR: xrtm_get_F_iso_top_l(), i_deriv = %d\n", i);
+                    free_array1_d(x1);
+                    return -1;
+               }
+          }
+          print_lhs(fp, &f, "F_iso_top_l");
+          print_array1_double(fp, &f, x1, n_derivs);
+          fprintf(fp, "%c", f.nl);
+          free_array1_d(x1);
+     }
+
      if ((x = xrtm_get_F_iso_bot(d)) < 0.) {
           fprintf(stderr, "ERROR: xrtm_get_F_iso_bot()\n");
           return -1;
      }
      print_lhs(fp, &f, "F_iso_bot"); fprintf(fp, "%e%c", x, f.nl);
 
+     if (n_derivs > 0) {
+          x1 = alloc_array1_d(n_derivs);
+          for (i = 0; i < n_derivs; ++i) {
+               if ((x1[i] = xrtm_get_F_iso_bot_l(d, i)) == XRTM_DBL_ERROR) {
+                    fprintf(stderr, "ERROR: xrtm_get_F_iso_bot_l(), i_deriv = %d\n", i);
+                    free_array1_d(x1);
+                    return -1;
+               }
+          }
+          print_lhs(fp, &f, "F_iso_bot_l");
+          print_array1_double(fp, &f, x1, n_derivs);
+          fprintf(fp, "%c", f.nl);
+          free_array1_d(x1);
+     }
+
 
      if (options & XRTM_OPTION_SOURCE_SOLAR) {
           if ((x = xrtm_get_F_0(d)) < 0.) {
@@ -2640,7 +2676,7 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
           }
           print_lhs(fp, &f, "theta_0"); fprintf(fp, "%e%c", x, f.nl);
 
-          if ((x = xrtm_get_phi_0(d)) < 0.) {
+          if ((x = xrtm_get_phi_0(d)) == XRTM_DBL_ERROR) {
                fprintf(stderr, "ERROR: xrtm_get_phi_0()\n");
                return -1;
           }
@@ -2653,11 +2689,46 @@ int xrtm_fwrite_input_fp(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, FILE *fp
                return -1;
           }
 
+          if (n_derivs > 0) {
+               x2 = alloc_array2_d(n_layers + 1, n_derivs);
+               x1 = alloc_array1_d(n_layers + 1);
+               for (i = 0; i < n_derivs; ++i) {
+                    if (xrtm_get_levels_b_l(d, i, x1) == XRTM_DBL_ERROR) {
+                         fprintf(stderr, "ERROR: xrtm_get_levels_b_l(), i_deriv = %d\n", i);
+                         free_array1_d(x1);
+                         free_array2_d(x2);
+                         return -1;
+                    }
+                    for (j = 0; j < n_layers + 1; ++j)
+                         x2[j][i] = x1[j];
+               }
+               free_array1_d(x1);
+               print_lhs(fp, &f, "levels_b_l");
+               print_array2_double(fp, &f, x2, n_layers + 1, n_derivs);
+               fprintf(fp, "%c", f.nl);
+               free_array2_d(x2);
+          }
+
           if ((x = xrtm_get_surface_b(d)) < 0.) {
                fprintf(stderr, "ERROR: xrtm_get_surface_b()\n");
                return -1;
           }
           print_lhs(fp, &f, "surface_b"); fprintf(fp, "%e%c", x, f.nl);
+
+          if (n_derivs > 0) {
+               x1 = alloc_array1_d(n_derivs);
+               for (i = 0; i < n_derivs; ++i) {
+                    if ((x1[i] = xrtm_get_surface_b_l(d, i)) == XRTM_DBL_ERROR) {
+                         fprintf(stderr, "ERROR: xrtm_get_surface_b_l(), i_deriv = %d\n", i);
+                         free_array1_d(x1);
+                         return -1;
+                    }
+               }
+               print_lhs(fp, &f, "surface_b_l");
+               print_array1_double(fp, &f, x1, n_derivs);
+               fprintf(fp, "%c", f.nl);
+               free_array1_d(x1);
+          }
      }
 
      if (solvers & XRTM_SOLVERS_USE_G) {
-- 
2.43.0


From 12246e7bf14795e253d62dd8c9ebd2fdad9157b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:02 +0000
Subject: [PATCH 099/131] fix: implement string output of the input language
 and report write errors

---
 utils/input_util.c | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 8905ecf..415fc3b 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -2428,6 +2428,31 @@ int xrtm_fread_input(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, const char *
 
 int xrtm_swrite_input(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, char *s, char nl, int use_aligned, int use_array2, int use_dash, int use_equal) {
 
+     long n;
+
+     FILE *fp;
+
+     if ((fp = tmpfile()) == NULL) {
+          fprintf(stderr, "ERROR: Error opening temporary file ... %s\n", strerror(errno));
+          return -1;
+     }
+
+     if (xrtm_fwrite_input_fp(d, fd, md, fp, nl, use_aligned, use_array2, use_dash, use_equal)) {
+          fprintf(stderr, "ERROR: xrtm_fwrite_input_fp()\n");
+          fclose(fp);
+          return -1;
+     }
+
+     if (fflush(fp) || (n = ftell(fp)) < 0 || fseek(fp, 0, SEEK_SET) || fread(s, 1, n, fp) != (size_t) n) {
+          fprintf(stderr, "ERROR: Error reading temporary file ... %s\n", strerror(errno));
+          fclose(fp);
+          return -1;
+     }
+
+     s[n] = '\0';
+
+     fclose(fp);
+
      return 0;
 }
 
@@ -2452,11 +2477,18 @@ int xrtm_fwrite_input_fn(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, const ch
 
      if (xrtm_fwrite_input_fp(d, fd, md, fp, nl, use_aligned, use_array2, use_dash, use_equal)) {
           fprintf(stderr, "ERROR: xrtm_fwrite_input_fp()\n");
+          if (fp != stdout && fp != stderr)
+               fclose(fp);
           return -1;
      }
 
-     if (fp != stdin && fp != stderr)
-          fclose(fp);
+     if (fp != stdout && fp != stderr) {
+          if (fclose(fp)) {
+               fprintf(stderr, "ERROR: Error writing file: %s ... %s\n",
+                      filename, strerror(errno));
+               return -1;
+          }
+     }
 
      return 0;
 }
-- 
2.43.0


From d54812300978c32672a984874451d083205c9330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:04 +0000
Subject: [PATCH 100/131] fix: pass the setters given to the coefficient
 parsers and check layer counts

---
 utils/input_util.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 415fc3b..86a4277 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1014,7 +1014,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_coef = get_n_coef_layer(input, dimens[0]);
           x2 = parse_coef_1(input, n_elem, n_coef);
-          if (xrtm_set_coef_l_11(input->d, dimens[0], dimens[1], x2)) {
+          if (xrtm_set_coef_x_11(d, dimens[0], dimens[1], x2)) {
                input_error(&input->locus, "xrtm_set_coef_%s_11()", type);
                exit(1);
           }
@@ -1028,7 +1028,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_layers = xrtm_get_n_layers(input->d);
           x3 = parse_coef_2(input, n_layers, n_elem, n_coef);
-          if (xrtm_set_coef_l_n1(input->d, dimens[1], x3)) {
+          if (xrtm_set_coef_x_n1(d, dimens[1], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_n1()", type);
                exit(1);
           }
@@ -1044,7 +1044,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_coef = get_n_coef_layer(input, dimens[0]);
           x3 = parse_coef_2(input, n_derivs, n_elem, n_coef);
-          if (xrtm_set_coef_l_1n(input->d, dimens[0], x3)) {
+          if (xrtm_set_coef_x_1n(d, dimens[0], x3)) {
                input_error(&input->locus, "xrtm_set_coef_%s_1n()", type);
                exit(1);
           }
@@ -1060,7 +1060,7 @@ static void parse_coef_l(input_data *input, void *d, int n_derivs, const char *t
           parse_equal(input);
           n_layers = xrtm_get_n_layers(input->d);
           x4 = parse_coef_3(input, n_layers, n_derivs, n_elem, n_coef);
-          if (xrtm_set_coef_l_nn(input->d, x4)) {
+          if (xrtm_set_coef_x_nn(d, x4)) {
                input_error(&input->locus, "xrtm_set_coef_%s_nn()", type);
                exit(1);
           }
@@ -1243,7 +1243,7 @@ static void parse_coef_files_l(input_data *input, void *d, int n_derivs, const c
      if ( n == 2 && dimens[0] == -1 && dimens[1] > -1) {
           parse_equal(input);
 
-          n_layers = xrtm_get_n_derivs(input->d);
+          n_layers = xrtm_get_n_layers(input->d);
 
           x1 = parse_array1_string(input, n_layers);
 
-- 
2.43.0


From 6906a0adee66df5cb4b1370bddfe69eb0dbd50f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:06 +0000
Subject: [PATCH 101/131] fix: check the fd method and require fd for
 perturbation statements

---
 utils/input_util.c | 22 +++++++++++++++++++---
 utils/input_util.h |  1 +
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index 86a4277..bec680b 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1976,6 +1976,10 @@ static void input_parse1(input_data *input) {
                case INPUT_OPTION_FD:
                     parse_equal(input);
                     fd_method = parse_scaler_int(input);
+                    if (fd_method < 0 || fd_method >= N_XRTM_FD_METHOD_TYPES) {
+                         input_error(&input->locus, "invalid fd method: %d", fd_method);
+                         exit(1);
+                    }
                     flag = 1;
                     break;
                case XRTM_INPUT_OPTIONS:
@@ -2046,7 +2050,7 @@ static void input_parse1(input_data *input) {
                     n_out_thetas = parse_scaler_int(input);
                     break;
                default:
-                    if (r >= XRTM_INPUT_DOUB_D_TAU && r <= XRTM_INPUT_KERNEL_PARAMS_L) {
+                    if (r >= XRTM_INPUT_DOUB_D_TAU && r <= XRTM_INPUT_KERNEL_PARAMS_P) {
                          yyrewind(r, &lex_type);
                          goto L1;
                     }
@@ -2086,7 +2090,7 @@ L1:  if (flag && options & XRTM_OPTION_CALC_DERIVS) {
           }
      }
 
-     misc_init(input->d, input->md, fd_method);
+     misc_init2(input->d, input->md, flag ? n_derivs3 : n_derivs2, fd_method);
 
      free_array1_i(kernels);
 
@@ -2111,6 +2115,11 @@ static void input_parse2(input_data *input) {
           n_derivs = xrtm_fd_get_n_derivs(input->fd);
 
      while ((r = yylex(&input->locus, &lex_type))) {
+          if (r >= XRTM_INPUT_DELTA && r <= XRTM_INPUT_KERNEL_PARAMS_P && input->md->fd_method < 0) {
+               input_error(&input->locus, "requires \"fd\"");
+               exit(1);
+          }
+
           switch(r) {
                case XRTM_INPUT_DOUB_D_TAU:
                     parse_scaler_param_double(input, "doub_d_tau", xrtm_set_doub_d_tau);
@@ -2311,11 +2320,18 @@ static void input_free(input_data *input) {
  ******************************************************************************/
 void misc_init(xrtm_data *d, misc_data *md, int fd_method) {
 
+     misc_init2(d, md, xrtm_get_n_derivs(d), fd_method);
+}
+
+
+
+void misc_init2(xrtm_data *d, misc_data *md, int n_derivs, int fd_method) {
+
      int i;
      int j;
 
      md->n_layers = xrtm_get_n_layers(d);
-     md->n_derivs = xrtm_get_n_derivs(d);
+     md->n_derivs = n_derivs;
 
      md->fd_method = fd_method;
 
diff --git a/utils/input_util.h b/utils/input_util.h
index dbf4398..8190b0a 100644
--- a/utils/input_util.h
+++ b/utils/input_util.h
@@ -28,6 +28,7 @@ typedef struct {
 
 
 void misc_init(xrtm_data *d, misc_data *md, int fd_method);
+void misc_init2(xrtm_data *d, misc_data *md, int n_derivs, int fd_method);
 void misc_free(misc_data *md);
 
 int xrtm_sread_input(xrtm_data *d, xrtm_fd_data *fd, misc_data *md, char *s, int use_aligned, int use_array2, int use_dash, int use_equal);
-- 
2.43.0


From c5651ba542da0101f1b51c29bad56a62b14d6650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:07 +0000
Subject: [PATCH 102/131] fix: refuse a negative number of finite difference
 derivatives

---
 src/xrtm_fd_interface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 3534f0f..1ecfb7c 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -61,6 +61,11 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
 
      }
 
+     if (n_derivs < 0) {
+          fprintf(stderr, "ERROR: invalid value for n_derivs: %d, must be >= zero\n", n_derivs);
+          return -1;
+     }
+
 
      /*-------------------------------------------------------------------------
       *
-- 
2.43.0


From f6aab39b1001a440b4520f791c843dce9ceb2383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:08 +0000
Subject: [PATCH 103/131] fix: separate input and default settings in callxrtm
 string mode

---
 utils/callxrtm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/callxrtm.c b/utils/callxrtm.c
index 134e3f4..096f946 100644
--- a/utils/callxrtm.c
+++ b/utils/callxrtm.c
@@ -276,6 +276,7 @@ int main(int argc, char *argv[]) {
 
           for (i = 0; i < n2; ++i)
                input3[ii++] = input   [i];
+          input3[ii++] = ' ';
 
           for (i = 0; i < n21; ++i)
                input3[ii++] = defaults2[i];
-- 
2.43.0


From c7ef65168d74d1e9e63144a0bec1dcd7fbe1d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:09 +0000
Subject: [PATCH 104/131] fix: print mean radiance and flux derivatives from
 callxrtm

---
 utils/callxrtm.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/utils/callxrtm.c b/utils/callxrtm.c
index 096f946..4efac2d 100644
--- a/utils/callxrtm.c
+++ b/utils/callxrtm.c
@@ -599,15 +599,9 @@ int main(int argc, char *argv[]) {
                     if (o.derivs) {
                          for (m = 0; m < n_derivs; ++m) {
                               if (output_up)
-                                   printf("%14e", 0.);
-/*
                                    printf("%14e", mean_p_l[i][m]);
-*/
                               if (output_down)
-                                   printf("%14e", 0.);
-/*
                                    printf("%14e", mean_m_l[i][m]);
-*/
                          }
                     }
                     printf("\n");
@@ -649,15 +643,9 @@ int main(int argc, char *argv[]) {
                     if (o.derivs) {
                          for (m = 0; m < n_derivs; ++m) {
                               if (output_up)
-                                   printf("%14e", 0.);
-/*
                                    printf("%14e", flux_p_l[i][m]);
-*/
                               if (output_down)
-                                   printf("%14e", 0.);
-/*
                                    printf("%14e", flux_m_l[i][m]);
-*/
                          }
                     }
                     printf("\n");
-- 
2.43.0


From b0bcafd7ccdf4e3549f32324ab3fa23d7e5b3839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:11 +0000
Subject: [PATCH 105/131] fix: use the fd method of the input and only the
 outputs asked for in callxrtm

---
 utils/callxrtm.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/utils/callxrtm.c b/utils/callxrtm.c
index 4efac2d..2e3fa17 100644
--- a/utils/callxrtm.c
+++ b/utils/callxrtm.c
@@ -104,24 +104,24 @@ int main(int argc, char *argv[]) {
 
      double *out_taus;
 
-     double ****I_p;
-     double ****I_m;
+     double ****I_p = NULL;
+     double ****I_m = NULL;
 
-     double *****I_p_l;
-     double *****I_m_l;
+     double *****I_p_l = NULL;
+     double *****I_m_l = NULL;
 
-     double *mean_p;
-     double *mean_m;
-     double **mean_p_l;
-     double **mean_m_l;
+     double *mean_p = NULL;
+     double *mean_m = NULL;
+     double **mean_p_l = NULL;
+     double **mean_m_l = NULL;
 
-     double *flux_p;
-     double *flux_m;
-     double **flux_p_l;
-     double **flux_m_l;
+     double *flux_p = NULL;
+     double *flux_m = NULL;
+     double **flux_p_l = NULL;
+     double **flux_m_l = NULL;
 
-     double *flux_div;
-     double **flux_div_l;
+     double *flux_div = NULL;
+     double **flux_div_l = NULL;
 
      clock_t time1;
      clock_t time2;
@@ -458,7 +458,7 @@ int main(int argc, char *argv[]) {
           }
      }
      else {
-          if (xrtm_fd_solution(&fd, (enum xrtm_solver_mask) solver, solutions, XRTM_FD_METHOD_CENTRAL, n_out_phis, out_phis2, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l)) {
+          if (xrtm_fd_solution(&fd, (enum xrtm_solver_mask) solver, solutions, (enum xrtm_fd_method_type) md.fd_method, n_out_phis, out_phis2, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l)) {
                fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
                exit(1);
           }
@@ -483,7 +483,7 @@ int main(int argc, char *argv[]) {
                     }
                }
                else {
-                    if (xrtm_fd_solution(&fd, (enum xrtm_solver_mask) solver, solutions, XRTM_FD_METHOD_CENTRAL, n_out_phis, out_phis2, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l)) {
+                    if (xrtm_fd_solution(&fd, (enum xrtm_solver_mask) solver, solutions, (enum xrtm_fd_method_type) md.fd_method, n_out_phis, out_phis2, I_p, I_m, I_p_l, I_m_l, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l)) {
                          fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
                          exit(1);
                     }
-- 
2.43.0


From b34c20bb4e8d667140f0700e645d49bb0465c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:13 +0000
Subject: [PATCH 106/131] fix: print coef_l per layer and derivative by file
 name or number

---
 utils/input_util.c | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/utils/input_util.c b/utils/input_util.c
index bec680b..4773643 100644
--- a/utils/input_util.c
+++ b/utils/input_util.c
@@ -1808,42 +1808,48 @@ static int print_coef_l(FILE *fp, format_data *f, xrtm_data *d, misc_data *md) {
      int n_derivs;
      int n_layers;
 
-     double ***x3;
+     int dimens[2];
+
+     double **x2;
 
      n_elem   = xrtm_get_options(d) & XRTM_OPTION_VECTOR ? 6 : 1;
      n_coef   = xrtm_get_max_coef(d);
      n_derivs = xrtm_get_n_derivs(d);
      n_layers = xrtm_get_n_layers(d);
 
-     x3 = alloc_array3_d(n_derivs, n_coef, n_elem);
+     x2 = alloc_array2_d(n_coef, n_elem);
 
      for (i = 0; i < n_layers; ++i) {
-          if (! md || ! md->coef_files[i]) {
-               n_coef2 = xrtm_get_n_coef(d, i);
+          n_coef2 = xrtm_get_n_coef(d, i);
 
-               for (j = 0; j < n_derivs; ++j) {
+          for (j = 0; j < n_derivs; ++j) {
+               dimens[0] = i;
+               dimens[1] = j;
+
+               if (! md || ! md->coef_files_l[i][j]) {
                     for (k = 0; k < n_elem; ++k) {
                          for (l = 0; l < n_coef2; ++l) {
-                              if ((x3[j][l][k] = xrtm_get_coef_l(d, i, j, k, l)) == XRTM_DBL_ERROR) {
+                              if ((x2[l][k] = xrtm_get_coef_l(d, i, j, k, l)) == XRTM_DBL_ERROR) {
                                    fprintf(stderr, "ERROR: xrtm_get_coef_l(), i_layer = %d, i_deriv = %d, i_elem = %d, i_coef = %d\n", i, j, k, l);
+                                   free_array2_d(x2);
                                    return -1;
                               }
                          }
                     }
-               }
 
-               print_lhs_dimens(fp, f, "coef_l", 1, &i);
-               print_array3_double(fp, f, x3, n_derivs, n_coef2, n_elem);
-               fprintf(fp, "%c", f->nl);
-          }
-          else {
-               print_lhs_dimens(fp, f, "coef_files_l", 1, &i);
-               print_array1_string(fp, f, md->coef_files_l[i], n_derivs);
-               fprintf(fp, "%c", f->nl);
+                    print_lhs_dimens(fp, f, "coef_l", 2, dimens);
+                    print_array2_double(fp, f, x2, n_coef2, n_elem);
+                    fprintf(fp, "%c", f->nl);
+               }
+               else {
+                    print_lhs_dimens(fp, f, "coef_files_l", 2, dimens);
+                    fprintf(fp, "\'%s\'", md->coef_files_l[i][j]);
+                    fprintf(fp, "%c", f->nl);
+               }
           }
      }
 
-     free_array3_d(x3);
+     free_array2_d(x2);
 
      return 0;
 }
-- 
2.43.0


From 21f62165b0730b9e63b6473d0fdbb8a04027b7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:14 +0000
Subject: [PATCH 107/131] fix: restore the inputs after a finite difference
 solution, also on error

---
 src/xrtm_fd_interface.c | 272 +++++++++++++++++++++++++++-------------
 1 file changed, 186 insertions(+), 86 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 1ecfb7c..945c092 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -993,106 +993,195 @@ double xrtm_fd_get_kernel_params_p(xrtm_fd_data *d, int i_kernel, int i_deriv, i
 /*******************************************************************************
  *
  ******************************************************************************/
-static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver, double f, double **coef) {
+typedef struct {
+     double F_iso_top;
+     double F_iso_bot;
+     double *levels_b;
+     double surface_b;
+     double *g;
+     double ***coef;
+     double *omega;
+     double *ltau;
+     double *kernel_ampfac;
+     double **kernel_params;
+} fd_values_data;
+
+
+static void save_values(xrtm_fd_data *d, enum xrtm_solver_mask solver, fd_values_data *v) {
 
      int i;
      int k;
      int l;
 
      int n_coef_layer;
+     int n_params;
+
+     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
+          v->F_iso_top = xrtm_get_F_iso_top(d->d);
+          v->F_iso_bot = xrtm_get_F_iso_bot(d->d);
+
+          v->levels_b = alloc_array1_d(d->d->n_layers + 1);
+          xrtm_get_levels_b(d->d, v->levels_b);
+
+          v->surface_b = xrtm_get_surface_b(d->d);
+     }
+
+     if (solver & XRTM_SOLVERS_USE_G) {
+          v->g = alloc_array1_d(d->d->n_layers);
+          for (i = 0; i < d->d->n_layers; ++i)
+               v->g[i] = xrtm_get_g(d->d, i);
+     }
+     else {
+          v->coef = alloc_array3_d(d->d->n_layers, d->d->n_elem, d->d->n_coef);
+          for (i = 0; i < d->d->n_layers; ++i) {
+               n_coef_layer = xrtm_get_n_coef(d->d, i);
+
+               for (k = 0; k < d->d->n_elem; ++k) {
+                    for (l = 0; l < n_coef_layer; ++l)
+                         v->coef[i][k][l] = xrtm_get_coef(d->d, i, k, l);
+               }
+          }
+     }
+
+     v->omega = alloc_array1_d(d->d->n_layers);
+     v->ltau  = alloc_array1_d(d->d->n_layers);
+     for (i = 0; i < d->d->n_layers; ++i) {
+          v->omega[i] = xrtm_get_omega(d->d, i);
+          v->ltau [i] = xrtm_get_ltau (d->d, i);
+     }
+
+     if (d->d->n_kernels > 0) {
+          v->kernel_ampfac = alloc_array1_d(d->d->n_kernels);
+          v->kernel_params = alloc_array2_d(d->d->n_kernels, MAX_KERNEL_PARAMS);
+          for (i = 0; i < d->d->n_kernels; ++i) {
+               v->kernel_ampfac[i] = xrtm_get_kernel_ampfac(d->d, i);
+
+               n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i]);
+
+               for (k = 0; k < n_params; ++k)
+                    v->kernel_params[i][k] = xrtm_get_kernel_params(d->d, i, k);
+          }
+     }
+}
+
+
+
+static void free_values(xrtm_fd_data *d, enum xrtm_solver_mask solver, fd_values_data *v) {
+
+     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL)
+          free_array1_d(v->levels_b);
+
+     if (solver & XRTM_SOLVERS_USE_G)
+          free_array1_d(v->g);
+     else
+          free_array3_d(v->coef);
+
+     free_array1_d(v->omega);
+     free_array1_d(v->ltau);
+
+     if (d->d->n_kernels > 0) {
+          free_array1_d(v->kernel_ampfac);
+          free_array2_d(v->kernel_params);
+     }
+}
+
+
+
+/* set the inputs to the saved values perturbed by f times perturbation j or, for j < 0, to the saved values */
+#define PERTURBED(x, x_p) (j < 0 ? (x) : (x) + f * (x_p))
+
+static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver, double f, fd_values_data *v, double **coef) {
+
+     int i;
+     int k;
+     int l;
 
+     int n_coef_layer;
      int n_params;
 
      double *levels_b;
 
      if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
-           if (xrtm_set_F_iso_top(d->d, xrtm_get_F_iso_top(d->d) + f * d->F_iso_top_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
-                return -1;
-           }
+          if (xrtm_set_F_iso_top(d->d, PERTURBED(v->F_iso_top, d->F_iso_top_p[j]))) {
+               fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
+               return -1;
+          }
 
-           if (xrtm_set_F_iso_bot(d->d, xrtm_get_F_iso_bot(d->d) + f * d->F_iso_bot_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
-                return -1;
-           }
+          if (xrtm_set_F_iso_bot(d->d, PERTURBED(v->F_iso_bot, d->F_iso_bot_p[j]))) {
+               fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
+               return -1;
+          }
 
-           levels_b = alloc_array1_d(d->d->n_layers + 1);
+          levels_b = alloc_array1_d(d->d->n_layers + 1);
 
-           if (xrtm_get_levels_b(d->d, levels_b)) {
-                fprintf(stderr, "ERROR: xrtm_get_levels_b()\n");
-                return -1;
-           }
+          for (i = 0; i < d->d->n_layers + 1; ++i)
+               levels_b[i] = PERTURBED(v->levels_b[i], d->levels_b_p[i][j]);
 
-           for (i = 0; i < d->d->n_layers + 1; ++i) {
-                levels_b[i] += f * d->levels_b_p[i][j];
-           }
+          if (xrtm_set_levels_b(d->d, levels_b)) {
+               fprintf(stderr, "ERROR: xrtm_set_levels_b()\n");
+               free_array1_d(levels_b);
+               return -1;
+          }
 
-           if (xrtm_set_levels_b(d->d, levels_b)) {
-                fprintf(stderr, "ERROR: xrtm_set_levels_b()\n");
-                return -1;
-           }
+          free_array1_d(levels_b);
 
-           free_array1_d(levels_b);
+          if (xrtm_set_surface_b(d->d, PERTURBED(v->surface_b, d->surface_b_p[j]))) {
+               fprintf(stderr, "ERROR: xrtm_set_surface_b()\n");
+               return -1;
+          }
+     }
 
+     if (solver & XRTM_SOLVERS_USE_G) {
+          for (i = 0; i < d->d->n_layers; ++i) {
+               if (xrtm_set_g_1(d->d, i, PERTURBED(v->g[i], d->g_p[i][j]))) {
+                    fprintf(stderr, "ERROR: xrtm_set_g_1()\n");
+                    return -1;
+               }
+          }
+     }
+     else {
+          for (i = 0; i < d->d->n_layers; ++i) {
+               n_coef_layer = xrtm_get_n_coef(d->d, i);
 
-           if (xrtm_set_surface_b(d->d, xrtm_get_surface_b(d->d) + f * d->surface_b_p[j])) {
-                fprintf(stderr, "ERROR: xrtm_set_surface_b()\n");
-                return -1;
-           }
+               for (k = 0; k < d->d->n_elem; ++k) {
+                    for (l = 0; l < n_coef_layer; ++l)
+                         coef[k][l] = PERTURBED(v->coef[i][k][l], d->coef_p[i][j][k][l]);
+               }
+
+               if (xrtm_set_coef_1(d->d, i, n_coef_layer, coef)) {
+                    fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
+                    return -1;
+               }
+          }
      }
 
-     if (solver & XRTM_SOLVERS_USE_G) {
-           for (i = 0; i < d->d->n_layers; ++i) {
-                if (xrtm_set_g_1(d->d, i, xrtm_get_g(d->d, i) + f * d->g_p[i][j])) {
-                     fprintf(stderr, "ERROR: xrtm_set_g_1()\n");
-                     return -1;
-                }
-           }
-      }
-      else {
-           for (i = 0; i < d->d->n_layers; ++i) {
-                n_coef_layer = xrtm_get_n_coef(d->d, i);
-
-                for (k = 0; k < d->d->n_elem; ++k) {
-                     for (l = 0; l < n_coef_layer; ++l) {
-                          coef[k][l] = xrtm_get_coef(d->d, i, k, l) + f * d->coef_p[i][j][k][l];
-                     }
-                }
-
-                if (xrtm_set_coef_1(d->d, i, n_coef_layer, coef)) {
-                     fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
-                     return -1;
-                }
-           }
-      }
-
-      for (i = 0; i < d->d->n_layers; ++i) {
-           if (xrtm_set_omega_1(d->d, i, xrtm_get_omega(d->d, i) + f * d->omega_p[i][j])) {
-                fprintf(stderr, "ERROR: xrtm_set_omega_1()\n");
-                return -1;
-           }
-      }
-
-      for (i = 0; i < d->d->n_layers; ++i) {
-           if (xrtm_set_ltau_1(d->d,  i, xrtm_get_ltau(d->d, i)  + f * d->ltau_p [i][j])) {
-                fprintf(stderr, "ERROR: xrtm_set_ltau_1()\n");
-                return -1;
-           }
+     for (i = 0; i < d->d->n_layers; ++i) {
+          if (xrtm_set_omega_1(d->d, i, PERTURBED(v->omega[i], d->omega_p[i][j]))) {
+               fprintf(stderr, "ERROR: xrtm_set_omega_1()\n");
+               return -1;
+          }
+     }
+
+     for (i = 0; i < d->d->n_layers; ++i) {
+          if (xrtm_set_ltau_1(d->d, i, PERTURBED(v->ltau[i], d->ltau_p[i][j]))) {
+               fprintf(stderr, "ERROR: xrtm_set_ltau_1()\n");
+               return -1;
+          }
      }
 
      for (i = 0; i < d->d->n_kernels; ++i) {
-          if (xrtm_set_kernel_ampfac(d->d, i, xrtm_get_kernel_ampfac(d->d, i) + f * d->kernel_ampfac_p[i][j])) {
-                fprintf(stderr, "ERROR: xrtm_set_ampfac()\n");
-                return -1;
+          if (xrtm_set_kernel_ampfac(d->d, i, PERTURBED(v->kernel_ampfac[i], d->kernel_ampfac_p[i][j]))) {
+               fprintf(stderr, "ERROR: xrtm_set_ampfac()\n");
+               return -1;
           }
 
           n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i]);
 
           for (k = 0; k < n_params; ++k) {
-                if (xrtm_set_kernel_params_1(d->d, i, k, xrtm_get_kernel_params(d->d, i, k) + f * d->kernel_params_p[i][j][k])) {
-                      fprintf(stderr, "ERROR: xrtm_set_kernel_param_1()\n");
-                      return -1;
-                }
+               if (xrtm_set_kernel_params_1(d->d, i, k, PERTURBED(v->kernel_params[i][k], d->kernel_params_p[i][j][k]))) {
+                    fprintf(stderr, "ERROR: xrtm_set_kernel_param_1()\n");
+                    return -1;
+               }
           }
      }
 
@@ -1116,6 +1205,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
 */
      int n_mus2;
 
+     int r;
+
      double f;
 
      double **coef;
@@ -1123,6 +1214,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      double ****I_p2;
      double ****I_m2;
 
+     fd_values_data v;
+
 
      /*-------------------------------------------------------------------------
       *
@@ -1163,6 +1256,11 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      I_m2 = get_work4_d(&work, d->d->n_ulevels, n_out_phis, n_mus2, d->d->n_stokes);
 */
 
+     save_values(d, solver, &v);
+
+     r = -1;
+
+
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
@@ -1174,14 +1272,14 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                if (fd_method == XRTM_FD_METHOD_BACKWARD)
                     f = -1.;
 
-               if (perturb_values(d, j, solver, f, coef)) {
+               if (perturb_values(d, j, solver, f, &v, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    goto L1;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    goto L1;
                }
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
@@ -1201,14 +1299,14 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
            *
            *------------------------------------------------------------------*/
           else {
-               if (perturb_values(d, j, solver,  1., coef)) {
+               if (perturb_values(d, j, solver, 1., &v, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    goto L1;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    goto L1;
                }
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
@@ -1222,14 +1320,14 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     }
                }
 
-               if (perturb_values(d, j, solver, -2., coef)) {
+               if (perturb_values(d, j, solver, -1., &v, coef)) {
                     fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
+                    goto L1;
                }
 
                if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
                     fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    return -1;
+                    goto L1;
                }
 
                for (i = 0; i < d->d->n_ulevels; ++i) {
@@ -1242,26 +1340,28 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                          }
                     }
                }
-
-               if (perturb_values(d, j, solver,  1., coef)) {
-                    fprintf(stderr, "ERROR: perturb_values()\n");
-                    return -1;
-               }
           }
      }
 
+     r = 0;
+
 
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+L1:  if (perturb_values(d, -1, solver, 0., &v, coef)) {
+          fprintf(stderr, "ERROR: perturb_values()\n");
+          r = -1;
+     }
+
+     free_values(d, solver, &v);
 
      free_array2_d(coef);
 
      free_array4_d(I_p2);
      free_array4_d(I_m2);
 
-
-     return 0;
+     return r;
 }
 
 
-- 
2.43.0


From 867901fb016305b8ac15aa5a6146168f12af9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:16 +0000
Subject: [PATCH 108/131] fix: use the backward state in backward differences

---
 src/xrtm_fd_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 945c092..05ef069 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1286,8 +1286,8 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] = (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
-                                   I_m_l[i][j][k][l][m] = (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
+                                   I_p_l[i][j][k][l][m] = f * (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
+                                   I_m_l[i][j][k][l][m] = f * (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
                               }
                          }
                     }
-- 
2.43.0


From 5bf5020442a525cdff48a4de8a64acae6f91b5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:18 +0000
Subject: [PATCH 109/131] fix: compute only the outputs asked for in a finite
 difference solution

---
 src/xrtm_fd_interface.c | 205 +++++++++++++++++++++++-----------------
 1 file changed, 119 insertions(+), 86 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 05ef069..7b847d5 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1190,6 +1190,70 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
 
 
+/*******************************************************************************
+ *
+ ******************************************************************************/
+typedef struct {
+     double ****I_p;
+     double ****I_m;
+     double *mean_p;
+     double *mean_m;
+     double *flux_p;
+     double *flux_m;
+} fd_outputs_data;
+
+
+static void alloc_outputs(xrtm_fd_data *d, int n_mus2, int n_out_phis, fd_outputs_data *o) {
+
+     o->I_p    = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
+     o->I_m    = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
+     o->mean_p = alloc_array1_d(d->d->n_ulevels);
+     o->mean_m = alloc_array1_d(d->d->n_ulevels);
+     o->flux_p = alloc_array1_d(d->d->n_ulevels);
+     o->flux_m = alloc_array1_d(d->d->n_ulevels);
+}
+
+
+
+static void free_outputs(fd_outputs_data *o) {
+
+     free_array4_d(o->I_p);
+     free_array4_d(o->I_m);
+     free_array1_d(o->mean_p);
+     free_array1_d(o->mean_m);
+     free_array1_d(o->flux_p);
+     free_array1_d(o->flux_m);
+}
+
+
+
+static int perturbed_solution(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver, int solutions, double f, fd_values_data *v, double **coef, int n_out_phis, double **out_phis, fd_outputs_data *o) {
+
+     if (perturb_values(d, j, solver, f, v, coef)) {
+          fprintf(stderr, "ERROR: perturb_values()\n");
+          return -1;
+     }
+
+     if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, o->I_p, o->I_m, NULL, NULL, o->mean_p, o->mean_m, NULL, NULL, o->flux_p, o->flux_m, NULL, NULL, NULL, NULL)) {
+          fprintf(stderr, "ERROR: xrtm_solution()\n");
+          return -1;
+     }
+
+     return 0;
+}
+
+
+
+static void difference_levels(xrtm_fd_data *d, int j, double *a, double *b, double **x_l) {
+
+     int i;
+
+     for (i = 0; i < d->d->n_ulevels; ++i)
+          x_l[i][j] = (a[i] - b[i]) / d->delta[j];
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -1200,61 +1264,66 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
      int k;
      int l;
      int m;
-/*
-     int n_quad_x;
-*/
+
      int n_mus2;
 
      int r;
 
-     double f;
+     int upwelling;
+     int downwelling;
 
      double **coef;
 
-     double ****I_p2;
-     double ****I_m2;
-
      fd_values_data v;
 
+     fd_outputs_data base;
+     fd_outputs_data o1;
+     fd_outputs_data o2;
+
+     fd_outputs_data *a;
+     fd_outputs_data *b;
+
 
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-/*
-     n_quad_x = d->d->n_quad + d->d->n_umus;
-*/
+     if (solutions & XRTM_OUTPUT_FLUX_DIVERGENCE) {
+          fprintf(stderr, "ERROR: flux_divergence not yet supported as an output\n");
+          return -1;
+     }
+
      if (d->d->n_umus == 0)
           n_mus2  = d->d->n_quad;
      else
           n_mus2  = d->d->n_umus;
-/*
-     else
-          n_mus2  = n_quad_x;
-*/
+
+     upwelling   = d->d->options & XRTM_OPTION_UPWELLING_OUTPUT;
+     downwelling = d->d->options & XRTM_OPTION_DOWNWELLING_OUTPUT;
 
 
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
-     if (xrtm_radiance(d->d, solver, n_out_phis, out_phis, I_p, I_m, NULL, NULL)) {
-          fprintf(stderr, "ERROR: xrtm_radiance()\n");
+     if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p, I_m, NULL, NULL, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, NULL, NULL)) {
+          fprintf(stderr, "ERROR: xrtm_solution()\n");
           return -1;
      }
 
+     base.I_p    = I_p;
+     base.I_m    = I_m;
+     base.mean_p = mean_p;
+     base.mean_m = mean_m;
+     base.flux_p = flux_p;
+     base.flux_m = flux_m;
+
 
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
      coef = alloc_array2_d(d->d->n_elem, d->d->n_coef);
 
-     I_p2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
-     I_m2 = alloc_array4_d(d->d->n_ulevels, n_mus2, n_out_phis, d->d->n_stokes);
-/*
-     coef = get_work2_d(&work, d->d->n_elem, d->d->n_coef);
-
-     I_p2 = get_work4_d(&work, d->d->n_ulevels, n_out_phis, n_mus2, d->d->n_stokes);
-     I_m2 = get_work4_d(&work, d->d->n_ulevels, n_out_phis, n_mus2, d->d->n_stokes);
-*/
+     alloc_outputs(d, n_mus2, n_out_phis, &o1);
+     alloc_outputs(d, n_mus2, n_out_phis, &o2);
 
      save_values(d, solver, &v);
 
@@ -1265,81 +1334,45 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
       *
       *-----------------------------------------------------------------------*/
      for (j = 0; j < d->n_derivs; ++j) {
-          if (fd_method == XRTM_FD_METHOD_FORWARD || fd_method == XRTM_FD_METHOD_BACKWARD) {
-               if (fd_method == XRTM_FD_METHOD_FORWARD)
-                    f =  1.;
-               else
-               if (fd_method == XRTM_FD_METHOD_BACKWARD)
-                    f = -1.;
-
-               if (perturb_values(d, j, solver, f, &v, coef)) {
-                    fprintf(stderr, "ERROR: perturb_values()\n");
-                    goto L1;
-               }
-
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
-                    fprintf(stderr, "ERROR: xrtm_solution()\n");
+          a = &base;
+          if (fd_method != XRTM_FD_METHOD_BACKWARD) {
+               if (perturbed_solution(d, j, solver, solutions,  1., &v, coef, n_out_phis, out_phis, &o1))
                     goto L1;
-               }
-
-               for (i = 0; i < d->d->n_ulevels; ++i) {
-                    for (k = 0; k < n_mus2; ++k) {
-                         for (l = 0; l < n_out_phis; ++l) {
-                              for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] = f * (I_p2[i][k][l][m] - I_p[i][k][l][m]) / d->delta[j];
-                                   I_m_l[i][j][k][l][m] = f * (I_m2[i][k][l][m] - I_m[i][k][l][m]) / d->delta[j];
-                              }
-                         }
-                    }
-               }
+               a = &o1;
           }
 
-
-          /*--------------------------------------------------------------------
-           *
-           *------------------------------------------------------------------*/
-          else {
-               if (perturb_values(d, j, solver, 1., &v, coef)) {
-                    fprintf(stderr, "ERROR: perturb_values()\n");
-                    goto L1;
-               }
-
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
-                    fprintf(stderr, "ERROR: xrtm_solution()\n");
+          b = &base;
+          if (fd_method != XRTM_FD_METHOD_FORWARD) {
+               if (perturbed_solution(d, j, solver, solutions, -1., &v, coef, n_out_phis, out_phis, &o2))
                     goto L1;
-               }
+               b = &o2;
+          }
 
+          if (solutions & XRTM_OUTPUT_RADIANCE) {
                for (i = 0; i < d->d->n_ulevels; ++i) {
                     for (k = 0; k < n_mus2; ++k) {
                          for (l = 0; l < n_out_phis; ++l) {
                               for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m]  = I_p2[i][k][l][m] / d->delta[j];
-                                   I_m_l[i][j][k][l][m]  = I_m2[i][k][l][m] / d->delta[j];
+                                   I_p_l[i][j][k][l][m] = (a->I_p[i][k][l][m] - b->I_p[i][k][l][m]) / d->delta[j];
+                                   I_m_l[i][j][k][l][m] = (a->I_m[i][k][l][m] - b->I_m[i][k][l][m]) / d->delta[j];
                               }
                          }
                     }
                }
+          }
 
-               if (perturb_values(d, j, solver, -1., &v, coef)) {
-                    fprintf(stderr, "ERROR: perturb_values()\n");
-                    goto L1;
-               }
-
-               if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p2, I_m2, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
-                    fprintf(stderr, "ERROR: xrtm_solution()\n");
-                    goto L1;
-               }
+          if (solutions & XRTM_OUTPUT_RADIANCE_MEAN) {
+               if (upwelling)
+                    difference_levels(d, j, a->mean_p, b->mean_p, mean_p_l);
+               if (downwelling)
+                    difference_levels(d, j, a->mean_m, b->mean_m, mean_m_l);
+          }
 
-               for (i = 0; i < d->d->n_ulevels; ++i) {
-                    for (k = 0; k < n_mus2; ++k) {
-                         for (l = 0; l < n_out_phis; ++l) {
-                              for (m = 0; m < d->d->n_stokes; ++m) {
-                                   I_p_l[i][j][k][l][m] -= I_p2[i][k][l][m] / d->delta[j];
-                                   I_m_l[i][j][k][l][m] -= I_m2[i][k][l][m] / d->delta[j];
-                              }
-                         }
-                    }
-               }
+          if (solutions & XRTM_OUTPUT_FLUX) {
+               if (upwelling)
+                    difference_levels(d, j, a->flux_p, b->flux_p, flux_p_l);
+               if (downwelling)
+                    difference_levels(d, j, a->flux_m, b->flux_m, flux_m_l);
           }
      }
 
@@ -1358,8 +1391,8 @@ L1:  if (perturb_values(d, -1, solver, 0., &v, coef)) {
 
      free_array2_d(coef);
 
-     free_array4_d(I_p2);
-     free_array4_d(I_m2);
+     free_outputs(&o1);
+     free_outputs(&o2);
 
      return r;
 }
-- 
2.43.0


From 833fb5782f4de3fc16d41994190c97f1e33bf42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:19 +0000
Subject: [PATCH 110/131] fix: perturb isotropic boundary sources whatever the
 source

---
 src/xrtm_fd_interface.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 7b847d5..57a904a 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -1016,10 +1016,10 @@ static void save_values(xrtm_fd_data *d, enum xrtm_solver_mask solver, fd_values
      int n_coef_layer;
      int n_params;
 
-     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
-          v->F_iso_top = xrtm_get_F_iso_top(d->d);
-          v->F_iso_bot = xrtm_get_F_iso_bot(d->d);
+     v->F_iso_top = xrtm_get_F_iso_top(d->d);
+     v->F_iso_bot = xrtm_get_F_iso_bot(d->d);
 
+     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
           v->levels_b = alloc_array1_d(d->d->n_layers + 1);
           xrtm_get_levels_b(d->d, v->levels_b);
 
@@ -1101,17 +1101,17 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
      double *levels_b;
 
-     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
-          if (xrtm_set_F_iso_top(d->d, PERTURBED(v->F_iso_top, d->F_iso_top_p[j]))) {
-               fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
-               return -1;
-          }
+     if (xrtm_set_F_iso_top(d->d, PERTURBED(v->F_iso_top, d->F_iso_top_p[j]))) {
+          fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
+          return -1;
+     }
 
-          if (xrtm_set_F_iso_bot(d->d, PERTURBED(v->F_iso_bot, d->F_iso_bot_p[j]))) {
-               fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
-               return -1;
-          }
+     if (xrtm_set_F_iso_bot(d->d, PERTURBED(v->F_iso_bot, d->F_iso_bot_p[j]))) {
+          fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
+          return -1;
+     }
 
+     if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
           levels_b = alloc_array1_d(d->d->n_layers + 1);
 
           for (i = 0; i < d->d->n_layers + 1; ++i)
-- 
2.43.0


From dd0c2d31c30eb1f34e9483558d11c4d13fd1ef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:21 +0000
Subject: [PATCH 111/131] fix: initialise finite difference deltas and refuse a
 zero one

---
 src/xrtm_fd_interface.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 57a904a..ba0f2da 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -113,6 +113,8 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     init_array1_d(fd->delta, fd->n_derivs, 0.);
+
      init_array1_d(fd->F_iso_top_p, fd->n_derivs, 0.);
      init_array1_d(fd->F_iso_bot_p, fd->n_derivs, 0.);
 
@@ -1292,6 +1294,13 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
           return -1;
      }
 
+     for (j = 0; j < d->n_derivs; ++j) {
+          if (d->delta[j] == 0.) {
+               fprintf(stderr, "ERROR: delta[%d] not set\n", j);
+               return -1;
+          }
+     }
+
      if (d->d->n_umus == 0)
           n_mus2  = d->d->n_quad;
      else
-- 
2.43.0


From 1c9e1a635bd2be03066dfd705a8a0297a50f5897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:09 +0000
Subject: [PATCH 112/131] fix: set the level perturbations of the derivative
 asked for

---
 src/xrtm_fd_interface.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index ba0f2da..5adb056 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -317,7 +317,6 @@ double xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {
 int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 
      int i;
-     int j;
 
      if (! (d->d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
@@ -326,8 +325,10 @@ int xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_p) {
 /*
      CHECK_INIT_FOR_DERIVS();
 */
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+
      for (i = 0; i < d->d->n_layers + 1; ++i)
-          d->levels_b_p[i][j] = levels_b_p[i_deriv];
+          d->levels_b_p[i][i_deriv] = levels_b_p[i];
 /*
      set_deps(d, DEP_MASK_LEVELS_B_L, 0, d->n_layers);
 */
-- 
2.43.0


From 96e7a26a3c34ff9d5aa9e3f0969a26eda3558614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:10 +0000
Subject: [PATCH 113/131] fix: check the indexes of the perturbation getters

---
 src/xrtm_fd_interface.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index 5adb056..b961d74 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -265,7 +265,7 @@ int xrtm_fd_set_F_iso_top_p_n(xrtm_fd_data *d, double *F_iso_top_p) {
 
 double xrtm_fd_get_F_iso_top_p(xrtm_fd_data *d, int i_deriv) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->F_iso_top_p[i_deriv];
 }
@@ -304,7 +304,7 @@ int xrtm_fd_set_F_iso_bot_p_n(xrtm_fd_data *d, double *F_iso_bot_p) {
 
 double xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->F_iso_bot_p[i_deriv];
 }
@@ -427,7 +427,7 @@ double xrtm_fd_get_surface_b_p(xrtm_fd_data *d, int i_deriv) {
           return XRTM_DBL_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", -1);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
 
      return d->surface_b_p[i_deriv];
 
@@ -657,8 +657,8 @@ double xrtm_fd_get_coef_p(xrtm_fd_data *d, int i_layer, int i_deriv, int i_elem,
 
      CHECK_INDEX_RANGE(i_layer, d->d->n_layers,              "i_layer", "n_layers",              XRTM_DBL_ERROR);
      CHECK_INDEX_RANGE(i_deriv, d->n_derivs,                 "i_deriv", "n_derivs",              XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_elem,  6,                           "i_elem",  "6",                     XRTM_DBL_ERROR);
-     CHECK_INDEX_RANGE(i_layer, d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_elem,  d->d->n_elem,                "i_elem",  "n_elem",                XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_coef,  d->d->n_coef_layer[i_layer], "i_coef",  "n_coef_layer[i_layer]", XRTM_DBL_ERROR);
 
      return d->coef_p[i_layer][i_deriv][i_elem][i_coef];
 }
-- 
2.43.0


From 4b86adf7e211d29219bc442e051f740e9dd12718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:13 +0000
Subject: [PATCH 114/131] fix: do not write to arrays without elements

---
 misc/gutil_alloc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/misc/gutil_alloc.c b/misc/gutil_alloc.c
index 6383e01..d01aec6 100644
--- a/misc/gutil_alloc.c
+++ b/misc/gutil_alloc.c
@@ -40,7 +40,7 @@ size_t array_mem_length(int rank, size_t *dimen, size_t size) {
  ******************************************************************************/
 static void **ptr_array_init(void **a, int rank, size_t *dimen, int length) {
 
-     if (rank > 0)
+     if (rank > 0 && length > 0)
           a[0] = ptr_array_init(a + length, rank - 1, dimen + 1, length * dimen[0]);
 
      return a;
@@ -97,6 +97,9 @@ static void *ptr_array_realloc(void **a1, int rank, size_t *dimen, int size, int
  ******************************************************************************/
 static void *from_mem_ptr_array(void **a, void *a2, int rank, size_t *dimen, int length) {
 
+     if (length == 0)
+          return (void *) a;
+
      if (rank == 1)
           a[0] = a2;
      else
@@ -274,6 +277,9 @@ void copy_array(void *a2, void *a1, int rank, size_t *dimen, int size) {
      size_t length = dimen[0];
 
      for (i = 1; i < rank; ++i) {
+          if (length == 0)
+               return;
+
           length *= dimen[i];
 
           a1 = *(void **) a1;
-- 
2.43.0


From 911126aae9625c7590d63f5e3e0b16d68766c9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:43 +0000
Subject: [PATCH 115/131] fix: array_from_mem() hands out the caller's memory,
 which is then freed, when the first dimension is zero

---
 misc/gutil_alloc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/misc/gutil_alloc.c b/misc/gutil_alloc.c
index d01aec6..a904364 100644
--- a/misc/gutil_alloc.c
+++ b/misc/gutil_alloc.c
@@ -116,11 +116,11 @@ static void *ptr_array_from_mem(void *a2, int rank, size_t *dimen, int depth, in
 
      void *a;
 
-     length = array_mem_length(rank, dimen, 0);
-
-     if (length == 0)
+     if (rank == 1)
           return a2;
 
+     length = array_mem_length(rank, dimen, 0);
+
      if (! flag) {
           a = a2;
 
-- 
2.43.0


From 85ef57f05ef0efe504b89d78e8d215817b19771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:48 +0000
Subject: [PATCH 116/131] fix: Fortran 77: return the values of the get
 functions

---
 interfaces/xrtm_fd_int_f77.f      |  20 +--
 interfaces/xrtm_fd_int_f77_util.c |  66 ++-------
 interfaces/xrtm_int_f77.f         |  50 +++----
 interfaces/xrtm_int_f77_util.c    | 234 +++++-------------------------
 4 files changed, 85 insertions(+), 285 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77.f b/interfaces/xrtm_fd_int_f77.f
index 5794ae0..0f1eb0d 100644
--- a/interfaces/xrtm_fd_int_f77.f
+++ b/interfaces/xrtm_fd_int_f77.f
@@ -78,7 +78,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_F_iso_top_p_bindx_f77
+      real*8 xrtm_fd_get_F_iso_top_p_bindx_f77
       xrtm_fd_get_F_iso_top_p_f77 = xrtm_fd_get_F_iso_top_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_F_iso_top_p_f77
@@ -111,7 +111,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_F_iso_bot_p_bindx_f77
+      real*8 xrtm_fd_get_F_iso_bot_p_bindx_f77
       xrtm_fd_get_F_iso_bot_p_f77 = xrtm_fd_get_F_iso_bot_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_F_iso_bot_p_f77
@@ -144,7 +144,7 @@ c***********************************************************************
       byte d(*)
       integer i_deriv
       real*8 levels_b_l(*)
-      integer xrtm_fd_get_levels_b_p_bindx_f77
+      real*8 xrtm_fd_get_levels_b_p_bindx_f77
       xrtm_fd_get_levels_b_p_f77 = xrtm_fd_get_levels_b_p_bindx_f77(d,
      &i_deriv, levels_b_l)
       end function xrtm_fd_get_levels_b_p_f77
@@ -177,7 +177,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_fd_get_surface_b_p_bindx_f77
+      real*8 xrtm_fd_get_surface_b_p_bindx_f77
       xrtm_fd_get_surface_b_p_f77 = xrtm_fd_get_surface_b_p_bindx_f77(d,
      &i_deriv)
       end function xrtm_fd_get_surface_b_p_f77
@@ -232,7 +232,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_g_p_bindx_f77
+      real*8 xrtm_fd_get_g_p_bindx_f77
       xrtm_fd_get_g_p_f77 = xrtm_fd_get_g_p_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_fd_get_g_p_f77
@@ -292,7 +292,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_fd_get_coef_p_bindx_f77
+      real*8 xrtm_fd_get_coef_p_bindx_f77
       xrtm_fd_get_coef_p_f77 = xrtm_fd_get_coef_p_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_fd_get_coef_p_f77
@@ -349,7 +349,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_omega_p_bindx_f77
+      real*8 xrtm_fd_get_omega_p_bindx_f77
       xrtm_fd_get_omega_p_f77 = xrtm_fd_get_omega_p_bindx_f77(d,
      &i_layer, i_deriv)
       end function xrtm_fd_get_omega_p_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_fd_get_ltau_p_bindx_f77
+      real*8 xrtm_fd_get_ltau_p_bindx_f77
       xrtm_fd_get_ltau_p_f77 = xrtm_fd_get_ltau_p_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_fd_get_ltau_p_f77
@@ -445,7 +445,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_fd_get_kernel_ampfac_p_bindx_f77
+      real*8 xrtm_fd_get_kernel_ampfac_p_bindx_f77
       xrtm_fd_get_kernel_ampfac_p_f77 =
      &xrtm_fd_get_kernel_ampfac_p_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_fd_get_kernel_ampfac_p_f77
@@ -514,7 +514,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_fd_get_kernel_params_p_bindx_f77
+      real*8 xrtm_fd_get_kernel_params_p_bindx_f77
       xrtm_fd_get_kernel_params_p_f77 =
      &xrtm_fd_get_kernel_params_p_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_fd_get_kernel_params_p_f77
diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index 8fb34f6..ed8169f 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -35,11 +35,7 @@ int xrtm_fd_destroy_bindx_f77_(xrtm_fd_data *d)
 
 int xrtm_fd_get_n_derivs_bindx_f77_(xrtm_fd_data *d)
 {
-     if (xrtm_fd_get_n_derivs(d)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_n_derivs(d);
 }
 
 
@@ -91,11 +87,7 @@ double xrtm_fd_get_f_iso_top_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_F_iso_top_p(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_F_iso_top_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_F_iso_top_p(d, i_deriv);
 }
 
 
@@ -127,11 +119,7 @@ double xrtm_fd_get_f_iso_bot_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_F_iso_bot_p(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_F_iso_bot_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_F_iso_bot_p(d, i_deriv);
 }
 
 
@@ -164,11 +152,7 @@ double xrtm_fd_get_levels_b_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_levels_b_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l);
 }
 
 
@@ -200,11 +184,7 @@ double xrtm_fd_get_surface_b_p_bindx_f77_(xrtm_fd_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_surface_b_p(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_surface_b_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_surface_b_p(d, i_deriv);
 }
 
 
@@ -267,11 +247,7 @@ double xrtm_fd_get_g_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_g_p(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_g_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_g_p(d, i_layer, i_deriv);
 }
 
 
@@ -345,11 +321,7 @@ double xrtm_fd_get_coef_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_coef_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef);
 }
 
 
@@ -412,11 +384,7 @@ double xrtm_fd_get_omega_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_der
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_omega_p(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_omega_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_omega_p(d, i_layer, i_deriv);
 }
 
 
@@ -479,11 +447,7 @@ double xrtm_fd_get_ltau_p_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_ltau_p(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_ltau_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_ltau_p(d, i_layer, i_deriv);
 }
 
 
@@ -521,11 +485,7 @@ double xrtm_fd_get_kernel_ampfac_p_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, i
      int i_deriv;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_kernel_ampfac_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv);
 }
 
 
@@ -598,11 +558,7 @@ double xrtm_fd_get_kernel_params_p_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, i
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param)) {
-          fprintf(stderr, "ERROR: xrtm_fd_get_kernel_params_p()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param);
 }
 
 
diff --git a/interfaces/xrtm_int_f77.f b/interfaces/xrtm_int_f77.f
index a82190d..a66cec7 100644
--- a/interfaces/xrtm_int_f77.f
+++ b/interfaces/xrtm_int_f77.f
@@ -156,7 +156,7 @@ c***********************************************************************
       real*8 function xrtm_get_doub_d_tau_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_doub_d_tau_bindx_f77
+      real*8 xrtm_get_doub_d_tau_bindx_f77
       xrtm_get_doub_d_tau_f77 = xrtm_get_doub_d_tau_bindx_f77(d)
       end function xrtm_get_doub_d_tau_f77
 
@@ -222,7 +222,7 @@ c***********************************************************************
       real*8 function xrtm_get_fourier_tol_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_fourier_tol_bindx_f77
+      real*8 xrtm_get_fourier_tol_bindx_f77
       xrtm_get_fourier_tol_f77 = xrtm_get_fourier_tol_bindx_f77(d)
       end function xrtm_get_fourier_tol_f77
 
@@ -240,7 +240,7 @@ c***********************************************************************
       real*8 function xrtm_get_lambda_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_lambda_bindx_f77
+      real*8 xrtm_get_lambda_bindx_f77
       xrtm_get_lambda_f77 = xrtm_get_lambda_bindx_f77(d)
       end function xrtm_get_lambda_f77
 
@@ -258,7 +258,7 @@ c***********************************************************************
       real*8 function xrtm_get_planet_r_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_planet_r_bindx_f77
+      real*8 xrtm_get_planet_r_bindx_f77
       xrtm_get_planet_r_f77 = xrtm_get_planet_r_bindx_f77(d)
       end function xrtm_get_planet_r_f77
 
@@ -356,7 +356,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_top_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_top_bindx_f77
+      real*8 xrtm_get_F_iso_top_bindx_f77
       xrtm_get_F_iso_top_f77 = xrtm_get_F_iso_top_bindx_f77(d)
       end function xrtm_get_F_iso_top_f77
 
@@ -387,7 +387,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_top_l_bindx_f77
+      real*8 xrtm_get_F_iso_top_l_bindx_f77
       xrtm_get_F_iso_top_l_f77 = xrtm_get_F_iso_top_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_top_l_f77
@@ -406,7 +406,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_iso_bot_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_iso_bot_bindx_f77
+      real*8 xrtm_get_F_iso_bot_bindx_f77
       xrtm_get_F_iso_bot_f77 = xrtm_get_F_iso_bot_bindx_f77(d)
       end function xrtm_get_F_iso_bot_f77
 
@@ -437,7 +437,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_F_iso_bot_l_bindx_f77
+      real*8 xrtm_get_F_iso_bot_l_bindx_f77
       xrtm_get_F_iso_bot_l_f77 = xrtm_get_F_iso_bot_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_F_iso_bot_l_f77
@@ -456,7 +456,7 @@ c***********************************************************************
       real*8 function xrtm_get_F_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_F_0_bindx_f77
+      real*8 xrtm_get_F_0_bindx_f77
       xrtm_get_F_0_f77 = xrtm_get_F_0_bindx_f77(d)
       end function xrtm_get_F_0_f77
 
@@ -474,7 +474,7 @@ c***********************************************************************
       real*8 function xrtm_get_theta_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_theta_0_bindx_f77
+      real*8 xrtm_get_theta_0_bindx_f77
       xrtm_get_theta_0_f77 = xrtm_get_theta_0_bindx_f77(d)
       end function xrtm_get_theta_0_f77
 
@@ -492,7 +492,7 @@ c***********************************************************************
       real*8 function xrtm_get_phi_0_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_phi_0_bindx_f77
+      real*8 xrtm_get_phi_0_bindx_f77
       xrtm_get_phi_0_f77 = xrtm_get_phi_0_bindx_f77(d)
       end function xrtm_get_phi_0_f77
 
@@ -563,7 +563,7 @@ c***********************************************************************
       real*8 function xrtm_get_surface_b_f77(d)
       implicit none
       byte d(*)
-      integer xrtm_get_surface_b_bindx_f77
+      real*8 xrtm_get_surface_b_bindx_f77
       xrtm_get_surface_b_f77 = xrtm_get_surface_b_bindx_f77(d)
       end function xrtm_get_surface_b_f77
 
@@ -594,7 +594,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_deriv
-      integer xrtm_get_surface_b_l_bindx_f77
+      real*8 xrtm_get_surface_b_l_bindx_f77
       xrtm_get_surface_b_l_f77 = xrtm_get_surface_b_l_bindx_f77(d,
      &i_deriv)
       end function xrtm_get_surface_b_l_f77
@@ -625,7 +625,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_g_bindx_f77
+      real*8 xrtm_get_g_bindx_f77
       xrtm_get_g_f77 = xrtm_get_g_bindx_f77(d, i_layer)
       end function xrtm_get_g_f77
 
@@ -679,7 +679,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_g_l_bindx_f77
+      real*8 xrtm_get_g_l_bindx_f77
       xrtm_get_g_l_f77 = xrtm_get_g_l_bindx_f77(d, i_layer, i_deriv)
       end function xrtm_get_g_l_f77
 
@@ -723,7 +723,7 @@ c***********************************************************************
       integer i_layer
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_bindx_f77
+      real*8 xrtm_get_coef_bindx_f77
       xrtm_get_coef_f77 = xrtm_get_coef_bindx_f77(d, i_layer, i_elem,
      &i_coef)
       end function xrtm_get_coef_f77
@@ -782,7 +782,7 @@ c***********************************************************************
       integer i_deriv
       integer i_elem
       integer i_coef
-      integer xrtm_get_coef_l_bindx_f77
+      real*8 xrtm_get_coef_l_bindx_f77
       xrtm_get_coef_l_f77 = xrtm_get_coef_l_bindx_f77(d, i_layer,
      &i_deriv, i_elem, i_coef)
       end function xrtm_get_coef_l_f77
@@ -813,7 +813,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_omega_bindx_f77
+      real*8 xrtm_get_omega_bindx_f77
       xrtm_get_omega_f77 = xrtm_get_omega_bindx_f77(d, i_layer)
       end function xrtm_get_omega_f77
 
@@ -869,7 +869,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_omega_l_bindx_f77
+      real*8 xrtm_get_omega_l_bindx_f77
       xrtm_get_omega_l_f77 = xrtm_get_omega_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_omega_l_f77
@@ -900,7 +900,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_layer
-      integer xrtm_get_ltau_bindx_f77
+      real*8 xrtm_get_ltau_bindx_f77
       xrtm_get_ltau_f77 = xrtm_get_ltau_bindx_f77(d, i_layer)
       end function xrtm_get_ltau_f77
 
@@ -955,7 +955,7 @@ c***********************************************************************
       byte d(*)
       integer i_layer
       integer i_deriv
-      integer xrtm_get_ltau_l_bindx_f77
+      real*8 xrtm_get_ltau_l_bindx_f77
       xrtm_get_ltau_l_f77 = xrtm_get_ltau_l_bindx_f77(d, i_layer,
      &i_deriv)
       end function xrtm_get_ltau_l_f77
@@ -976,7 +976,7 @@ c***********************************************************************
       implicit none
       byte d(*)
       integer i_kernel
-      integer xrtm_get_kernel_ampfac_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_bindx_f77
       xrtm_get_kernel_ampfac_f77 = xrtm_get_kernel_ampfac_bindx_f77(d,
      &i_kernel)
       end function xrtm_get_kernel_ampfac_f77
@@ -1013,7 +1013,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_param
-      integer xrtm_get_kernel_params_bindx_f77
+      real*8 xrtm_get_kernel_params_bindx_f77
       xrtm_get_kernel_params_f77 = xrtm_get_kernel_params_bindx_f77(d,
      &i_kernel, i_param)
       end function xrtm_get_kernel_params_f77
@@ -1051,7 +1051,7 @@ c***********************************************************************
       byte d(*)
       integer i_kernel
       integer i_deriv
-      integer xrtm_get_kernel_ampfac_l_bindx_f77
+      real*8 xrtm_get_kernel_ampfac_l_bindx_f77
       xrtm_get_kernel_ampfac_l_f77 =
      &xrtm_get_kernel_ampfac_l_bindx_f77(d, i_kernel, i_deriv)
       end function xrtm_get_kernel_ampfac_l_f77
@@ -1120,7 +1120,7 @@ c***********************************************************************
       integer i_kernel
       integer i_deriv
       integer i_param
-      integer xrtm_get_kernel_params_l_bindx_f77
+      real*8 xrtm_get_kernel_params_l_bindx_f77
       xrtm_get_kernel_params_l_f77 =
      &xrtm_get_kernel_params_l_bindx_f77(d, i_kernel, i_deriv, i_param)
       end function xrtm_get_kernel_params_l_f77
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 5c06d9a..443ec98 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -57,91 +57,55 @@ int xrtm_destroy_bindx_f77_(xrtm_data *d)
 
 int xrtm_get_options_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_options(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_options()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_options(d);
 }
 
 
 int xrtm_get_solvers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_solvers(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_solvers()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_solvers(d);
 }
 
 
 int xrtm_get_max_coef_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_max_coef(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_max_coef()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_max_coef(d);
 }
 
 
 int xrtm_get_n_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_quad(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_quad()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_quad(d);
 }
 
 
 int xrtm_get_n_stokes_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_stokes(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_stokes()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_stokes(d);
 }
 
 
 int xrtm_get_n_derivs_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_derivs(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_derivs()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_derivs(d);
 }
 
 
 int xrtm_get_n_layers_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_layers(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_layers()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_layers(d);
 }
 
 
 int xrtm_get_n_kernels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernels(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_kernels()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_kernels(d);
 }
 
 
 int xrtm_get_n_kernel_quad_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_kernel_quad(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_kernel_quad()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_kernel_quad(d);
 }
 
 
@@ -149,41 +113,25 @@ enum xrtm_kernel_type xrtm_get_kernel_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
      int i_kernel;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel(d, i_kernel)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel(d, i_kernel);
 }
 
 
 int xrtm_get_n_out_levels_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_levels(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_out_levels()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_out_levels(d);
 }
 
 
 int xrtm_get_n_out_thetas_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_out_thetas()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_out_thetas(d);
 }
 
 
 int xrtm_get_n_out_thetas_2_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_n_out_thetas_2(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_out_thetas_2()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_out_thetas_2(d);
 }
 
 
@@ -201,11 +149,7 @@ int xrtm_set_doub_d_tau_bindx_f77_(xrtm_data *d, double *d_tau_)
 
 double xrtm_get_doub_d_tau_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_doub_d_tau(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_doub_d_tau()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_doub_d_tau(d);
 }
 
 
@@ -273,11 +217,7 @@ int xrtm_set_fourier_tol_bindx_f77_(xrtm_data *d, double *fourier_tol_)
 
 double xrtm_get_fourier_tol_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_fourier_tol(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_fourier_tol()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_fourier_tol(d);
 }
 
 
@@ -295,11 +235,7 @@ int xrtm_set_lambda_bindx_f77_(xrtm_data *d, double *lambda_)
 
 double xrtm_get_lambda_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_lambda(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_lambda()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_lambda(d);
 }
 
 
@@ -317,11 +253,7 @@ int xrtm_set_planet_r_bindx_f77_(xrtm_data *d, double *planet_r_)
 
 double xrtm_get_planet_r_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_planet_r(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_planet_r()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_planet_r(d);
 }
 
 
@@ -419,11 +351,7 @@ int xrtm_set_f_iso_top_bindx_f77_(xrtm_data *d, double *F_iso_top_)
 
 double xrtm_get_f_iso_top_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_top(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_top()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_top(d);
 }
 
 
@@ -455,11 +383,7 @@ double xrtm_get_f_iso_top_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_top_l(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_top_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_top_l(d, i_deriv);
 }
 
 
@@ -477,11 +401,7 @@ int xrtm_set_f_iso_bot_bindx_f77_(xrtm_data *d, double *F_iso_bot_)
 
 double xrtm_get_f_iso_bot_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_iso_bot(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_bot()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_bot(d);
 }
 
 
@@ -513,11 +433,7 @@ double xrtm_get_f_iso_bot_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_F_iso_bot_l(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_iso_bot_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_iso_bot_l(d, i_deriv);
 }
 
 
@@ -535,11 +451,7 @@ int xrtm_set_f_0_bindx_f77_(xrtm_data *d, double *F_0_)
 
 double xrtm_get_f_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_F_0(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_F_0()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_F_0(d);
 }
 
 
@@ -557,11 +469,7 @@ int xrtm_set_theta_0_bindx_f77_(xrtm_data *d, double *theta_0_)
 
 double xrtm_get_theta_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_theta_0(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_theta_0()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_theta_0(d);
 }
 
 
@@ -579,11 +487,7 @@ int xrtm_set_phi_0_bindx_f77_(xrtm_data *d, double *phi_0_)
 
 double xrtm_get_phi_0_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_phi_0(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_phi_0()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_phi_0(d);
 }
 
 
@@ -658,11 +562,7 @@ int xrtm_set_surface_b_bindx_f77_(xrtm_data *d, double *surface_b_)
 
 double xrtm_get_surface_b_bindx_f77_(xrtm_data *d)
 {
-     if (xrtm_get_surface_b(d)) {
-          fprintf(stderr, "ERROR: xrtm_get_surface_b()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_surface_b(d);
 }
 
 
@@ -694,11 +594,7 @@ double xrtm_get_surface_b_l_bindx_f77_(xrtm_data *d, int *i_deriv_)
 {
      int i_deriv;
      i_deriv = *i_deriv_;
-     if (xrtm_get_surface_b_l(d, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_surface_b_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_surface_b_l(d, i_deriv);
 }
 
 
@@ -730,11 +626,7 @@ double xrtm_get_g_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_g(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_g()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_g(d, i_layer);
 }
 
 
@@ -797,11 +689,7 @@ double xrtm_get_g_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_g_l(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_g_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_g_l(d, i_layer, i_deriv);
 }
 
 
@@ -839,11 +727,7 @@ int xrtm_get_n_coef_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_n_coef(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_n_coef()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_n_coef(d, i_layer);
 }
 
 
@@ -855,11 +739,7 @@ double xrtm_get_coef_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_elem_, int *
      i_layer = *i_layer_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef(d, i_layer, i_elem, i_coef)) {
-          fprintf(stderr, "ERROR: xrtm_get_coef()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_coef(d, i_layer, i_elem, i_coef);
 }
 
 
@@ -933,11 +813,7 @@ double xrtm_get_coef_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, in
      i_deriv = *i_deriv_;
      i_elem = *i_elem_;
      i_coef = *i_coef_;
-     if (xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef)) {
-          fprintf(stderr, "ERROR: xrtm_get_coef_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef);
 }
 
 
@@ -969,11 +845,7 @@ double xrtm_get_omega_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_omega(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_omega()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_omega(d, i_layer);
 }
 
 
@@ -1036,11 +908,7 @@ double xrtm_get_omega_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_omega_l(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_omega_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_omega_l(d, i_layer, i_deriv);
 }
 
 
@@ -1072,11 +940,7 @@ double xrtm_get_ltau_bindx_f77_(xrtm_data *d, int *i_layer_)
 {
      int i_layer;
      i_layer = *i_layer_;
-     if (xrtm_get_ltau(d, i_layer)) {
-          fprintf(stderr, "ERROR: xrtm_get_ltau()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_ltau(d, i_layer);
 }
 
 
@@ -1139,11 +1003,7 @@ double xrtm_get_ltau_l_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_)
      int i_deriv;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_ltau_l(d, i_layer, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_ltau_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_ltau_l(d, i_layer, i_deriv);
 }
 
 
@@ -1165,11 +1025,7 @@ double xrtm_get_kernel_ampfac_bindx_f77_(xrtm_data *d, int *i_kernel_)
 {
      int i_kernel;
      i_kernel = *i_kernel_;
-     if (xrtm_get_kernel_ampfac(d, i_kernel)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_ampfac(d, i_kernel);
 }
 
 
@@ -1207,11 +1063,7 @@ double xrtm_get_kernel_params_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_pa
      int i_param;
      i_kernel = *i_kernel_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params(d, i_kernel, i_param)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_params()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_params(d, i_kernel, i_param);
 }
 
 
@@ -1249,11 +1101,7 @@ double xrtm_get_kernel_ampfac_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_
      int i_deriv;
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
-     if (xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_ampfac_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv);
 }
 
 
@@ -1326,11 +1174,7 @@ double xrtm_get_kernel_params_l_bindx_f77_(xrtm_data *d, int *i_kernel_, int *i_
      i_kernel = *i_kernel_;
      i_deriv = *i_deriv_;
      i_param = *i_param_;
-     if (xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param)) {
-          fprintf(stderr, "ERROR: xrtm_get_kernel_params_l()\n");
-          return -1;
-     }
-     return 0;
+     return xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param);
 }
 
 
-- 
2.43.0


From 3485308347da54a994d10080f387f505667cfe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:49 +0000
Subject: [PATCH 117/131] fix: Fortran: release the arrays of pointers when the
 call fails

---
 interfaces/xrtm_fd_int_f77_util.c | 24 ++++++++++++++++++++++++
 interfaces/xrtm_fd_int_f90_util.c | 24 ++++++++++++++++++++++++
 interfaces/xrtm_int_f77_util.c    | 31 +++++++++++++++++++++++++++++++
 interfaces/xrtm_int_f90_util.c    | 31 +++++++++++++++++++++++++++++++
 4 files changed, 110 insertions(+)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index ed8169f..e7c53f0 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -141,6 +141,7 @@ int xrtm_fd_set_levels_b_p_n_bindx_f77_(xrtm_fd_data *d, double *levels_b_l)
      levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
+          free_array2_d(levels_b_l2);
           return -1;
      }
      free_array2_d(levels_b_l2);
@@ -234,6 +235,7 @@ int xrtm_fd_set_g_p_nn_bindx_f77_(xrtm_fd_data *d, double *g_l)
      g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
+          free_array2_d(g_l2);
           return -1;
      }
      free_array2_d(g_l2);
@@ -261,6 +263,7 @@ int xrtm_fd_set_coef_p_11_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_11()\n");
+          free_array2_d(coef_l2);
           return -1;
      }
      free_array2_d(coef_l2);
@@ -276,6 +279,7 @@ int xrtm_fd_set_coef_p_n1_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double *coe
      coef_l2 = array_from_mem3_d(coef_l, d->d->n_layers, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_n1(d, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_n1()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -291,6 +295,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
      coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -304,6 +309,7 @@ int xrtm_fd_set_coef_p_nn_bindx_f77_(xrtm_fd_data *d, double *coef_l)
      coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
+          free_array4_d(coef_l2);
           return -1;
      }
      free_array4_d(coef_l2);
@@ -371,6 +377,7 @@ int xrtm_fd_set_omega_p_nn_bindx_f77_(xrtm_fd_data *d, double *omega_l)
      omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
+          free_array2_d(omega_l2);
           return -1;
      }
      free_array2_d(omega_l2);
@@ -434,6 +441,7 @@ int xrtm_fd_set_ltau_p_nn_bindx_f77_(xrtm_fd_data *d, double *ltau_l)
      ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
+          free_array2_d(ltau_l2);
           return -1;
      }
      free_array2_d(ltau_l2);
@@ -543,6 +551,7 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, d
      params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
+          free_array2_d(params_l2);
           return -1;
      }
      free_array2_d(params_l2);
@@ -594,6 +603,16 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->d->n_derivs);
      if (xrtm_fd_solution(d, (enum xrtm_solver_mask) solver, solutions, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
+          free_array2_d(mean_p_l2);
+          free_array2_d(mean_m_l2);
+          free_array2_d(flux_p_l2);
+          free_array2_d(flux_m_l2);
+          free_array2_d(flux_div_l2);
           return -1;
      }
      free_array2_d(out_phis2);
@@ -630,6 +649,11 @@ int xrtm_fd_radiance_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, (enum xrtm_solver_mask) solver, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
           return -1;
      }
      free_array2_d(out_phis2);
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index e81480a..a27b81f 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -17,6 +17,7 @@ int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
      levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
+          free_array2_d(levels_b_l2);
           return -1;
      }
      free_array2_d(levels_b_l2);
@@ -30,6 +31,7 @@ int xrtm_fd_set_g_p_nn_bindx_f90(xrtm_fd_data *d, double *g_l)
      g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
+          free_array2_d(g_l2);
           return -1;
      }
      free_array2_d(g_l2);
@@ -43,6 +45,7 @@ int xrtm_fd_set_coef_p_11_bindx_f90(xrtm_fd_data *d, int i_layer, int i_deriv, d
      coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_11()\n");
+          free_array2_d(coef_l2);
           return -1;
      }
      free_array2_d(coef_l2);
@@ -56,6 +59,7 @@ int xrtm_fd_set_coef_p_n1_bindx_f90(xrtm_fd_data *d, int i_deriv, double *coef_l
      coef_l2 = array_from_mem3_d(coef_l, d->d->n_layers, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_n1(d, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_n1()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -69,6 +73,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l
      coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -82,6 +87,7 @@ int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
      coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
+          free_array4_d(coef_l2);
           return -1;
      }
      free_array4_d(coef_l2);
@@ -95,6 +101,7 @@ int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
      omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
+          free_array2_d(omega_l2);
           return -1;
      }
      free_array2_d(omega_l2);
@@ -108,6 +115,7 @@ int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
      ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
+          free_array2_d(ltau_l2);
           return -1;
      }
      free_array2_d(ltau_l2);
@@ -121,6 +129,7 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f90(xrtm_fd_data *d, int i_kernel, doub
      params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
+          free_array2_d(params_l2);
           return -1;
      }
      free_array2_d(params_l2);
@@ -152,6 +161,16 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->d->n_derivs);
      if (xrtm_fd_solution(d, solver, solutions, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
+          free_array2_d(mean_p_l2);
+          free_array2_d(mean_m_l2);
+          free_array2_d(flux_p_l2);
+          free_array2_d(flux_m_l2);
+          free_array2_d(flux_div_l2);
           return -1;
      }
      free_array2_d(out_phis2);
@@ -182,6 +201,11 @@ int xrtm_fd_radiance_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, en
      K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, solver, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
           return -1;
      }
      free_array2_d(out_phis2);
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index 443ec98..ce9f9e6 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -529,6 +529,7 @@ int xrtm_set_levels_b_l_n_bindx_f77_(xrtm_data *d, double *levels_b_l)
      levels_b_l2 = array_from_mem2_d(levels_b_l, d->n_layers + 1, d->n_derivs);
      if (xrtm_set_levels_b_l_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_levels_b_l_n()\n");
+          free_array2_d(levels_b_l2);
           return -1;
      }
      free_array2_d(levels_b_l2);
@@ -676,6 +677,7 @@ int xrtm_set_g_l_nn_bindx_f77_(xrtm_data *d, double *g_l)
      g_l2 = array_from_mem2_d(g_l, d->n_layers, d->n_derivs);
      if (xrtm_set_g_l_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_g_l_nn()\n");
+          free_array2_d(g_l2);
           return -1;
      }
      free_array2_d(g_l2);
@@ -703,6 +705,7 @@ int xrtm_set_coef_1_bindx_f77_(xrtm_data *d, int *i_layer_, int *n_coef_layer_,
      coef2 = array_from_mem2_d(coef, d->n_elem, n_coef_layer);
      if (xrtm_set_coef_1(d, i_layer, n_coef_layer, coef2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
+          free_array2_d(coef2);
           return -1;
      }
      free_array2_d(coef2);
@@ -716,6 +719,7 @@ int xrtm_set_coef_n_bindx_f77_(xrtm_data *d, int *n_coef_layer, double *coef)
      coef2 = array_from_mem3_d(coef, d->n_layers, d->n_elem, d->n_coef);
      if (xrtm_set_coef_n(d, n_coef_layer, coef2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_n()\n");
+          free_array3_d(coef2);
           return -1;
      }
      free_array3_d(coef2);
@@ -753,6 +757,7 @@ int xrtm_set_coef_l_11_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, do
      coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
+          free_array2_d(coef_l2);
           return -1;
      }
      free_array2_d(coef_l2);
@@ -768,6 +773,7 @@ int xrtm_set_coef_l_n1_bindx_f77_(xrtm_data *d, int *i_deriv_, double *coef_l)
      coef_l2 = array_from_mem3_d(coef_l, d->n_layers, d->n_elem, d->n_coef);
      if (xrtm_set_coef_l_n1(d, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_n1()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -783,6 +789,7 @@ int xrtm_set_coef_l_1n_bindx_f77_(xrtm_data *d, int *i_layer_, double *coef_l)
      coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -796,6 +803,7 @@ int xrtm_set_coef_l_nn_bindx_f77_(xrtm_data *d, double *coef_l)
      coef_l2 = array_from_mem4_d(coef_l, d->n_layers, d->n_derivs, d->n_elem, d->n_coef);
      if (xrtm_set_coef_l_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_nn()\n");
+          free_array4_d(coef_l2);
           return -1;
      }
      free_array4_d(coef_l2);
@@ -895,6 +903,7 @@ int xrtm_set_omega_l_nn_bindx_f77_(xrtm_data *d, double *omega_l)
      omega_l2 = array_from_mem2_d(omega_l, d->n_layers, d->n_derivs);
      if (xrtm_set_omega_l_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_omega_l_nn()\n");
+          free_array2_d(omega_l2);
           return -1;
      }
      free_array2_d(omega_l2);
@@ -990,6 +999,7 @@ int xrtm_set_ltau_l_nn_bindx_f77_(xrtm_data *d, double *ltau_l)
      ltau_l2 = array_from_mem2_d(ltau_l, d->n_layers, d->n_derivs);
      if (xrtm_set_ltau_l_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_ltau_l_nn()\n");
+          free_array2_d(ltau_l2);
           return -1;
      }
      free_array2_d(ltau_l2);
@@ -1159,6 +1169,7 @@ int xrtm_set_kernel_params_l_nn_bindx_f77_(xrtm_data *d, int *i_kernel_, double
      params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]));
      if (xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
+          free_array2_d(params_l2);
           return -1;
      }
      free_array2_d(params_l2);
@@ -1258,6 +1269,16 @@ int xrtm_solution_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->n_out_levels, d->n_derivs);
      if (xrtm_solution(d, (enum xrtm_solver_mask) solver, solutions, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_solution()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
+          free_array2_d(mean_p_l2);
+          free_array2_d(mean_m_l2);
+          free_array2_d(flux_p_l2);
+          free_array2_d(flux_m_l2);
+          free_array2_d(flux_div_l2);
           return -1;
      }
      free_array2_d(out_phis2);
@@ -1292,6 +1313,11 @@ int xrtm_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, int *
      K_m2 = array_from_mem5_d(K_m, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      if (xrtm_radiance(d, (enum xrtm_solver_mask) solver, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_radiance()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
           return -1;
      }
      free_array2_d(out_phis2);
@@ -1313,6 +1339,8 @@ int xrtm_mean_radiance_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_,
      mean_m_l2 = array_from_mem2_d(mean_m_l, d->n_out_levels, d->n_derivs);
      if (xrtm_mean_radiance(d, (enum xrtm_solver_mask) solver, mean_p, mean_m, mean_p_l2, mean_m_l2)) {
           fprintf(stderr, "ERROR: xrtm_mean_radiance()\n");
+          free_array2_d(mean_p_l2);
+          free_array2_d(mean_m_l2);
           return -1;
      }
      free_array2_d(mean_p_l2);
@@ -1331,6 +1359,8 @@ int xrtm_flux_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_, double *f
      flux_m_l2 = array_from_mem2_d(flux_m_l, d->n_out_levels, d->n_derivs);
      if (xrtm_flux(d, (enum xrtm_solver_mask) solver, flux_p, flux_m, flux_p_l2, flux_m_l2)) {
           fprintf(stderr, "ERROR: xrtm_flux()\n");
+          free_array2_d(flux_p_l2);
+          free_array2_d(flux_m_l2);
           return -1;
      }
      free_array2_d(flux_p_l2);
@@ -1347,6 +1377,7 @@ int xrtm_flux_divergence_bindx_f77_(xrtm_data *d, enum xrtm_solver_mask *solver_
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->n_out_levels, d->n_derivs);
      if (xrtm_flux_divergence(d, (enum xrtm_solver_mask) solver, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_flux_divergence()\n");
+          free_array2_d(flux_div_l2);
           return -1;
      }
      free_array2_d(flux_div_l2);
diff --git a/interfaces/xrtm_int_f90_util.c b/interfaces/xrtm_int_f90_util.c
index 2739885..dd55935 100644
--- a/interfaces/xrtm_int_f90_util.c
+++ b/interfaces/xrtm_int_f90_util.c
@@ -17,6 +17,7 @@ int xrtm_set_levels_b_l_n_bindx_f90(xrtm_data *d, double *levels_b_l)
      levels_b_l2 = array_from_mem2_d(levels_b_l, d->n_layers + 1, d->n_derivs);
      if (xrtm_set_levels_b_l_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_levels_b_l_n()\n");
+          free_array2_d(levels_b_l2);
           return -1;
      }
      free_array2_d(levels_b_l2);
@@ -30,6 +31,7 @@ int xrtm_set_g_l_nn_bindx_f90(xrtm_data *d, double *g_l)
      g_l2 = array_from_mem2_d(g_l, d->n_layers, d->n_derivs);
      if (xrtm_set_g_l_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_g_l_nn()\n");
+          free_array2_d(g_l2);
           return -1;
      }
      free_array2_d(g_l2);
@@ -43,6 +45,7 @@ int xrtm_set_coef_1_bindx_f90(xrtm_data *d, int i_layer, int n_coef_layer, doubl
      coef2 = array_from_mem2_d(coef, d->n_elem, n_coef_layer);
      if (xrtm_set_coef_1(d, i_layer, n_coef_layer, coef2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
+          free_array2_d(coef2);
           return -1;
      }
      free_array2_d(coef2);
@@ -56,6 +59,7 @@ int xrtm_set_coef_n_bindx_f90(xrtm_data *d, int *n_coef_layer, double *coef)
      coef2 = array_from_mem3_d(coef, d->n_layers, d->n_elem, d->n_coef);
      if (xrtm_set_coef_n(d, n_coef_layer, coef2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_n()\n");
+          free_array3_d(coef2);
           return -1;
      }
      free_array3_d(coef2);
@@ -69,6 +73,7 @@ int xrtm_set_coef_l_11_bindx_f90(xrtm_data *d, int i_layer, int i_deriv, double
      coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
+          free_array2_d(coef_l2);
           return -1;
      }
      free_array2_d(coef_l2);
@@ -82,6 +87,7 @@ int xrtm_set_coef_l_n1_bindx_f90(xrtm_data *d, int i_deriv, double *coef_l)
      coef_l2 = array_from_mem3_d(coef_l, d->n_layers, d->n_elem, d->n_coef);
      if (xrtm_set_coef_l_n1(d, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_n1()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -95,6 +101,7 @@ int xrtm_set_coef_l_1n_bindx_f90(xrtm_data *d, int i_layer, double *coef_l)
      coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
+          free_array3_d(coef_l2);
           return -1;
      }
      free_array3_d(coef_l2);
@@ -108,6 +115,7 @@ int xrtm_set_coef_l_nn_bindx_f90(xrtm_data *d, double *coef_l)
      coef_l2 = array_from_mem4_d(coef_l, d->n_layers, d->n_derivs, d->n_elem, d->n_coef);
      if (xrtm_set_coef_l_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_nn()\n");
+          free_array4_d(coef_l2);
           return -1;
      }
      free_array4_d(coef_l2);
@@ -121,6 +129,7 @@ int xrtm_set_omega_l_nn_bindx_f90(xrtm_data *d, double *omega_l)
      omega_l2 = array_from_mem2_d(omega_l, d->n_layers, d->n_derivs);
      if (xrtm_set_omega_l_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_omega_l_nn()\n");
+          free_array2_d(omega_l2);
           return -1;
      }
      free_array2_d(omega_l2);
@@ -134,6 +143,7 @@ int xrtm_set_ltau_l_nn_bindx_f90(xrtm_data *d, double *ltau_l)
      ltau_l2 = array_from_mem2_d(ltau_l, d->n_layers, d->n_derivs);
      if (xrtm_set_ltau_l_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_ltau_l_nn()\n");
+          free_array2_d(ltau_l2);
           return -1;
      }
      free_array2_d(ltau_l2);
@@ -147,6 +157,7 @@ int xrtm_set_kernel_params_l_nn_bindx_f90(xrtm_data *d, int i_kernel, double *pa
      params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]));
      if (xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
+          free_array2_d(params_l2);
           return -1;
      }
      free_array2_d(params_l2);
@@ -178,6 +189,16 @@ int xrtm_solution_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int solu
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->n_out_levels, d->n_derivs);
      if (xrtm_solution(d, solver, solutions, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_solution()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
+          free_array2_d(mean_p_l2);
+          free_array2_d(mean_m_l2);
+          free_array2_d(flux_p_l2);
+          free_array2_d(flux_m_l2);
+          free_array2_d(flux_div_l2);
           return -1;
      }
      free_array2_d(out_phis2);
@@ -208,6 +229,11 @@ int xrtm_radiance_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, int n_ou
      K_m2 = array_from_mem5_d(K_m, d->n_out_levels, d->n_derivs, d->n_out_thetas_2, n_out_phis, d->n_stokes);
      if (xrtm_radiance(d, solver, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_radiance()\n");
+          free_array2_d(out_phis2);
+          free_array4_d(I_p2);
+          free_array4_d(I_m2);
+          free_array5_d(K_p2);
+          free_array5_d(K_m2);
           return -1;
      }
      free_array2_d(out_phis2);
@@ -227,6 +253,8 @@ int xrtm_mean_radiance_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, dou
      mean_m_l2 = array_from_mem2_d(mean_m_l, d->n_out_levels, d->n_derivs);
      if (xrtm_mean_radiance(d, solver, mean_p, mean_m, mean_p_l2, mean_m_l2)) {
           fprintf(stderr, "ERROR: xrtm_mean_radiance()\n");
+          free_array2_d(mean_p_l2);
+          free_array2_d(mean_m_l2);
           return -1;
      }
      free_array2_d(mean_p_l2);
@@ -243,6 +271,8 @@ int xrtm_flux_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, double *flux
      flux_m_l2 = array_from_mem2_d(flux_m_l, d->n_out_levels, d->n_derivs);
      if (xrtm_flux(d, solver, flux_p, flux_m, flux_p_l2, flux_m_l2)) {
           fprintf(stderr, "ERROR: xrtm_flux()\n");
+          free_array2_d(flux_p_l2);
+          free_array2_d(flux_m_l2);
           return -1;
      }
      free_array2_d(flux_p_l2);
@@ -257,6 +287,7 @@ int xrtm_flux_divergence_bindx_f90(xrtm_data *d, enum xrtm_solver_mask solver, d
      flux_div_l2 = array_from_mem2_d(flux_div_l, d->n_out_levels, d->n_derivs);
      if (xrtm_flux_divergence(d, solver, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_flux_divergence()\n");
+          free_array2_d(flux_div_l2);
           return -1;
      }
      free_array2_d(flux_div_l2);
-- 
2.43.0


From 545841207fb7c455bb8458ea848464839e07fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:51 +0000
Subject: [PATCH 118/131] fix: Fortran: check layer and kernel indexes before
 using them for dimensions

---
 interfaces/xrtm_fd_int_f77_util.c | 12 ++++++++++++
 interfaces/xrtm_fd_int_f90_util.c | 12 ++++++++++++
 interfaces/xrtm_int_f77_util.c    | 12 ++++++++++++
 interfaces/xrtm_int_f90_util.c    | 12 ++++++++++++
 4 files changed, 48 insertions(+)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index e7c53f0..4d46f5f 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -260,6 +260,10 @@ int xrtm_fd_set_coef_p_11_bindx_f77_(xrtm_fd_data *d, int *i_layer_, int *i_deri
      double **coef_l2;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
+     if (i_layer < 0 || i_layer >= d->d->n_layers) {
+          fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_11()\n");
+          return -1;
+     }
      coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_11()\n");
@@ -292,6 +296,10 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
      int i_layer;
      double ***coef_l2;
      i_layer = *i_layer_;
+     if (i_layer < 0 || i_layer >= d->d->n_layers) {
+          fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
+          return -1;
+     }
      coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
@@ -548,6 +556,10 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, d
      int i_kernel;
      double **params_l2;
      i_kernel = *i_kernel_;
+     if (i_kernel < 0 || i_kernel >= d->d->n_kernels) {
+          fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
+          return -1;
+     }
      params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index a27b81f..2220dc2 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -42,6 +42,10 @@ int xrtm_fd_set_g_p_nn_bindx_f90(xrtm_fd_data *d, double *g_l)
 int xrtm_fd_set_coef_p_11_bindx_f90(xrtm_fd_data *d, int i_layer, int i_deriv, double *coef_l)
 {
      double **coef_l2;
+     if (i_layer < 0 || i_layer >= d->d->n_layers) {
+          fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_11()\n");
+          return -1;
+     }
      coef_l2 = array_from_mem2_d(coef_l, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_11()\n");
@@ -70,6 +74,10 @@ int xrtm_fd_set_coef_p_n1_bindx_f90(xrtm_fd_data *d, int i_deriv, double *coef_l
 int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l)
 {
      double ***coef_l2;
+     if (i_layer < 0 || i_layer >= d->d->n_layers) {
+          fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
+          return -1;
+     }
      coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
@@ -126,6 +134,10 @@ int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 int xrtm_fd_set_kernel_params_p_nn_bindx_f90(xrtm_fd_data *d, int i_kernel, double *params_l)
 {
      double **params_l2;
+     if (i_kernel < 0 || i_kernel >= d->d->n_kernels) {
+          fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
+          return -1;
+     }
      params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
diff --git a/interfaces/xrtm_int_f77_util.c b/interfaces/xrtm_int_f77_util.c
index ce9f9e6..02e294d 100644
--- a/interfaces/xrtm_int_f77_util.c
+++ b/interfaces/xrtm_int_f77_util.c
@@ -754,6 +754,10 @@ int xrtm_set_coef_l_11_bindx_f77_(xrtm_data *d, int *i_layer_, int *i_deriv_, do
      double **coef_l2;
      i_layer = *i_layer_;
      i_deriv = *i_deriv_;
+     if (i_layer < 0 || i_layer >= d->n_layers) {
+          fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
+          return -1;
+     }
      coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
@@ -786,6 +790,10 @@ int xrtm_set_coef_l_1n_bindx_f77_(xrtm_data *d, int *i_layer_, double *coef_l)
      int i_layer;
      double ***coef_l2;
      i_layer = *i_layer_;
+     if (i_layer < 0 || i_layer >= d->n_layers) {
+          fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
+          return -1;
+     }
      coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
@@ -1166,6 +1174,10 @@ int xrtm_set_kernel_params_l_nn_bindx_f77_(xrtm_data *d, int *i_kernel_, double
      int i_kernel;
      double **params_l2;
      i_kernel = *i_kernel_;
+     if (i_kernel < 0 || i_kernel >= d->n_kernels) {
+          fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
+          return -1;
+     }
      params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]));
      if (xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
diff --git a/interfaces/xrtm_int_f90_util.c b/interfaces/xrtm_int_f90_util.c
index dd55935..10c89e8 100644
--- a/interfaces/xrtm_int_f90_util.c
+++ b/interfaces/xrtm_int_f90_util.c
@@ -70,6 +70,10 @@ int xrtm_set_coef_n_bindx_f90(xrtm_data *d, int *n_coef_layer, double *coef)
 int xrtm_set_coef_l_11_bindx_f90(xrtm_data *d, int i_layer, int i_deriv, double *coef_l)
 {
      double **coef_l2;
+     if (i_layer < 0 || i_layer >= d->n_layers) {
+          fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
+          return -1;
+     }
      coef_l2 = array_from_mem2_d(coef_l, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_11()\n");
@@ -98,6 +102,10 @@ int xrtm_set_coef_l_n1_bindx_f90(xrtm_data *d, int i_deriv, double *coef_l)
 int xrtm_set_coef_l_1n_bindx_f90(xrtm_data *d, int i_layer, double *coef_l)
 {
      double ***coef_l2;
+     if (i_layer < 0 || i_layer >= d->n_layers) {
+          fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
+          return -1;
+     }
      coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]);
      if (xrtm_set_coef_l_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_coef_l_1n()\n");
@@ -154,6 +162,10 @@ int xrtm_set_ltau_l_nn_bindx_f90(xrtm_data *d, double *ltau_l)
 int xrtm_set_kernel_params_l_nn_bindx_f90(xrtm_data *d, int i_kernel, double *params_l)
 {
      double **params_l2;
+     if (i_kernel < 0 || i_kernel >= d->n_kernels) {
+          fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
+          return -1;
+     }
      params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel]));
      if (xrtm_set_kernel_params_l_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_set_kernel_params_l_nn()\n");
-- 
2.43.0


From fad3148c05faa342bea433c600a10120c8cef5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:52 +0000
Subject: [PATCH 119/131] fix: dimensions of the perturbation arrays in the
 finite difference bindings

---
 interfaces/xrtm_fd_int_f77_util.c | 44 +++++++++++++++----------------
 interfaces/xrtm_fd_int_f90_util.c | 44 +++++++++++++++----------------
 interfaces/xrtm_fd_interface.def  | 28 ++++++++++----------
 3 files changed, 58 insertions(+), 58 deletions(-)

diff --git a/interfaces/xrtm_fd_int_f77_util.c b/interfaces/xrtm_fd_int_f77_util.c
index 4d46f5f..d2cde29 100644
--- a/interfaces/xrtm_fd_int_f77_util.c
+++ b/interfaces/xrtm_fd_int_f77_util.c
@@ -138,7 +138,7 @@ int xrtm_fd_set_levels_b_p_1_bindx_f77_(xrtm_fd_data *d, int *i_deriv_, double *
 int xrtm_fd_set_levels_b_p_n_bindx_f77_(xrtm_fd_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
-     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->d->n_derivs);
+     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
           free_array2_d(levels_b_l2);
@@ -232,7 +232,7 @@ int xrtm_fd_set_g_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *g_l)
 int xrtm_fd_set_g_p_nn_bindx_f77_(xrtm_fd_data *d, double *g_l)
 {
      double **g_l2;
-     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->d->n_derivs);
+     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
           free_array2_d(g_l2);
@@ -300,7 +300,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
      }
-     coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           free_array3_d(coef_l2);
@@ -314,7 +314,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *coe
 int xrtm_fd_set_coef_p_nn_bindx_f77_(xrtm_fd_data *d, double *coef_l)
 {
      double ****coef_l2;
-     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->d->n_derivs, d->d->n_elem, d->d->n_coef);
+     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
           free_array4_d(coef_l2);
@@ -382,7 +382,7 @@ int xrtm_fd_set_omega_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *om
 int xrtm_fd_set_omega_p_nn_bindx_f77_(xrtm_fd_data *d, double *omega_l)
 {
      double **omega_l2;
-     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->d->n_derivs);
+     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
           free_array2_d(omega_l2);
@@ -446,7 +446,7 @@ int xrtm_fd_set_ltau_p_1n_bindx_f77_(xrtm_fd_data *d, int *i_layer_, double *lta
 int xrtm_fd_set_ltau_p_nn_bindx_f77_(xrtm_fd_data *d, double *ltau_l)
 {
      double **ltau_l2;
-     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->d->n_derivs);
+     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
           free_array2_d(ltau_l2);
@@ -560,7 +560,7 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f77_(xrtm_fd_data *d, int *i_kernel_, d
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
      }
-     params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           free_array2_d(params_l2);
@@ -603,16 +603,16 @@ int xrtm_fd_solution_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      solutions = *solutions_;
      method = *method_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->d->n_derivs);
-     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->d->n_derivs);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas, n_out_phis);
+     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_out_levels, d->n_derivs);
+     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_out_levels, d->n_derivs);
+     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_out_levels, d->n_derivs);
+     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_out_levels, d->n_derivs);
+     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_out_levels, d->n_derivs);
      if (xrtm_fd_solution(d, (enum xrtm_solver_mask) solver, solutions, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
           free_array2_d(out_phis2);
@@ -654,11 +654,11 @@ int xrtm_fd_radiance_bindx_f77_(xrtm_fd_data *d, enum xrtm_solver_mask *solver_,
      solver = *solver_;
      method = *method_;
      n_out_phis = *n_out_phis_;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas, n_out_phis);
+     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, (enum xrtm_solver_mask) solver, (enum xrtm_fd_method_type) method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
           free_array2_d(out_phis2);
diff --git a/interfaces/xrtm_fd_int_f90_util.c b/interfaces/xrtm_fd_int_f90_util.c
index 2220dc2..2df155c 100644
--- a/interfaces/xrtm_fd_int_f90_util.c
+++ b/interfaces/xrtm_fd_int_f90_util.c
@@ -14,7 +14,7 @@ extern "C" {
 int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
 {
      double **levels_b_l2;
-     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->d->n_derivs);
+     levels_b_l2 = array_from_mem2_d(levels_b_l, d->d->n_layers + 1, d->n_derivs);
      if (xrtm_fd_set_levels_b_p_n(d, levels_b_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_levels_b_p_n()\n");
           free_array2_d(levels_b_l2);
@@ -28,7 +28,7 @@ int xrtm_fd_set_levels_b_p_n_bindx_f90(xrtm_fd_data *d, double *levels_b_l)
 int xrtm_fd_set_g_p_nn_bindx_f90(xrtm_fd_data *d, double *g_l)
 {
      double **g_l2;
-     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->d->n_derivs);
+     g_l2 = array_from_mem2_d(g_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_g_p_nn(d, g_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_p_nn()\n");
           free_array2_d(g_l2);
@@ -78,7 +78,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           return -1;
      }
-     coef_l2 = array_from_mem3_d(coef_l, d->d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
+     coef_l2 = array_from_mem3_d(coef_l, d->n_derivs, d->d->n_elem, d->d->n_coef_layer[i_layer]);
      if (xrtm_fd_set_coef_p_1n(d, i_layer, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_1n()\n");
           free_array3_d(coef_l2);
@@ -92,7 +92,7 @@ int xrtm_fd_set_coef_p_1n_bindx_f90(xrtm_fd_data *d, int i_layer, double *coef_l
 int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
 {
      double ****coef_l2;
-     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->d->n_derivs, d->d->n_elem, d->d->n_coef);
+     coef_l2 = array_from_mem4_d(coef_l, d->d->n_layers, d->n_derivs, d->d->n_elem, d->d->n_coef);
      if (xrtm_fd_set_coef_p_nn(d, coef_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_p_nn()\n");
           free_array4_d(coef_l2);
@@ -106,7 +106,7 @@ int xrtm_fd_set_coef_p_nn_bindx_f90(xrtm_fd_data *d, double *coef_l)
 int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
 {
      double **omega_l2;
-     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->d->n_derivs);
+     omega_l2 = array_from_mem2_d(omega_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_omega_p_nn(d, omega_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_p_nn()\n");
           free_array2_d(omega_l2);
@@ -120,7 +120,7 @@ int xrtm_fd_set_omega_p_nn_bindx_f90(xrtm_fd_data *d, double *omega_l)
 int xrtm_fd_set_ltau_p_nn_bindx_f90(xrtm_fd_data *d, double *ltau_l)
 {
      double **ltau_l2;
-     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->d->n_derivs);
+     ltau_l2 = array_from_mem2_d(ltau_l, d->d->n_layers, d->n_derivs);
      if (xrtm_fd_set_ltau_p_nn(d, ltau_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_p_nn()\n");
           free_array2_d(ltau_l2);
@@ -138,7 +138,7 @@ int xrtm_fd_set_kernel_params_p_nn_bindx_f90(xrtm_fd_data *d, int i_kernel, doub
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           return -1;
      }
-     params_l2 = array_from_mem2_d(params_l, d->d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
+     params_l2 = array_from_mem2_d(params_l, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel]));
      if (xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_kernel_params_p_nn()\n");
           free_array2_d(params_l2);
@@ -161,16 +161,16 @@ int xrtm_fd_solution_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, in
      double **flux_p_l2;
      double **flux_m_l2;
      double **flux_div_l2;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_ulevels, d->d->n_derivs);
-     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_ulevels, d->d->n_derivs);
-     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_ulevels, d->d->n_derivs);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas, n_out_phis);
+     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     mean_p_l2 = array_from_mem2_d(mean_p_l, d->d->n_out_levels, d->n_derivs);
+     mean_m_l2 = array_from_mem2_d(mean_m_l, d->d->n_out_levels, d->n_derivs);
+     flux_p_l2 = array_from_mem2_d(flux_p_l, d->d->n_out_levels, d->n_derivs);
+     flux_m_l2 = array_from_mem2_d(flux_m_l, d->d->n_out_levels, d->n_derivs);
+     flux_div_l2 = array_from_mem2_d(flux_div_l, d->d->n_out_levels, d->n_derivs);
      if (xrtm_fd_solution(d, solver, solutions, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2, mean_p, mean_m, mean_p_l2, mean_m_l2, flux_p, flux_m, flux_p_l2, flux_m_l2, flux_div, flux_div_l2)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
           free_array2_d(out_phis2);
@@ -206,11 +206,11 @@ int xrtm_fd_radiance_bindx_f90(xrtm_fd_data *d, enum xrtm_solver_mask solver, en
      double ****I_m2;
      double *****K_p2;
      double *****K_m2;
-     out_phis2 = array_from_mem2_d(out_phis, d->d->n_umus, n_out_phis);
-     I_p2 = array_from_mem4_d(I_p, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     I_m2 = array_from_mem4_d(I_m, d->d->n_ulevels, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_p2 = array_from_mem5_d(K_p, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
-     K_m2 = array_from_mem5_d(K_m, d->d->n_ulevels, d->d->n_derivs, d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus, n_out_phis, d->d->n_stokes);
+     out_phis2 = array_from_mem2_d(out_phis, d->d->n_out_thetas, n_out_phis);
+     I_p2 = array_from_mem4_d(I_p, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     I_m2 = array_from_mem4_d(I_m, d->d->n_out_levels, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_p2 = array_from_mem5_d(K_p, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
+     K_m2 = array_from_mem5_d(K_m, d->d->n_out_levels, d->n_derivs, d->d->n_out_thetas_2, n_out_phis, d->d->n_stokes);
      if (xrtm_fd_radiance(d, solver, method, n_out_phis, out_phis2, I_p2, I_m2, K_p2, K_m2)) {
           fprintf(stderr, "ERROR: xrtm_fd_radiance()\n");
           free_array2_d(out_phis2);
diff --git a/interfaces/xrtm_fd_interface.def b/interfaces/xrtm_fd_interface.def
index cd96c81..47d2365 100644
--- a/interfaces/xrtm_fd_interface.def
+++ b/interfaces/xrtm_fd_interface.def
@@ -20,30 +20,30 @@ subprogram_general int 0 set_F_iso_bot_p_1		0, int 0 i_deriv in, double 0 F_iso_
 subprogram_general int 0 set_F_iso_bot_p_n		0, double 1 "d->n_derivs" F_iso_bot_l in;
 subprogram_general double 0 get_F_iso_bot_p		1, int 0 i_deriv in;
 subprogram_general int 0 set_levels_b_p_1		0, int 0 i_deriv in, double 1 "d->d->n_layers + 1" levels_b_l in;
-subprogram_general int 0 set_levels_b_p_n		0, double 2 "d->d->n_layers + 1" "d->d->n_derivs" levels_b_l in;
+subprogram_general int 0 set_levels_b_p_n		0, double 2 "d->d->n_layers + 1" "d->n_derivs" levels_b_l in;
 subprogram_general double 0 get_levels_b_p		1, int 0 i_deriv in, double 1 "d->d->n_layers + 1" levels_b_l out;
 subprogram_general int 0 set_surface_b_p_1		0, int 0 i_deriv in, double 0 surface_b_l in;
 subprogram_general int 0 set_surface_b_p_n		0, double 1 "d->n_derivs" surface_b_l in;
 subprogram_general double 0 get_surface_b_p		1, int 0 i_deriv in;
 subprogram_general int 0 set_g_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 g_l in;
-subprogram_general int 0 set_g_p_n1			0, int 0 i_deriv in, double 1 "d->n_layers" g_l in;
+subprogram_general int 0 set_g_p_n1			0, int 0 i_deriv in, double 1 "d->d->n_layers" g_l in;
 subprogram_general int 0 set_g_p_1n			0, int 0 i_layer in, double 1 "d->n_derivs" g_l in;
-subprogram_general int 0 set_g_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" g_l in;
+subprogram_general int 0 set_g_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" g_l in;
 subprogram_general double 0 get_g_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_coef_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 2 "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
 subprogram_general int 0 set_coef_p_n1			0, int 0 i_deriv in, double 3 "d->d->n_layers" "d->d->n_elem" "d->d->n_coef" coef_l in;
-subprogram_general int 0 set_coef_p_1n			0, int 0 i_layer in, double 3 "d->d->n_derivs" "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
-subprogram_general int 0 set_coef_p_nn			0, double 4 "d->d->n_layers" "d->d->n_derivs" "d->d->n_elem" "d->d->n_coef" coef_l in;
+subprogram_general int 0 set_coef_p_1n			0, int 0 i_layer in, double 3 "d->n_derivs" "d->d->n_elem" "d->d->n_coef_layer[i_layer]" coef_l in;
+subprogram_general int 0 set_coef_p_nn			0, double 4 "d->d->n_layers" "d->n_derivs" "d->d->n_elem" "d->d->n_coef" coef_l in;
 subprogram_general double 0 get_coef_p			1, int 0 i_layer in, int 0 i_deriv in, int 0 i_elem in, int 0 i_coef in;
 subprogram_general int 0 set_omega_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 omega_l in;
-subprogram_general int 0 set_omega_p_n1			0, int 0 i_deriv in, double 1 "d->n_derivs" omega_l in;
-subprogram_general int 0 set_omega_p_1n			0, int 0 i_layer in, double 1 "d->n_layers" omega_l in;
-subprogram_general int 0 set_omega_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" omega_l in;
+subprogram_general int 0 set_omega_p_n1			0, int 0 i_deriv in, double 1 "d->d->n_layers" omega_l in;
+subprogram_general int 0 set_omega_p_1n			0, int 0 i_layer in, double 1 "d->n_derivs" omega_l in;
+subprogram_general int 0 set_omega_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" omega_l in;
 subprogram_general double 0 get_omega_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_ltau_p_11			0, int 0 i_layer in, int 0 i_deriv in, double 0 ltau_l in;
-subprogram_general int 0 set_ltau_p_n1			0, int 0 i_deriv in, double 1 "d->n_derivs" ltau_l in;
-subprogram_general int 0 set_ltau_p_1n			0, int 0 i_layer in, double 1 "d->n_layers" ltau_l in;
-subprogram_general int 0 set_ltau_p_nn			0, double 2 "d->d->n_layers" "d->d->n_derivs" ltau_l in;
+subprogram_general int 0 set_ltau_p_n1			0, int 0 i_deriv in, double 1 "d->d->n_layers" ltau_l in;
+subprogram_general int 0 set_ltau_p_1n			0, int 0 i_layer in, double 1 "d->n_derivs" ltau_l in;
+subprogram_general int 0 set_ltau_p_nn			0, double 2 "d->d->n_layers" "d->n_derivs" ltau_l in;
 subprogram_general double 0 get_ltau_p			1, int 0 i_layer in, int 0 i_deriv in;
 subprogram_general int 0 set_kernel_ampfac_p_1		0, int 0 i_kernel in, int 0 i_deriv in, double 0 ampfac_l in;
 subprogram_general int 0 set_kernel_ampfac_p_n		0, int 0 i_kernel in, double 1 "d->n_derivs" ampfac_l in;
@@ -51,8 +51,8 @@ subprogram_general double 0 get_kernel_ampfac_p		1, int 0 i_kernel in, int 0 i_d
 subprogram_general int 0 set_kernel_params_p_11		0, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in, double 0 param_l in;
 subprogram_general int 0 set_kernel_params_p_1n		0, int 0 i_kernel in, int 0 i_deriv in, double 1 "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general int 0 set_kernel_params_p_n1		0, int 0 i_kernel in, int 0 i_param in, double 1 "d->n_derivs" params_l in;
-subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
+subprogram_general int 0 set_kernel_params_p_nn		0, int 0 i_kernel in, double 2 "d->n_derivs"  "kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i_kernel])" params_l in;
 subprogram_general double 0 get_kernel_params_p		1, int 0 i_kernel in, int 0 i_deriv in, int 0 i_param in;
 
-subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_ulevels" mean_p out, double 1 "d->d->n_ulevels" mean_m out, double 2 "d->d->n_ulevels" "d->d->n_derivs" mean_p_l out, double 2 "d->d->n_ulevels" "d->d->n_derivs" mean_m_l out, double 1 "d->d->n_ulevels" flux_p out, double 1 "d->d->n_ulevels" flux_m out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_p_l out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_m_l out, double 1 "d->d->n_ulevels" flux_div out, double 2 "d->d->n_ulevels" "d->d->n_derivs" flux_div_l out;
-subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_umus" "n_out_phis" out_phis in, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_ulevels" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_ulevels" "d->d->n_derivs" "d->d->n_umus == 0 ? d->d->n_quad : d->d->n_umus" "n_out_phis" "d->d->n_stokes" K_m out;
+subprogram_general int 0 solution			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", int 0 solutions in, enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->d->n_out_levels" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_out_levels" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_out_levels" "d->n_derivs" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_out_levels" "d->n_derivs" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" K_m out, double 1 "d->d->n_out_levels" mean_p out, double 1 "d->d->n_out_levels" mean_m out, double 2 "d->d->n_out_levels" "d->n_derivs" mean_p_l out, double 2 "d->d->n_out_levels" "d->n_derivs" mean_m_l out, double 1 "d->d->n_out_levels" flux_p out, double 1 "d->d->n_out_levels" flux_m out, double 2 "d->d->n_out_levels" "d->n_derivs" flux_p_l out, double 2 "d->d->n_out_levels" "d->n_derivs" flux_m_l out, double 1 "d->d->n_out_levels" flux_div out, double 2 "d->d->n_out_levels" "d->n_derivs" flux_div_l out;
+subprogram_general int 0 radiance			0, enum solver_mask 0 solver in enum_external "xrtm" "xrtm_int_cpp", enum method_type 0 method in, int 0 n_out_phis in, double 2 "d->d->n_out_thetas" "n_out_phis" out_phis in, double 4 "d->d->n_out_levels" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" I_p out, double 4 "d->d->n_out_levels" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" I_m out, double 5 "d->d->n_out_levels" "d->n_derivs" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" K_p out, double 5 "d->d->n_out_levels" "d->n_derivs" "d->d->n_out_thetas_2" "n_out_phis" "d->d->n_stokes" K_m out;
-- 
2.43.0


From 92b0421c7b9ab05fd97b4799010c1aa9d00873aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:59 +0000
Subject: [PATCH 120/131] fix: xrtm_get_levels_b_l() returns an int as its
 bindings expect

---
 src/prototypes/xrtm_interface_p.h | 2 +-
 src/xrtm_interface.c              | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/prototypes/xrtm_interface_p.h b/src/prototypes/xrtm_interface_p.h
index c7ff6f8..2995ed6 100644
--- a/src/prototypes/xrtm_interface_p.h
+++ b/src/prototypes/xrtm_interface_p.h
@@ -104,7 +104,7 @@ int xrtm_set_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_get_levels_b(xrtm_data *d, double *levels_b);
 int xrtm_set_levels_b_l_1(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l);
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l);
 int xrtm_set_surface_b(xrtm_data *d, double surface_b);
 double xrtm_get_surface_b(xrtm_data *d);
 int xrtm_set_surface_b_l_1(xrtm_data *d, int i_deriv, double surface_b_l);
diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index 412b768..c028400 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -3825,16 +3825,16 @@ int xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l) {
 
 
 
-double xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
+int xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) {
 
      int i;
 
      if (! (d->options & XRTM_OPTION_SOURCE_THERMAL)) {
           fprintf(stderr, "ERROR: model not initialized for thermal sources\n");
-          return XRTM_DBL_ERROR;
+          return XRTM_INT_ERROR;
      }
 
-     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_DBL_ERROR);
+     CHECK_INDEX_RANGE(i_deriv, d->n_derivs, "i_deriv", "n_derivs", XRTM_INT_ERROR);
 
      for (i = 0; i < d->n_layers + 1; ++i)
           levels_b_l[i] = d->levels_b_l[i][i_deriv];
-- 
2.43.0


From 63f24b3b22f593efcf23b49f577dd9ee4437407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:01 +0000
Subject: [PATCH 121/131] fix: Python: failed creation, kernel names and lists
 of names

---
 interfaces/xrtm_int_py.c | 42 +++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 82b0302..6c0679c 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -17,6 +17,7 @@
 typedef struct {
      PyObject_HEAD
      xrtm_data xrtm;
+     int created;
 } xrtm_data_py;
 
 
@@ -39,14 +40,20 @@ static int list_to_mask(PyObject *list, int *mask, int (*name_to_mask)(const cha
      int r;
      char *format;
      char *error;
+     const char *s;
      *mask = 0;
      n = PyList_Size(list);
+     if (n < 0)
+          return -1;
      for (i = 0; i < n; ++i) {
 #if PY_MAJOR_VERSION < 3
-          r = name_to_mask(PyString_AsString(PyList_GetItem(list, i)));
+          s = PyString_AsString(PyList_GetItem(list, i));
 #else
-          r = name_to_mask(PyUnicode_AsUTF8 (PyList_GetItem(list, i)));
+          s = PyUnicode_AsUTF8 (PyList_GetItem(list, i));
 #endif
+          if (s == NULL)
+               return -1;
+          r = name_to_mask(s);
           if (r == -1) {
                format = "ERROR: %s()";
                error  = malloc(strlen(format) - 2 + strlen(name) + 1);
@@ -67,20 +74,29 @@ static int list_to_array(PyObject *list, int *n, int **array, int (*name_to_valu
      int r;
      char *format;
      char *error;
+     const char *s;
      *n = PyList_Size(list);
+     if (*n < 0)
+          return -1;
      *array = malloc(*n * sizeof(int));
      for (i = 0; i < *n; ++i) {
 #if PY_MAJOR_VERSION < 3
-          r = name_to_value(PyString_AsString(PyList_GetItem(list, i)));
+          s = PyString_AsString(PyList_GetItem(list, i));
 #else
-          r = name_to_value(PyUnicode_AsUTF8 (PyList_GetItem(list, i)));
+          s = PyUnicode_AsUTF8 (PyList_GetItem(list, i));
 #endif
+          if (s == NULL) {
+               free(*array);
+               return -1;
+          }
+          r = name_to_value(s);
           if (r == -1) {
                format = "ERROR: %s()";
                error  = malloc(strlen(format) - 2 + strlen(name) + 1);
                sprintf(error, format, name);
                PyErr_SetString(XRTMError, error);
                free(error);
+               free(*array);
                return -1;
           }
           (*array)[i] = r;
@@ -98,7 +114,7 @@ static int check_pyarray_shape(PyObject *array, const char *name, int n, ...)
      va_list valist;
      n_py = PyArray_NDIM((PyArrayObject *) array);
      if (n_py != n) {
-          PyErr_Format(XRTMError, "ERROR: Number of dimensions for %s input (%d) must be == %d", name, n_py);
+          PyErr_Format(XRTMError, "ERROR: Number of dimensions for %s input (%d) must be == %d", name, n_py, n);
           return -1;
      }
      va_start(valist, n);
@@ -162,8 +178,10 @@ static int xrtm_init(xrtm_data_py *self, PyObject *args)
      r = xrtm_create(d, options, solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernels, n_kernel_quad, (enum xrtm_kernel_type *) kernels, n_out_levels, n_out_thetas);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_create()");
+          free(kernels);
           return -1;
      }
+     self->created = 1;
      free(kernels);
      return 0;
 }
@@ -173,10 +191,12 @@ static void xrtm_dealloc(xrtm_data_py *self)
 {
      int r;
      xrtm_data *d = &self->xrtm;
-     r = xrtm_destroy(d);
-     if (r == XRTM_INT_ERROR) {
-          PyErr_SetString(XRTMError, "ERROR: xrtm_destroy()");
-          return ;
+     if (self->created) {
+          r = xrtm_destroy(d);
+          if (r == XRTM_INT_ERROR) {
+               PyErr_SetString(XRTMError, "ERROR: xrtm_destroy()");
+               return ;
+          }
      }
 #if PY_MAJOR_VERSION < 3
      self->ob_type->tp_free((PyObject *) self);
@@ -329,11 +349,11 @@ static PyObject *xrtm_get_kernel_py(xrtm_data_py *self, PyObject *args)
      if (! PyArg_ParseTuple(args, "i", &i_kernel))
           return NULL;
      r = xrtm_get_kernel(d, i_kernel);
-     if (r == XRTM_INT_ERROR) {
+     if ((int) r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_kernel()");
           return NULL;
      }
-     return Py_BuildValue("s", r);
+     return Py_BuildValue("s", xrtm_kernel_value_to_name(r));
 }
 
 
-- 
2.43.0


From 01c0b5d917c5ba18bf433eaa4cc4ab58e220a67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:02 +0000
Subject: [PATCH 122/131] fix: Python: dimensions of the level sources and
 unchecked indexes

---
 interfaces/xrtm_int_py.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 6c0679c..991be61 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -1071,7 +1071,7 @@ static PyObject *xrtm_set_levels_b_py(xrtm_data_py *self, PyObject *args)
      levels_b_ndarray = PyArray_FROM_OTF(levels_b_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_out_levels) < 0)
+     if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_layers + 1) < 0)
           return NULL;
      levels_b = (double *) array_from_ndarray(levels_b_ndarray, 8);
      r = xrtm_set_levels_b(d, levels_b);
@@ -1093,7 +1093,7 @@ static PyObject *xrtm_get_levels_b_py(xrtm_data_py *self, PyObject *args)
      double *levels_b;
      if (! PyArg_ParseTuple(args, ""))
           return NULL;
-     dims[0] = d->n_out_levels;
+     dims[0] = d->n_layers + 1;
      levels_b_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_ndarray == NULL)
           return NULL;
@@ -1120,7 +1120,7 @@ static PyObject *xrtm_set_levels_b_l_1_py(xrtm_data_py *self, PyObject *args)
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_derivs) < 0)
+     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_layers + 1) < 0)
           return NULL;
      levels_b_l = (double *) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_set_levels_b_l_1(d, i_deriv, levels_b_l);
@@ -1145,7 +1145,7 @@ static PyObject *xrtm_set_levels_b_l_n_py(xrtm_data_py *self, PyObject *args)
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
           return NULL;
-     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_out_levels, d->n_derivs) < 0)
+     if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_layers + 1, d->n_derivs) < 0)
           return NULL;
      levels_b_l = (double **) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_set_levels_b_l_n(d, levels_b_l);
@@ -1169,7 +1169,7 @@ static PyObject *xrtm_get_levels_b_l_py(xrtm_data_py *self, PyObject *args)
      double *levels_b_l;
      if (! PyArg_ParseTuple(args, "i", &i_deriv))
           return NULL;
-     dims[0] = d->n_out_levels;
+     dims[0] = d->n_layers + 1;
      levels_b_l_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_l_ndarray == NULL)
           return NULL;
@@ -1552,6 +1552,10 @@ static PyObject *xrtm_set_coef_l_11_py(xrtm_data_py *self, PyObject *args)
      double **coef_l;
      if (! PyArg_ParseTuple(args, "iiO", &i_layer, &i_deriv, &coef_l_object))
           return NULL;
+     if (i_layer < 0 || i_layer >= d->n_layers) {
+          PyErr_Format(XRTMError, "ERROR: Invalid i_layer: %d", i_layer);
+          return NULL;
+     }
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
           return NULL;
@@ -1606,6 +1610,10 @@ static PyObject *xrtm_set_coef_l_1n_py(xrtm_data_py *self, PyObject *args)
      double ***coef_l;
      if (! PyArg_ParseTuple(args, "iO", &i_layer, &coef_l_object))
           return NULL;
+     if (i_layer < 0 || i_layer >= d->n_layers) {
+          PyErr_Format(XRTMError, "ERROR: Invalid i_layer: %d", i_layer);
+          return NULL;
+     }
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
           return NULL;
@@ -2071,6 +2079,10 @@ static PyObject *xrtm_set_kernel_params_n_py(xrtm_data_py *self, PyObject *args)
      double *params;
      if (! PyArg_ParseTuple(args, "iO", &i_kernel, &params_object))
           return NULL;
+     if (i_kernel < 0 || i_kernel >= d->n_kernels) {
+          PyErr_Format(XRTMError, "ERROR: Invalid i_kernel: %d", i_kernel);
+          return NULL;
+     }
      params_ndarray = PyArray_FROM_OTF(params_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_ndarray == NULL)
           return NULL;
@@ -2195,6 +2207,10 @@ static PyObject *xrtm_set_kernel_params_l_1n_py(xrtm_data_py *self, PyObject *ar
      double *params_l;
      if (! PyArg_ParseTuple(args, "iiO", &i_kernel, &i_deriv, &params_l_object))
           return NULL;
+     if (i_kernel < 0 || i_kernel >= d->n_kernels) {
+          PyErr_Format(XRTMError, "ERROR: Invalid i_kernel: %d", i_kernel);
+          return NULL;
+     }
      params_l_ndarray = PyArray_FROM_OTF(params_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_l_ndarray == NULL)
           return NULL;
@@ -2248,6 +2264,10 @@ static PyObject *xrtm_set_kernel_params_l_nn_py(xrtm_data_py *self, PyObject *ar
      double **params_l;
      if (! PyArg_ParseTuple(args, "iO", &i_kernel, &params_l_object))
           return NULL;
+     if (i_kernel < 0 || i_kernel >= d->n_kernels) {
+          PyErr_Format(XRTMError, "ERROR: Invalid i_kernel: %d", i_kernel);
+          return NULL;
+     }
      params_l_ndarray = PyArray_FROM_OTF(params_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_l_ndarray == NULL)
           return NULL;
-- 
2.43.0


From eeffa379fb0cb35d02ee2b3b124b96e4b3c55493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:04 +0000
Subject: [PATCH 123/131] fix: Python: release references and memory

---
 interfaces/xrtm_int_py.c | 609 ++++++++++++++++++++++++++-------------
 1 file changed, 405 insertions(+), 204 deletions(-)

diff --git a/interfaces/xrtm_int_py.c b/interfaces/xrtm_int_py.c
index 991be61..c9fe603 100644
--- a/interfaces/xrtm_int_py.c
+++ b/interfaces/xrtm_int_py.c
@@ -607,17 +607,20 @@ static PyObject *xrtm_set_levels_z_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      levels_z_ndarray = PyArray_FROM_OTF(levels_z_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_z_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(levels_z_ndarray, "levels_z", 1, d->n_layers + 1) < 0)
-          return NULL;
+          goto error;
      levels_z = (double *) array_from_ndarray(levels_z_ndarray, 8);
      r = xrtm_set_levels_z(d, levels_z);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_levels_z()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(levels_z_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(levels_z_ndarray);
+     return NULL;
 }
 
 
@@ -633,14 +636,17 @@ static PyObject *xrtm_get_levels_z_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_layers + 1;
      levels_z_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_z_ndarray == NULL)
-          return NULL;
+          goto error;
      levels_z = (double *) array_from_ndarray(levels_z_ndarray, 8);
      r = xrtm_get_levels_z(d, levels_z);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_levels_z()");
-          return NULL;
+          goto error;
      }
-     return Py_BuildValue("O", levels_z_ndarray);
+     return Py_BuildValue("N", levels_z_ndarray);
+error:
+     Py_XDECREF(levels_z_ndarray);
+     return NULL;
 }
 
 
@@ -655,17 +661,20 @@ static PyObject *xrtm_set_out_levels_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      out_levels_ndarray = PyArray_FROM_OTF(out_levels_object, NPY_INT, NPY_ARRAY_IN_ARRAY);
      if (out_levels_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(out_levels_ndarray, "out_levels", 1, d->n_out_levels) < 0)
-          return NULL;
+          goto error;
      out_levels = (int *) array_from_ndarray(out_levels_ndarray, 4);
      r = xrtm_set_out_levels(d, out_levels);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_out_levels()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(out_levels_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(out_levels_ndarray);
+     return NULL;
 }
 
 
@@ -681,14 +690,17 @@ static PyObject *xrtm_get_out_levels_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_out_levels;
      out_levels_ndarray = PyArray_SimpleNew(1, dims, NPY_INT);
      if (out_levels_ndarray == NULL)
-          return NULL;
+          goto error;
      out_levels = (int *) array_from_ndarray(out_levels_ndarray, 4);
      r = xrtm_get_out_levels(d, out_levels);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_out_levels()");
-          return NULL;
+          goto error;
      }
-     return Py_BuildValue("O", out_levels_ndarray);
+     return Py_BuildValue("N", out_levels_ndarray);
+error:
+     Py_XDECREF(out_levels_ndarray);
+     return NULL;
 }
 
 
@@ -703,17 +715,20 @@ static PyObject *xrtm_set_out_taus_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      out_taus_ndarray = PyArray_FROM_OTF(out_taus_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_taus_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(out_taus_ndarray, "out_taus", 1, d->n_out_levels) < 0)
-          return NULL;
+          goto error;
      out_taus = (double *) array_from_ndarray(out_taus_ndarray, 8);
      r = xrtm_set_out_taus(d, out_taus);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_out_taus()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(out_taus_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(out_taus_ndarray);
+     return NULL;
 }
 
 
@@ -729,14 +744,17 @@ static PyObject *xrtm_get_out_taus_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_out_levels;
      out_taus_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (out_taus_ndarray == NULL)
-          return NULL;
+          goto error;
      out_taus = (double *) array_from_ndarray(out_taus_ndarray, 8);
      r = xrtm_get_out_taus(d, out_taus);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_out_taus()");
-          return NULL;
+          goto error;
      }
-     return Py_BuildValue("O", out_taus_ndarray);
+     return Py_BuildValue("N", out_taus_ndarray);
+error:
+     Py_XDECREF(out_taus_ndarray);
+     return NULL;
 }
 
 
@@ -751,17 +769,20 @@ static PyObject *xrtm_set_out_thetas_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      out_thetas_ndarray = PyArray_FROM_OTF(out_thetas_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_thetas_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(out_thetas_ndarray, "out_thetas", 1, d->n_out_thetas) < 0)
-          return NULL;
+          goto error;
      out_thetas = (double *) array_from_ndarray(out_thetas_ndarray, 8);
      r = xrtm_set_out_thetas(d, out_thetas);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_out_thetas()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(out_thetas_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(out_thetas_ndarray);
+     return NULL;
 }
 
 
@@ -777,14 +798,17 @@ static PyObject *xrtm_get_out_thetas_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_out_thetas;
      out_thetas_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (out_thetas_ndarray == NULL)
-          return NULL;
+          goto error;
      out_thetas = (double *) array_from_ndarray(out_thetas_ndarray, 8);
      r = xrtm_get_out_thetas(d, out_thetas);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_out_thetas()");
-          return NULL;
+          goto error;
      }
-     return Py_BuildValue("O", out_thetas_ndarray);
+     return Py_BuildValue("N", out_thetas_ndarray);
+error:
+     Py_XDECREF(out_thetas_ndarray);
+     return NULL;
 }
 
 
@@ -847,17 +871,20 @@ static PyObject *xrtm_set_F_iso_top_l_n_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      F_iso_top_l_ndarray = PyArray_FROM_OTF(F_iso_top_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (F_iso_top_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(F_iso_top_l_ndarray, "F_iso_top_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      F_iso_top_l = (double *) array_from_ndarray(F_iso_top_l_ndarray, 8);
      r = xrtm_set_F_iso_top_l_n(d, F_iso_top_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_F_iso_top_l_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(F_iso_top_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(F_iso_top_l_ndarray);
+     return NULL;
 }
 
 
@@ -936,17 +963,20 @@ static PyObject *xrtm_set_F_iso_bot_l_n_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      F_iso_bot_l_ndarray = PyArray_FROM_OTF(F_iso_bot_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (F_iso_bot_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(F_iso_bot_l_ndarray, "F_iso_bot_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      F_iso_bot_l = (double *) array_from_ndarray(F_iso_bot_l_ndarray, 8);
      r = xrtm_set_F_iso_bot_l_n(d, F_iso_bot_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_F_iso_bot_l_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(F_iso_bot_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(F_iso_bot_l_ndarray);
+     return NULL;
 }
 
 
@@ -1070,17 +1100,20 @@ static PyObject *xrtm_set_levels_b_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      levels_b_ndarray = PyArray_FROM_OTF(levels_b_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(levels_b_ndarray, "levels_b", 1, d->n_layers + 1) < 0)
-          return NULL;
+          goto error;
      levels_b = (double *) array_from_ndarray(levels_b_ndarray, 8);
      r = xrtm_set_levels_b(d, levels_b);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_levels_b()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(levels_b_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(levels_b_ndarray);
+     return NULL;
 }
 
 
@@ -1096,14 +1129,17 @@ static PyObject *xrtm_get_levels_b_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_layers + 1;
      levels_b_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_ndarray == NULL)
-          return NULL;
+          goto error;
      levels_b = (double *) array_from_ndarray(levels_b_ndarray, 8);
      r = xrtm_get_levels_b(d, levels_b);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_levels_b()");
-          return NULL;
+          goto error;
      }
-     return Py_BuildValue("O", levels_b_ndarray);
+     return Py_BuildValue("N", levels_b_ndarray);
+error:
+     Py_XDECREF(levels_b_ndarray);
+     return NULL;
 }
 
 
@@ -1119,17 +1155,20 @@ static PyObject *xrtm_set_levels_b_l_1_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 1, d->n_layers + 1) < 0)
-          return NULL;
+          goto error;
      levels_b_l = (double *) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_set_levels_b_l_1(d, i_deriv, levels_b_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_levels_b_l_1()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(levels_b_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(levels_b_l_ndarray);
+     return NULL;
 }
 
 
@@ -1139,23 +1178,27 @@ static PyObject *xrtm_set_levels_b_l_n_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *levels_b_l_object  = NULL;
      PyObject *levels_b_l_ndarray = NULL;
-     double **levels_b_l;
+     double **levels_b_l = NULL;
      if (! PyArg_ParseTuple(args, "O", &levels_b_l_object))
           return NULL;
      levels_b_l_ndarray = PyArray_FROM_OTF(levels_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (levels_b_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(levels_b_l_ndarray, "levels_b_l", 2, d->n_layers + 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      levels_b_l = (double **) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_set_levels_b_l_n(d, levels_b_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_levels_b_l_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(levels_b_l_ndarray);
      free_array(levels_b_l, 2);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(levels_b_l_ndarray);
+     free_array(levels_b_l, 2);
+     return NULL;
 }
 
 
@@ -1172,14 +1215,17 @@ static PyObject *xrtm_get_levels_b_l_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_layers + 1;
      levels_b_l_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (levels_b_l_ndarray == NULL)
-          return NULL;
+          goto error;
      levels_b_l = (double *) array_from_ndarray(levels_b_l_ndarray, 8);
      r = xrtm_get_levels_b_l(d, i_deriv, levels_b_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_get_levels_b_l()");
-          return NULL;
+          goto error;
      }
-     return Py_BuildValue("O", levels_b_l_ndarray);
+     return Py_BuildValue("N", levels_b_l_ndarray);
+error:
+     Py_XDECREF(levels_b_l_ndarray);
+     return NULL;
 }
 
 
@@ -1242,17 +1288,20 @@ static PyObject *xrtm_set_surface_b_l_n_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      surface_b_l_ndarray = PyArray_FROM_OTF(surface_b_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (surface_b_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(surface_b_l_ndarray, "surface_b_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      surface_b_l = (double *) array_from_ndarray(surface_b_l_ndarray, 8);
      r = xrtm_set_surface_b_l_n(d, surface_b_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_surface_b_l_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(surface_b_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(surface_b_l_ndarray);
+     return NULL;
 }
 
 
@@ -1300,17 +1349,20 @@ static PyObject *xrtm_set_g_n_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      g_ndarray = PyArray_FROM_OTF(g_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (g_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(g_ndarray, "g", 1, d->n_layers) < 0)
-          return NULL;
+          goto error;
      g = (double *) array_from_ndarray(g_ndarray, 8);
      r = xrtm_set_g_n(d, g);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_g_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(g_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(g_ndarray);
+     return NULL;
 }
 
 
@@ -1360,17 +1412,20 @@ static PyObject *xrtm_set_g_l_n1_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      g_l_ndarray = PyArray_FROM_OTF(g_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (g_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(g_l_ndarray, "g_l", 1, d->n_layers) < 0)
-          return NULL;
+          goto error;
      g_l = (double *) array_from_ndarray(g_l_ndarray, 8);
      r = xrtm_set_g_l_n1(d, i_deriv, g_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_g_l_n1()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(g_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(g_l_ndarray);
+     return NULL;
 }
 
 
@@ -1386,17 +1441,20 @@ static PyObject *xrtm_set_g_l_1n_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      g_l_ndarray = PyArray_FROM_OTF(g_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (g_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(g_l_ndarray, "g_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      g_l = (double *) array_from_ndarray(g_l_ndarray, 8);
      r = xrtm_set_g_l_1n(d, i_layer, g_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_g_l_1n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(g_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(g_l_ndarray);
+     return NULL;
 }
 
 
@@ -1406,23 +1464,27 @@ static PyObject *xrtm_set_g_l_nn_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *g_l_object  = NULL;
      PyObject *g_l_ndarray = NULL;
-     double **g_l;
+     double **g_l = NULL;
      if (! PyArg_ParseTuple(args, "O", &g_l_object))
           return NULL;
      g_l_ndarray = PyArray_FROM_OTF(g_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (g_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(g_l_ndarray, "g_l", 2, d->n_layers, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      g_l = (double **) array_from_ndarray(g_l_ndarray, 8);
      r = xrtm_set_g_l_nn(d, g_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_g_l_nn()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(g_l_ndarray);
      free_array(g_l, 2);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(g_l_ndarray);
+     free_array(g_l, 2);
+     return NULL;
 }
 
 
@@ -1451,23 +1513,27 @@ static PyObject *xrtm_set_coef_1_py(xrtm_data_py *self, PyObject *args)
      int n_coef_layer;
      PyObject *coef_object  = NULL;
      PyObject *coef_ndarray = NULL;
-     double **coef;
+     double **coef = NULL;
      if (! PyArg_ParseTuple(args, "iiO", &i_layer, &n_coef_layer, &coef_object))
           return NULL;
      coef_ndarray = PyArray_FROM_OTF(coef_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(coef_ndarray, "coef", 2, d->n_elem, n_coef_layer) < 0)
-          return NULL;
+          goto error;
      coef = (double **) array_from_ndarray(coef_ndarray, 8);
      r = xrtm_set_coef_1(d, i_layer, n_coef_layer, coef);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_coef_1()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(coef_ndarray);
      free_array(coef, 2);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(coef_ndarray);
+     free_array(coef, 2);
+     return NULL;
 }
 
 
@@ -1480,30 +1546,35 @@ static PyObject *xrtm_set_coef_n_py(xrtm_data_py *self, PyObject *args)
      int *n_coef_layer;
      PyObject *coef_object  = NULL;
      PyObject *coef_ndarray = NULL;
-     double ***coef;
+     double ***coef = NULL;
      if (! PyArg_ParseTuple(args, "OO", &n_coef_layer_object, &coef_object))
           return NULL;
      n_coef_layer_ndarray = PyArray_FROM_OTF(n_coef_layer_object, NPY_INT, NPY_ARRAY_IN_ARRAY);
      if (n_coef_layer_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(n_coef_layer_ndarray, "n_coef_layer", 1, d->n_layers) < 0)
-          return NULL;
+          goto error;
      n_coef_layer = (int *) array_from_ndarray(n_coef_layer_ndarray, 4);
      coef_ndarray = PyArray_FROM_OTF(coef_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(coef_ndarray, "coef", 3, d->n_layers, d->n_elem, d->n_coef) < 0)
-          return NULL;
+          goto error;
      coef = (double ***) array_from_ndarray(coef_ndarray, 8);
      r = xrtm_set_coef_n(d, n_coef_layer, coef);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_coef_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(n_coef_layer_ndarray);
      Py_DECREF(coef_ndarray);
      free_array(coef, 3);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(n_coef_layer_ndarray);
+     Py_XDECREF(coef_ndarray);
+     free_array(coef, 3);
+     return NULL;
 }
 
 
@@ -1549,7 +1620,7 @@ static PyObject *xrtm_set_coef_l_11_py(xrtm_data_py *self, PyObject *args)
      int i_deriv;
      PyObject *coef_l_object  = NULL;
      PyObject *coef_l_ndarray = NULL;
-     double **coef_l;
+     double **coef_l = NULL;
      if (! PyArg_ParseTuple(args, "iiO", &i_layer, &i_deriv, &coef_l_object))
           return NULL;
      if (i_layer < 0 || i_layer >= d->n_layers) {
@@ -1558,18 +1629,22 @@ static PyObject *xrtm_set_coef_l_11_py(xrtm_data_py *self, PyObject *args)
      }
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(coef_l_ndarray, "coef_l", 2, d->n_elem, d->n_coef_layer[i_layer]) < 0)
-          return NULL;
+          goto error;
      coef_l = (double **) array_from_ndarray(coef_l_ndarray, 8);
      r = xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_coef_l_11()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(coef_l_ndarray);
      free_array(coef_l, 2);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(coef_l_ndarray);
+     free_array(coef_l, 2);
+     return NULL;
 }
 
 
@@ -1580,23 +1655,27 @@ static PyObject *xrtm_set_coef_l_n1_py(xrtm_data_py *self, PyObject *args)
      int i_deriv;
      PyObject *coef_l_object  = NULL;
      PyObject *coef_l_ndarray = NULL;
-     double ***coef_l;
+     double ***coef_l = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_deriv, &coef_l_object))
           return NULL;
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(coef_l_ndarray, "coef_l", 3, d->n_layers, d->n_elem, d->n_coef) < 0)
-          return NULL;
+          goto error;
      coef_l = (double ***) array_from_ndarray(coef_l_ndarray, 8);
      r = xrtm_set_coef_l_n1(d, i_deriv, coef_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_coef_l_n1()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(coef_l_ndarray);
      free_array(coef_l, 3);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(coef_l_ndarray);
+     free_array(coef_l, 3);
+     return NULL;
 }
 
 
@@ -1607,7 +1686,7 @@ static PyObject *xrtm_set_coef_l_1n_py(xrtm_data_py *self, PyObject *args)
      int i_layer;
      PyObject *coef_l_object  = NULL;
      PyObject *coef_l_ndarray = NULL;
-     double ***coef_l;
+     double ***coef_l = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_layer, &coef_l_object))
           return NULL;
      if (i_layer < 0 || i_layer >= d->n_layers) {
@@ -1616,18 +1695,22 @@ static PyObject *xrtm_set_coef_l_1n_py(xrtm_data_py *self, PyObject *args)
      }
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(coef_l_ndarray, "coef_l", 3, d->n_derivs, d->n_elem, d->n_coef_layer[i_layer]) < 0)
-          return NULL;
+          goto error;
      coef_l = (double ***) array_from_ndarray(coef_l_ndarray, 8);
      r = xrtm_set_coef_l_1n(d, i_layer, coef_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_coef_l_1n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(coef_l_ndarray);
      free_array(coef_l, 3);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(coef_l_ndarray);
+     free_array(coef_l, 3);
+     return NULL;
 }
 
 
@@ -1637,23 +1720,27 @@ static PyObject *xrtm_set_coef_l_nn_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *coef_l_object  = NULL;
      PyObject *coef_l_ndarray = NULL;
-     double ****coef_l;
+     double ****coef_l = NULL;
      if (! PyArg_ParseTuple(args, "O", &coef_l_object))
           return NULL;
      coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (coef_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(coef_l_ndarray, "coef_l", 4, d->n_layers, d->n_derivs, d->n_elem, d->n_coef) < 0)
-          return NULL;
+          goto error;
      coef_l = (double ****) array_from_ndarray(coef_l_ndarray, 8);
      r = xrtm_set_coef_l_nn(d, coef_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_coef_l_nn()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(coef_l_ndarray);
      free_array(coef_l, 4);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(coef_l_ndarray);
+     free_array(coef_l, 4);
+     return NULL;
 }
 
 
@@ -1704,17 +1791,20 @@ static PyObject *xrtm_set_omega_n_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      omega_ndarray = PyArray_FROM_OTF(omega_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (omega_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(omega_ndarray, "omega", 1, d->n_layers) < 0)
-          return NULL;
+          goto error;
      omega = (double *) array_from_ndarray(omega_ndarray, 8);
      r = xrtm_set_omega_n(d, omega);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_omega_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(omega_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(omega_ndarray);
+     return NULL;
 }
 
 
@@ -1764,17 +1854,20 @@ static PyObject *xrtm_set_omega_l_n1_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      omega_l_ndarray = PyArray_FROM_OTF(omega_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (omega_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(omega_l_ndarray, "omega_l", 1, d->n_layers) < 0)
-          return NULL;
+          goto error;
      omega_l = (double *) array_from_ndarray(omega_l_ndarray, 8);
      r = xrtm_set_omega_l_n1(d, i_deriv, omega_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_omega_l_n1()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(omega_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(omega_l_ndarray);
+     return NULL;
 }
 
 
@@ -1790,17 +1883,20 @@ static PyObject *xrtm_set_omega_l_1n_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      omega_l_ndarray = PyArray_FROM_OTF(omega_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (omega_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(omega_l_ndarray, "omega_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      omega_l = (double *) array_from_ndarray(omega_l_ndarray, 8);
      r = xrtm_set_omega_l_1n(d, i_layer, omega_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_omega_l_1n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(omega_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(omega_l_ndarray);
+     return NULL;
 }
 
 
@@ -1810,23 +1906,27 @@ static PyObject *xrtm_set_omega_l_nn_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *omega_l_object  = NULL;
      PyObject *omega_l_ndarray = NULL;
-     double **omega_l;
+     double **omega_l = NULL;
      if (! PyArg_ParseTuple(args, "O", &omega_l_object))
           return NULL;
      omega_l_ndarray = PyArray_FROM_OTF(omega_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (omega_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(omega_l_ndarray, "omega_l", 2, d->n_layers, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      omega_l = (double **) array_from_ndarray(omega_l_ndarray, 8);
      r = xrtm_set_omega_l_nn(d, omega_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_omega_l_nn()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(omega_l_ndarray);
      free_array(omega_l, 2);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(omega_l_ndarray);
+     free_array(omega_l, 2);
+     return NULL;
 }
 
 
@@ -1875,17 +1975,20 @@ static PyObject *xrtm_set_ltau_n_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      ltau_ndarray = PyArray_FROM_OTF(ltau_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (ltau_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(ltau_ndarray, "ltau", 1, d->n_layers) < 0)
-          return NULL;
+          goto error;
      ltau = (double *) array_from_ndarray(ltau_ndarray, 8);
      r = xrtm_set_ltau_n(d, ltau);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_ltau_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(ltau_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(ltau_ndarray);
+     return NULL;
 }
 
 
@@ -1935,17 +2038,20 @@ static PyObject *xrtm_set_ltau_l_n1_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      ltau_l_ndarray = PyArray_FROM_OTF(ltau_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (ltau_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(ltau_l_ndarray, "ltau_l", 1, d->n_layers) < 0)
-          return NULL;
+          goto error;
      ltau_l = (double *) array_from_ndarray(ltau_l_ndarray, 8);
      r = xrtm_set_ltau_l_n1(d, i_deriv, ltau_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_ltau_l_n1()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(ltau_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(ltau_l_ndarray);
+     return NULL;
 }
 
 
@@ -1961,17 +2067,20 @@ static PyObject *xrtm_set_ltau_l_1n_py(xrtm_data_py *self, PyObject *args)
           return NULL;
      ltau_l_ndarray = PyArray_FROM_OTF(ltau_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (ltau_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(ltau_l_ndarray, "ltau_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      ltau_l = (double *) array_from_ndarray(ltau_l_ndarray, 8);
      r = xrtm_set_ltau_l_1n(d, i_layer, ltau_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_ltau_l_1n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(ltau_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(ltau_l_ndarray);
+     return NULL;
 }
 
 
@@ -1981,23 +2090,27 @@ static PyObject *xrtm_set_ltau_l_nn_py(xrtm_data_py *self, PyObject *args)
      xrtm_data *d = &self->xrtm;
      PyObject *ltau_l_object  = NULL;
      PyObject *ltau_l_ndarray = NULL;
-     double **ltau_l;
+     double **ltau_l = NULL;
      if (! PyArg_ParseTuple(args, "O", &ltau_l_object))
           return NULL;
      ltau_l_ndarray = PyArray_FROM_OTF(ltau_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (ltau_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(ltau_l_ndarray, "ltau_l", 2, d->n_layers, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      ltau_l = (double **) array_from_ndarray(ltau_l_ndarray, 8);
      r = xrtm_set_ltau_l_nn(d, ltau_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_ltau_l_nn()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(ltau_l_ndarray);
      free_array(ltau_l, 2);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(ltau_l_ndarray);
+     free_array(ltau_l, 2);
+     return NULL;
 }
 
 
@@ -2085,17 +2198,20 @@ static PyObject *xrtm_set_kernel_params_n_py(xrtm_data_py *self, PyObject *args)
      }
      params_ndarray = PyArray_FROM_OTF(params_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(params_ndarray, "params", 1, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])) < 0)
-          return NULL;
+          goto error;
      params = (double *) array_from_ndarray(params_ndarray, 8);
      r = xrtm_set_kernel_params_n(d, i_kernel, params);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_kernel_params_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(params_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(params_ndarray);
+     return NULL;
 }
 
 
@@ -2146,17 +2262,20 @@ static PyObject *xrtm_set_kernel_ampfac_l_n_py(xrtm_data_py *self, PyObject *arg
           return NULL;
      ampfac_l_ndarray = PyArray_FROM_OTF(ampfac_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (ampfac_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(ampfac_l_ndarray, "ampfac_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      ampfac_l = (double *) array_from_ndarray(ampfac_l_ndarray, 8);
      r = xrtm_set_kernel_ampfac_l_n(d, i_kernel, ampfac_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_kernel_ampfac_l_n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(ampfac_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(ampfac_l_ndarray);
+     return NULL;
 }
 
 
@@ -2213,17 +2332,20 @@ static PyObject *xrtm_set_kernel_params_l_1n_py(xrtm_data_py *self, PyObject *ar
      }
      params_l_ndarray = PyArray_FROM_OTF(params_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(params_l_ndarray, "params_l", 1, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])) < 0)
-          return NULL;
+          goto error;
      params_l = (double *) array_from_ndarray(params_l_ndarray, 8);
      r = xrtm_set_kernel_params_l_1n(d, i_kernel, i_deriv, params_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_kernel_params_l_1n()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(params_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(params_l_ndarray);
+     return NULL;
 }
 
 
@@ -2240,17 +2362,20 @@ static PyObject *xrtm_set_kernel_params_l_n1_py(xrtm_data_py *self, PyObject *ar
           return NULL;
      params_l_ndarray = PyArray_FROM_OTF(params_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(params_l_ndarray, "params_l", 1, d->n_derivs) < 0)
-          return NULL;
+          goto error;
      params_l = (double *) array_from_ndarray(params_l_ndarray, 8);
      r = xrtm_set_kernel_params_l_n1(d, i_kernel, i_param, params_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_kernel_params_l_n1()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(params_l_ndarray);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(params_l_ndarray);
+     return NULL;
 }
 
 
@@ -2261,7 +2386,7 @@ static PyObject *xrtm_set_kernel_params_l_nn_py(xrtm_data_py *self, PyObject *ar
      int i_kernel;
      PyObject *params_l_object  = NULL;
      PyObject *params_l_ndarray = NULL;
-     double **params_l;
+     double **params_l = NULL;
      if (! PyArg_ParseTuple(args, "iO", &i_kernel, &params_l_object))
           return NULL;
      if (i_kernel < 0 || i_kernel >= d->n_kernels) {
@@ -2270,18 +2395,22 @@ static PyObject *xrtm_set_kernel_params_l_nn_py(xrtm_data_py *self, PyObject *ar
      }
      params_l_ndarray = PyArray_FROM_OTF(params_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (params_l_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(params_l_ndarray, "params_l", 2, d->n_derivs, kernel_n_params((enum xrtm_kernel_type) d->kernels[i_kernel])) < 0)
-          return NULL;
+          goto error;
      params_l = (double **) array_from_ndarray(params_l_ndarray, 8);
      r = xrtm_set_kernel_params_l_nn(d, i_kernel, params_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_set_kernel_params_l_nn()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(params_l_ndarray);
      free_array(params_l, 2);
      return Py_BuildValue("i",  0);
+error:
+     Py_XDECREF(params_l_ndarray);
+     free_array(params_l, 2);
+     return NULL;
 }
 
 
@@ -2330,14 +2459,17 @@ static PyObject *xrtm_qx_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_quad;
      qx_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (qx_ndarray == NULL)
-          return NULL;
+          goto error;
      qx = (double *) array_from_ndarray(qx_ndarray, 8);
      r = xrtm_qx(d, qx);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_qx()");
-          return NULL;
+          goto error;
      }
-     return Py_BuildValue("O", qx_ndarray);
+     return Py_BuildValue("N", qx_ndarray);
+error:
+     Py_XDECREF(qx_ndarray);
+     return NULL;
 }
 
 
@@ -2353,14 +2485,17 @@ static PyObject *xrtm_qw_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_quad;
      qw_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (qw_ndarray == NULL)
-          return NULL;
+          goto error;
      qw = (double *) array_from_ndarray(qw_ndarray, 8);
      r = xrtm_qw(d, qw);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_qw()");
-          return NULL;
+          goto error;
      }
-     return Py_BuildValue("O", qw_ndarray);
+     return Py_BuildValue("N", qw_ndarray);
+error:
+     Py_XDECREF(qw_ndarray);
+     return NULL;
 }
 
 
@@ -2376,14 +2511,17 @@ static PyObject *xrtm_kernel_qx_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_kernel_quad;
      kernel_qx_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (kernel_qx_ndarray == NULL)
-          return NULL;
+          goto error;
      kernel_qx = (double *) array_from_ndarray(kernel_qx_ndarray, 8);
      r = xrtm_kernel_qx(d, kernel_qx);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_kernel_qx()");
-          return NULL;
+          goto error;
      }
-     return Py_BuildValue("O", kernel_qx_ndarray);
+     return Py_BuildValue("N", kernel_qx_ndarray);
+error:
+     Py_XDECREF(kernel_qx_ndarray);
+     return NULL;
 }
 
 
@@ -2399,14 +2537,17 @@ static PyObject *xrtm_kernel_qw_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_kernel_quad;
      kernel_qw_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (kernel_qw_ndarray == NULL)
-          return NULL;
+          goto error;
      kernel_qw = (double *) array_from_ndarray(kernel_qw_ndarray, 8);
      r = xrtm_kernel_qw(d, kernel_qw);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_kernel_qw()");
-          return NULL;
+          goto error;
      }
-     return Py_BuildValue("O", kernel_qw_ndarray);
+     return Py_BuildValue("N", kernel_qw_ndarray);
+error:
+     Py_XDECREF(kernel_qw_ndarray);
+     return NULL;
 }
 
 
@@ -2420,36 +2561,36 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      int n_out_phis;
      PyObject *out_phis_object  = NULL;
      PyObject *out_phis_ndarray = NULL;
-     double **out_phis;
+     double **out_phis = NULL;
      npy_intp dims[5];
      PyObject *I_p_ndarray = NULL;
-     double ****I_p;
+     double ****I_p = NULL;
      PyObject *I_m_ndarray = NULL;
-     double ****I_m;
+     double ****I_m = NULL;
      PyObject *K_p_ndarray = NULL;
-     double *****K_p;
+     double *****K_p = NULL;
      PyObject *K_m_ndarray = NULL;
-     double *****K_m;
+     double *****K_m = NULL;
      PyObject *mean_p_ndarray = NULL;
      double *mean_p;
      PyObject *mean_m_ndarray = NULL;
      double *mean_m;
      PyObject *mean_p_l_ndarray = NULL;
-     double **mean_p_l;
+     double **mean_p_l = NULL;
      PyObject *mean_m_l_ndarray = NULL;
-     double **mean_m_l;
+     double **mean_m_l = NULL;
      PyObject *flux_p_ndarray = NULL;
      double *flux_p;
      PyObject *flux_m_ndarray = NULL;
      double *flux_m;
      PyObject *flux_p_l_ndarray = NULL;
-     double **flux_p_l;
+     double **flux_p_l = NULL;
      PyObject *flux_m_l_ndarray = NULL;
-     double **flux_m_l;
+     double **flux_m_l = NULL;
      PyObject *flux_div_ndarray = NULL;
      double *flux_div;
      PyObject *flux_div_l_ndarray = NULL;
-     double **flux_div_l;
+     double **flux_div_l = NULL;
      if (! PyArg_ParseTuple(args, "siiO", &solver_string, &solutions, &n_out_phis, &out_phis_object))
           return NULL;
      solver = xrtm_solver_name_to_mask(solver_string);
@@ -2459,9 +2600,9 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      }
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
-          return NULL;
+          goto error;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_out_thetas_2;
@@ -2469,7 +2610,7 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      dims[3] = d->n_stokes;
      I_p_ndarray = PyArray_SimpleNew(4, dims, NPY_DOUBLE);
      if (I_p_ndarray == NULL)
-          return NULL;
+          goto error;
      I_p = (double ****) array_from_ndarray(I_p_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_out_thetas_2;
@@ -2477,7 +2618,7 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      dims[3] = d->n_stokes;
      I_m_ndarray = PyArray_SimpleNew(4, dims, NPY_DOUBLE);
      if (I_m_ndarray == NULL)
-          return NULL;
+          goto error;
      I_m = (double ****) array_from_ndarray(I_m_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
@@ -2486,7 +2627,7 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      dims[4] = d->n_stokes;
      K_p_ndarray = PyArray_SimpleNew(5, dims, NPY_DOUBLE);
      if (K_p_ndarray == NULL)
-          return NULL;
+          goto error;
      K_p = (double *****) array_from_ndarray(K_p_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
@@ -2495,67 +2636,67 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      dims[4] = d->n_stokes;
      K_m_ndarray = PyArray_SimpleNew(5, dims, NPY_DOUBLE);
      if (K_m_ndarray == NULL)
-          return NULL;
+          goto error;
      K_m = (double *****) array_from_ndarray(K_m_ndarray, 8);
      dims[0] = d->n_out_levels;
      mean_p_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (mean_p_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_p = (double *) array_from_ndarray(mean_p_ndarray, 8);
      dims[0] = d->n_out_levels;
      mean_m_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (mean_m_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_m = (double *) array_from_ndarray(mean_m_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      mean_p_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (mean_p_l_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_p_l = (double **) array_from_ndarray(mean_p_l_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      mean_m_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (mean_m_l_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_m_l = (double **) array_from_ndarray(mean_m_l_ndarray, 8);
      dims[0] = d->n_out_levels;
      flux_p_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (flux_p_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_p = (double *) array_from_ndarray(flux_p_ndarray, 8);
      dims[0] = d->n_out_levels;
      flux_m_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (flux_m_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_m = (double *) array_from_ndarray(flux_m_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      flux_p_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (flux_p_l_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_p_l = (double **) array_from_ndarray(flux_p_l_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      flux_m_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (flux_m_l_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_m_l = (double **) array_from_ndarray(flux_m_l_ndarray, 8);
      dims[0] = d->n_out_levels;
      flux_div_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (flux_div_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_div = (double *) array_from_ndarray(flux_div_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      flux_div_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (flux_div_l_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_div_l = (double **) array_from_ndarray(flux_div_l_ndarray, 8);
      r = xrtm_solution(d, (enum xrtm_solver_mask) solver, solutions, n_out_phis, out_phis, I_p, I_m, K_p, K_m, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_solution()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(out_phis_ndarray);
      free_array(out_phis, 2);
@@ -2568,7 +2709,34 @@ static PyObject *xrtm_solution_py(xrtm_data_py *self, PyObject *args)
      free_array(flux_p_l, 2);
      free_array(flux_m_l, 2);
      free_array(flux_div_l, 2);
-     return Py_BuildValue("OOOOOOOOOOOOOO", I_p_ndarray, I_m_ndarray, K_p_ndarray, K_m_ndarray, mean_p_ndarray, mean_m_ndarray, mean_p_l_ndarray, mean_m_l_ndarray, flux_p_ndarray, flux_m_ndarray, flux_p_l_ndarray, flux_m_l_ndarray, flux_div_ndarray, flux_div_l_ndarray);
+     return Py_BuildValue("NNNNNNNNNNNNNN", I_p_ndarray, I_m_ndarray, K_p_ndarray, K_m_ndarray, mean_p_ndarray, mean_m_ndarray, mean_p_l_ndarray, mean_m_l_ndarray, flux_p_ndarray, flux_m_ndarray, flux_p_l_ndarray, flux_m_l_ndarray, flux_div_ndarray, flux_div_l_ndarray);
+error:
+     Py_XDECREF(out_phis_ndarray);
+     Py_XDECREF(I_p_ndarray);
+     Py_XDECREF(I_m_ndarray);
+     Py_XDECREF(K_p_ndarray);
+     Py_XDECREF(K_m_ndarray);
+     Py_XDECREF(mean_p_ndarray);
+     Py_XDECREF(mean_m_ndarray);
+     Py_XDECREF(mean_p_l_ndarray);
+     Py_XDECREF(mean_m_l_ndarray);
+     Py_XDECREF(flux_p_ndarray);
+     Py_XDECREF(flux_m_ndarray);
+     Py_XDECREF(flux_p_l_ndarray);
+     Py_XDECREF(flux_m_l_ndarray);
+     Py_XDECREF(flux_div_ndarray);
+     Py_XDECREF(flux_div_l_ndarray);
+     free_array(out_phis, 2);
+     free_array(I_p, 4);
+     free_array(I_m, 4);
+     free_array(K_p, 5);
+     free_array(K_m, 5);
+     free_array(mean_p_l, 2);
+     free_array(mean_m_l, 2);
+     free_array(flux_p_l, 2);
+     free_array(flux_m_l, 2);
+     free_array(flux_div_l, 2);
+     return NULL;
 }
 
 
@@ -2581,16 +2749,16 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      int n_out_phis;
      PyObject *out_phis_object  = NULL;
      PyObject *out_phis_ndarray = NULL;
-     double **out_phis;
+     double **out_phis = NULL;
      npy_intp dims[5];
      PyObject *I_p_ndarray = NULL;
-     double ****I_p;
+     double ****I_p = NULL;
      PyObject *I_m_ndarray = NULL;
-     double ****I_m;
+     double ****I_m = NULL;
      PyObject *K_p_ndarray = NULL;
-     double *****K_p;
+     double *****K_p = NULL;
      PyObject *K_m_ndarray = NULL;
-     double *****K_m;
+     double *****K_m = NULL;
      if (! PyArg_ParseTuple(args, "siO", &solver_string, &n_out_phis, &out_phis_object))
           return NULL;
      solver = xrtm_solver_name_to_mask(solver_string);
@@ -2600,9 +2768,9 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      }
      out_phis_ndarray = PyArray_FROM_OTF(out_phis_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
      if (out_phis_ndarray == NULL)
-          return NULL;
+          goto error;
      if (check_pyarray_shape(out_phis_ndarray, "out_phis", 2, d->n_out_thetas, n_out_phis) < 0)
-          return NULL;
+          goto error;
      out_phis = (double **) array_from_ndarray(out_phis_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_out_thetas_2;
@@ -2610,7 +2778,7 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      dims[3] = d->n_stokes;
      I_p_ndarray = PyArray_SimpleNew(4, dims, NPY_DOUBLE);
      if (I_p_ndarray == NULL)
-          return NULL;
+          goto error;
      I_p = (double ****) array_from_ndarray(I_p_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_out_thetas_2;
@@ -2618,7 +2786,7 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      dims[3] = d->n_stokes;
      I_m_ndarray = PyArray_SimpleNew(4, dims, NPY_DOUBLE);
      if (I_m_ndarray == NULL)
-          return NULL;
+          goto error;
      I_m = (double ****) array_from_ndarray(I_m_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
@@ -2627,7 +2795,7 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      dims[4] = d->n_stokes;
      K_p_ndarray = PyArray_SimpleNew(5, dims, NPY_DOUBLE);
      if (K_p_ndarray == NULL)
-          return NULL;
+          goto error;
      K_p = (double *****) array_from_ndarray(K_p_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
@@ -2636,12 +2804,12 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      dims[4] = d->n_stokes;
      K_m_ndarray = PyArray_SimpleNew(5, dims, NPY_DOUBLE);
      if (K_m_ndarray == NULL)
-          return NULL;
+          goto error;
      K_m = (double *****) array_from_ndarray(K_m_ndarray, 8);
      r = xrtm_radiance(d, (enum xrtm_solver_mask) solver, n_out_phis, out_phis, I_p, I_m, K_p, K_m);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_radiance()");
-          return NULL;
+          goto error;
      }
      Py_DECREF(out_phis_ndarray);
      free_array(out_phis, 2);
@@ -2649,7 +2817,19 @@ static PyObject *xrtm_radiance_py(xrtm_data_py *self, PyObject *args)
      free_array(I_m, 4);
      free_array(K_p, 5);
      free_array(K_m, 5);
-     return Py_BuildValue("OOOO", I_p_ndarray, I_m_ndarray, K_p_ndarray, K_m_ndarray);
+     return Py_BuildValue("NNNN", I_p_ndarray, I_m_ndarray, K_p_ndarray, K_m_ndarray);
+error:
+     Py_XDECREF(out_phis_ndarray);
+     Py_XDECREF(I_p_ndarray);
+     Py_XDECREF(I_m_ndarray);
+     Py_XDECREF(K_p_ndarray);
+     Py_XDECREF(K_m_ndarray);
+     free_array(out_phis, 2);
+     free_array(I_p, 4);
+     free_array(I_m, 4);
+     free_array(K_p, 5);
+     free_array(K_m, 5);
+     return NULL;
 }
 
 
@@ -2665,9 +2845,9 @@ static PyObject *xrtm_mean_radiance_py(xrtm_data_py *self, PyObject *args)
      PyObject *mean_m_ndarray = NULL;
      double *mean_m;
      PyObject *mean_p_l_ndarray = NULL;
-     double **mean_p_l;
+     double **mean_p_l = NULL;
      PyObject *mean_m_l_ndarray = NULL;
-     double **mean_m_l;
+     double **mean_m_l = NULL;
      if (! PyArg_ParseTuple(args, "s", &solver_string))
           return NULL;
      solver = xrtm_solver_name_to_mask(solver_string);
@@ -2678,33 +2858,41 @@ static PyObject *xrtm_mean_radiance_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_out_levels;
      mean_p_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (mean_p_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_p = (double *) array_from_ndarray(mean_p_ndarray, 8);
      dims[0] = d->n_out_levels;
      mean_m_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (mean_m_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_m = (double *) array_from_ndarray(mean_m_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      mean_p_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (mean_p_l_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_p_l = (double **) array_from_ndarray(mean_p_l_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      mean_m_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (mean_m_l_ndarray == NULL)
-          return NULL;
+          goto error;
      mean_m_l = (double **) array_from_ndarray(mean_m_l_ndarray, 8);
      r = xrtm_mean_radiance(d, (enum xrtm_solver_mask) solver, mean_p, mean_m, mean_p_l, mean_m_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_mean_radiance()");
-          return NULL;
+          goto error;
      }
      free_array(mean_p_l, 2);
      free_array(mean_m_l, 2);
-     return Py_BuildValue("OOOO", mean_p_ndarray, mean_m_ndarray, mean_p_l_ndarray, mean_m_l_ndarray);
+     return Py_BuildValue("NNNN", mean_p_ndarray, mean_m_ndarray, mean_p_l_ndarray, mean_m_l_ndarray);
+error:
+     Py_XDECREF(mean_p_ndarray);
+     Py_XDECREF(mean_m_ndarray);
+     Py_XDECREF(mean_p_l_ndarray);
+     Py_XDECREF(mean_m_l_ndarray);
+     free_array(mean_p_l, 2);
+     free_array(mean_m_l, 2);
+     return NULL;
 }
 
 
@@ -2720,9 +2908,9 @@ static PyObject *xrtm_flux_py(xrtm_data_py *self, PyObject *args)
      PyObject *flux_m_ndarray = NULL;
      double *flux_m;
      PyObject *flux_p_l_ndarray = NULL;
-     double **flux_p_l;
+     double **flux_p_l = NULL;
      PyObject *flux_m_l_ndarray = NULL;
-     double **flux_m_l;
+     double **flux_m_l = NULL;
      if (! PyArg_ParseTuple(args, "s", &solver_string))
           return NULL;
      solver = xrtm_solver_name_to_mask(solver_string);
@@ -2733,33 +2921,41 @@ static PyObject *xrtm_flux_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_out_levels;
      flux_p_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (flux_p_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_p = (double *) array_from_ndarray(flux_p_ndarray, 8);
      dims[0] = d->n_out_levels;
      flux_m_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (flux_m_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_m = (double *) array_from_ndarray(flux_m_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      flux_p_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (flux_p_l_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_p_l = (double **) array_from_ndarray(flux_p_l_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      flux_m_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (flux_m_l_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_m_l = (double **) array_from_ndarray(flux_m_l_ndarray, 8);
      r = xrtm_flux(d, (enum xrtm_solver_mask) solver, flux_p, flux_m, flux_p_l, flux_m_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_flux()");
-          return NULL;
+          goto error;
      }
      free_array(flux_p_l, 2);
      free_array(flux_m_l, 2);
-     return Py_BuildValue("OOOO", flux_p_ndarray, flux_m_ndarray, flux_p_l_ndarray, flux_m_l_ndarray);
+     return Py_BuildValue("NNNN", flux_p_ndarray, flux_m_ndarray, flux_p_l_ndarray, flux_m_l_ndarray);
+error:
+     Py_XDECREF(flux_p_ndarray);
+     Py_XDECREF(flux_m_ndarray);
+     Py_XDECREF(flux_p_l_ndarray);
+     Py_XDECREF(flux_m_l_ndarray);
+     free_array(flux_p_l, 2);
+     free_array(flux_m_l, 2);
+     return NULL;
 }
 
 
@@ -2773,7 +2969,7 @@ static PyObject *xrtm_flux_divergence_py(xrtm_data_py *self, PyObject *args)
      PyObject *flux_div_ndarray = NULL;
      double *flux_div;
      PyObject *flux_div_l_ndarray = NULL;
-     double **flux_div_l;
+     double **flux_div_l = NULL;
      if (! PyArg_ParseTuple(args, "s", &solver_string))
           return NULL;
      solver = xrtm_solver_name_to_mask(solver_string);
@@ -2784,21 +2980,26 @@ static PyObject *xrtm_flux_divergence_py(xrtm_data_py *self, PyObject *args)
      dims[0] = d->n_out_levels;
      flux_div_ndarray = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
      if (flux_div_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_div = (double *) array_from_ndarray(flux_div_ndarray, 8);
      dims[0] = d->n_out_levels;
      dims[1] = d->n_derivs;
      flux_div_l_ndarray = PyArray_SimpleNew(2, dims, NPY_DOUBLE);
      if (flux_div_l_ndarray == NULL)
-          return NULL;
+          goto error;
      flux_div_l = (double **) array_from_ndarray(flux_div_l_ndarray, 8);
      r = xrtm_flux_divergence(d, (enum xrtm_solver_mask) solver, flux_div, flux_div_l);
      if (r == XRTM_INT_ERROR) {
           PyErr_SetString(XRTMError, "ERROR: xrtm_flux_divergence()");
-          return NULL;
+          goto error;
      }
      free_array(flux_div_l, 2);
-     return Py_BuildValue("OO", flux_div_ndarray, flux_div_l_ndarray);
+     return Py_BuildValue("NN", flux_div_ndarray, flux_div_l_ndarray);
+error:
+     Py_XDECREF(flux_div_ndarray);
+     Py_XDECREF(flux_div_l_ndarray);
+     free_array(flux_div_l, 2);
+     return NULL;
 }
 
 
-- 
2.43.0


From b7f5d3964b8e8efa5d799e35b74ed14a69fb3e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:06 +0000
Subject: [PATCH 124/131] fix: finite difference interface returns
 XRTM_INT_ERROR on error

---
 src/xrtm_fd_interface.c | 74 ++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/src/xrtm_fd_interface.c b/src/xrtm_fd_interface.c
index b961d74..227aedf 100644
--- a/src/xrtm_fd_interface.c
+++ b/src/xrtm_fd_interface.c
@@ -57,13 +57,13 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
       *-----------------------------------------------------------------------*/
      if (fd->d->options & XRTM_OPTION_CALC_DERIVS) {
           fprintf(stderr, "ERROR: can't use xrtm option \"calc_derivs\" with xrtm_fd\n");
-          return -1;
+          return XRTM_INT_ERROR;
 
      }
 
      if (n_derivs < 0) {
           fprintf(stderr, "ERROR: invalid value for n_derivs: %d, must be >= zero\n", n_derivs);
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
 
@@ -107,7 +107,7 @@ int xrtm_fd_create(xrtm_fd_data *fd, xrtm_data *xrtm, int n_derivs) {
       *-----------------------------------------------------------------------*/
      }
      else if (r < 0)
-          return -1;
+          return XRTM_INT_ERROR;
 
 
      /*-------------------------------------------------------------------------
@@ -446,7 +446,7 @@ static int xrtm_fd_set_g_x_p(xrtm_fd_data *d, void *g_p, int i_layer,
 */
      if (! (d->d->solvers & XRTM_SOLVERS_USE_G)) {
           fprintf(stderr, "ERROR: no two-stream solvers have been specified\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", -1);
@@ -471,7 +471,7 @@ int xrtm_fd_set_g_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double g_p) {
 
      if (xrtm_fd_set_g_x_p(d, &g_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -483,7 +483,7 @@ int xrtm_fd_set_g_p_n1(xrtm_fd_data *d, int i_deriv, double *g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -495,7 +495,7 @@ int xrtm_fd_set_g_p_1n(xrtm_fd_data *d, int i_layer, double *g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -507,7 +507,7 @@ int xrtm_fd_set_g_p_nn(xrtm_fd_data *d, double **g_p) {
 
      if (xrtm_fd_set_g_x_p(d, g_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_g_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -549,7 +549,7 @@ static int xrtm_fd_set_coef_x_p(xrtm_fd_data *d, void *coef_p, int i_layer, int
 
      if (! (d->d->solvers & XRTM_SOLVERS_USE_COEF)) {
           fprintf(stderr, "ERROR: no multi-stream solvers have been specified\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      CHECK_INDEX_RANGE(i_layer, d->d->n_layers, "i_layer", "n_layers", -1);
@@ -604,7 +604,7 @@ int xrtm_fd_set_coef_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double **co
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -616,7 +616,7 @@ int xrtm_fd_set_coef_p_n1(xrtm_fd_data *d, int i_deriv, double ***coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -628,7 +628,7 @@ int xrtm_fd_set_coef_p_1n(xrtm_fd_data *d, int i_layer, double ***coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -640,7 +640,7 @@ int xrtm_fd_set_coef_p_nn(xrtm_fd_data *d, double ****coef_p) {
 
      if (xrtm_fd_set_coef_x_p(d, coef_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_coef_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -698,7 +698,7 @@ int xrtm_fd_set_omega_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double ome
 
      if (xrtm_fd_set_omega_x_p(d, &omega_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -710,7 +710,7 @@ int xrtm_fd_set_omega_p_n1(xrtm_fd_data *d, int i_deriv, double *omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -722,7 +722,7 @@ int xrtm_fd_set_omega_p_1n(xrtm_fd_data *d, int i_layer, double *omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -734,7 +734,7 @@ int xrtm_fd_set_omega_p_nn(xrtm_fd_data *d, double **omega_p) {
 
      if (xrtm_fd_set_omega_x_p(d, omega_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_omega_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -778,7 +778,7 @@ int xrtm_fd_set_ltau_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double ltau
 
      if (xrtm_fd_set_ltau_x_p(d, &ltau_p, i_layer, i_layer + 1, i_deriv, i_deriv + 1, 0)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -790,7 +790,7 @@ int xrtm_fd_set_ltau_p_n1(xrtm_fd_data *d, int i_deriv, double *ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, 0, d->d->n_layers, i_deriv, i_deriv + 1, 1)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -802,7 +802,7 @@ int xrtm_fd_set_ltau_p_1n(xrtm_fd_data *d, int i_layer, double *ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, i_layer, i_layer + 1, 0, d->n_derivs, 2)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -814,7 +814,7 @@ int xrtm_fd_set_ltau_p_nn(xrtm_fd_data *d, double **ltau_p) {
 
      if (xrtm_fd_set_ltau_x_p(d, ltau_p, 0, d->d->n_layers, 0, d->n_derivs, 3)) {
           fprintf(stderr, "ERROR: xrtm_fd_set_ltau_x_p()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -1106,12 +1106,12 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
      if (xrtm_set_F_iso_top(d->d, PERTURBED(v->F_iso_top, d->F_iso_top_p[j]))) {
           fprintf(stderr, "ERROR: xrtm_set_F_iso_top()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      if (xrtm_set_F_iso_bot(d->d, PERTURBED(v->F_iso_bot, d->F_iso_bot_p[j]))) {
           fprintf(stderr, "ERROR: xrtm_set_F_iso_bot()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      if (d->d->options & XRTM_OPTION_SOURCE_THERMAL) {
@@ -1123,14 +1123,14 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
           if (xrtm_set_levels_b(d->d, levels_b)) {
                fprintf(stderr, "ERROR: xrtm_set_levels_b()\n");
                free_array1_d(levels_b);
-               return -1;
+               return XRTM_INT_ERROR;
           }
 
           free_array1_d(levels_b);
 
           if (xrtm_set_surface_b(d->d, PERTURBED(v->surface_b, d->surface_b_p[j]))) {
                fprintf(stderr, "ERROR: xrtm_set_surface_b()\n");
-               return -1;
+               return XRTM_INT_ERROR;
           }
      }
 
@@ -1138,7 +1138,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
           for (i = 0; i < d->d->n_layers; ++i) {
                if (xrtm_set_g_1(d->d, i, PERTURBED(v->g[i], d->g_p[i][j]))) {
                     fprintf(stderr, "ERROR: xrtm_set_g_1()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
           }
      }
@@ -1153,7 +1153,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
 
                if (xrtm_set_coef_1(d->d, i, n_coef_layer, coef)) {
                     fprintf(stderr, "ERROR: xrtm_set_coef_1()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
           }
      }
@@ -1161,21 +1161,21 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
      for (i = 0; i < d->d->n_layers; ++i) {
           if (xrtm_set_omega_1(d->d, i, PERTURBED(v->omega[i], d->omega_p[i][j]))) {
                fprintf(stderr, "ERROR: xrtm_set_omega_1()\n");
-               return -1;
+               return XRTM_INT_ERROR;
           }
      }
 
      for (i = 0; i < d->d->n_layers; ++i) {
           if (xrtm_set_ltau_1(d->d, i, PERTURBED(v->ltau[i], d->ltau_p[i][j]))) {
                fprintf(stderr, "ERROR: xrtm_set_ltau_1()\n");
-               return -1;
+               return XRTM_INT_ERROR;
           }
      }
 
      for (i = 0; i < d->d->n_kernels; ++i) {
           if (xrtm_set_kernel_ampfac(d->d, i, PERTURBED(v->kernel_ampfac[i], d->kernel_ampfac_p[i][j]))) {
                fprintf(stderr, "ERROR: xrtm_set_ampfac()\n");
-               return -1;
+               return XRTM_INT_ERROR;
           }
 
           n_params = kernel_n_params((enum xrtm_kernel_type) d->d->kernels[i]);
@@ -1183,7 +1183,7 @@ static int perturb_values(xrtm_fd_data *d, int j, enum xrtm_solver_mask solver,
           for (k = 0; k < n_params; ++k) {
                if (xrtm_set_kernel_params_1(d->d, i, k, PERTURBED(v->kernel_params[i][k], d->kernel_params_p[i][j][k]))) {
                     fprintf(stderr, "ERROR: xrtm_set_kernel_param_1()\n");
-                    return -1;
+                    return XRTM_INT_ERROR;
                }
           }
      }
@@ -1234,12 +1234,12 @@ static int perturbed_solution(xrtm_fd_data *d, int j, enum xrtm_solver_mask solv
 
      if (perturb_values(d, j, solver, f, v, coef)) {
           fprintf(stderr, "ERROR: perturb_values()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, o->I_p, o->I_m, NULL, NULL, o->mean_p, o->mean_m, NULL, NULL, o->flux_p, o->flux_m, NULL, NULL, NULL, NULL)) {
           fprintf(stderr, "ERROR: xrtm_solution()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
@@ -1292,13 +1292,13 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
       *-----------------------------------------------------------------------*/
      if (solutions & XRTM_OUTPUT_FLUX_DIVERGENCE) {
           fprintf(stderr, "ERROR: flux_divergence not yet supported as an output\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      for (j = 0; j < d->n_derivs; ++j) {
           if (d->delta[j] == 0.) {
                fprintf(stderr, "ERROR: delta[%d] not set\n", j);
-               return -1;
+               return XRTM_INT_ERROR;
           }
      }
 
@@ -1316,7 +1316,7 @@ int xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solution
       *-----------------------------------------------------------------------*/
      if (xrtm_solution(d->d, solver, solutions, n_out_phis, out_phis, I_p, I_m, NULL, NULL, mean_p, mean_m, NULL, NULL, flux_p, flux_m, NULL, NULL, NULL, NULL)) {
           fprintf(stderr, "ERROR: xrtm_solution()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      base.I_p    = I_p;
@@ -1416,7 +1416,7 @@ int xrtm_fd_radiance(xrtm_fd_data *d, enum xrtm_solver_mask solver, enum xrtm_fd
 
      if (xrtm_fd_solution(d, solver, XRTM_OUTPUT_RADIANCE, fd_method, n_out_phis, out_phis, I_p, I_m, I_p_l, I_m_l, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL)) {
           fprintf(stderr, "ERROR: xrtm_fd_solution()\n");
-          return -1;
+          return XRTM_INT_ERROR;
      }
 
      return 0;
-- 
2.43.0


From b752078f786e64f22fa360be4d9dbf52181d1ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:25 +0000
Subject: [PATCH 125/131] fix: Fourier-tolerant n-t TMS correction in the
 symmetric form is transformed back

---
 src/xrtm_model.c | 50 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index 5e57198..e8811d3 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -5665,6 +5665,7 @@ static int apply_corrections_radiance(xrtm_data *d, int n_phis, double **phis, d
      double *omega_tms;
      double **omega_tms_l;
 
+     double *In_p;
      double **In_p_l;
      double **I1_m_l;
 
@@ -5743,6 +5744,8 @@ static int apply_corrections_radiance(xrtm_data *d, int n_phis, double **phis, d
           P_trun = get_work2(&work, WORK_DS, WORK_LAYERS_V, NULL);
           P_full = get_work2(&work, WORK_DS, WORK_LAYERS_V, NULL);
 
+          In_p = get_work_d1(&work, d->n_stokes);
+
           I      = get_work_d2(&work, d->n_ulevels, d->n_stokes);
 
           if (d->options & XRTM_OPTION_CALC_DERIVS) {
@@ -5798,6 +5801,8 @@ static int apply_corrections_radiance(xrtm_data *d, int n_phis, double **phis, d
                          if (d->options & XRTM_OPTION_REVERSE_DERIVS)
                               copy_polys(d, save->polys_up[i][j], polys);
 
+                         dvec_copy(In_p, d->In_p[0] + ii, d->n_stokes);
+
                          if (d->options & XRTM_OPTION_CALC_DERIVS) {
                               for (k = 0; k < d->n_derivs; ++k) {
                                    for (l = 0; l < d->n_stokes; ++l) {
@@ -5806,6 +5811,15 @@ static int apply_corrections_radiance(xrtm_data *d, int n_phis, double **phis, d
                               }
                          }
 
+                         if (d->misc_input.use_symmetric_form) {
+                              vec_sim_trans(d->n_stokes, In_p, d->alpha2 + ii);
+
+                              if (d->options & XRTM_OPTION_CALC_DERIVS) {
+                                   for (k = 0; k < d->n_derivs; ++k)
+                                        vec_sim_trans(d->n_stokes, In_p_l[k], d->alpha2 + ii);
+                              }
+                         }
+
                          if (d->options & XRTM_OPTION_FOUR_CONV_OLD || d->fourier_tol == 0.) {
                               get_phase_func_trun_all(d, -mus2[i], phis[i][j], polys, P_trun, P_trun_l, work);
                               get_phase_func_full_all(d, -mus2[i], phis[i][j], polys, P_full, P_full_l, work);
@@ -5829,7 +5843,7 @@ static int apply_corrections_radiance(xrtm_data *d, int n_phis, double **phis, d
                                                     d->btran, d->btran_l,
                                                     d->as_0, d->as_0_l,
                                                     d->atran, d->atran_l,
-                                                    d->In_p[0]+ii, In_p_l,
+                                                    In_p, In_p_l,
                                                     I, I_l,
                                                     d->options & XRTM_OPTION_OUTPUT_AT_TAUS,
                                                     d->derivs.layers, d->derivs.beam,
@@ -5853,7 +5867,7 @@ static int apply_corrections_radiance(xrtm_data *d, int n_phis, double **phis, d
                                                            d->btran, d->btran_l,
                                                            d->as_0, d->as_0_l,
                                                            d->atran, d->atran_l,
-                                                           d->In_p[0]+ii, In_p_l,
+                                                           In_p, In_p_l,
                                                            I, I_l,
                                                            d->options & XRTM_OPTION_OUTPUT_AT_TAUS,
                                                            d->derivs.layers, d->derivs.beam,
@@ -5959,6 +5973,26 @@ static int apply_corrections_radiance(xrtm_data *d, int n_phis, double **phis, d
 
 
 
+/*******************************************************************************
+ *
+ ******************************************************************************/
+static void sim_trans_back(xrtm_data *d, int n, double *alpha, double **I, double ***I_l) {
+
+     int i;
+     int j;
+
+     for (i = 0; i < d->n_ulevels; ++i) {
+          vec_sim_trans(n, I[i], alpha);
+
+          if (d->options & XRTM_OPTION_CALC_DERIVS) {
+               for (j = 0; j < d->n_derivs; ++j)
+                    vec_sim_trans(n, I_l[i][j], alpha);
+          }
+     }
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -6085,6 +6119,9 @@ static int apply_corrections_fourier(xrtm_data *d, int i_four, double **I_p, dou
                                             d->derivs.layers, d->derivs.beam,
                                             save_tree, work);
 
+               if (d->misc_input.use_symmetric_form)
+                    sim_trans_back(d, d->n_quad_v_x, d->alpha2, I, I_l);
+
                for (k = 0; k < d->n_ulevels; ++k) {
                     dvec_sub(I_p[k], I[k], I_p[k], d->n_quad_v_x);
                     if (d->options & XRTM_OPTION_CALC_DERIVS) {
@@ -6115,6 +6152,9 @@ static int apply_corrections_fourier(xrtm_data *d, int i_four, double **I_p, dou
                                                  d->derivs.layers, d->derivs.beam,
                                                  save_tree, work);
 
+                    if (d->misc_input.use_symmetric_form)
+                         sim_trans_back(d, d->n_umus_v, d->alpha2 + d->n_quad_v, I, I_l);
+
                     for (k = 0; k < d->n_ulevels; ++k) {
                          dvec_sub(I_p[k]+d->n_quad_v, I[k], I_p[k]+d->n_quad_v, d->n_umus_v);
                          if (d->options & XRTM_OPTION_CALC_DERIVS) {
@@ -6142,6 +6182,9 @@ static int apply_corrections_fourier(xrtm_data *d, int i_four, double **I_p, dou
                                             d->derivs.layers, d->derivs.beam,
                                             save_tree, work);
 
+               if (d->misc_input.use_symmetric_form)
+                    sim_trans_back(d, d->n_quad_v_x, d->alpha2, I, I_l);
+
                for (k = 0; k < d->n_ulevels; ++k) {
                     dvec_sub(I_m[k], I[k], I_m[k], d->n_quad_v_x);
                     if (d->options & XRTM_OPTION_CALC_DERIVS) {
@@ -6173,6 +6216,9 @@ static int apply_corrections_fourier(xrtm_data *d, int i_four, double **I_p, dou
                                                  d->derivs.layers, d->derivs.beam,
                                                  save_tree, work);
 
+                    if (d->misc_input.use_symmetric_form)
+                         sim_trans_back(d, d->n_umus_v, d->alpha2 + d->n_quad_v, I, I_l);
+
                     for (k = 0; k < d->n_ulevels; ++k) {
                          dvec_sub(I_m[k]+d->n_quad_v, I[k], I_m[k]+d->n_quad_v, d->n_umus_v);
                          if (d->options & XRTM_OPTION_CALC_DERIVS) {
-- 
2.43.0


From 343e794a532716c5b1a4a9c2f44c3a16b0401742 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 06:46:32 +0000
Subject: [PATCH 126/131] fix: doubling lost the thermal source of a layer with
 no emission at its top

---
 src/xrtm_doub_rts.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/xrtm_doub_rts.c b/src/xrtm_doub_rts.c
index c693c51..0cdf8a6 100644
--- a/src/xrtm_doub_rts.c
+++ b/src/xrtm_doub_rts.c
@@ -197,19 +197,12 @@ void rtm_doub_rts(int n_quad, int n_stokes, int n_derivs, double F_0,
      }
 
      if (thermal) {
-          if (planck0 == 0.)
-               lin_fac = 0.;
-          else
-               lin_fac = (planck1 / planck0 - 1.) / pow(2., n_doub);
+          lin_fac = (planck1 - planck0) / pow(2., n_doub);
 
           if (flags_or(derivs_thermal, n_derivs)) {
                for (i = 0; i < n_derivs; ++i) {
-                    if (derivs_thermal[i]) {
-                         if (planck0 == 0.)
-                              lin_fac_l[i] = 0.;
-                         else
-                              lin_fac_l[i] = (planck1_l[i] - planck1 * planck0_l[i] / planck0) / planck0 / pow(2., n_doub);
-                    }
+                    if (derivs_thermal[i])
+                         lin_fac_l[i] = (planck1_l[i] - planck0_l[i]) / pow(2., n_doub);
                }
           }
 
@@ -219,6 +212,14 @@ void rtm_doub_rts(int n_quad, int n_stokes, int n_derivs, double F_0,
           dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
           dvec_copy(Sl_p, v1, n_quad_v);
           dvec_copy(Sl_m, v1, n_quad_v);
+
+          /* the source for a unit increment of planck, constant with depth */
+          c = (1. - omega) * d_tau;
+          for (i = 0; i < n_quad_v; ++i)
+               v1[i] = i % n_stokes == 0 ? c : 0.;
+          dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
+          dvec_copy(L_p, v1, n_quad_v);
+          dvec_copy(L_m, v1, n_quad_v);
      }
 if (solar) {
      if (flags_or(derivs_beam, n_derivs)) {
@@ -261,6 +262,13 @@ if (thermal) {
                     dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
                     dvec_copy(Sl_p_l[i], v1, n_quad_v);
                     dvec_copy(Sl_m_l[i], v1, n_quad_v);
+
+                    d = - omega_l[i] * d_tau + (1. - omega) * d_tau_l[i];
+                    for (j = 0; j < n_quad_v; ++j)
+                         v1[j] = j % n_stokes == 0 ? d : 0.;
+                    dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
+                    dvec_copy(L_p_l[i], v1, n_quad_v);
+                    dvec_copy(L_m_l[i], v1, n_quad_v);
                }
                else
                if (derivs_thermal[i]) {
@@ -270,6 +278,9 @@ if (thermal) {
                     dm_v_dinv_mul(qx_v, v1, v1, n_quad_v);
                     dvec_copy(Sl_p_l[i], v1, n_quad_v);
                     dvec_copy(Sl_m_l[i], v1, n_quad_v);
+
+                    dvec_zero(L_p_l[i], n_quad_v);
+                    dvec_zero(L_m_l[i], n_quad_v);
                }
           }
      }
@@ -282,15 +293,15 @@ if (thermal) {
      for (i = 0; i < n_doub; ++i) {
           if (! symmetric) {
                if (! flags_or(derivs_layers, n_derivs) && ! (solar && flags_or(derivs_beam, n_derivs)) && ! (thermal && flags_or(derivs_thermal, n_derivs)))
-                    layer_double  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, work);
+                    layer_double  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, work);
                else
-                    layer_double_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, derivs_layers, derivs_beam, derivs_thermal, work);
+                    layer_double_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, derivs_layers, derivs_beam, derivs_thermal, work);
           }
           else {
                if (! flags_or(derivs_layers, n_derivs) && ! (solar && flags_or(derivs_beam, n_derivs)) && ! (thermal && flags_or(derivs_thermal, n_derivs)))
-                    layer_double_s  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, work);
+                    layer_double_s  (R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, n_quad_v, d_tran, lin_fac, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, work);
                else
-                    layer_double_s_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, i == 0, derivs_layers, derivs_beam, derivs_thermal, work);
+                    layer_double_s_l(R_p, T_p, S_m, S_p, Sl_m, Sl_p, L_m, L_p, R_p_l, T_p_l, S_m_l, S_p_l, Sl_m_l, Sl_p_l, L_m_l, L_p_l, n_quad_v, n_derivs, d_tran, d_tran_l, lin_fac, lin_fac_l, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && solar, ! DOUB_RTS_USE_PARTICULAR_SOLUTION && thermal, 0, derivs_layers, derivs_beam, derivs_thermal, work);
           }
 
           if (solar) {
-- 
2.43.0


From 8cd0110eaf02fa39fe9de918bb8d46957ed098bd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 06:46:32 +0000
Subject: [PATCH 127/131] fix: source function integration gave NaN for an
 eigenvalue of 1 / mu of an output angle

---
 src/prototypes/xrtm_utility_p.h |  1 +
 src/xrtm.h                      |  1 +
 src/xrtm_sfi_x.c                | 12 ++++++++++++
 src/xrtm_two_stream.c           |  2 ++
 src/xrtm_utility.c              | 23 +++++++++++++++++++++++
 5 files changed, 39 insertions(+)

diff --git a/src/prototypes/xrtm_utility_p.h b/src/prototypes/xrtm_utility_p.h
index 61026de..e611867 100644
--- a/src/prototypes/xrtm_utility_p.h
+++ b/src/prototypes/xrtm_utility_p.h
@@ -23,6 +23,7 @@ void derivs_union_bitwise_or2(int n_layers, int n_derivs, uchar **derivs1, uchar
 double singularity_adjust_up(double base, double value, double epsilon);
 double singularity_adjust_down(double base, double value, double epsilon);
 double singularity_adjust_auto(double base, double value, double epsilon);
+double nu_singularity_adjust(int n_umus, double *umus, double nu);
 int check_phase_vecs_norm(int n_quad, int n_stokes, double *qx, double *qw, double *P_p, double *P_m);
 int check_phase_mats_norm(int n_quad1, int n_quad2, int n_stokes, double *qx, double *qw, double **P_p, double **P_m);
 int check_phase_vecs_norm_l(int n_quad, int n_stokes, double *qx, double *qw, double *P_p_l, double *P_m_l);
diff --git a/src/xrtm.h b/src/xrtm.h
index 533cc93..483a3d2 100644
--- a/src/xrtm.h
+++ b/src/xrtm.h
@@ -43,6 +43,7 @@ extern "C" {
 #define THRESHOLD_SYM_MUL_BLOCK			8 + 4
 
 #define THRESHOLD_MU_0_SINGLARITY		1.e-5
+#define THRESHOLD_NU_SINGULARITY		1.e-5
 #define THRESHOLD_OMEGA_SINGLARITY		1.e-5
 
 
diff --git a/src/xrtm_sfi_x.c b/src/xrtm_sfi_x.c
index 3bbe0a7..23503c4 100644
--- a/src/xrtm_sfi_x.c
+++ b/src/xrtm_sfi_x.c
@@ -533,6 +533,8 @@ static void SFI_LAYER(int i_layer, double ptau, int i_four,
      TYPE x1;
      TYPE x1_l;
 
+     TYPE *nu2;
+
      TYPE *e3;
      TYPE *e4;
      TYPE *e5;
@@ -568,6 +570,8 @@ static void SFI_LAYER(int i_layer, double ptau, int i_four,
 
      e1   = get_work1(&work, WORK_DU);
 
+     nu2  = get_work1(&work, WORK_XX);
+
      e3   = get_work1(&work, WORK_XX);
      e4   = get_work1(&work, WORK_XX);
      e5   = get_work1(&work, WORK_XX);
@@ -650,6 +654,14 @@ static void SFI_LAYER(int i_layer, double ptau, int i_four,
      /*-------------------------------------------------------------------------
       *
       *-----------------------------------------------------------------------*/
+     for (j = 0; j < n_quad_v; ++j) {
+          nu2[j] = nu[j];
+          if (nu[j] == XREAL(nu[j]))
+               nu2[j] = nu_singularity_adjust(n_umus_v, umus, XREAL(nu[j]));
+     }
+
+     nu = nu2;
+
      for (j = 0; j < n_quad_v; ++j) {
           e3[j] = XEXP(-nu[j] *  ptau);
           e4[j] = XEXP(-nu[j] *  ltau);
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index 4473d6a..e9160d3 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -1534,6 +1534,8 @@ else
           Xu_m[j] = uq1[j] - uq2[j];
      }
 
+     nu = nu_singularity_adjust(n_umus, umus, nu);
+
      e3 = exp(-nu * btau);
      e4 = exp(-nu * ltau);
      e5 = exp(-nu * atau);
diff --git a/src/xrtm_utility.c b/src/xrtm_utility.c
index 08f9cea..901983d 100644
--- a/src/xrtm_utility.c
+++ b/src/xrtm_utility.c
@@ -388,6 +388,29 @@ double singularity_adjust_auto(double base, double value, double epsilon) {
 
 
 
+/*******************************************************************************
+ * Keep an eigenvalue off of the singularities at 1 / mu of the source function
+ * integrated to the user-defined angles.
+ ******************************************************************************/
+double nu_singularity_adjust(int n_umus, double *umus, double nu) {
+
+     int i;
+
+     double a;
+     double b;
+
+     for (i = 0; i < n_umus; ++i) {
+          a = umus[i] * nu;
+          b = singularity_adjust_auto(1., a, THRESHOLD_NU_SINGULARITY);
+          if (b != a)
+               return b / umus[i];
+     }
+
+     return nu;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
-- 
2.43.0


From cc5611a5ac1e336d85a671d012c235bfd2a81f86 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 06:46:32 +0000
Subject: [PATCH 128/131] fix: adjoint of adding without a surface used the
 bottom boundary values the wrong way around

---
 src/xrtm_model_a.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/xrtm_model_a.c b/src/xrtm_model_a.c
index 1a331b8..0e2f686 100644
--- a/src/xrtm_model_a.c
+++ b/src/xrtm_model_a.c
@@ -2346,8 +2346,11 @@ static int fourier_get_add_both_ways_a(xrtm_data *d, int i_four, int solver, dou
                     radiance_slab_a(d->n_quad_v_x, save->R_m, save->T_p, save->S_p, R_m_a, T_p_a, S_p_a, d->I1_m[i_four], d->In_p[i_four], d->I1_m_a[i_four], d->In_p_a[i_four], I_p[i], I_p_a[i], work);
                }
                else
-               if (d->ulevels[i] == d->n_layers)
-                    radiance_slab_a(d->n_quad_v_x, save->R_p, save->T_m, save->S_m, R_p_a, T_m_a, S_m_a, d->I1_m[i_four], d->In_p[i_four], d->I1_m_a[i_four], d->In_p_a[i_four], I_m[i], I_m_a[i], work);
+               if (d->ulevels[i] == d->n_layers) {
+                    dvec_add(d->In_p_a[i_four], I_p_a[i], d->In_p_a[i_four], d->n_quad_v_x);
+
+                    radiance_slab_a(d->n_quad_v_x, save->R_p, save->T_m, save->S_m, R_p_a, T_m_a, S_m_a, d->In_p[i_four], d->I1_m[i_four], d->In_p_a[i_four], d->I1_m_a[i_four], I_m[i], I_m_a[i], work);
+               }
 #ifdef DEBUG
                else {
                    fprintf(stderr, "ERROR: fourier_get_add_both_ways(): end of if / else if\n");
-- 
2.43.0


From 321b5340b895e3ecb5f753b20c2043eae19a6df8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 06:46:32 +0000
Subject: [PATCH 129/131] fix: adjoint of eig_add crashed for layers without
 scattering

---
 src/xrtm_model.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index e8811d3..b2b379f 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -2296,6 +2296,10 @@ static int get_layer_R_T_S_U_W_V
      if (i_four >= d->n_coef_layer[i_layer])
           no_scatter = 1;
 
+     /* The adjoint goes through the solver for all layers. */
+     if (d->options & XRTM_OPTION_REVERSE_DERIVS)
+          no_scatter = 0;
+
      if (no_scatter)
           no_scatter_r_t_s(d->n_quad_v_x, d->n_derivs, d->qx_v, d->qw_v, d->ltau[i_layer], ltau_l, *R_p, *T_p, *R_m, *T_m, *S_p, *S_m, *Sl_p, *Sl_m, *R_p_l, *T_p_l, *R_m_l, *T_m_l, *S_p_l, *S_m_l, *Sl_p_l, *Sl_m_l, d->options & XRTM_OPTION_SOURCE_SOLAR, d->options & XRTM_OPTION_SOURCE_THERMAL && i_four == 0, derivs_layers, derivs_beam, derivs_thermal);
 
-- 
2.43.0


From 88f4115e9d0d5cfcc0d5b438637c0ea02ffe1c08 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 06:46:32 +0000
Subject: [PATCH 130/131] fix: adjusted cosine of the sun could be larger than
 one

---
 src/xrtm_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xrtm_interface.c b/src/xrtm_interface.c
index c028400..ddbbf6b 100644
--- a/src/xrtm_interface.c
+++ b/src/xrtm_interface.c
@@ -2726,6 +2726,8 @@ static int mu_0_singularity_adjust(xrtm_data *d) {
      for (i = 0; i < n; ++i) {
           a = fabs(singularity_adjust_auto(d->qx[i], d->mu_0_0,
                    d->misc_input.threshold_mu_0_singlarity));
+          if (a > 1.)
+               a = d->qx[i] - d->misc_input.threshold_mu_0_singlarity;
           if (a != d->mu_0_0) {
                d->mu_0 = a;
                count++;
-- 
2.43.0


From 59117bc2d6ef29905512b85af741506081da0d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:42 +0000
Subject: [PATCH 131/131] fix: imaginary eigenvalues gave NaN, wrong results or
 reads out of bounds instead of an error

---
 src/prototypes/xrtm_eig_bvp_p.h     |   2 +-
 src/prototypes/xrtm_eig_rts_p.h     |   2 +-
 src/prototypes/xrtm_eig_util_p.h    |   5 +-
 src/prototypes/xrtm_four_stream_p.h |   2 +-
 src/prototypes/xrtm_mem_bvp_p.h     |   2 +-
 src/prototypes/xrtm_six_stream_p.h  |   2 +-
 src/prototypes/xrtm_two_stream_p.h  |   2 +-
 src/xrtm_eig_bvp.c                  |  60 ++++---
 src/xrtm_eig_rts.c                  |  46 +++---
 src/xrtm_eig_util.c                 |  71 ++++++--
 src/xrtm_four_stream.c              |  40 +++--
 src/xrtm_mem_bvp.c                  |  54 ++++---
 src/xrtm_model.c                    | 240 +++++++++++++++-------------
 src/xrtm_six_stream.c               |  40 +++--
 src/xrtm_two_stream.c               |  41 +++--
 15 files changed, 362 insertions(+), 247 deletions(-)

diff --git a/src/prototypes/xrtm_eig_bvp_p.h b/src/prototypes/xrtm_eig_bvp_p.h
index 9564098..65699fc 100644
--- a/src/prototypes/xrtm_eig_bvp_p.h
+++ b/src/prototypes/xrtm_eig_bvp_p.h
@@ -3,4 +3,4 @@ void calc_radiance_levels(int n_quad, int n_layers, int n_derivs, int n_ulevels,
 void calc_radiance_taus(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *utaus, double *ltau, double **ltau_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **nu, double ***X_p, double ***X_m, double **Fs_p, double **Fs_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, double ***nu_l, double ****X_p_l, double ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, double *B, double **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
 void calc_radiance_levels2(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *ltau, double **ltau_l, double *atran, double **atran_l, dcomplex **nu, dcomplex ***X_p, dcomplex ***X_m, double **Fs_p, double **Fs_m, double **Fs1_p, double **Fs1_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, dcomplex ***nu_l, dcomplex ****X_p_l, dcomplex ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Fs1_p_l, double ***Fs1_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, dcomplex *B, dcomplex **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
 void calc_radiance_taus2(int n_quad, int n_layers, int n_derivs, int n_ulevels, int *ulevels, double *utaus, double *ltau, double **ltau_l, double *as_0, double **as_0_l, double *atran, double **atran_l, dcomplex **nu, dcomplex ***X_p, dcomplex ***X_m, double **Fs_p, double **Fs_m, double **Ft0_p, double **Ft0_m, double **Ft1_p, double **Ft1_m, dcomplex ***nu_l, dcomplex ****X_p_l, dcomplex ****X_m_l, double ***Fs_p_l, double ***Fs_m_l, double ***Ft0_p_l, double ***Ft0_m_l, double ***Ft1_p_l, double ***Ft1_m_l, dcomplex *B, dcomplex **B_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int solar, int thermal, uchar **derivs_layers, uchar **derivs_beam, uchar **derivs_thermal, save_tree_data save_tree, work_data work);
-void rtm_eig_bvp(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, double qf, double *qx_v, double *qw_v, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double *planck, double **planck_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double surface_b, double *surface_b_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **P_q0_mm, double **P_q0_pm, double **P_u0_mm, double **P_u0_pm, double ***P_uq_pp, double ***P_uq_mp, double ***P_uq_mm, double ***P_uq_pm, double ***r_p, double ***t_p, double ***r_m, double ***t_m, double ***P_q0_mm_l, double ***P_q0_pm_l, double ***P_u0_mm_l, double ***P_u0_pm_l, double ****P_uq_pp_l, double ****P_uq_mp_l, double ****P_uq_mm_l, double ****P_uq_pm_l, double ****r_p_l, double ****t_p_l, double ****r_m_l, double ****t_m_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double F_iso_top, double *F_iso_top_l, double F_iso_bot, double *F_iso_bot_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int greens, int sfi, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, int vector, int eigen_solver_real, int eigen_solver_complex, derivs_data *derivs, save_tree_data save_tree, work_data work);
+int rtm_eig_bvp(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, double qf, double *qx_v, double *qw_v, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double *planck, double **planck_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double surface_b, double *surface_b_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **P_q0_mm, double **P_q0_pm, double **P_u0_mm, double **P_u0_pm, double ***P_uq_pp, double ***P_uq_mp, double ***P_uq_mm, double ***P_uq_pm, double ***r_p, double ***t_p, double ***r_m, double ***t_m, double ***P_q0_mm_l, double ***P_q0_pm_l, double ***P_u0_mm_l, double ***P_u0_pm_l, double ****P_uq_pp_l, double ****P_uq_mp_l, double ****P_uq_mm_l, double ****P_uq_pm_l, double ****r_p_l, double ****t_p_l, double ****r_m_l, double ****t_m_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double F_iso_top, double *F_iso_top_l, double F_iso_bot, double *F_iso_bot_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int greens, int sfi, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, int vector, int eigen_solver_real, int eigen_solver_complex, derivs_data *derivs, save_tree_data save_tree, work_data work);
diff --git a/src/prototypes/xrtm_eig_rts_p.h b/src/prototypes/xrtm_eig_rts_p.h
index 76c70ba..d9dff0a 100644
--- a/src/prototypes/xrtm_eig_rts_p.h
+++ b/src/prototypes/xrtm_eig_rts_p.h
@@ -1,2 +1,2 @@
 /* xrtm_eig_rts.c */
-void rtm_eig_rts(int n_quad, int n_stokes, int n_derivs, double F_0, double *qx_v, double *qw_v, double planck0, double planck1, double *planck0_l, double *planck1_l, double omega, double *omega_l, double ltau, double *ltau_l, double as_0, double *as_0_l, double atran, double *atran_l, double *P_x0_p, double *P_x0_m, double **r_p, double **t_p, double **r_m, double **t_m, double **R_p, double **T_p, double **R_m, double **T_m, double *S_p, double *S_m, double *Sl_p, double *Sl_m, double **P_x0_p_l, double **P_x0_m_l, double ***r_p_l, double ***t_p_l, double ***r_m_l, double ***t_m_l, double ***R_p_l, double ***T_p_l, double ***R_m_l, double ***T_m_l, double **S_p_l, double **S_m_l, double **Sl_p_l, double **Sl_m_l, int greens, int symmetric, int solar, int thermal, int vector, int eigen_solver_real, int eigen_solver_complex, uchar *derivs_layers, uchar *derivs_beam, uchar *derivs_thermal, save_tree_data save_tree, work_data work);
+int rtm_eig_rts(int n_quad, int n_stokes, int n_derivs, double F_0, double *qx_v, double *qw_v, double planck0, double planck1, double *planck0_l, double *planck1_l, double omega, double *omega_l, double ltau, double *ltau_l, double as_0, double *as_0_l, double atran, double *atran_l, double *P_x0_p, double *P_x0_m, double **r_p, double **t_p, double **r_m, double **t_m, double **R_p, double **T_p, double **R_m, double **T_m, double *S_p, double *S_m, double *Sl_p, double *Sl_m, double **P_x0_p_l, double **P_x0_m_l, double ***r_p_l, double ***t_p_l, double ***r_m_l, double ***t_m_l, double ***R_p_l, double ***T_p_l, double ***R_m_l, double ***T_m_l, double **S_p_l, double **S_m_l, double **Sl_p_l, double **Sl_m_l, int greens, int symmetric, int solar, int thermal, int vector, int eigen_solver_real, int eigen_solver_complex, uchar *derivs_layers, uchar *derivs_beam, uchar *derivs_thermal, save_tree_data save_tree, work_data work);
diff --git a/src/prototypes/xrtm_eig_util_p.h b/src/prototypes/xrtm_eig_util_p.h
index e033075..60ec926 100644
--- a/src/prototypes/xrtm_eig_util_p.h
+++ b/src/prototypes/xrtm_eig_util_p.h
@@ -1,4 +1,5 @@
 /* xrtm_eig_util.c */
+int check_evals(int n_quad, double *evals_r, double *evals_i);
 int is_trivial_eigenvector(int i, int n_quad, double **evecs);
 int is_degenerate_eigenvalue(int i, int n_quad, double *evals);
 void zero_eigen_derivs(int i, int n_quad, int n_derivs, double **evals_r_l, double **evals_i_l, double ***evecs_l, uchar *derivs);
@@ -6,5 +7,5 @@ void perturb_zero_elems(int n, double **A);
 void eig_1n_gen_complex(int n_quad, int n_derivs, double **gamma, double *evals_r, double *evals_i, double **evecs, double ***gamma_l, double **evals_r_l, double **evals_i_l, double ***evecs_l, int eigen_solver, uchar *derivs, save_tree_data save_tree, work_data work);
 void eig_1n_to_2n_real(int n_quad, int n_derivs, double **tpr, double **tmr, double *evals, double **evecs, double *nu, double **X_p, double **X_m, double ***tpr_l, double ***tmr_l, double **evals_l, double ***evecs_l, double **nu_l, double ***X_p_l, double ***X_m_l, double **aux, double ***aul, uchar *derivs, save_tree_data save_tree, work_data work);
 void eig_1n_to_2n_complex(int n_quad, int n_derivs, double **tpr, double **tmr, double *evals_r, double *evals_i, double **evecs, dcomplex *nu, dcomplex **X_p, dcomplex **X_m, double ***tpr_l, double ***tmr_l, double **evals_r_l, double **evals_i_l, double ***evecs_l, dcomplex **nu_l, dcomplex ***X_p_l, dcomplex ***X_m_l, uchar *derivs, save_tree_data save_tree, work_data work);
-void eig_2n_gen_real(int n_quad, int n_derivs, double **tpr, double **tmr, double **gamma, double *nu, double **X_p, double **X_m, double ***tpr_l, double ***tmr_l, double ***gamma_l, double **nu_l, double ***X_p_l, double ***X_m_l, int eigen_solver, uchar *derivs, save_tree_data save_tree, work_data work);
-void eig_2n_gen_complex(int n_quad, int n_derivs, double **tpr, double **tmr, double **gamma, dcomplex *nu, dcomplex **X_p, dcomplex **X_m, double ***tpr_l, double ***tmr_l, double ***gamma_l, dcomplex **nu_l, dcomplex ***X_p_l, dcomplex ***X_m_l, int eigen_solver, uchar *derivs, save_tree_data save_tree, work_data work);
+int eig_2n_gen_real(int n_quad, int n_derivs, double **tpr, double **tmr, double **gamma, double *nu, double **X_p, double **X_m, double ***tpr_l, double ***tmr_l, double ***gamma_l, double **nu_l, double ***X_p_l, double ***X_m_l, int eigen_solver, uchar *derivs, save_tree_data save_tree, work_data work);
+int eig_2n_gen_complex(int n_quad, int n_derivs, double **tpr, double **tmr, double **gamma, dcomplex *nu, dcomplex **X_p, dcomplex **X_m, double ***tpr_l, double ***tmr_l, double ***gamma_l, dcomplex **nu_l, dcomplex ***X_p_l, dcomplex ***X_m_l, int eigen_solver, uchar *derivs, save_tree_data save_tree, work_data work);
diff --git a/src/prototypes/xrtm_four_stream_p.h b/src/prototypes/xrtm_four_stream_p.h
index 767d103..dad51aa 100644
--- a/src/prototypes/xrtm_four_stream_p.h
+++ b/src/prototypes/xrtm_four_stream_p.h
@@ -1,2 +1,2 @@
 /* xrtm_four_stream.c */
-void rtm_four_stream(int i_four, int n_derivs, int n_layers, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
+int rtm_four_stream(int i_four, int n_derivs, int n_layers, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
diff --git a/src/prototypes/xrtm_mem_bvp_p.h b/src/prototypes/xrtm_mem_bvp_p.h
index 004d548..116b740 100644
--- a/src/prototypes/xrtm_mem_bvp_p.h
+++ b/src/prototypes/xrtm_mem_bvp_p.h
@@ -1,2 +1,2 @@
 /* xrtm_mem_bvp.c */
-void rtm_mem_bvp(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, double qf, double *qx_v, double *qw_v, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btau, double **btau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **P_q0_mm, double **P_q0_pm, double **P_u0_mm, double **P_u0_pm, double ***P_uq_pp, double ***P_uq_mp, double ***P_uq_mm, double ***P_uq_pm, double ***r_p, double ***t_p, double ***r_m, double ***t_m, double ***P_q0_mm_l, double ***P_q0_pm_l, double ***P_u0_mm_l, double ***P_u0_pm_l, double ****P_uq_pp_l, double ****P_uq_mp_l, double ****P_uq_mm_l, double ****P_uq_pm_l, double ****r_p_l, double ****t_p_l, double ****r_m_l, double ****t_m_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Us_u0, double **Rs_uq, double ***Us_uq, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int sfi, int surface, int utau_output, int vector, int eigen_solver_real, int eigen_solver_complex, derivs_data *derivs, save_tree_data save_tree, work_data work);
+int rtm_mem_bvp(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, double qf, double *qx_v, double *qw_v, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btau, double **btau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **P_q0_mm, double **P_q0_pm, double **P_u0_mm, double **P_u0_pm, double ***P_uq_pp, double ***P_uq_mp, double ***P_uq_mm, double ***P_uq_pm, double ***r_p, double ***t_p, double ***r_m, double ***t_m, double ***P_q0_mm_l, double ***P_q0_pm_l, double ***P_u0_mm_l, double ***P_u0_pm_l, double ****P_uq_pp_l, double ****P_uq_mp_l, double ****P_uq_mm_l, double ****P_uq_pm_l, double ****r_p_l, double ****t_p_l, double ****r_m_l, double ****t_m_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Us_u0, double **Rs_uq, double ***Us_uq, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int sfi, int surface, int utau_output, int vector, int eigen_solver_real, int eigen_solver_complex, derivs_data *derivs, save_tree_data save_tree, work_data work);
diff --git a/src/prototypes/xrtm_six_stream_p.h b/src/prototypes/xrtm_six_stream_p.h
index 392ac39..ea978b7 100644
--- a/src/prototypes/xrtm_six_stream_p.h
+++ b/src/prototypes/xrtm_six_stream_p.h
@@ -1,2 +1,2 @@
 /* xrtm_six_stream.c */
-void rtm_six_stream(int i_four, int n_derivs, int n_layers, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
+int rtm_six_stream(int i_four, int n_derivs, int n_layers, double *qx, double *qw, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double *I1_m, double **I1_m_l, double *In_p, double **In_p_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
diff --git a/src/prototypes/xrtm_two_stream_p.h b/src/prototypes/xrtm_two_stream_p.h
index 2580fb4..aa335e9 100644
--- a/src/prototypes/xrtm_two_stream_p.h
+++ b/src/prototypes/xrtm_two_stream_p.h
@@ -1,4 +1,4 @@
 /* xrtm_two_stream.c */
-void rtm_two_stream(int i_four, int n_derivs, int n_layers, double qx, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
+int rtm_two_stream(int i_four, int n_derivs, int n_layers, double qx, double F_0, double mu_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double ***coef, double ****coef_l, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l, double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l, double **I_p, double **I_m, double ***I_p_l, double ***I_m_l, int add_single_scattering, int solar, int thermal, int surface, int upwelling, int downwelling, int utau_output, derivs_data *derivs, save_tree_data save_tree, work_data work);
 void calc_level_radiance(int i_const, int n_derivs, double atran, double *atran_l, double Lambda1, double Lambda2, double X_p, double X_m, double F_p, double F_m, double *Lambda1_l, double *Lambda2_l, double *X_p_l, double *X_m_l, double *F_p_l, double *F_m_l, double *x, double **x_l, double *I_p, double *I_m, double **I_p_l, double **I_m_l, derivs_data *derivs);
 void sfi(int i_four, int n_quad, int n_stokes, int n_derivs, int n_layers, double F_0, int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus, double *omega, double **omega_l, double *ltau, double **ltau_l, double *btran, double **btran_l, double *as_0, double **as_0_l, double *atran, double **atran_l, double **P_u0_pm, double **P_uq_pp, double **P_uq_mp, double *nu, double *X_p, double *X_m, double *F_p, double *F_m, double ***P_u0_pm_l, double ***P_uq_pp_l, double ***P_uq_mp_l, double **nu_l, double **X_p_l, double **X_m_l, double **F_p_l, double **F_m_l, double *B, double **B_l, double *I_0, double **I_0_l, int offset, double **I_u, double ***I_u_l, int add_single_scattering, int solar, int thermal, int utau_output, derivs_data *derivs, work_data work, int flag);
diff --git a/src/xrtm_eig_bvp.c b/src/xrtm_eig_bvp.c
index 86cb842..b4b1648 100644
--- a/src/xrtm_eig_bvp.c
+++ b/src/xrtm_eig_bvp.c
@@ -133,30 +133,30 @@
 /*******************************************************************************
  *
  ******************************************************************************/
-void rtm_eig_bvp(int i_four,
-                 int n_quad, int n_stokes, int n_derivs, int n_layers,
-                 double qf, double *qx_v, double *qw_v, double F_0, double mu_0,
-                 int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus,
-                 double *planck, double **planck_l,
-                 double *omega, double **omega_l, double *ltau, double **ltau_l,
-                 double surface_b, double *surface_b_l,
-                 double *btran, double **btran_l,
-                 double *as_0, double **as_0_l, double *atran, double **atran_l,
-                 double **P_q0_mm, double **P_q0_pm, double **P_u0_mm, double **P_u0_pm,
-                 double ***P_uq_pp, double ***P_uq_mp, double ***P_uq_mm, double ***P_uq_pm,
-                 double ***r_p, double ***t_p, double ***r_m, double ***t_m,
-                 double ***P_q0_mm_l, double ***P_q0_pm_l, double ***P_u0_mm_l, double ***P_u0_pm_l,
-                 double ****P_uq_pp_l, double ****P_uq_mp_l, double ****P_uq_mm_l, double ****P_uq_pm_l,
-                 double ****r_p_l, double ****t_p_l, double ****r_m_l, double ****t_m_l,
-                 double **Rs_qq, double ***Rs_qq_l,
-                 double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l,
-                 double *I1_m, double **I1_m_l, double *In_p, double **In_p_l,
-                 double F_iso_top, double *F_iso_top_l, double F_iso_bot, double *F_iso_bot_l,
-                 double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
-                 int add_single_scattering, int greens, int sfi, int solar, int thermal,
-                 int surface, int upwelling, int downwelling, int utau_output, int vector,
-                 int eigen_solver_real, int eigen_solver_complex,
-                 derivs_data *derivs, save_tree_data save_tree, work_data work) {
+int rtm_eig_bvp(int i_four,
+                int n_quad, int n_stokes, int n_derivs, int n_layers,
+                double qf, double *qx_v, double *qw_v, double F_0, double mu_0,
+                int n_ulevels, int *ulevels, double *utaus, int n_umus, double *umus,
+                double *planck, double **planck_l,
+                double *omega, double **omega_l, double *ltau, double **ltau_l,
+                double surface_b, double *surface_b_l,
+                double *btran, double **btran_l,
+                double *as_0, double **as_0_l, double *atran, double **atran_l,
+                double **P_q0_mm, double **P_q0_pm, double **P_u0_mm, double **P_u0_pm,
+                double ***P_uq_pp, double ***P_uq_mp, double ***P_uq_mm, double ***P_uq_pm,
+                double ***r_p, double ***t_p, double ***r_m, double ***t_m,
+                double ***P_q0_mm_l, double ***P_q0_pm_l, double ***P_u0_mm_l, double ***P_u0_pm_l,
+                double ****P_uq_pp_l, double ****P_uq_mp_l, double ****P_uq_mm_l, double ****P_uq_pm_l,
+                double ****r_p_l, double ****t_p_l, double ****r_m_l, double ****t_m_l,
+                double **Rs_qq, double ***Rs_qq_l,
+                double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l,
+                double *I1_m, double **I1_m_l, double *In_p, double **In_p_l,
+                double F_iso_top, double *F_iso_top_l, double F_iso_bot, double *F_iso_bot_l,
+                double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
+                int add_single_scattering, int greens, int sfi, int solar, int thermal,
+                int surface, int upwelling, int downwelling, int utau_output, int vector,
+                int eigen_solver_real, int eigen_solver_complex,
+                derivs_data *derivs, save_tree_data save_tree, work_data work) {
 
      uchar *derivs_layers2;
      uchar *derivs_beam2;
@@ -507,7 +507,10 @@ else {
                     X_m_l2 = X_m_l[i];
                }
 
-               eig_2n_gen_real(n_quad_v_x, n_derivs, tpr, tmr, gamma, nu[i], X_p[i], X_m[i], tpr_l, tmr_l, gamma_l, nu_l2, X_p_l2, X_m_l2, eigen_solver_real, derivs_layers2, save_tree, work2);
+               if (eig_2n_gen_real(n_quad_v_x, n_derivs, tpr, tmr, gamma, nu[i], X_p[i], X_m[i], tpr_l, tmr_l, gamma_l, nu_l2, X_p_l2, X_m_l2, eigen_solver_real, derivs_layers2, save_tree, work2)) {
+                    fprintf(stderr, "ERROR: eig_2n_gen_real()\n");
+                    return -1;
+               }
 
                if (solar) {
                     if (! CLASSICAL_PARTICULAR_SOLUTION_USE_2D) {
@@ -562,7 +565,10 @@ else {
                     X_m_l_c2 = X_m_l_c[i];
                }
 
-               eig_2n_gen_complex(n_quad_v_x, n_derivs, tpr, tmr, gamma, nu_c[i], X_p_c[i], X_m_c[i], tpr_l, tmr_l, gamma_l, nu_l_c2, X_p_l_c2, X_m_l_c2, eigen_solver_complex, derivs_layers2, save_tree, work2);
+               if (eig_2n_gen_complex(n_quad_v_x, n_derivs, tpr, tmr, gamma, nu_c[i], X_p_c[i], X_m_c[i], tpr_l, tmr_l, gamma_l, nu_l_c2, X_p_l_c2, X_m_l_c2, eigen_solver_complex, derivs_layers2, save_tree, work2)) {
+                    fprintf(stderr, "ERROR: eig_2n_gen_complex()\n");
+                    return -1;
+               }
 
                if (solar) {
                     if (! CLASSICAL_PARTICULAR_SOLUTION_USE_2D) {
@@ -1042,4 +1048,6 @@ else {
           if (n_derivs > 0)
                free_array2_d(atran2_l);
      }
+
+     return 0;
 }
diff --git a/src/xrtm_eig_rts.c b/src/xrtm_eig_rts.c
index a08c0dd..f9f1981 100644
--- a/src/xrtm_eig_rts.c
+++ b/src/xrtm_eig_rts.c
@@ -111,23 +111,23 @@
 /*******************************************************************************
  *
  ******************************************************************************/
-void rtm_eig_rts(int n_quad, int n_stokes, int n_derivs, double F_0,
-                 double *qx_v, double *qw_v,
-                 double planck0, double planck1, double *planck0_l, double *planck1_l,
-                 double omega, double *omega_l, double ltau, double *ltau_l,
-                 double as_0, double *as_0_l, double atran, double *atran_l,
-                 double  *P_x0_p, double  *P_x0_m,
-                 double  **r_p, double  **t_p, double  **r_m, double  **t_m,
-                 double  **R_p, double  **T_p, double  **R_m, double  **T_m,
-                 double  *S_p, double  *S_m, double  *Sl_p, double  *Sl_m,
-                 double **P_x0_p_l, double **P_x0_m_l,
-                 double ***r_p_l, double ***t_p_l, double ***r_m_l, double ***t_m_l,
-                 double ***R_p_l, double ***T_p_l, double ***R_m_l, double ***T_m_l,
-                 double **S_p_l, double **S_m_l, double **Sl_p_l, double **Sl_m_l,
-                 int greens, int symmetric, int solar, int thermal, int vector,
-                 int eigen_solver_real, int eigen_solver_complex,
-                 uchar *derivs_layers, uchar *derivs_beam, uchar *derivs_thermal,
-                 save_tree_data save_tree, work_data work) {
+int rtm_eig_rts(int n_quad, int n_stokes, int n_derivs, double F_0,
+                double *qx_v, double *qw_v,
+                double planck0, double planck1, double *planck0_l, double *planck1_l,
+                double omega, double *omega_l, double ltau, double *ltau_l,
+                double as_0, double *as_0_l, double atran, double *atran_l,
+                double  *P_x0_p, double  *P_x0_m,
+                double  **r_p, double  **t_p, double  **r_m, double  **t_m,
+                double  **R_p, double  **T_p, double  **R_m, double  **T_m,
+                double  *S_p, double  *S_m, double  *Sl_p, double  *Sl_m,
+                double **P_x0_p_l, double **P_x0_m_l,
+                double ***r_p_l, double ***t_p_l, double ***r_m_l, double ***t_m_l,
+                double ***R_p_l, double ***T_p_l, double ***R_m_l, double ***T_m_l,
+                double **S_p_l, double **S_m_l, double **Sl_p_l, double **Sl_m_l,
+                int greens, int symmetric, int solar, int thermal, int vector,
+                int eigen_solver_real, int eigen_solver_complex,
+                uchar *derivs_layers, uchar *derivs_beam, uchar *derivs_thermal,
+                save_tree_data save_tree, work_data work) {
 
      int i;
 
@@ -320,7 +320,10 @@ void rtm_eig_rts(int n_quad, int n_stokes, int n_derivs, double F_0,
 /*
 if (! symmetric)
 */
-          eig_2n_gen_real(n_quad_v, n_derivs, tpr, tmr, gamma, nu, X_p, X_m, tpr_l, tmr_l, gamma_l, nu_l, X_p_l, X_m_l, eigen_solver_real, derivs_layers, save_tree, work);
+          if (eig_2n_gen_real(n_quad_v, n_derivs, tpr, tmr, gamma, nu, X_p, X_m, tpr_l, tmr_l, gamma_l, nu_l, X_p_l, X_m_l, eigen_solver_real, derivs_layers, save_tree, work)) {
+               fprintf(stderr, "ERROR: eig_2n_gen_real()\n");
+               return -1;
+          }
 /*
 else
           eig_2n_sym_real(n_quad_v, n_derivs, tpr, tmr, gamma, nu, X_p, X_m, tpr_l, tmr_l, gamma_l, nu_l, X_p_l, X_m_l, aux, aul, derivs, work);
@@ -333,7 +336,10 @@ else
       *
       *-----------------------------------------------------------------------*/
      else {
-          eig_2n_gen_complex(n_quad_v, n_derivs, tpr, tmr, gamma, nu_c, X_p_c, X_m_c, tpr_l, tmr_l, gamma_l, nu_l_c, X_p_l_c, X_m_l_c, eigen_solver_complex, derivs_layers, save_tree, work);
+          if (eig_2n_gen_complex(n_quad_v, n_derivs, tpr, tmr, gamma, nu_c, X_p_c, X_m_c, tpr_l, tmr_l, gamma_l, nu_l_c, X_p_l_c, X_m_l_c, eigen_solver_complex, derivs_layers, save_tree, work)) {
+               fprintf(stderr, "ERROR: eig_2n_gen_complex()\n");
+               return -1;
+          }
 
           calc_global_r_and_t2(n_quad_v, n_derivs, ltau, ltau_l, nu_c, X_p_c, X_m_c, R_p, T_p, nu_l_c, X_p_l_c, X_m_l_c, R_p_l, T_p_l, symmetric, derivs_layers, save_tree, work);
 
@@ -440,4 +446,6 @@ else
                             eigen_solver_real, eigen_solver_complex,
                             derivs_layers, derivs_beam, save_tree, work);
 #endif
+
+     return 0;
 }
diff --git a/src/xrtm_eig_util.c b/src/xrtm_eig_util.c
index 7989dea..16eaebb 100644
--- a/src/xrtm_eig_util.c
+++ b/src/xrtm_eig_util.c
@@ -278,7 +278,7 @@ static void eigen_derivatives_real(int i, int n_quad, int n_derivs, double **gam
      double a;
      double b;
 
-     a = sqrt(evals_r[i]) * 2.;
+     a = sqrt(fabs(evals_r[i])) * 2.;
      b = evals_r[i];
 
      for (j = 0; j < n_quad; ++j) {
@@ -324,6 +324,31 @@ static void eigen_derivatives_real(int i, int n_quad, int n_derivs, double **gam
 
 
 
+/*******************************************************************************
+ * With too few streams for the phase function eigenvalues may be negative for
+ * which the forms of the solutions used here are not valid.
+ ******************************************************************************/
+int check_evals(int n_quad, double *evals_r, double *evals_i) {
+
+     int i;
+
+     double max = 0.;
+
+     for (i = 0; i < n_quad; ++i)
+          max = MAX(max, fabs(evals_r[i]));
+
+     for (i = 0; i < n_quad; ++i) {
+          if (! ((evals_i && evals_i[i] != 0.) || evals_r[i] >= -1.e-14 * max)) {
+               fprintf(stderr, "ERROR: invalid eigenvalue: %e, the number of streams is too small for the phase function, consider delta-m scaling\n", evals_r[i]);
+               return -1;
+          }
+     }
+
+     return 0;
+}
+
+
+
 /*******************************************************************************
  *
  ******************************************************************************/
@@ -824,7 +849,7 @@ void eig_1n_to_2n_complex(int n_quad, int n_derivs,
       *
       *-----------------------------------------------------------------------*/
      for (i = 0; i < n_quad; ++i)
-          nu[i] = csqrt(evals_r[i] + _Complex_I * evals_i[i]);
+          nu[i] = evals_i[i] == 0. ? sqrt(fabs(evals_r[i])) : csqrt(evals_r[i] + _Complex_I * evals_i[i]);
 
      if (flags_or(derivs, n_derivs)) {
           for (i = 0; i < n_derivs; ++i) {
@@ -988,13 +1013,13 @@ else {
 /*******************************************************************************
  *
  ******************************************************************************/
-void eig_2n_gen_real(int n_quad, int n_derivs,
-                     double  **tpr, double  **tmr, double  **gamma,
-                     double  *nu, double  **X_p, double  **X_m,
-                     double ***tpr_l, double ***tmr_l, double ***gamma_l,
-                     double **nu_l, double ***X_p_l, double ***X_m_l,
-                     int eigen_solver, uchar *derivs, save_tree_data save_tree,
-                     work_data work) {
+int eig_2n_gen_real(int n_quad, int n_derivs,
+                    double  **tpr, double  **tmr, double  **gamma,
+                    double  *nu, double  **X_p, double  **X_m,
+                    double ***tpr_l, double ***tmr_l, double ***gamma_l,
+                    double **nu_l, double ***X_p_l, double ***X_m_l,
+                    int eigen_solver, uchar *derivs, save_tree_data save_tree,
+                    work_data work) {
 
      double *evals;
      double **evals_l;
@@ -1024,6 +1049,11 @@ void eig_2n_gen_real(int n_quad, int n_derivs,
 
      eig_1n_gen_real(n_quad, n_derivs, gamma, evals, evecs, gamma_l, evals_l, evecs_l, eigen_solver, derivs, save_tree, work);
 
+     if (check_evals(n_quad, evals, NULL)) {
+          fprintf(stderr, "ERROR: check_evals()\n");
+          return -1;
+     }
+
      eig_1n_to_2n_real(n_quad, n_derivs, tpr, tmr, evals, evecs, nu, X_p, X_m, tpr_l, tmr_l, evals_l, evecs_l, nu_l, X_p_l, X_m_l, NULL, NULL, derivs, save_tree, work);
 
 
@@ -1031,6 +1061,8 @@ void eig_2n_gen_real(int n_quad, int n_derivs,
           dvec_copy(save->evals, evals, n_quad);
           dmat_copy(save->evecs, evecs, n_quad, n_quad);
      }
+
+     return 0;
 }
 
 
@@ -1038,13 +1070,13 @@ void eig_2n_gen_real(int n_quad, int n_derivs,
 /*******************************************************************************
  *
  ******************************************************************************/
-void eig_2n_gen_complex(int n_quad, int n_derivs,
-                        double  **tpr, double  **tmr, double  **gamma,
-                        dcomplex  *nu, dcomplex  **X_p, dcomplex  **X_m,
-                        double ***tpr_l, double ***tmr_l, double ***gamma_l,
-                        dcomplex **nu_l, dcomplex ***X_p_l, dcomplex ***X_m_l,
-                        int eigen_solver, uchar *derivs, save_tree_data save_tree,
-                        work_data work) {
+int eig_2n_gen_complex(int n_quad, int n_derivs,
+                       double  **tpr, double  **tmr, double  **gamma,
+                       dcomplex  *nu, dcomplex  **X_p, dcomplex  **X_m,
+                       double ***tpr_l, double ***tmr_l, double ***gamma_l,
+                       dcomplex **nu_l, dcomplex ***X_p_l, dcomplex ***X_m_l,
+                       int eigen_solver, uchar *derivs, save_tree_data save_tree,
+                       work_data work) {
 
      double *evals_r;
      double *evals_i;
@@ -1093,6 +1125,11 @@ void eig_2n_gen_complex(int n_quad, int n_derivs,
 /*
      eig_1n_gen_complex2(n_quad, n_derivs, gamma, evals_r, evals_i, evecs, gamma_l, evals_r_l, evals_i_l, evecs_l,               derivs, save_tree, work);
 */
+     if (check_evals(n_quad, evals_r, evals_i)) {
+          fprintf(stderr, "ERROR: check_evals()\n");
+          return -1;
+     }
+
      eig_1n_to_2n_complex(n_quad, n_derivs, tpr, tmr, evals_r, evals_i, evecs, nu, X_p, X_m, tpr_l, tmr_l, evals_r_l, evals_i_l, evecs_l, nu_l, X_p_l, X_m_l, derivs, save_tree, work);
 
 
@@ -1104,6 +1141,8 @@ void eig_2n_gen_complex(int n_quad, int n_derivs,
           dvec_copy(save->evals_i, evals_i, n_quad);
           dmat_copy(save->evecs, evecs, n_quad, n_quad);
      }
+
+     return 0;
 }
 
 
diff --git a/src/xrtm_four_stream.c b/src/xrtm_four_stream.c
index ef40ae9..931d8b6 100644
--- a/src/xrtm_four_stream.c
+++ b/src/xrtm_four_stream.c
@@ -13,6 +13,7 @@
 
 #include "xrtm.h"
 #include "xrtm_derivs.h"
+#include "xrtm_eig_util.h"
 #include "xrtm_four_stream.h"
 #include "xrtm_matrix.h"
 #include "xrtm_save_tree.h"
@@ -54,22 +55,22 @@ void dgbtrs_(const char *, int *, int *, int *, int *, double *, int *, int *, d
 /*******************************************************************************
  *
  ******************************************************************************/
-void rtm_four_stream(int i_four,
-                     int n_derivs, int n_layers,
-                     double *qx, double *qw, double F_0, double mu_0,
-                     int n_ulevels, int *ulevels, double *utaus,
-                     int n_umus, double *umus,
-                     double ***coef, double ****coef_l,
-                     double *omega, double **omega_l, double *ltau, double **ltau_l,
-                     double *btran, double **btran_l,
-                     double *as_0, double **as_0_l, double *atran, double **atran_l,
-                     double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l,
-                     double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l,
-                     double *I1_m, double **I1_m_l, double *In_p, double **In_p_l,
-                     double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
-                     int add_single_scattering, int solar, int thermal, int surface,
-                     int upwelling, int downwelling, int utau_output,
-                     derivs_data *derivs, save_tree_data save_tree, work_data work) {
+int rtm_four_stream(int i_four,
+                    int n_derivs, int n_layers,
+                    double *qx, double *qw, double F_0, double mu_0,
+                    int n_ulevels, int *ulevels, double *utaus,
+                    int n_umus, double *umus,
+                    double ***coef, double ****coef_l,
+                    double *omega, double **omega_l, double *ltau, double **ltau_l,
+                    double *btran, double **btran_l,
+                    double *as_0, double **as_0_l, double *atran, double **atran_l,
+                    double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l,
+                    double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l,
+                    double *I1_m, double **I1_m_l, double *In_p, double **In_p_l,
+                    double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
+                    int add_single_scattering, int solar, int thermal, int surface,
+                    int upwelling, int downwelling, int utau_output,
+                    derivs_data *derivs, save_tree_data save_tree, work_data work) {
 
      int i;
      int ii;
@@ -381,6 +382,11 @@ if (n_derivs > 0) {
           /*--------------------------------------------------------------------
            *
            *------------------------------------------------------------------*/
+          if (check_evals(2, evals, NULL)) {
+               fprintf(stderr, "ERROR: check_evals()\n");
+               return -1;
+          }
+
           nu[i][0] = sqrt(evals[0]);
           nu[i][1] = sqrt(evals[1]);
 #ifdef USE_EXPANDED
@@ -1193,4 +1199,6 @@ if (n_umus != 0) {
                  NULL, work);
 }
 
+
+     return 0;
 }
diff --git a/src/xrtm_mem_bvp.c b/src/xrtm_mem_bvp.c
index 048a267..5d5f07f 100644
--- a/src/xrtm_mem_bvp.c
+++ b/src/xrtm_mem_bvp.c
@@ -92,27 +92,27 @@
 /*******************************************************************************
  *
  ******************************************************************************/
-void rtm_mem_bvp(int i_four,
-                 int n_quad, int n_stokes, int n_derivs, int n_layers,
-                 double qf, double *qx_v, double *qw_v, double F_0, double mu_0,
-                 int n_ulevels, int *ulevels, double *utaus,
-                 int n_umus, double *umus,
-                 double *omega, double **omega_l, double *ltau, double **ltau_l,
-                 double *btau, double **btau_l, double *btran, double **btran_l,
-                 double *as_0, double **as_0_l, double *atran, double **atran_l,
-                 double **P_q0_mm, double **P_q0_pm, double **P_u0_mm, double **P_u0_pm,
-                 double ***P_uq_pp, double ***P_uq_mp, double ***P_uq_mm, double ***P_uq_pm,
-                 double ***r_p, double ***t_p, double ***r_m, double ***t_m,
-                 double ***P_q0_mm_l, double ***P_q0_pm_l, double ***P_u0_mm_l, double ***P_u0_pm_l,
-                 double ****P_uq_pp_l, double ****P_uq_mp_l, double ****P_uq_mm_l, double ****P_uq_pm_l,
-                 double ****r_p_l, double ****t_p_l, double ****r_m_l, double ****t_m_l,
-                 double **Rs_qq, double ***Rs_qq_l,
-                 double *Rs_u0, double **Us_u0, double **Rs_uq, double ***Us_uq,
-                 double *I1_m, double **I1_m_l, double *In_p, double **In_p_l,
-                 double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
-                 int sfi, int surface, int utau_output, int vector,
-                 int eigen_solver_real, int eigen_solver_complex,
-                 derivs_data *derivs, save_tree_data save_tree, work_data work) {
+int rtm_mem_bvp(int i_four,
+                int n_quad, int n_stokes, int n_derivs, int n_layers,
+                double qf, double *qx_v, double *qw_v, double F_0, double mu_0,
+                int n_ulevels, int *ulevels, double *utaus,
+                int n_umus, double *umus,
+                double *omega, double **omega_l, double *ltau, double **ltau_l,
+                double *btau, double **btau_l, double *btran, double **btran_l,
+                double *as_0, double **as_0_l, double *atran, double **atran_l,
+                double **P_q0_mm, double **P_q0_pm, double **P_u0_mm, double **P_u0_pm,
+                double ***P_uq_pp, double ***P_uq_mp, double ***P_uq_mm, double ***P_uq_pm,
+                double ***r_p, double ***t_p, double ***r_m, double ***t_m,
+                double ***P_q0_mm_l, double ***P_q0_pm_l, double ***P_u0_mm_l, double ***P_u0_pm_l,
+                double ****P_uq_pp_l, double ****P_uq_mp_l, double ****P_uq_mm_l, double ****P_uq_pm_l,
+                double ****r_p_l, double ****t_p_l, double ****r_m_l, double ****t_m_l,
+                double **Rs_qq, double ***Rs_qq_l,
+                double *Rs_u0, double **Us_u0, double **Rs_uq, double ***Us_uq,
+                double *I1_m, double **I1_m_l, double *In_p, double **In_p_l,
+                double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
+                int sfi, int surface, int utau_output, int vector,
+                int eigen_solver_real, int eigen_solver_complex,
+                derivs_data *derivs, save_tree_data save_tree, work_data work) {
 
      uchar *derivs_layers2;
      uchar *derivs_beam2;
@@ -356,7 +356,10 @@ void rtm_mem_bvp(int i_four,
                     X_m_l2     = X_m_l[i];
                }
 
-               eig_2n_gen_real(n_quad_v_x, n_derivs, tpr, tmr, gamma, nu[i], X_p[i], X_m[i], tpr_l, tmr_l, gamma_l, nu_l2, X_p_l2, X_m_l2, eigen_solver_real, derivs_layers2, save_tree, work2);
+               if (eig_2n_gen_real(n_quad_v_x, n_derivs, tpr, tmr, gamma, nu[i], X_p[i], X_m[i], tpr_l, tmr_l, gamma_l, nu_l2, X_p_l2, X_m_l2, eigen_solver_real, derivs_layers2, save_tree, work2)) {
+                    fprintf(stderr, "ERROR: eig_2n_gen_real()\n");
+                    return -1;
+               }
 if (1)
                build_source_vectors_solar_classic_1n(n_quad_x, n_stokes, n_derivs, qx_v, F_0, omega[i], omega_l2, as_0[i], as_0_l2, P_q0_mm[i], P_q0_pm[i], tpr, tmr, gamma, Fs_p[i], Fs_m[i], P_q0_mm_l2, P_q0_pm_l2, tpr_l, tmr_l, gamma_l, Fs_p_l2, Fs_m_l2, derivs_layers2, derivs_beam2, save_tree, work2);
 else
@@ -381,7 +384,10 @@ else
                     X_m_l_c2   = X_m_l_c[i];
                }
 
-               eig_2n_gen_complex(n_quad_v_x, n_derivs, tpr, tmr, gamma, nu_c[i], X_p_c[i], X_m_c[i], tpr_l, tmr_l, gamma_l, nu_l_c2, X_p_l_c2, X_m_l_c2, eigen_solver_complex, derivs_layers2, save_tree, work2);
+               if (eig_2n_gen_complex(n_quad_v_x, n_derivs, tpr, tmr, gamma, nu_c[i], X_p_c[i], X_m_c[i], tpr_l, tmr_l, gamma_l, nu_l_c2, X_p_l_c2, X_m_l_c2, eigen_solver_complex, derivs_layers2, save_tree, work2)) {
+                    fprintf(stderr, "ERROR: eig_2n_gen_complex()\n");
+                    return -1;
+               }
 if (1) {
                build_source_vectors_solar_classic_1n(n_quad_x, n_stokes, n_derivs, qx_v, F_0, omega[i], omega_l2, as_0[i], as_0_l2, P_q0_mm[i], P_q0_pm[i], tpr, tmr, gamma, Fs_p[i], Fs_m[i], P_q0_mm_l2, P_q0_pm_l2, tpr_l, tmr_l, gamma_l, Fs_p_l2, Fs_m_l2, derivs_layers2, derivs_beam2, save_tree, work2);
 
@@ -479,4 +485,6 @@ else
                }
           }
      }
+
+     return 0;
 }
diff --git a/src/xrtm_model.c b/src/xrtm_model.c
index b2b379f..d28c9b3 100644
--- a/src/xrtm_model.c
+++ b/src/xrtm_model.c
@@ -1990,7 +1990,7 @@ static int get_local_r_t_u_w_all
 /*******************************************************************************
  *
  ******************************************************************************/
-static void call_solver
+static int call_solver
      (xrtm_data *d, int solver, int i_four,
       double planck0, double planck1, double *planck0_l, double *planck1_l,
       double omega, double *omega_l, double ltau, double *ltau_l,
@@ -2051,7 +2051,10 @@ static void call_solver
      }
      else
      if (solver & XRTM_SOLVER_EIG_ADD) {
-          rtm_eig_rts  (d->n_quad_x, d->n_stokes, d->n_derivs, d->F_0, d->qx_v, d->qw_v, planck0, planck1, planck0_l, planck1_l, omega, omega_l, ltau, ltau_l, as_0, as_0_l, atran, atran_l, P_q0_mm, P_q0_pm, r_p, t_p, r_x, t_x, R_p, T_p, R_m, T_m, S_p, S_m, Sl_p, Sl_m, P_q0_mm_l, P_q0_pm_l, r_p_l, t_p_l, r_x_l, t_x_l, R_p_l, T_p_l, R_m_l, T_m_l, S_p_l, S_m_l, Sl_p_l, Sl_m_l, greens, symmetric, solar, thermal, vector, eigen_solver_real, eigen_solver_complex, derivs_layers, derivs_beam, derivs_thermal, save_tree, work);
+          if (rtm_eig_rts(d->n_quad_x, d->n_stokes, d->n_derivs, d->F_0, d->qx_v, d->qw_v, planck0, planck1, planck0_l, planck1_l, omega, omega_l, ltau, ltau_l, as_0, as_0_l, atran, atran_l, P_q0_mm, P_q0_pm, r_p, t_p, r_x, t_x, R_p, T_p, R_m, T_m, S_p, S_m, Sl_p, Sl_m, P_q0_mm_l, P_q0_pm_l, r_p_l, t_p_l, r_x_l, t_x_l, R_p_l, T_p_l, R_m_l, T_m_l, S_p_l, S_m_l, Sl_p_l, Sl_m_l, greens, symmetric, solar, thermal, vector, eigen_solver_real, eigen_solver_complex, derivs_layers, derivs_beam, derivs_thermal, save_tree, work)) {
+               fprintf(stderr, "ERROR: rtm_eig_rts()\n");
+               return -1;
+          }
      }
      else
      if (solver & XRTM_SOLVER_PADE_ADD) {
@@ -2081,6 +2084,8 @@ static void call_solver
                }
           }
      }
+
+     return 0;
 }
 
 
@@ -2329,7 +2334,10 @@ if (d->options & XRTM_OPTION_SOURCE_SOLAR) {
                     b1_l = d->levels_b_l[i_layer+1];
                }
           }
-          call_solver(d, solver, i_four, b0, b1, b0_l, b1_l, d->omega[i_layer], omega_l, d->ltau [i_layer], ltau_l, d->as_0[i_layer], as_0_l, d->atran[i_layer], atran_l, P_q0_mm, P_q0_pm, r_p, t_p, r_m, t_m, *R_p, *T_p, *R_m, *T_m, *S_p, *S_m, *Sl_p, *Sl_m, P_q0_mm_l, P_q0_pm_l, r_p_l, t_p_l, r_m_l, t_m_l, *R_p_l, *T_p_l, *R_m_l, *T_m_l, *S_p_l, *S_m_l, *Sl_p_l, *Sl_m_l, derivs_layers, derivs_beam, derivs_thermal, derivs_sources, save_tree, work2);
+          if (call_solver(d, solver, i_four, b0, b1, b0_l, b1_l, d->omega[i_layer], omega_l, d->ltau [i_layer], ltau_l, d->as_0[i_layer], as_0_l, d->atran[i_layer], atran_l, P_q0_mm, P_q0_pm, r_p, t_p, r_m, t_m, *R_p, *T_p, *R_m, *T_m, *S_p, *S_m, *Sl_p, *Sl_m, P_q0_mm_l, P_q0_pm_l, r_p_l, t_p_l, r_m_l, t_m_l, *R_p_l, *T_p_l, *R_m_l, *T_m_l, *S_p_l, *S_m_l, *Sl_p_l, *Sl_m_l, derivs_layers, derivs_beam, derivs_thermal, derivs_sources, save_tree, work2)) {
+               fprintf(stderr, "ERROR: call_solver()\n");
+               return -1;
+          }
 
 
           if (d->options & XRTM_OPTION_REVERSE_DERIVS) {
@@ -5294,58 +5302,65 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
           if (d->misc_input.do_not_add_sfi_ss)
                add_single_scattering = 0;
 #endif
-          rtm_eig_bvp(i_four,
-                      d->n_quad,   d->n_stokes, d->n_derivs, d->n_layers,
-                      d->qf, d->qx_v, d->qw_v, d->F_0, d->mu_0,
-                      d->n_ulevels, d->ulevels, d->utaus2, d->n_umus, d->umus_v,
-                      d->levels_b, d->levels_b_l,
-                      d->omega, d->omega_l, d->ltau, d->ltau_l,
-                      d->surface_b, d->surface_b_l,
-                      d->btran, d->btran_l,
-                      d->as_0, d->as_0_l, d->atran, d->atran_l,
-                      P_q0_mm, P_q0_pm, P_u0_mm, P_u0_pm,
-                      P_uq_pp, P_uq_mp, P_uq_mm, P_uq_pm,
-                      r_p, t_p, r_m, t_m,
-                      P_q0_mm_l, P_q0_pm_l, P_u0_mm_l, P_u0_pm_l,
-                      P_uq_pp_l, P_uq_mp_l, P_uq_mm_l, P_uq_pm_l,
-                      r_p_l, t_p_l, r_m_l, t_m_l,
-                      Rs_qq, Rs_qq_l,
-                      Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
-                      d->I1_m[i_four], I1_m_l, d->In_p[i_four], In_p_l,
-                      d->F_iso_top, d->F_iso_top_l, d->F_iso_bot, d->F_iso_bot_l,
-                      I_p, I_m, I_p_l, I_m_l,
-                      add_single_scattering,
-                      d->options & XRTM_OPTION_PART_SOL_GREENS,
-                      d->options & XRTM_OPTION_SFI,
-                      solar, thermal, surface,
-                      d->options & XRTM_OPTION_UPWELLING_OUTPUT, d->options & XRTM_OPTION_DOWNWELLING_OUTPUT,
-                      d->options & XRTM_OPTION_OUTPUT_AT_TAUS, d->options & XRTM_OPTION_VECTOR,
-                      d->misc_input.eigen_solver_gen_real, d->misc_input.eigen_solver_gen_complex,
-                      &d->derivs, save_tree, work);
+          if (rtm_eig_bvp(i_four,
+                          d->n_quad,   d->n_stokes, d->n_derivs, d->n_layers,
+                          d->qf, d->qx_v, d->qw_v, d->F_0, d->mu_0,
+                          d->n_ulevels, d->ulevels, d->utaus2, d->n_umus, d->umus_v,
+                          d->levels_b, d->levels_b_l,
+                          d->omega, d->omega_l, d->ltau, d->ltau_l,
+                          d->surface_b, d->surface_b_l,
+                          d->btran, d->btran_l,
+                          d->as_0, d->as_0_l, d->atran, d->atran_l,
+                          P_q0_mm, P_q0_pm, P_u0_mm, P_u0_pm,
+                          P_uq_pp, P_uq_mp, P_uq_mm, P_uq_pm,
+                          r_p, t_p, r_m, t_m,
+                          P_q0_mm_l, P_q0_pm_l, P_u0_mm_l, P_u0_pm_l,
+                          P_uq_pp_l, P_uq_mp_l, P_uq_mm_l, P_uq_pm_l,
+                          r_p_l, t_p_l, r_m_l, t_m_l,
+                          Rs_qq, Rs_qq_l,
+                          Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
+                          d->I1_m[i_four], I1_m_l, d->In_p[i_four], In_p_l,
+                          d->F_iso_top, d->F_iso_top_l, d->F_iso_bot, d->F_iso_bot_l,
+                          I_p, I_m, I_p_l, I_m_l,
+                          add_single_scattering,
+                          d->options & XRTM_OPTION_PART_SOL_GREENS,
+                          d->options & XRTM_OPTION_SFI,
+                          solar, thermal, surface,
+                          d->options & XRTM_OPTION_UPWELLING_OUTPUT, d->options & XRTM_OPTION_DOWNWELLING_OUTPUT,
+                          d->options & XRTM_OPTION_OUTPUT_AT_TAUS, d->options & XRTM_OPTION_VECTOR,
+                          d->misc_input.eigen_solver_gen_real, d->misc_input.eigen_solver_gen_complex,
+                          &d->derivs, save_tree, work)) {
+               fprintf(stderr, "ERROR: rtm_eig_bvp()\n");
+               return -1;
+          }
      }
      else
-     if (solver & XRTM_SOLVER_MEM_BVP)
-          rtm_mem_bvp(i_four,
-                      d->n_quad, d->n_stokes, d->n_derivs, d->n_layers,
-                      d->qf, d->qx_v, d->qw_v, d->F_0, d->mu_0,
-                      d->n_ulevels, d->ulevels, d->utaus2, d->n_umus, d->umus_v,
-                      d->omega, d->omega_l, d->ltau, d->ltau_l,
-                      d->btau, d->btau_l, d->btran, d->btran_l,
-                      d->as_0, d->as_0_l, d->atran, d->atran_l,
-                      P_q0_mm, P_q0_pm, P_u0_mm, P_u0_pm,
-                      P_uq_pp, P_uq_mp, P_uq_mm, P_uq_pm,
-                      r_p, t_p, r_m, t_m,
-                      P_q0_mm_l, P_q0_pm_l, P_u0_mm_l, P_u0_pm_l,
-                      P_uq_pp_l, P_uq_mp_l, P_uq_mm_l, P_uq_pm_l,
-                      r_p_l, t_p_l, r_m_l, t_m_l,
-                      Rs_qq, Rs_qq_l,
-                      Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
-                      d->I1_m[i_four], I1_m_l, d->In_p[i_four], In_p_l,
-                      I_p, I_m, I_p_l, I_m_l,
-                      d->options & XRTM_OPTION_SFI, surface,
-                      d->options & XRTM_OPTION_OUTPUT_AT_TAUS, d->options & XRTM_OPTION_VECTOR,
-                      d->misc_input.eigen_solver_gen_real, d->misc_input.eigen_solver_gen_complex,
-                      &d->derivs, save_tree, work);
+     if (solver & XRTM_SOLVER_MEM_BVP) {
+          if (rtm_mem_bvp(i_four,
+                          d->n_quad, d->n_stokes, d->n_derivs, d->n_layers,
+                          d->qf, d->qx_v, d->qw_v, d->F_0, d->mu_0,
+                          d->n_ulevels, d->ulevels, d->utaus2, d->n_umus, d->umus_v,
+                          d->omega, d->omega_l, d->ltau, d->ltau_l,
+                          d->btau, d->btau_l, d->btran, d->btran_l,
+                          d->as_0, d->as_0_l, d->atran, d->atran_l,
+                          P_q0_mm, P_q0_pm, P_u0_mm, P_u0_pm,
+                          P_uq_pp, P_uq_mp, P_uq_mm, P_uq_pm,
+                          r_p, t_p, r_m, t_m,
+                          P_q0_mm_l, P_q0_pm_l, P_u0_mm_l, P_u0_pm_l,
+                          P_uq_pp_l, P_uq_mp_l, P_uq_mm_l, P_uq_pm_l,
+                          r_p_l, t_p_l, r_m_l, t_m_l,
+                          Rs_qq, Rs_qq_l,
+                          Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
+                          d->I1_m[i_four], I1_m_l, d->In_p[i_four], In_p_l,
+                          I_p, I_m, I_p_l, I_m_l,
+                          d->options & XRTM_OPTION_SFI, surface,
+                          d->options & XRTM_OPTION_OUTPUT_AT_TAUS, d->options & XRTM_OPTION_VECTOR,
+                          d->misc_input.eigen_solver_gen_real, d->misc_input.eigen_solver_gen_complex,
+                          &d->derivs, save_tree, work)) {
+               fprintf(stderr, "ERROR: rtm_mem_bvp()\n");
+               return -1;
+          }
+     }
      else
      if (solver & XRTM_SOLVER_SOS)
           rtm_sos    (i_four,
@@ -5413,63 +5428,74 @@ if (! (d->solvers & XRTM_SOLVER_TWO_STREAM)) {
           if (d->misc_input.do_not_add_sfi_ss)
                add_single_scattering = 0;
 #endif
-          rtm_two_stream(i_four,
-                         d->n_derivs, d->n_layers,
-                         d->qx[0], d->F_0, d->mu_0,
-                         d->n_ulevels, d->ulevels, d->utaus2,
-                         d->n_umus, d->umus,
-                         get_stream_coefs(d, 2, &work), get_stream_coefs_l(d, 2, &work), d->omega, d->omega_l, d->ltau, d->ltau_l,
-                         d->btran, d->btran_l,
-                         d->as_0, d->as_0_l, d->atran, d->atran_l,
-                         Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
-                         Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
-                         I_p, I_m, I_p_l, I_m_l,
-                         add_single_scattering,
-                         solar, thermal, surface,
-                         d->options & XRTM_OPTION_UPWELLING_OUTPUT, d->options & XRTM_OPTION_DOWNWELLING_OUTPUT,
-                         d->options & XRTM_OPTION_OUTPUT_AT_TAUS,
-                         &d->derivs,
-                         save_tree, work);
+          if (rtm_two_stream(i_four,
+                             d->n_derivs, d->n_layers,
+                             d->qx[0], d->F_0, d->mu_0,
+                             d->n_ulevels, d->ulevels, d->utaus2,
+                             d->n_umus, d->umus,
+                             get_stream_coefs(d, 2, &work), get_stream_coefs_l(d, 2, &work), d->omega, d->omega_l, d->ltau, d->ltau_l,
+                             d->btran, d->btran_l,
+                             d->as_0, d->as_0_l, d->atran, d->atran_l,
+                             Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
+                             Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
+                             I_p, I_m, I_p_l, I_m_l,
+                             add_single_scattering,
+                             solar, thermal, surface,
+                             d->options & XRTM_OPTION_UPWELLING_OUTPUT, d->options & XRTM_OPTION_DOWNWELLING_OUTPUT,
+                             d->options & XRTM_OPTION_OUTPUT_AT_TAUS,
+                             &d->derivs,
+                             save_tree, work)) {
+               fprintf(stderr, "ERROR: rtm_two_stream()\n");
+               return -1;
+          }
      }
      else
-     if (solver & XRTM_SOLVER_FOUR_STREAM)
-          rtm_four_stream(i_four,
-                          d->n_derivs, d->n_layers,
-                          d->qx, d->qw, d->F_0, d->mu_0,
-                          d->n_ulevels, d->ulevels, d->utaus2,
-                          d->n_umus, d->umus,
-                          get_stream_coefs(d, 4, &work), d->coef_l, d->omega, d->omega_l, d->ltau, d->ltau_l,
-                          d->btran, d->btran_l,
-                          d->as_0, d->as_0_l, d->atran, d->atran_l,
-                          Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
-                          Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
-                          d->I1_m[i_four], I1_m_l, d->In_p[i_four], In_p_l,
-                          I_p, I_m, I_p_l, I_m_l,
-                          add_single_scattering,
-                          solar, thermal, surface,
-                          d->options & XRTM_OPTION_UPWELLING_OUTPUT, d->options & XRTM_OPTION_DOWNWELLING_OUTPUT,
-                          d->options & XRTM_OPTION_OUTPUT_AT_TAUS,
-                          &d->derivs, save_tree, work);
+     if (solver & XRTM_SOLVER_FOUR_STREAM) {
+          if (rtm_four_stream(i_four,
+                              d->n_derivs, d->n_layers,
+                              d->qx, d->qw, d->F_0, d->mu_0,
+                              d->n_ulevels, d->ulevels, d->utaus2,
+                              d->n_umus, d->umus,
+                              get_stream_coefs(d, 4, &work), d->coef_l, d->omega, d->omega_l, d->ltau, d->ltau_l,
+                              d->btran, d->btran_l,
+                              d->as_0, d->as_0_l, d->atran, d->atran_l,
+                              Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
+                              Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
+                              d->I1_m[i_four], I1_m_l, d->In_p[i_four], In_p_l,
+                              I_p, I_m, I_p_l, I_m_l,
+                              add_single_scattering,
+                              solar, thermal, surface,
+                              d->options & XRTM_OPTION_UPWELLING_OUTPUT, d->options & XRTM_OPTION_DOWNWELLING_OUTPUT,
+                              d->options & XRTM_OPTION_OUTPUT_AT_TAUS,
+                              &d->derivs, save_tree, work)) {
+               fprintf(stderr, "ERROR: rtm_four_stream()\n");
+               return -1;
+          }
+     }
      else
-     if (solver & XRTM_SOLVER_SIX_STREAM)
-          rtm_six_stream (i_four,
-                          d->n_derivs, d->n_layers,
-                          d->qx, d->qw, d->F_0, d->mu_0,
-                          d->n_ulevels, d->ulevels, d->utaus2,
-                          d->n_umus, d->umus,
-                          get_stream_coefs(d, 6, &work), d->coef_l,
-                          d->omega, d->omega_l, d->ltau, d->ltau_l,
-                          d->btran, d->btran_l,
-                          d->as_0, d->as_0_l, d->atran, d->atran_l,
-                          Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
-                          Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
-                          d->I1_m[i_four], I1_m_l, d->In_p[i_four], In_p_l,
-                          I_p, I_m, I_p_l, I_m_l,
-                          add_single_scattering,
-                          solar, thermal, surface,
-                          d->options & XRTM_OPTION_UPWELLING_OUTPUT, d->options & XRTM_OPTION_DOWNWELLING_OUTPUT,
-                          d->options & XRTM_OPTION_OUTPUT_AT_TAUS,
-                          &d->derivs, save_tree, work);
+     if (solver & XRTM_SOLVER_SIX_STREAM) {
+          if (rtm_six_stream(i_four,
+                              d->n_derivs, d->n_layers,
+                              d->qx, d->qw, d->F_0, d->mu_0,
+                              d->n_ulevels, d->ulevels, d->utaus2,
+                              d->n_umus, d->umus,
+                              get_stream_coefs(d, 6, &work), d->coef_l,
+                              d->omega, d->omega_l, d->ltau, d->ltau_l,
+                              d->btran, d->btran_l,
+                              d->as_0, d->as_0_l, d->atran, d->atran_l,
+                              Rs_q0, Rs_q0_l, Rs_qq, Rs_qq_l,
+                              Rs_u0, Rs_u0_l, Rs_uq, Rs_uq_l,
+                              d->I1_m[i_four], I1_m_l, d->In_p[i_four], In_p_l,
+                              I_p, I_m, I_p_l, I_m_l,
+                              add_single_scattering,
+                              solar, thermal, surface,
+                              d->options & XRTM_OPTION_UPWELLING_OUTPUT, d->options & XRTM_OPTION_DOWNWELLING_OUTPUT,
+                              d->options & XRTM_OPTION_OUTPUT_AT_TAUS,
+                              &d->derivs, save_tree, work)) {
+               fprintf(stderr, "ERROR: rtm_six_stream()\n");
+               return -1;
+          }
+     }
 #ifdef DEBUG
      else {
          fprintf(stderr, "ERROR: fourier_get_bvp(): end of if / else if\n");
diff --git a/src/xrtm_six_stream.c b/src/xrtm_six_stream.c
index 6e01c41..ea6ec78 100644
--- a/src/xrtm_six_stream.c
+++ b/src/xrtm_six_stream.c
@@ -13,6 +13,7 @@
 
 #include "xrtm.h"
 #include "xrtm_derivs.h"
+#include "xrtm_eig_util.h"
 #include "xrtm_matrix.h"
 #include "xrtm_save_tree.h"
 #include "xrtm_scatter.h"
@@ -133,22 +134,22 @@ static void cubic_roots_cardano(double a, double b, double c, double d, double *
 /*******************************************************************************
  *
  ******************************************************************************/
-void rtm_six_stream(int i_four,
-                    int n_derivs, int n_layers,
-                    double *qx, double *qw, double F_0, double mu_0,
-                    int n_ulevels, int *ulevels, double *utaus,
-                    int n_umus, double *umus,
-                    double ***coef, double ****coef_l,
-                    double *omega, double **omega_l, double *ltau, double **ltau_l,
-                    double *btran, double **btran_l,
-                    double *as_0, double **as_0_l, double *atran, double **atran_l,
-                    double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l,
-                    double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l,
-                    double *I1_m, double **I1_m_l, double *In_p, double **In_p_l,
-                    double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
-                    int add_single_scattering, int solar, int thermal, int surface,
-                    int upwelling, int downwelling, int utau_output,
-                    derivs_data *derivs, save_tree_data save_tree, work_data work) {
+int rtm_six_stream(int i_four,
+                   int n_derivs, int n_layers,
+                   double *qx, double *qw, double F_0, double mu_0,
+                   int n_ulevels, int *ulevels, double *utaus,
+                   int n_umus, double *umus,
+                   double ***coef, double ****coef_l,
+                   double *omega, double **omega_l, double *ltau, double **ltau_l,
+                   double *btran, double **btran_l,
+                   double *as_0, double **as_0_l, double *atran, double **atran_l,
+                   double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l,
+                   double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l,
+                   double *I1_m, double **I1_m_l, double *In_p, double **In_p_l,
+                   double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
+                   int add_single_scattering, int solar, int thermal, int surface,
+                   int upwelling, int downwelling, int utau_output,
+                   derivs_data *derivs, save_tree_data save_tree, work_data work) {
 
      int i;
      int ii;
@@ -531,6 +532,11 @@ if (n_derivs > 0) {
           /*--------------------------------------------------------------------
            *
            *------------------------------------------------------------------*/
+          if (check_evals(3, evals, NULL)) {
+               fprintf(stderr, "ERROR: check_evals()\n");
+               return -1;
+          }
+
           nu[i][0] = sqrt(evals[0]);
           nu[i][1] = sqrt(evals[1]);
           nu[i][2] = sqrt(evals[2]);
@@ -1473,4 +1479,6 @@ if (n_umus != 0) {
                  NULL, work);
 }
 
+
+     return 0;
 }
diff --git a/src/xrtm_two_stream.c b/src/xrtm_two_stream.c
index e9160d3..5301a7b 100644
--- a/src/xrtm_two_stream.c
+++ b/src/xrtm_two_stream.c
@@ -12,6 +12,7 @@
 
 #include "xrtm.h"
 #include "xrtm_derivs.h"
+#include "xrtm_eig_util.h"
 #include "xrtm_save_tree.h"
 #include "xrtm_two_stream.h"
 #include "xrtm_utility.h"
@@ -47,21 +48,21 @@ void pentdag2_(double *a, double *b, double *c, double *f, double *u, double *p,
 /*******************************************************************************
  *
  ******************************************************************************/
-void rtm_two_stream(int i_four,
-                    int n_derivs, int n_layers,
-                    double qx, double F_0, double mu_0,
-                    int n_ulevels, int *ulevels, double *utaus,
-                    int n_umus, double *umus,
-                    double ***coef, double ****coef_l,
-                    double *omega, double **omega_l, double *ltau, double **ltau_l,
-                    double *btran, double **btran_l,
-                    double *as_0, double **as_0_l, double *atran, double **atran_l,
-                    double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l,
-                    double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l,
-                    double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
-                    int add_single_scattering, int solar, int thermal, int surface,
-                    int upwelling, int downwelling, int utau_output,
-                    derivs_data *derivs, save_tree_data save_tree, work_data work) {
+int rtm_two_stream(int i_four,
+                   int n_derivs, int n_layers,
+                   double qx, double F_0, double mu_0,
+                   int n_ulevels, int *ulevels, double *utaus,
+                   int n_umus, double *umus,
+                   double ***coef, double ****coef_l,
+                   double *omega, double **omega_l, double *ltau, double **ltau_l,
+                   double *btran, double **btran_l,
+                   double *as_0, double **as_0_l, double *atran, double **atran_l,
+                   double *Rs_q0, double **Rs_q0_l, double **Rs_qq, double ***Rs_qq_l,
+                   double *Rs_u0, double **Rs_u0_l, double **Rs_uq, double ***Rs_uq_l,
+                   double **I_p, double **I_m, double ***I_p_l, double ***I_m_l,
+                   int add_single_scattering, int solar, int thermal, int surface,
+                   int upwelling, int downwelling, int utau_output,
+                   derivs_data *derivs, save_tree_data save_tree, work_data work) {
 
      int i;
      int ii;
@@ -343,7 +344,13 @@ if (solar)
           a7 = alpha * alpha;
           a8 = beta  * beta;
 
-          nu[i] = sqrt(a7 - a8);
+          a9 = a7 - a8;
+          if (check_evals(1, &a9, NULL)) {
+               fprintf(stderr, "ERROR: check_evals()\n");
+               return -1;
+          }
+
+          nu[i] = sqrt(a9);
 
           a9 = alpha + beta;
 
@@ -1226,6 +1233,8 @@ if (downwelling) {
               derivs, work, 1);
 }
      }
+
+     return 0;
 }
 
 
-- 
2.43.0

