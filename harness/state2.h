/* ------------------------------------------------ C04 */
static const int bad_i[] = {-1, INT_MIN, INT_MAX, 0, 1};      /* the last two are n and n + 1 */
#define NBI 5
static int bidx(int k, int n) { return k < 3 ? bad_i[k] : n + k - 3; }
typedef struct { int k, want, kind; double r, exp; char nm[120]; } badcall;
static void dummy_aux(brdf_aux_data *aux, void *aux2, int i, int j, int n_derivs, uchar *derivs, double *p, double **p_l) { }
/* makes bad call number b->want, if there is one; returns how many there are otherwise */
static int bad(xrtm_data *d, const xh_in *in0, badcall *b) {
     xh_in in = *in0; int i, j, k, l, m, n, di[MO]; double dd[ML + MO + MT + MK], *pc[6], *pcl[6], **pp[ML], **ppl[ML][MD], ***pppl[ML]; double *prow[ML + 2]; double v;
     static double row[ML + 2][ML + MD];
     xh_out *o = NULL; (void) o;
     b->k = 0;
#define B(KIND, TYPE, EXPR, ...) do { if (b->k++ == b->want) { b->kind = KIND; snprintf(b->nm, 119, __VA_ARGS__); b->exp = TYPE; b->r = (double) (EXPR); return 0; } } while (0)
     for (i = 0; i < 6; ++i) { pc[i] = in.coef[0][i]; pcl[i] = ND ? in.coef_l[0][0][i] : in.coef[0][i]; }
     for (i = 0; i < ML; ++i) { pp[i] = pc; for (j = 0; j < MD; ++j) ppl[i][j] = pcl; pppl[i] = ppl[i]; }
     for (i = 0; i < ML + 2; ++i) { prow[i] = row[i]; for (j = 0; j < ML + MD; ++j) row[i][j] = .123; }
     /* values outside of their domains */
     for (i = 0; i < 2; ++i) B(K_DOUB_D_TAU, IERR, xrtm_set_doub_d_tau(d, i ? 0. : -.1), "set_doub_d_tau(<= 0) %d", i);
     for (i = 0; i < 2; ++i) B(K_SOS, IERR, xrtm_set_sos_params(d, i ? 0 : -1, .02, .01), "set_sos_params(max_os %d)", i);
     for (i = 0; i < 2; ++i) B(K_SOS, IERR, xrtm_set_sos_params(d, 9, i ? 0. : -1., .01), "set_sos_params(max_tau %d)", i);
     B(K_SOS, IERR, xrtm_set_sos_params(d, 9, .03, -1.e-5), "set_sos_params(tol)");
     B(K_FOURIER_TOL, IERR, xrtm_set_fourier_tol(d, -1.e-9), "set_fourier_tol(< 0)");
     if (HAS(SOURCE_THERMAL)) {
          for (i = 0; i < 2; ++i) B(K_LAMBDA, IERR, xrtm_set_lambda(d, -i * 1.), "set_lambda(<= 0) %d", i);
          B(K_SURFACE_B, IERR, xrtm_set_surface_b(d, -1.e-6), "set_surface_b(< 0)");
          for (n = 0; n <= C->n_layers; ++n) { for (i = 0; i <= C->n_layers; ++i) dd[i] = i == n ? -.01 : .77; B(K_LEVELS_B, IERR, xrtm_set_levels_b(d, dd), "set_levels_b(< 0 at %d)", n); }
     } else {
          for (i = 0; i <= C->n_layers; ++i) dd[i] = .5;
          B(K_LAMBDA, IERR, xrtm_set_lambda(d, 3.), "set_lambda without thermal"); B(K_SURFACE_B, IERR, xrtm_set_surface_b(d, 1.), "set_surface_b without thermal");
          B(K_LEVELS_B, IERR, xrtm_set_levels_b(d, dd), "set_levels_b without thermal");
          B(K_LEVELS_B_L, IERR, xrtm_set_levels_b_l_1(d, 0, dd), "set_levels_b_l_1 without thermal"); B(K_LEVELS_B_L, IERR, xrtm_set_levels_b_l_n(d, prow), "set_levels_b_l_n without thermal");
          B(K_SURFACE_B_L, IERR, xrtm_set_surface_b_l_1(d, 0, 1.), "set_surface_b_l_1 without thermal"); B(K_SURFACE_B_L, IERR, xrtm_set_surface_b_l_n(d, dd), "set_surface_b_l_n without thermal");
          B(K_LAMBDA, DERR, xrtm_get_lambda(d), "get_lambda without thermal"); B(K_SURFACE_B, DERR, xrtm_get_surface_b(d), "get_surface_b without thermal"); B(K_LEVELS_B, IERR, xrtm_get_levels_b(d, dd), "get_levels_b without thermal");
     }
     if (HAS(PSA)) {
          for (i = 0; i < 2; ++i) B(K_PLANET_R, IERR, xrtm_set_planet_r(d, -i * 1.), "set_planet_r(<= 0) %d", i);
          for (n = 1; n <= C->n_layers; ++n) { for (i = 0; i <= C->n_layers; ++i) dd[i] = 90. - 10. * i + (i >= n ? 25. : 0.); B(K_LEVELS_Z, IERR, xrtm_set_levels_z(d, dd), "set_levels_z(not decreasing at %d)", n); }
     } else {
          for (i = 0; i <= C->n_layers; ++i) dd[i] = 90. - 10. * i;
          B(K_PLANET_R, IERR, xrtm_set_planet_r(d, 6000.), "set_planet_r without psa"); B(K_LEVELS_Z, IERR, xrtm_set_levels_z(d, dd), "set_levels_z without psa");
          B(K_PLANET_R, DERR, xrtm_get_planet_r(d), "get_planet_r without psa"); B(K_LEVELS_Z, IERR, xrtm_get_levels_z(d, dd), "get_levels_z without psa");
     }
     if (HAS(OUTPUT_AT_LEVELS)) {
          for (n = 0; n < C->n_out_levels; ++n) for (k = 0; k < 4; ++k) {
               for (i = 0; i < C->n_out_levels; ++i) di[i] = in.out_levels[i];
               di[n] = k == 0 ? -1 : k == 1 ? C->n_layers + 1 : k == 2 ? INT_MAX : INT_MIN;
               B(K_OUT_LEVELS, IERR, xrtm_set_out_levels(d, di), "set_out_levels(%d at %d)", di[n], n);
          }
          if (C->n_out_levels > 1) { for (i = 0; i < C->n_out_levels; ++i) di[i] = in.out_levels[0]; B(K_OUT_LEVELS, IERR, xrtm_set_out_levels(d, di), "set_out_levels(equal)");
               for (i = 0; i < C->n_out_levels; ++i) di[i] = in.out_levels[C->n_out_levels - 1 - i]; B(K_OUT_LEVELS, IERR, xrtm_set_out_levels(d, di), "set_out_levels(reversed)"); }
          dd[0] = dd[1] = dd[2] = dd[3] = .01;
          B(K_OUT_TAUS, IERR, xrtm_set_out_taus(d, dd), "set_out_taus with levels"); B(K_OUT_TAUS, IERR, xrtm_get_out_taus(d, dd), "get_out_taus with levels");
          if (C->n_layers > 1 && C->n_out_levels == 1 && C->options & (XRTM_OPTION_TOP_DOWN_ADDING | XRTM_OPTION_BOTTOM_UP_ADDING)) { di[0] = HAS(TOP_DOWN_ADDING) ? 0 : C->n_layers; B(K_OUT_LEVELS, IERR, xrtm_set_out_levels(d, di), "set_out_levels(wrong end)"); }
          if (C->n_layers > 1 && C->solvers & (S(DOUB_ADD) | S(EIG_ADD) | S(PADE_ADD) | S(SOS)) && C->n_out_levels == 2) { di[0] = 0; di[1] = 1; B(K_OUT_LEVELS, IERR, xrtm_set_out_levels(d, di), "set_out_levels(inside, adding)"); }
     } else {
          for (n = 0; n < C->n_out_levels; ++n) { for (i = 0; i < C->n_out_levels; ++i) dd[i] = i == n ? -.01 : .02 * i + .001; B(K_OUT_TAUS, IERR, xrtm_set_out_taus(d, dd), "set_out_taus(< 0 at %d)", n); }
          di[0] = 0; di[1] = 1; di[2] = 2; di[3] = 3;
          B(K_OUT_LEVELS, IERR, xrtm_set_out_levels(d, di), "set_out_levels with taus"); B(K_OUT_LEVELS, IERR, xrtm_get_out_levels(d, di), "get_out_levels with taus");
     }
     if (C->n_out_thetas) {
          for (n = 0; n < C->n_out_thetas; ++n) for (k = 0; k < 3; ++k) { for (i = 0; i < C->n_out_thetas; ++i) dd[i] = i == n ? (k == 0 ? -.1 : k == 1 ? 90. : 179.) : 3. + 5. * i; B(K_OUT_THETAS, IERR, xrtm_set_out_thetas(d, dd), "set_out_thetas(%g at %d)", dd[n], n); }
     } else { dd[0] = 10.; B(K_OUT_THETAS, IERR, xrtm_set_out_thetas(d, dd), "set_out_thetas without them"); B(K_OUT_THETAS, IERR, xrtm_get_out_thetas(d, dd), "get_out_thetas without them"); }
     B(K_F_ISO_TOP, IERR, xrtm_set_F_iso_top(d, -1.e-6), "set_F_iso_top(< 0)"); B(K_F_ISO_BOT, IERR, xrtm_set_F_iso_bot(d, -1.e-6), "set_F_iso_bot(< 0)");
     if (HAS(SOURCE_SOLAR)) {
          B(K_F_0, IERR, xrtm_set_F_0(d, -1.e-6), "set_F_0(< 0)");
          for (k = 0; k < 3; ++k) { v = k == 0 ? -.1 : k == 1 ? 90. : 120.; B(K_THETA_0, IERR, xrtm_set_theta_0(d, v), "set_theta_0(%g)", v); }
     } else { B(K_F_0, IERR, xrtm_set_F_0(d, 1.), "set_F_0 without solar"); B(K_THETA_0, IERR, xrtm_set_theta_0(d, 10.), "set_theta_0 without solar"); B(K_F_0, DERR, xrtm_get_F_0(d), "get_F_0 without solar"); B(K_THETA_0, DERR, xrtm_get_theta_0(d), "get_theta_0 without solar"); }
     /* layers */
     for (n = 0; n < C->n_layers; ++n) for (k = 0; k < 2; ++k) {
          for (i = 0; i < C->n_layers; ++i) dd[i] = .345; dd[n] = k ? 1.00001 : -1.e-6;
          B(K_OMEGA, IERR, xrtm_set_omega_n(d, dd), "set_omega_n(%g at %d)", dd[n], n); B(K_OMEGA, IERR, xrtm_set_omega_1(d, n, dd[n]), "set_omega_1(%d, %g)", n, dd[n]);
          if (k == 0) { B(K_LTAU, IERR, xrtm_set_ltau_n(d, dd), "set_ltau_n(%g at %d)", dd[n], n); B(K_LTAU, IERR, xrtm_set_ltau_1(d, n, dd[n]), "set_ltau_1(%d, %g)", n, dd[n]); }
     }
     for (n = 0; n < C->n_layers; ++n) {
          double c1[6][MC], *q1[6]; double **qq[ML];
          memcpy(c1, in.coef[0], sizeof(c1)); for (i = 0; i < 6; ++i) q1[i] = c1[i]; c1[0][0] = .9; for (i = 1; i < C->n_coef; ++i) c1[0][i] *= .5;
          for (i = 0; i < C->n_layers; ++i) { qq[i] = i == n ? q1 : pc; di[i] = C->n_coef; }
          B(K_COEF, IERR, xrtm_set_coef_1(d, n, C->n_coef, q1), "set_coef_1(%d, first not one)", n); B(K_COEF, IERR, xrtm_set_coef_n(d, di, qq), "set_coef_n(first not one at %d)", n);
          B(K_COEF, IERR, xrtm_set_coef_1(d, n, C->n_coef + 1, pc), "set_coef_1(%d, too many)", n);
          di[n] = C->n_coef + 1; B(K_COEF, IERR, xrtm_set_coef_n(d, di, pp), "set_coef_n(too many at %d)", n);
          di[n] = -1; B(K_COEF, IERR, xrtm_set_coef_n(d, di, pp), "set_coef_n(negative count at %d)", n);
     }
     for (k = 0; k < NBI; ++k) {
          n = bidx(k, C->n_layers); if (n == INT_MAX) continue;     /* the next index overflows */
          B(K_OMEGA, IERR, xrtm_set_omega_1(d, n, .4), "set_omega_1(layer %d)", n); B(K_LTAU, IERR, xrtm_set_ltau_1(d, n, .4), "set_ltau_1(layer %d)", n); B(K_COEF, IERR, xrtm_set_coef_1(d, n, C->n_coef, pc), "set_coef_1(layer %d)", n);
          B(K_OMEGA, DERR, xrtm_get_omega(d, n), "get_omega(layer %d)", n); B(K_LTAU, DERR, xrtm_get_ltau(d, n), "get_ltau(layer %d)", n); B(K_COEF, DERR, xrtm_get_coef(d, n, 0, 0), "get_coef(layer %d)", n); B(K_COEF, IERR, xrtm_get_n_coef(d, n), "get_n_coef(layer %d)", n);
          m = bidx(k, NEL); B(K_COEF, DERR, xrtm_get_coef(d, 0, m, 0), "get_coef(elem %d)", m);
          m = bidx(k, C->n_coef); B(K_COEF, DERR, xrtm_get_coef(d, 0, 0, m), "get_coef(coef %d)", m);
     }
     /* derivatives */
     for (i = 0; i < ML + MD; ++i) dd[i] = .321;
     if (! HAS(CALC_DERIVS)) {
          B(K_F_ISO_TOP_L, IERR, xrtm_set_F_iso_top_l_1(d, 0, 1.), "set_F_iso_top_l_1 without derivs"); B(K_F_ISO_TOP_L, IERR, xrtm_set_F_iso_top_l_n(d, dd), "set_F_iso_top_l_n without derivs");
          B(K_F_ISO_BOT_L, IERR, xrtm_set_F_iso_bot_l_1(d, 0, 1.), "set_F_iso_bot_l_1 without derivs"); B(K_F_ISO_BOT_L, IERR, xrtm_set_F_iso_bot_l_n(d, dd), "set_F_iso_bot_l_n without derivs");
          B(K_OMEGA_L, IERR, xrtm_set_omega_l_11(d, 0, 0, 1.), "set_omega_l_11 without derivs"); B(K_OMEGA_L, IERR, xrtm_set_omega_l_n1(d, 0, dd), "set_omega_l_n1 without derivs"); B(K_OMEGA_L, IERR, xrtm_set_omega_l_1n(d, 0, dd), "set_omega_l_1n without derivs"); B(K_OMEGA_L, IERR, xrtm_set_omega_l_nn(d, prow), "set_omega_l_nn without derivs");
          B(K_LTAU_L, IERR, xrtm_set_ltau_l_11(d, 0, 0, 1.), "set_ltau_l_11 without derivs"); B(K_LTAU_L, IERR, xrtm_set_ltau_l_n1(d, 0, dd), "set_ltau_l_n1 without derivs"); B(K_LTAU_L, IERR, xrtm_set_ltau_l_1n(d, 0, dd), "set_ltau_l_1n without derivs"); B(K_LTAU_L, IERR, xrtm_set_ltau_l_nn(d, prow), "set_ltau_l_nn without derivs");
          B(K_COEF_L, IERR, xrtm_set_coef_l_11(d, 0, 0, pcl), "set_coef_l_11 without derivs"); B(K_COEF_L, IERR, xrtm_set_coef_l_n1(d, 0, ppl[0]), "set_coef_l_n1 without derivs"); B(K_COEF_L, IERR, xrtm_set_coef_l_1n(d, 0, ppl[0]), "set_coef_l_1n without derivs"); B(K_COEF_L, IERR, xrtm_set_coef_l_nn(d, pppl), "set_coef_l_nn without derivs");
          B(K_OMEGA_L, DERR, xrtm_get_omega_l(d, 0, 0), "get_omega_l without derivs"); B(K_LTAU_L, DERR, xrtm_get_ltau_l(d, 0, 0), "get_ltau_l without derivs"); B(K_COEF_L, DERR, xrtm_get_coef_l(d, 0, 0, 0, 0), "get_coef_l without derivs");
          B(K_F_ISO_TOP_L, DERR, xrtm_get_F_iso_top_l(d, 0), "get_F_iso_top_l without derivs"); B(K_F_ISO_BOT_L, DERR, xrtm_get_F_iso_bot_l(d, 0), "get_F_iso_bot_l without derivs");
          B(K_LTAU_L, IERR, xrtm_update_varied_layers(d), "update_varied_layers without derivs");
          if (C->n_kernels) { B(K_AMPFAC_L, IERR, xrtm_set_kernel_ampfac_l_1(d, 0, 0, 1.), "set_kernel_ampfac_l_1 without derivs"); B(K_AMPFAC_L, IERR, xrtm_set_kernel_ampfac_l_n(d, 0, dd), "set_kernel_ampfac_l_n without derivs");
               B(K_PARAMS_L, IERR, xrtm_set_kernel_params_l_11(d, 0, 0, 0, 1.), "set_kernel_params_l_11 without derivs"); B(K_PARAMS_L, IERR, xrtm_set_kernel_params_l_1n(d, 0, 0, dd), "set_kernel_params_l_1n without derivs"); B(K_PARAMS_L, IERR, xrtm_set_kernel_params_l_nn(d, 0, prow), "set_kernel_params_l_nn without derivs"); }
     }
     else for (k = 0; k < NBI; ++k) {
          n = bidx(k, ND); l = bidx(k, C->n_layers);
          if (n == INT_MAX) continue;
          B(K_F_ISO_TOP_L, IERR, xrtm_set_F_iso_top_l_1(d, n, .6), "set_F_iso_top_l_1(deriv %d)", n); B(K_F_ISO_BOT_L, IERR, xrtm_set_F_iso_bot_l_1(d, n, .6), "set_F_iso_bot_l_1(deriv %d)", n);
          B(K_F_ISO_TOP_L, DERR, xrtm_get_F_iso_top_l(d, n), "get_F_iso_top_l(deriv %d)", n); B(K_F_ISO_BOT_L, DERR, xrtm_get_F_iso_bot_l(d, n), "get_F_iso_bot_l(deriv %d)", n);
          if (HAS(SOURCE_THERMAL)) { B(K_LEVELS_B_L, IERR, xrtm_set_levels_b_l_1(d, n, dd), "set_levels_b_l_1(deriv %d)", n); B(K_SURFACE_B_L, IERR, xrtm_set_surface_b_l_1(d, n, .6), "set_surface_b_l_1(deriv %d)", n);
               B(K_LEVELS_B_L, IERR, xrtm_get_levels_b_l(d, n, dd), "get_levels_b_l(deriv %d)", n); B(K_SURFACE_B_L, DERR, xrtm_get_surface_b_l(d, n), "get_surface_b_l(deriv %d)", n); }
          for (m = 0; m < 2; ++m) {
               i = m ? l : 0; j = m ? 0 : n;
               B(K_OMEGA_L, IERR, xrtm_set_omega_l_11(d, i, j, .6), "set_omega_l_11(%d, %d)", i, j); B(K_LTAU_L, IERR, xrtm_set_ltau_l_11(d, i, j, .6), "set_ltau_l_11(%d, %d)", i, j); B(K_COEF_L, IERR, xrtm_set_coef_l_11(d, i, j, pcl), "set_coef_l_11(%d, %d)", i, j);
               B(K_OMEGA_L, DERR, xrtm_get_omega_l(d, i, j), "get_omega_l(%d, %d)", i, j); B(K_LTAU_L, DERR, xrtm_get_ltau_l(d, i, j), "get_ltau_l(%d, %d)", i, j); B(K_COEF_L, DERR, xrtm_get_coef_l(d, i, j, 0, 0), "get_coef_l(%d, %d)", i, j);
          }
          B(K_OMEGA_L, IERR, xrtm_set_omega_l_n1(d, n, dd), "set_omega_l_n1(%d)", n); B(K_LTAU_L, IERR, xrtm_set_ltau_l_n1(d, n, dd), "set_ltau_l_n1(%d)", n); B(K_COEF_L, IERR, xrtm_set_coef_l_n1(d, n, ppl[0]), "set_coef_l_n1(%d)", n);
          B(K_OMEGA_L, IERR, xrtm_set_omega_l_1n(d, l, dd), "set_omega_l_1n(%d)", l); B(K_LTAU_L, IERR, xrtm_set_ltau_l_1n(d, l, dd), "set_ltau_l_1n(%d)", l); B(K_COEF_L, IERR, xrtm_set_coef_l_1n(d, l, ppl[0]), "set_coef_l_1n(%d)", l);
          m = bidx(k, NEL); B(K_COEF_L, DERR, xrtm_get_coef_l(d, 0, 0, m, 0), "get_coef_l(elem %d)", m); m = bidx(k, C->n_coef); B(K_COEF_L, DERR, xrtm_get_coef_l(d, 0, 0, 0, m), "get_coef_l(coef %d)", m);
     }
     /* kernels */
     for (k = 0; k < NBI; ++k) {
          n = bidx(k, C->n_kernels); if (n == INT_MAX) continue;
          B(K_AMPFAC, IERR, xrtm_set_kernel_ampfac(d, n, .2), "set_kernel_ampfac(kernel %d)", n); B(K_AMPFAC, DERR, xrtm_get_kernel_ampfac(d, n), "get_kernel_ampfac(kernel %d)", n); B(K_AMPFAC, IERR, (int) xrtm_get_kernel(d, n), "get_kernel(%d)", n);
          B(K_PARAMS, IERR, xrtm_set_kernel_params_1(d, n, 0, .2), "set_kernel_params_1(kernel %d)", n); B(K_PARAMS, IERR, xrtm_set_kernel_params_n(d, n, dd), "set_kernel_params_n(kernel %d)", n); B(K_PARAMS, DERR, xrtm_get_kernel_params(d, n, 0), "get_kernel_params(kernel %d)", n);
          B(K_FUNC, IERR, xrtm_set_kernel_func(d, n, dummy_aux, xh_kernel_1), "set_kernel_func(kernel %d)", n);
          if (HAS(CALC_DERIVS)) {
               B(K_AMPFAC_L, IERR, xrtm_set_kernel_ampfac_l_1(d, n, 0, .2), "set_kernel_ampfac_l_1(kernel %d)", n); B(K_AMPFAC_L, IERR, xrtm_set_kernel_ampfac_l_n(d, n, dd), "set_kernel_ampfac_l_n(kernel %d)", n); B(K_AMPFAC_L, DERR, xrtm_get_kernel_ampfac_l(d, n, 0), "get_kernel_ampfac_l(kernel %d)", n);
               B(K_PARAMS_L, IERR, xrtm_set_kernel_params_l_11(d, n, 0, 0, .2), "set_kernel_params_l_11(kernel %d)", n); B(K_PARAMS_L, IERR, xrtm_set_kernel_params_l_1n(d, n, 0, dd), "set_kernel_params_l_1n(kernel %d)", n); B(K_PARAMS_L, IERR, xrtm_set_kernel_params_l_n1(d, n, 0, dd), "set_kernel_params_l_n1(kernel %d)", n); B(K_PARAMS_L, IERR, xrtm_set_kernel_params_l_nn(d, n, prow), "set_kernel_params_l_nn(kernel %d)", n); B(K_PARAMS_L, DERR, xrtm_get_kernel_params_l(d, n, 0, 0), "get_kernel_params_l(kernel %d)", n);
          }
     }
     for (i = 0; i < C->n_kernels; ++i) {
          B(K_AMPFAC, IERR, xrtm_set_kernel_ampfac(d, i, -1.e-6), "set_kernel_ampfac(%d, < 0)", i); B(K_AMPFAC, IERR, xrtm_set_kernel_ampfac(d, i, 1.00001), "set_kernel_ampfac(%d, > 1)", i);
          if (C->kernels[i] != XRTM_KERNEL_USER_DEFINED) B(K_FUNC, IERR, xrtm_set_kernel_func(d, i, dummy_aux, xh_kernel_1), "set_kernel_func(%d) of another kernel", i);
          for (k = 0; k < NBI; ++k) {
               m = bidx(k, NPAR(i)); if (m == INT_MAX) continue;
               B(K_PARAMS, IERR, xrtm_set_kernel_params_1(d, i, m, .2), "set_kernel_params_1(%d, param %d)", i, m); B(K_PARAMS, DERR, xrtm_get_kernel_params(d, i, m), "get_kernel_params(%d, param %d)", i, m);
               if (! HAS(CALC_DERIVS)) continue;
               n = bidx(k, ND);
               B(K_PARAMS_L, IERR, xrtm_set_kernel_params_l_11(d, i, 0, m, .2), "set_kernel_params_l_11(%d, param %d)", i, m); B(K_PARAMS_L, IERR, xrtm_set_kernel_params_l_n1(d, i, m, dd), "set_kernel_params_l_n1(%d, param %d)", i, m); B(K_PARAMS_L, DERR, xrtm_get_kernel_params_l(d, i, 0, m), "get_kernel_params_l(%d, param %d)", i, m);
               B(K_AMPFAC_L, IERR, xrtm_set_kernel_ampfac_l_1(d, i, n, .2), "set_kernel_ampfac_l_1(%d, deriv %d)", i, n); B(K_AMPFAC_L, DERR, xrtm_get_kernel_ampfac_l(d, i, n), "get_kernel_ampfac_l(%d, deriv %d)", i, n);
               B(K_PARAMS_L, IERR, xrtm_set_kernel_params_l_11(d, i, n, 0, .2), "set_kernel_params_l_11(%d, deriv %d)", i, n); B(K_PARAMS_L, IERR, xrtm_set_kernel_params_l_1n(d, i, n, dd), "set_kernel_params_l_1n(%d, deriv %d)", i, n); B(K_PARAMS_L, DERR, xrtm_get_kernel_params_l(d, i, n, 0), "get_kernel_params_l(%d, deriv %d)", i, n);
          }
     }
     /* solvers not asked for, outputs that are none */
     {
          double *ph[MT], m1[MO], m2[MO]; double ****I1 = NULL, ****I2 = NULL, *****L1 = NULL, *****L2 = NULL;
          int nt = xh_nth(C), nl = C->n_out_levels, q = -1;
          for (i = 0; i < MT; ++i) ph[i] = in.phis;
          for (i = 0; i < N_XRTM_SOLVERS; ++i) if (! (C->solvers & (1 << i))) { q = i; B(-1, IERR, xrtm_mean_radiance(d, (enum xrtm_solver_mask) (1 << i), m1, m2, NULL, NULL), "mean_radiance(solver %s)", xh_solver_name(1 << i)); B(-1, IERR, xrtm_flux(d, (enum xrtm_solver_mask) (1 << i), m1, m2, NULL, NULL), "flux(solver %s)", xh_solver_name(1 << i)); }
          B(-1, IERR, xrtm_mean_radiance(d, (enum xrtm_solver_mask) 0, m1, m2, NULL, NULL), "mean_radiance(solver 0)");
          B(-1, IERR, xrtm_solution(d, (enum xrtm_solver_mask) solv[0], 0, 1, ph, I1, I2, L1, L2, m1, m2, NULL, NULL, m1, m2, NULL, NULL, m1, NULL), "solution(outputs 0)");
          B(-1, IERR, xrtm_radiance(d, (enum xrtm_solver_mask) solv[0], 0, ph, I1, I2, L1, L2), "radiance(0 phis)"); B(-1, IERR, xrtm_radiance(d, (enum xrtm_solver_mask) solv[0], -1, ph, I1, I2, L1, L2), "radiance(-1 phis)");
          if (C->solvers == S(SINGLE)) B(-1, IERR, xrtm_flux(d, XRTM_SOLVER_SINGLE, m1, m2, NULL, NULL), "flux(single)");
          (void) nt; (void) nl; (void) q;
     }
     return b->k;
}
static int bad_cfg[40000], bad_no[40000], n_bad;
static void c04_case(long idx) {
     badcall b; xrtm_data d; xh_in in; int st, i, j, at; model m; xh_slot s[400], ch; int n, nch; char sig[300]; double e;
     static xh_out ref, o;
     static snap before, after;
     use_cfg(bad_cfg[idx]);
     b.want = bad_no[idx];
     memset(xh_func_alt, 0, sizeof(xh_func_alt));
     n = xh_required_slots(C, s); n += xh_deriv_slots(C, s + n);
     /* what happens before: -1 created, -2 created and everything but this input set, -3 all set, -4 solved, k >= 0: solved, then slot k changed */
     nch = n;
     for (st = -3; st < nch; ++st) {
          xh_default_in(C, &in);
          if (xh_create(C, &d)) { mc_viol("create", "%s", C->name); return; }
          sprintf(sig, "%s|bad %d|state %d", C->name, b.want, st); mc_ctx("%s", sig);
          if (st != -3) { if (xh_set_all(C, &d, &in) ) return; }
          if (st >= -1) { if (xh_update(C, &d)) return; xh_run(C, &d, &in, solv[0], sols(), 0, &o); }
          if (st >= 0) {
               /* quick: changes of the input that is rejected, and of one other */
               badcall q = b; xrtm_data d2;
               if (! mc_thorough) { model_init(&m); if (xh_create(C, &d2)) return; bad(&d2, &in, &q); xrtm_destroy(&d2); if (s[st].kind != q.kind && st != (int) (idx % n)) { xrtm_destroy(&d); continue; } }
               ch = s[st]; xh_alt(C, &in, &ch, 1); if (xh_set(C, &d, &in, &ch, 0)) { xrtm_destroy(&d); continue; }
          }
          take(&d, NULL, &before);
          bad(&d, &in, &b);
          take(&d, NULL, &after);
          mc_execs(1); mc_states(1); mc_transitions(1);
          snprintf(sig, 239, "%s|%s|rc", C->name, b.nm);
          if (b.r != b.exp) { mc_viol(sig, "returned %.17g, not the error value %.17g (state %d)", b.r, b.exp, st); xrtm_destroy(&d); continue; }
          snprintf(sig, 239, "%s|%s|values", C->name, b.nm);
          if ((i = cmp(&after, &before, 0.)) >= 0) { mc_viol(sig, "the getter of %s gives %.17g, gave %.17g (state %d)", after.nm[i], after.v[i], before.v[i], st); xrtm_destroy(&d); continue; }
          /* what follows */
          if (st == -3) { if (xh_set_all(C, &d, &in)) { snprintf(sig, 239, "%s|%s|setall", C->name, b.nm); mc_viol(sig, "valid calls were rejected"); xrtm_destroy(&d); continue; } }
          if (st == -1) j = 0; else j = xh_update(C, &d);
          if (j) { snprintf(sig, 239, "%s|%s|update", C->name, b.nm); mc_viol(sig, "update_varied_layers failed (state %d)", st); }
          else for (i = 0; i < n_solv; ++i) {
               xh_run(C, &d, &in, solv[i], sols(), 0, &o);
               mallopt(M_PERTURB, 0x11); xh_fresh_run(C, &in, solv[i], sols(), 0, &ref); mallopt(M_PERTURB, 0xee);
               mc_nontrivial(1);
               if ((e = xh_diff(&o, &ref, &at)) > 1.e-7) { snprintf(sig, 239, "%s|%s|outputs", C->name, b.nm); mc_viol(sig, "relative difference %g at %d, rc %d/%d (state %d)", e, at, o.rc, ref.rc, st); break; }
          }
          xrtm_destroy(&d);
     }
}
static void c04_main(void) {
     int i, j; badcall b; xrtm_data d; xh_in in; b.want = -1;
     for (i = 0; i < NC; ++i) { use_cfg(i); xh_default_in(C, &in); if (xh_create(C, &d)) continue; b.want = -1; bad(&d, &in, &b); xrtm_destroy(&d); for (j = 0; j < b.k; ++j) { bad_cfg[n_bad] = i; bad_no[n_bad++] = j; } }
     mc_family("rejected", n_bad, c04_case, 300);
}
/* ------------------------------------------------ C05 */
static int el_cfg[40000], el_no[40000], n_el;
/* required inputs, one parameter at a time */
static int req(op *r) {
     xh_slot s[400]; int i, k, n = xh_required_slots(C, s), q = 0;
     for (i = 0; i < n; ++i) {
          op o = {s[i].kind, 0, s[i].a, s[i].b, 0, 0};
          if (s[i].kind == K_PARAMS) { for (k = 0; k < NPAR(s[i].a); ++k) { o.p = k; r[q++] = o; } }
          else r[q++] = o;
     }
     return q;
}
static int refused(xrtm_data *d, const xh_in *in, const char *what, int quick) {
     static xh_out o; int k, how, r = 0; char sig[300]; double a[MO], b[MO];
     for (k = 0; k < n_solv; ++k) {
          if (HAS(CALC_DERIVS) && xrtm_update_varied_layers(d) == 0) { snprintf(sig, 239, "%s|%s|update", C->name, what); mc_viol(sig, "update_varied_layers succeeded"); r = 1; }
          for (how = 0; how < 2; ++how) {
               xh_run(C, d, in, solv[k], sols(), how, &o);
               if (o.rc != XRTM_INT_ERROR) { snprintf(sig, 239, "%s|%s|accepted", C->name, what); mc_viol(sig, "the solution returned %d although an input was not set", o.rc); r = 1; }
          }
          if (sols() & XRTM_OUTPUT_FLUX) {
               if (! ND && xrtm_flux(d, (enum xrtm_solver_mask) solv[k], a, b, NULL, NULL) != XRTM_INT_ERROR) { snprintf(sig, 239, "%s|%s|flux", C->name, what); mc_viol(sig, "flux succeeded"); r = 1; }
               if (! ND && xrtm_mean_radiance(d, (enum xrtm_solver_mask) solv[k], a, b, NULL, NULL) != XRTM_INT_ERROR) { snprintf(sig, 239, "%s|%s|mean", C->name, what); mc_viol(sig, "mean_radiance succeeded"); r = 1; }
          }
          mc_execs(1);
          if (quick) break;
     }
     return r;
}
static void c05_missing(long idx) {
     op r[200]; int n, a, b, c, i, j, k, ord, at; xrtm_data d; xh_in in; char what[300], sig[300]; static xh_out o, ref[12]; int miss[3], nm; double e;
     use_cfg(el_cfg[idx]); n = req(r); a = el_no[idx];
     memset(xh_func_alt, 0, sizeof(xh_func_alt));
     xh_default_in(C, &in);
     mallopt(M_PERTURB, 0x11);
     for (k = 0; k < n_solv; ++k) if (xh_fresh_run(C, &in, solv[k], sols(), 0, &ref[k])) { mc_viol("reference", "%s", C->name); return; }
     mallopt(M_PERTURB, 0xee);
     for (b = a; b < n; ++b) for (c = b; c < n; ++c) {
          if (c > b && (a == b || ! mc_thorough)) continue;
          miss[0] = a; nm = 1; if (b != a) miss[nm++] = b; if (c != b) miss[nm++] = c;
          for (ord = 0; ord < (nm == 3 ? 1 : 3); ++ord) {
               char n1[100], n2[100]; opname(&r[a], n1); opname(&r[b], n2);
               sprintf(what, "%s%s%s%s|order %d", n1, nm > 1 ? "," : "", nm > 1 ? n2 : "", nm > 2 ? ",..." : "", ord);
               mc_ctx("%s without %s", C->name, what);
               if (xh_create(C, &d)) return;
               for (i = 0; i < n * (ord == 2 ? 2 : 1); ++i) {
                    j = ord == 1 ? n - 1 - i : i % n;
                    if (j == a || j == b || j == c) continue;
                    if (do_op(&d, &r[j], &in)) { snprintf(sig, 239, "%s|%s|rejected", C->name, what); mc_viol(sig, "%s", xh_kind_name(r[j].kind)); break; }
               }
               mc_states(1);
               for (i = 0; i < nm; ++i) {
                    if (refused(&d, &in, what, i || nm > 1)) break;
                    j = miss[ord == 1 ? nm - 1 - i : i];
                    if (do_op(&d, &r[j], &in)) break;
                    mc_transitions(1);
               }
               if (i == nm) {
                    xh_slot s[400]; int q = xh_deriv_slots(C, s);
                    for (i = 0; i < q; ++i) xh_set(C, &d, &in, &s[i], 0);
                    if (xh_update(C, &d)) { snprintf(sig, 239, "%s|%s|update2", C->name, what); mc_viol(sig, "update_varied_layers failed when all was set"); }
                    else for (k = 0; k < n_solv; ++k) {
                         xh_run(C, &d, &in, solv[k], sols(), 0, &o);
                         mc_nontrivial(1);
                         if ((e = xh_diff(&o, &ref[k], &at)) > 1.e-9) { snprintf(sig, 239, "%s|%s|outputs", C->name, what); mc_viol(sig, "relative difference %g at %d, rc %d", e, at, o.rc); break; }
                    }
               }
               xrtm_destroy(&d);
          }
     }
}
static void zero_slot(xh_in *in, const xh_slot *s) {
     int a = s->a, b = s->b;
     switch (s->kind) {
     case K_F_ISO_TOP_L: in->F_iso_top_l[b] = 0.; break;
     case K_F_ISO_BOT_L: in->F_iso_bot_l[b] = 0.; break;
     case K_LEVELS_B_L: memset(in->levels_b_l[b], 0, sizeof(in->levels_b_l[b])); break;
     case K_SURFACE_B_L: in->surface_b_l[b] = 0.; break;
     case K_COEF_L: memset(in->coef_l[a][b], 0, sizeof(in->coef_l[a][b])); break;
     case K_OMEGA_L: in->omega_l[a][b] = 0.; break;
     case K_LTAU_L: in->ltau_l[a][b] = 0.; break;
     case K_AMPFAC_L: in->ampfac_l[a][b] = 0.; break;
     case K_PARAMS_L: memset(in->params_l[a][b], 0, sizeof(in->params_l[a][b])); break;
     }
}
/* linearized inputs that are not set count as zero; nothing set at all is refused */
static void c05_derivs(long idx) {
     xh_slot s[400], q[400]; int n, m, i, j, k, l, at; xrtm_data d; xh_in in, z; static xh_out o, ref; char nb[100], sig[300]; double e;
     use_cfg(idx);
     memset(xh_func_alt, 0, sizeof(xh_func_alt));
     n = xh_required_slots(C, s); m = xh_deriv_slots(C, q);
     xh_default_in(C, &in);
     if (xh_create(C, &d)) return;
     refused(&d, &in, "nothing set", 0);
     xrtm_destroy(&d);
     for (l = 0; l < n_solv; ++l) {
          mallopt(M_PERTURB, 0x11); xh_fresh_run(C, &in, solv[l], sols(), 0, &ref); mallopt(M_PERTURB, 0xee);
          if (HAS(CALC_DERIVS)) {
               /* which layers vary must have been updated */
               if (xh_create(C, &d) || xh_set_all(C, &d, &in)) return;
               xh_run(C, &d, &in, solv[l], sols(), 0, &o);
               if (o.rc != XRTM_INT_ERROR) { sprintf(sig, "%s|no update_varied_layers|accepted", C->name); mc_viol(sig, "rc %d", o.rc); }
               if (xh_update(C, &d)) { sprintf(sig, "%s|update after refused solution", C->name); mc_viol(sig, "failed"); }
               xh_run(C, &d, &in, solv[l], sols(), 0, &o);
               if ((e = xh_diff(&o, &ref, &at)) > 1.e-9) { sprintf(sig, "%s|no update_varied_layers|outputs", C->name); mc_viol(sig, "relative difference %g at %d, rc %d/%d", e, at, o.rc, ref.rc); }
               mc_execs(2); mc_nontrivial(1);
               xrtm_destroy(&d);
          }
          if (HAS(OUTPUT_AT_TAUS)) for (j = 0; j < C->n_out_levels; ++j) for (k = 0; k < 2; ++k) {
               /* levels must increase and be inside of the atmosphere */
               if (k == 1 && j == 0) continue;
               z = in;
               if (k) z.out_taus[j] = z.out_taus[j - 1]; else for (i = j; i < C->n_out_levels; ++i) z.out_taus[i] = 50. + i;
               if (xh_create(C, &d) || xh_set_all(C, &d, &z)) return;
               sprintf(nb, "out_taus[%d] %s", j, k ? "not increasing" : "outside");
               if (xh_update(C, &d)) return;
               xh_run(C, &d, &z, solv[l], sols(), 0, &o);
               if (o.rc != XRTM_INT_ERROR) { sprintf(sig, "%s|%s|accepted", C->name, nb); mc_viol(sig, "rc %d", o.rc); }
               xrtm_set_out_taus(&d, in.out_taus);
               xh_run(C, &d, &in, solv[l], sols(), 0, &o);
               if ((e = xh_diff(&o, &ref, &at)) > 1.e-9) { sprintf(sig, "%s|%s|outputs", C->name, nb); mc_viol(sig, "relative difference %g at %d, rc %d/%d", e, at, o.rc, ref.rc); }
               mc_execs(2); mc_nontrivial(1);
               xrtm_destroy(&d);
          }
     }
     for (j = -1; j < m; ++j) for (k = j; k < m; ++k) {
          if (j < 0 && k > j) continue;
          for (l = 0; l < n_solv; ++l) {
               z = in;
               if (j < 0) for (i = 0; i < m; ++i) zero_slot(&z, &q[i]); else { zero_slot(&z, &q[j]); zero_slot(&z, &q[k]); }
               mallopt(M_PERTURB, 0x11); xh_fresh_run(C, &z, solv[l], sols(), 0, &ref); mallopt(M_PERTURB, 0xee);
               if (xh_create(C, &d)) return;
               for (i = 0; i < n; ++i) xh_set(C, &d, &in, &s[i], 0);
               for (i = 0; i < m; ++i) if (j >= 0 && i != j && i != k) xh_set(C, &d, &in, &q[i], 0);
               if (j >= 0) xh_slot_name(&q[j], nb); else sprintf(nb, "all");
               mc_ctx("%s %s", C->name, nb);
               xh_update(C, &d); xh_run(C, &d, &in, solv[l], sols(), 0, &o);
               mc_execs(1); mc_states(1); mc_nontrivial(1);
               if ((e = xh_diff(&o, &ref, &at)) > 1.e-9) { snprintf(sig, 239, "%s|unset %s|outputs", C->name, nb); mc_viol(sig, "relative difference %g at %d, rc %d/%d", e, at, o.rc, ref.rc); }
               xrtm_destroy(&d);
          }
     }
}
static void c05_main(void) {
     int i, j; op r[200];
     for (i = 0; i < NC; ++i) { use_cfg(i); for (j = req(r) - 1; j >= 0; --j) { el_cfg[n_el] = i; el_no[n_el++] = j; } }
     mc_family("missing", n_el, c05_missing, 600);
     mc_family("derivs", NC, c05_derivs, 300);
}
