#include "scen.h"
#define O(x) XRTM_OPTION_ ## x
#define S(x) XRTM_SOLVER_ ## x
typedef struct { int dim, val; const char *name; } dev;
static const dev all[] = {
     {D_SRC, 1, "thermal"}, {D_SRC, 2, "solar_thermal"}, {D_SRC, 3, "bright"}, {D_SRC, 4, "dark"},
     {D_VEC, 1, "stokes3"}, {D_VEC, 2, "stokes4"}, {D_VEC, 3, "stokes2"},
     {D_OTH, 1, "quad_angles"}, {D_OTH, 2, "two_angles"}, {D_OTH, 3, "sfi"},
     {D_DM, 1, "delta_m"}, {D_DM, 2, "delta_m_tms"},
     {D_PSA, 1, "psa"},
     {D_QUAD, 1, "norm_gaus"},
     {D_NQ, 1, "nq1"}, {D_NQ, 2, "nq3"}, {D_NQ, 3, "nq6"},
     {D_LAY, 1, "lay1"}, {D_LAY, 2, "lay3"}, {D_LAY, 3, "lay4"}, {D_LAY, 4, "lay8"},
     {D_SURF, 1, "lamb"}, {D_SURF, 2, "rpv"}, {D_SURF, 3, "lamb_li_ross"}, {D_SURF, 4, "coxmunk"}, {D_SURF, 5, "hapke"}, {D_SURF, 6, "user"}, {D_SURF, 7, "lamb_roujean"},
     {D_OUT, 1, "taus"}, {D_OUT, 2, "top"}, {D_OUT, 3, "bottom"}, {D_OUT, 4, "all_levels"}, {D_OUT, 5, "middle"}, {D_OUT, 6, "tau_edges"},
     {D_OMEGA, 1, "conservative"}, {D_OMEGA, 2, "absorbing"}, {D_OMEGA, 3, "one_absorbing"}, {D_OMEGA, 4, "one_conservative"},
     {D_TAU, 1, "thick"}, {D_TAU, 2, "thin"}, {D_TAU, 3, "uneven"}, {D_TAU, 4, "very_thick"},
     {D_COEF, 1, "isotropic"}, {D_COEF, 2, "forward"}, {D_COEF, 3, "mixed_n_coef"}, {D_COEF, 4, "many_coef"},
     {D_GEOM, 1, "sun_overhead"}, {D_GEOM, 2, "sun_low"}, {D_GEOM, 3, "nadir"}, {D_GEOM, 4, "view_is_sun"}, {D_GEOM, 5, "grazing"},
     {D_CONV, 1, "conv_old"},
     {D_PART, 1, "greens"},
     {D_ISO, 1, "iso_both"}, {D_ISO, 2, "iso_none"},
     {D_MISC, 1, "symmetric"}, {D_MISC, 2, "rebuild"},
     {D_NOAZ, 1, "no_azimuthal"},
     {D_DERIV, 1, "no_derivs"}, {D_DERIV, 2, "one_deriv"}, {D_DERIV, 3, "der_all"}, {D_DERIV, 4, "der_surf"}, {D_DERIV, 5, "der_src"}, {D_DERIV, 6, "der_omega"},
     {D_DERIV, 7, "der_tau"}, {D_DERIV, 8, "der_coef"}, {D_DERIV, 9, "der_none"},
     {D_DIR, 1, "up_only"}, {D_DIR, 2, "down_only"},
     {D_SAVE, 1, "saves"},
     {D_PHI, 1, "phis3"}, {D_PHI, 2, "phis_wide"},
     {D_ADD, 1, "stack_reuse"}, {D_ADD, 2, "top_down"}, {D_ADD, 3, "bottom_up"},
};
#define NA ((int) (sizeof(all) / sizeof(all[0])))
static dev use[NA]; static int nu, K, solv[16], nsolv;
static long n_sets, n_all;
static struct { signed char d[3]; } *sets;
int sc_solver_has_derivs(int s) { return s & (S(DOUB_ADD)|S(EIG_ADD)|S(EIG_BVP)|S(MEM_BVP)|S(PADE_ADD)|S(SINGLE)|S(TWO_OS)|S(TWO_STREAM)|S(SOS)); }
int sc_is_adding(int s) { return s & (S(DOUB_ADD)|S(EIG_ADD)|S(PADE_ADD)); }
int sc_is_bvp(int s) { return s & (S(EIG_BVP)|S(MEM_BVP)); }
int sc_is_stream(int s) { return s & (S(TWO_STREAM)|S(FOUR_STREAM)|S(SIX_STREAM)); }
void sc_init(int k, unsigned mask, int solvers) {
     int i, j, l; long n = 0, p;
     nu = nsolv = 0; K = k;
     for (i = 0; i < NA; ++i) if (mask & (1u << all[i].dim)) use[nu++] = all[i];
     for (i = 0; i < N_XRTM_SOLVERS; ++i) if (solvers & (1 << i)) solv[nsolv++] = 1 << i;
     for (p = 0; p < 2; ++p) {
          n = 0;
#define PUT(A, B, C) do { if (p) { sets[n].d[0] = A; sets[n].d[1] = B; sets[n].d[2] = C; } n++; } while (0)
          PUT(-1, -1, -1);
          for (i = 0; k > 0 && i < nu; ++i) PUT(i, -1, -1);
          for (i = 0; k > 1 && i < nu; ++i) for (j = i + 1; j < nu; ++j) if (use[i].dim != use[j].dim) PUT(i, j, -1);
          for (i = 0; k > 2 && i < nu; ++i) for (j = i + 1; j < nu; ++j) for (l = j + 1; l < nu; ++l)
               if (use[i].dim != use[j].dim && use[j].dim != use[l].dim) PUT(i, j, l);
          if (! p) sets = realloc(sets, n * sizeof(*sets));
     }
     n_sets = n; n_all = n * nsolv;
}
long sc_n(void) { return n_all; }
static const xh_cfg base = { "base", O(CALC_DERIVS) | O(SOURCE_SOLAR), 0, 5, 2, 1, 3, 2, 0, 0, {0}, 2, 1, 1, 0 };
int sc_nq;
int sc_get(long ix, scen *s) {
     int i, j, k, *D = s->dim;
     long si = ix / nsolv;
     char *p;
     xh_cfg *c = &s->c;
     memset(s, 0, sizeof(*s));
     s->solver = solv[ix % nsolv];
     s->c = base; c->solvers = s->solver;
     p = s->name + sprintf(s->name, "%s", xh_solver_name(s->solver));
     for (i = 0; i < 3; ++i) if ((j = sets[si].d[i]) >= 0) { D[use[j].dim] = use[j].val; p += sprintf(p, "+%s", use[j].name); s->n_devs++; }
     c->name = s->name;
     s->sols = s->solver & (S(SINGLE)|S(TWO_OS)) ? XRTM_OUTPUT_RADIANCE : 7;
     /* solver */
     if (s->solver == S(TWO_STREAM)) { c->n_quad = 1; if (D[D_NQ]) return 1; }
     if (s->solver == S(SIX_STREAM)) { c->n_quad = 3; if (D[D_NQ]) return 1; }
     if (s->solver == S(FOUR_STREAM) && D[D_NQ]) return 1;
     if (sc_is_stream(s->solver)) c->n_out_thetas = 0;
     if (! sc_solver_has_derivs(s->solver)) { if (D[D_DERIV]) return 1; c->options &= ~O(CALC_DERIVS); c->n_derivs = 0; }
     /* features */
     if (D[D_SRC] == 1) c->options = (c->options & ~O(SOURCE_SOLAR)) | O(SOURCE_THERMAL);
     if (D[D_SRC] == 2) c->options |= O(SOURCE_THERMAL);
     if (D[D_VEC]) { c->options |= O(VECTOR); c->n_stokes = D[D_VEC] == 1 ? 3 : D[D_VEC] == 2 ? 4 : 2; }
     if (sc_nq && ! sc_is_stream(s->solver)) c->n_quad = sc_nq;
     if (D[D_NQ] == 1) c->n_quad = 1;
     if (D[D_NQ] == 2) c->n_quad = 3;
     if (D[D_NQ] == 3) c->n_quad = 6;
     switch (D[D_OTH]) { case 1: c->n_out_thetas = 0; break; case 2: c->n_out_thetas = 2; break; case 3: c->n_out_thetas = 2; c->options |= O(SFI); break; }
     if (D[D_OTH] == 1 && sc_is_stream(s->solver)) return 1;
     if (D[D_DM]) { c->options |= O(DELTA_M); if (D[D_DM] == 2) c->options |= O(N_T_TMS); c->n_coef = 2 * c->n_quad + 3; }
     else c->n_coef = sc_nq ? 2 * c->n_quad + 1 : c->n_quad == 1 ? 3 : 5;
     if (D[D_COEF] == 4) c->n_coef = 12;
     if (D[D_PSA]) c->options |= O(PSA);
     c->options |= D[D_QUAD] ? O(QUAD_NORM_GAUS_LEG) : O(QUAD_DOUB_GAUS_LEG);
     if (D[D_LAY]) c->n_layers = D[D_LAY] == 1 ? 1 : D[D_LAY] == 4 ? 8 : D[D_LAY] + 1;
     c->n_kernel_quad = 6;
     switch (D[D_SURF]) {
     case 1: c->n_kernels = 1; c->kernels[0] = XRTM_KERNEL_LAMBERTIAN; break;
     case 2: c->n_kernels = 1; c->kernels[0] = XRTM_KERNEL_RAHMAN; break;
     case 3: c->n_kernels = 3; c->kernels[0] = XRTM_KERNEL_LAMBERTIAN; c->kernels[1] = XRTM_KERNEL_LI_SPARSE; c->kernels[2] = XRTM_KERNEL_ROSS_THICK; break;
     case 4: c->n_kernels = 1; c->kernels[0] = XRTM_KERNEL_COX_MUNK; break;
     case 5: c->n_kernels = 1; c->kernels[0] = XRTM_KERNEL_HAPKE; break;
     case 6: c->n_kernels = 1; c->kernels[0] = XRTM_KERNEL_USER_DEFINED; break;
     case 7: c->n_kernels = 2; c->kernels[0] = XRTM_KERNEL_LAMBERTIAN; c->kernels[1] = XRTM_KERNEL_ROUJEAN; break;
     }
     if (! c->n_kernels) c->n_kernel_quad = 0;
     c->options |= D[D_OUT] == 1 || D[D_OUT] == 6 ? O(OUTPUT_AT_TAUS) : O(OUTPUT_AT_LEVELS);
     switch (D[D_OUT]) {
     case 1: case 6: c->n_out_levels = 3; break;
     case 2: case 3: case 5: c->n_out_levels = 1; break;
     case 4: c->n_out_levels = c->n_layers + 1; if (c->n_out_levels < 3) return 1; break;
     }
     if (D[D_OUT] == 5 && c->n_layers < 2) return 1;
     if (D[D_TAU] == 4 && s->solver == S(SOS)) return 1;
     if (D[D_CONV]) c->options |= O(FOUR_CONV_OLD);
     if (D[D_PART]) c->options |= O(PART_SOL_GREENS);
     if (D[D_MISC] == 1) c->misc |= XM_SYM;
     if (D[D_MISC] == 2) c->misc |= XM_REBUILD;
     if (D[D_MISC] == 1 && D[D_SRC]) return 1;
     if (D[D_NOAZ]) c->options |= O(NO_AZIMUTHAL);
     if (D[D_DERIV] == 1) { c->options &= ~O(CALC_DERIVS); c->n_derivs = 0; }
     if (D[D_DERIV] == 2) c->n_derivs = 1;
     if (D[D_DIR] == 1) c->options |= O(UPWELLING_OUTPUT);
     if (D[D_DIR] == 2) c->options |= O(DOWNWELLING_OUTPUT);
     if (D[D_SAVE]) c->options |= O(SAVE_LEG_POLYS) | O(SAVE_PHASE_MATS) | O(SAVE_LOCAL_R_T) | O(SAVE_LAYER_R_T_S) | O(SAVE_TOTAL_R_T_S);
     if (D[D_PHI]) c->n_phis = 3;
     switch (D[D_ADD]) {
     case 1: c->options |= O(STACK_REUSE_ADDING); c->options &= ~O(SAVE_LAYER_R_T_S); if (! sc_is_adding(s->solver)) return 1; break;
     case 2: c->options |= O(TOP_DOWN_ADDING); c->n_out_levels = 1; if (D[D_OUT] == 2 || D[D_OUT] == 5 || ! sc_is_adding(s->solver)) return 1; break;
     case 3: c->options |= O(BOTTOM_UP_ADDING); c->n_out_levels = 1; if (D[D_OUT] == 3 || D[D_OUT] == 5 || ! sc_is_adding(s->solver)) return 1; break;
     }
     /* values */
     xh_default_in(c, &s->in);
     for (k = 0; k < c->n_kernels; ++k) if (c->kernels[k] == XRTM_KERNEL_LI_SPARSE) s->in.ampfac[k] = .05;
     if (D[D_OUT] == 2) s->in.out_levels[0] = 0;
     if (D[D_OUT] == 3) s->in.out_levels[0] = c->n_layers;
     if (D[D_OUT] == 5) s->in.out_levels[0] = 1;
     if (D[D_ADD] == 2) s->in.out_levels[0] = c->n_layers;
     if (D[D_ADD] == 3) s->in.out_levels[0] = 0;
     if ((sc_is_adding(s->solver) || s->solver & (S(SOS)|S(TWO_OS))) && D[D_OUT] == 5) return 1;
     for (i = 0; i < c->n_layers; ++i) {
          switch (D[D_OMEGA]) { case 1: s->in.omega[i] = 1.; break; case 2: s->in.omega[i] = 0.; break; case 3: if (i == 0) s->in.omega[i] = 0.; break; case 4: if (i == c->n_layers - 1) s->in.omega[i] = 1.; break; }
          switch (D[D_TAU]) { case 1: s->in.ltau[i] = 6.007 + 2. * i; break; case 2: s->in.ltau[i] = 1.1e-3 * (i + 1); break; case 3: s->in.ltau[i] = i % 2 ? 3.007 : 2.2e-3; break; case 4: s->in.ltau[i] = 61.3 + 10. * i; break; }
          if (D[D_COEF] && D[D_COEF] != 4) {
               int n = D[D_COEF] == 1 ? 1 : D[D_COEF] == 3 ? (i % 3 == 0 ? 1 : i % 3 == 1 ? 3 : 2) : c->n_coef;
               if (n > c->n_coef) n = c->n_coef;
               s->in.n_coef[i] = n;
               memset(s->in.coef[i], 0, sizeof(s->in.coef[i]));
               if (c->n_stokes == 1) xh_hg(D[D_COEF] == 2 ? .85 : .4 + .1 * (i % 5), n, s->in.coef[i][0]);
               else xh_rayleigh_elems(c, D[D_COEF] == 2 ? 0. : .5, D[D_COEF] == 2 ? .85 : .4 + .1 * (i % 5), n, s->in.coef[i]);
               for (j = 0; j < c->n_derivs; ++j) for (k = n; k < MC; ++k) { int e; for (e = 0; e < 6; ++e) s->in.coef_l[i][j][e][k] = 0.; }
          }
     }
     if (D[D_OUT] == 1) { double t = 0.; for (i = 0; i < c->n_layers; ++i) t += s->in.ltau[i]; for (i = 0; i < 3; ++i) s->in.out_taus[i] = t * (i * .43 + .07); }
     if (D[D_OUT] == 6) { double t = 0.; for (i = 0; i < c->n_layers; ++i) t += s->in.ltau[i]; s->in.out_taus[0] = 0.; s->in.out_taus[1] = s->in.ltau[0]; s->in.out_taus[2] = t; if (c->n_layers < 2) return 1; }
     if (D[D_PHI] == 2) { s->in.phis[0] = 400.; s->in.phis[1] = -55.; s->in.phis[2] = 180.; }
     if (D[D_SRC] > 2) s->in.F_0 = D[D_SRC] == 3 ? 2.5 : 0.;
     switch (D[D_GEOM]) { case 1: s->in.theta_0 = 0.; break; case 2: s->in.theta_0 = 72.; break;
          case 3: if (! c->n_out_thetas) return 1; s->in.out_thetas[0] = 0.; break; case 4: if (! c->n_out_thetas) return 1; s->in.out_thetas[0] = s->in.theta_0; break; case 5: if (! c->n_out_thetas) return 1; s->in.out_thetas[c->n_out_thetas - 1] = 88.5; break; }
     if (D[D_ISO] == 1) { s->in.F_iso_top = .2; s->in.F_iso_bot = .3; }
     if (D[D_ISO] == 2) s->in.F_iso_top = 0.;
     if (D[D_MISC] == 1 && ! D[D_ISO]) s->in.F_iso_top = 0.;   /* not transformed in the symmetric form: a finding of its own */
     s->in.fourier_tol = 0.; s->in.doub_d_tau = 1.e-6; s->in.sos_max_tau = .0203; s->in.sos_tol = 1.e-14; s->in.sos_max_os = 400;
     if (D[D_DERIV] > 2) {
          int P = D[D_DERIV], l;
          double kl[11][MX] = {{0}, {1., .5, .25, .75}, {0}, {.1, .2}, {.1, .15}, {0}, {0}, {.1, .05, .05}, {.1, .05, .05}, {.01, .05}, {.5, .25, 0, 0}};
          if (D[D_MISC] == 1 && (P == 3 || P == 5)) return 1;
          if (P == 4 && ! c->n_kernels && ! (c->options & O(SOURCE_THERMAL))) return 1;
          for (j = 0; j < c->n_derivs; ++j) {
               s->in.F_iso_top_l[j] = P == 3 || P == 5 ? .3 + .1 * j : 0.;
               s->in.F_iso_bot_l[j] = P == 3 || P == 5 ? .2 - .1 * j : 0.;
               s->in.surface_b_l[j] = c->options & O(SOURCE_THERMAL) && (P == 3 || P == 5 || P == 4) ? .4 + .1 * j : 0.;
               for (l = 0; l <= c->n_layers; ++l) s->in.levels_b_l[j][l] = c->options & O(SOURCE_THERMAL) && (P == 3 || P == 5) ? .3 - .1 * j + .07 * l : 0.;
               for (l = 0; l < c->n_layers; ++l) {
                    int only = P == 3 || (P == 6 && l == j % c->n_layers) || (P == 7 && l == c->n_layers - 1 - j % c->n_layers) || (P == 8 && l == j % c->n_layers);
                    s->in.ltau_l[l][j] = only && (P == 3 || P == 7) ? .4 + .2 * j - .1 * l : 0.;
                    s->in.omega_l[l][j] = only && (P == 3 || P == 6) ? .3 + .1 * j : 0.;
                    if (! (only && (P == 3 || P == 8))) { int e; for (e = 0; e < 6; ++e) for (k = 0; k < MC; ++k) s->in.coef_l[l][j][e][k] = 0.; }
                    else { s->in.coef_l[l][j][0][0] = 0.; for (k = 1; k < s->in.n_coef[l]; ++k) s->in.coef_l[l][j][0][k] = (.1 + .03 * j) * s->in.coef[l][0][k] + .01; }
               }
               for (l = 0; l < c->n_kernels; ++l) {
                    s->in.ampfac_l[l][j] = P == 3 || P == 4 ? .5 + .1 * j : 0.;
                    for (k = 0; k < MX; ++k) s->in.params_l[l][j][k] = P == 3 || (P == 4 && j > 0) ? kl[c->kernels[l]][k] * (1. - .3 * j) : 0.;
               }
          }
     }
     {
          xrtm_data d;
          if (xh_create(c, &d) == XRTM_INT_ERROR) return 1;
          xrtm_destroy(&d);
     }
     return 0;
}
