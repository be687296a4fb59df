#include "xh.h"
#include <unistd.h>
#include <fcntl.h>

static int saved_err = -1;
void xh_quiet(void) {
     int n;
     fflush(stderr);
     if (saved_err < 0) saved_err = dup(2);
     n = open("/dev/null", O_WRONLY);
     dup2(n, 2);
     close(n);
}
void xh_loud(void) {
     fflush(stderr);
     if (saved_err >= 0) dup2(saved_err, 2);
}

static const char *kind_names[] = {"doub_d_tau", "pade_params", "sos_params", "fourier_tol", "lambda", "planet_r", "levels_z",
     "out_levels", "out_taus", "out_thetas", "F_iso_top", "F_iso_top_l", "F_iso_bot", "F_iso_bot_l", "F_0", "theta_0", "phi_0",
     "levels_b", "levels_b_l", "surface_b", "surface_b_l", "coef", "coef_l", "omega", "omega_l", "ltau", "ltau_l",
     "kernel_ampfac", "kernel_ampfac_l", "kernel_params", "kernel_params_l", "kernel_func"};

const char *xh_kind_name(int k) { return kind_names[k]; }

int xh_slot_name(const xh_slot *s, char *b) {
     switch (s->kind) {
     case K_COEF: case K_OMEGA: case K_LTAU: case K_AMPFAC: case K_PARAMS: case K_FUNC:
          return sprintf(b, "%s[%d]", kind_names[s->kind], s->a);
     case K_COEF_L: case K_OMEGA_L: case K_LTAU_L: case K_AMPFAC_L: case K_PARAMS_L:
          return sprintf(b, "%s[%d][%d]", kind_names[s->kind], s->a, s->b);
     case K_F_ISO_TOP_L: case K_F_ISO_BOT_L: case K_LEVELS_B_L: case K_SURFACE_B_L:
          return sprintf(b, "%s[%d]", kind_names[s->kind], s->b);
     }
     return sprintf(b, "%s", kind_names[s->kind]);
}

__thread int xh_func_alt[MK];

double xh_kernel_1(brdf_aux_data *aux, void *aux2, enum xrtm_brdf_geometry g, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, double *f_l) {
     int n;
     double m = aux->cos_theta[i] * aux->cos_theta[j], q = aux->sin_theta[i] * aux->sin_theta[j] * aux->cos_phi[k];   /* no azimuth dependence in the vertical */
     for (n = 0; n < n_derivs; ++n)
          if (derivs[n])
               f_l[n] = p_l[n][0] * (1. + .5 * m + .25 * q) + p_l[n][1] * m;
     return p[0] * (1. + .5 * m + .25 * q) + p[1] * m;
}
double xh_kernel_2(brdf_aux_data *aux, void *aux2, enum xrtm_brdf_geometry g, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, double *f_l) {
     int n;
     double m = aux->cos_theta[i] + aux->cos_theta[j], q = aux->sin_theta[i] * aux->sin_theta[j] * aux->cos_phi[k];
     for (n = 0; n < n_derivs; ++n)
          if (derivs[n])
               f_l[n] = p_l[n][0] * (1. + .3 * m) + p_l[n][1] * (.2 - .1 * q);
     return p[0] * (1. + .3 * m) + p[1] * (.2 - .1 * q);
}
static void kernel_aux_none(brdf_aux_data *aux, void *aux2, int i, int j, int n_derivs, uchar *derivs, double *p, double **p_l) { }

int xh_required_slots(const xh_cfg *c, xh_slot *s) {
     int i, n = 0;
#define ADD(K, A, B) do { s[n].kind = K; s[n].a = A; s[n].b = B; n++; } while (0)
     if (c->solvers & XRTM_SOLVER_DOUB_ADD) ADD(K_DOUB_D_TAU, 0, 0);
     if (c->solvers & XRTM_SOLVER_PADE_ADD) ADD(K_PADE, 0, 0);
     if (c->solvers & XRTM_SOLVER_SOS)      ADD(K_SOS, 0, 0);
     ADD(K_FOURIER_TOL, 0, 0);
     if (c->options & XRTM_OPTION_PSA) { ADD(K_PLANET_R, 0, 0); ADD(K_LEVELS_Z, 0, 0); }
     if (c->options & XRTM_OPTION_OUTPUT_AT_LEVELS) ADD(K_OUT_LEVELS, 0, 0);
     else                                           ADD(K_OUT_TAUS, 0, 0);
     if (c->n_out_thetas > 0) ADD(K_OUT_THETAS, 0, 0);
     ADD(K_F_ISO_TOP, 0, 0);
     ADD(K_F_ISO_BOT, 0, 0);
     if (c->options & XRTM_OPTION_SOURCE_SOLAR) { ADD(K_F_0, 0, 0); ADD(K_THETA_0, 0, 0); ADD(K_PHI_0, 0, 0); }
     if (c->options & XRTM_OPTION_SOURCE_THERMAL) { ADD(K_LEVELS_B, 0, 0); ADD(K_SURFACE_B, 0, 0); }
     for (i = 0; i < c->n_layers; ++i) { ADD(K_COEF, i, 0); ADD(K_OMEGA, i, 0); ADD(K_LTAU, i, 0); }
     for (i = 0; i < c->n_kernels; ++i) {
          ADD(K_AMPFAC, i, 0);
          if (kernel_n_params((enum xrtm_kernel_type) c->kernels[i]) > 0) ADD(K_PARAMS, i, 0);
          if (c->kernels[i] == XRTM_KERNEL_USER_DEFINED) ADD(K_FUNC, i, 0);
     }
     return n;
}

int xh_deriv_slots(const xh_cfg *c, xh_slot *s) {
     int i, j, n = 0;
     if (! (c->options & XRTM_OPTION_CALC_DERIVS)) return 0;
     for (j = 0; j < c->n_derivs; ++j) {
          ADD(K_F_ISO_TOP_L, 0, j); ADD(K_F_ISO_BOT_L, 0, j);
          if (c->options & XRTM_OPTION_SOURCE_THERMAL) { ADD(K_LEVELS_B_L, 0, j); ADD(K_SURFACE_B_L, 0, j); }
          for (i = 0; i < c->n_layers; ++i) { ADD(K_COEF_L, i, j); ADD(K_OMEGA_L, i, j); ADD(K_LTAU_L, i, j); }
          for (i = 0; i < c->n_kernels; ++i) {
               ADD(K_AMPFAC_L, i, j);
               if (kernel_n_params((enum xrtm_kernel_type) c->kernels[i]) > 0) ADD(K_PARAMS_L, i, j);
          }
     }
     return n;
}

void xh_hg(double g, int n, double *coef) {
     int i;
     double a = 1.;
     for (i = 0; i < n; ++i) { coef[i] = (2. * i + 1.) * a; a *= g; }
}

/* a mixture, with weight w, of a Rayleigh-like matrix and of a Henyey-Greenstein one with diagonal-like polarization */
void xh_rayleigh_elems(const xh_cfg *c, double w, double g, int n, double coef[6][MC]) {
     int i, j;
     double hg[MC];
     double ray[6][3] = {{1., 0., .5}, {0., 0., 3.}, {0., 0., 0.}, {0., 1.5, 0.}, {0., 0., 1.2247448713915890}, {0., 0., 0.}};
     xh_hg(g, n, hg);
     for (j = 0; j < 6; ++j) for (i = 0; i < MC; ++i) coef[j][i] = 0.;
     for (i = 0; i < n; ++i) {
          coef[0][i] = (1. - w) * hg[i];
          coef[3][i] = (1. - w) * hg[i] * .9;
          if (i >= 2) { coef[1][i] = (1. - w) * hg[i] * .95; coef[2][i] = (1. - w) * hg[i] * .92; coef[4][i] = (1. - w) * hg[i] * .1; coef[5][i] = (1. - w) * hg[i] * .05; }
     }
     for (j = 0; j < 6; ++j) for (i = 0; i < 3 && i < n; ++i) coef[j][i] += w * ray[j][i];
     coef[0][0] = 1.;
}

static const double kparam[11][MX] = {{0}, {.12, .15, .2, .22}, {0}, {2., 1.}, {2., 1.5}, {0}, {0}, {.3, .4, .15}, {.12, -.2, .75}, {.05, 1.34}, {.1, .05, 0, 0}};
static const double kparam_l[11][MX] = {{0}, {1., .5, .25, .75}, {0}, {.1, .2}, {.1, .15}, {0}, {0}, {.1, .05, .05}, {.1, .05, .05}, {.01, .05}, {.5, .25, 0, 0}};

void xh_default_in(const xh_cfg *c, xh_in *in) {
     int i, j, k;
     static const double taus[] = {.21, .43, .11, .36, .17, .29, .08, .14};
     static const double oms[]  = {.9, .6, .97, .75, .83, .5, .92, .71};
     static const double gs[]   = {.55, .1, .7, .3, .4, -.2, .6, .2};
     static const double ws[]   = {.3, .9, .1, .6, .5, .8, .2, .4};
     memset(in, 0, sizeof(*in));
     in->doub_d_tau = 1.e-4;
     in->pade_s = 4; in->pade_r = 3;
     in->sos_max_os = 60; in->sos_max_tau = .02; in->sos_tol = 1.e-9;
     in->fourier_tol = 1.e-4;
     in->lambda = 11.;
     in->planet_r = 6371.;
     for (i = 0; i <= c->n_layers; ++i) { in->levels_z[i] = 10. * (c->n_layers - i) + .5 * i * i; }
     if (c->n_out_levels == 1) in->out_levels[0] = (c->options & XRTM_OPTION_TOP_DOWN_ADDING) ? c->n_layers : 0;
     else if (c->n_out_levels == 2) { in->out_levels[0] = 0; in->out_levels[1] = c->n_layers; }
     else for (i = 0; i < c->n_out_levels; ++i) in->out_levels[i] = i;
     { double t = 0.;
       for (i = 0; i < c->n_layers; ++i) t += taus[i];
       for (i = 0; i < c->n_out_levels; ++i) in->out_taus[i] = c->n_out_levels == 1 ? .37 * t : t * i / (c->n_out_levels - 1.) * .93; }
     for (i = 0; i < c->n_out_thetas; ++i) in->out_thetas[i] = 12. + 25. * i;
     in->F_iso_top = .05; in->F_iso_bot = 0.;
     in->F_0 = 1.; in->theta_0 = 35.; in->phi_0 = 10.;
     for (i = 0; i <= c->n_layers; ++i) in->levels_b[i] = .2 + .1 * i;
     in->surface_b = .6;
     for (i = 0; i < c->n_layers; ++i) {
          in->n_coef[i] = c->n_coef;
          if (c->n_stokes == 1) xh_hg(gs[i], c->n_coef, in->coef[i][0]);
          else xh_rayleigh_elems(c, ws[i], gs[i], c->n_coef, in->coef[i]);
          in->omega[i] = oms[i];
          in->ltau[i] = taus[i];
     }
     /* derivative j varies layer j (and layer 0 for the last one), the surface varies for derivative 0 */
     for (j = 0; j < c->n_derivs; ++j) {
          i = j % c->n_layers;
          in->ltau_l[i][j] = 1.;
          in->omega_l[i][j] = .5;
          for (k = 1; k < c->n_coef; ++k) in->coef_l[i][j][0][k] = .1 * in->coef[i][0][k];
          if (c->n_stokes > 1) for (k = 2; k < c->n_coef; ++k) { in->coef_l[i][j][1][k] = .05 * in->coef[i][1][k]; in->coef_l[i][j][4][k] = .05; }
          if (c->options & XRTM_OPTION_SOURCE_THERMAL) { in->levels_b_l[j][i] = .3; in->levels_b_l[j][i + 1] = .2; if (j == 0) in->surface_b_l[j] = .4; }
     }
     for (i = 0; i < c->n_kernels; ++i) {
          in->ampfac[i] = .25 / (i + 1.);
          if (c->n_derivs > 0) in->ampfac_l[i][0] = 1.;
          for (k = 0; k < MX; ++k) { in->params[i][k] = kparam[c->kernels[i]][k]; for (j = 0; j < c->n_derivs; ++j) in->params_l[i][j][k] = 0.; }
     }
     for (i = 0; i < c->n_phis; ++i) in->phis[i] = 25. + 70. * i;
}

void xh_alt(const xh_cfg *c, xh_in *in, const xh_slot *s, int alt) {
     int i, k;
     int a = s->a, b = s->b;
     xh_in def;
     if (alt == 0) {
          static xh_in dd; static const xh_cfg *dc = NULL; static xh_cfg dcc;
          if (dc != c || memcmp(&dcc, c, sizeof(*c))) { xh_default_in(c, &dd); dc = c; dcc = *c; }
          def = dd;
#define CP(F) memcpy(&in->F, &def.F, sizeof(in->F))
          switch (s->kind) {
          case K_DOUB_D_TAU: CP(doub_d_tau); break;
          case K_PADE: CP(pade_s); CP(pade_r); break;
          case K_SOS: CP(sos_max_os); CP(sos_max_tau); CP(sos_tol); break;
          case K_FOURIER_TOL: CP(fourier_tol); break;
          case K_LAMBDA: CP(lambda); break;
          case K_PLANET_R: CP(planet_r); break;
          case K_LEVELS_Z: CP(levels_z); break;
          case K_OUT_LEVELS: CP(out_levels); break;
          case K_OUT_TAUS: CP(out_taus); break;
          case K_OUT_THETAS: CP(out_thetas); break;
          case K_F_ISO_TOP: CP(F_iso_top); break;
          case K_F_ISO_TOP_L: CP(F_iso_top_l[b]); break;
          case K_F_ISO_BOT: CP(F_iso_bot); break;
          case K_F_ISO_BOT_L: CP(F_iso_bot_l[b]); break;
          case K_F_0: CP(F_0); break;
          case K_THETA_0: CP(theta_0); break;
          case K_PHI_0: CP(phi_0); break;
          case K_LEVELS_B: CP(levels_b); break;
          case K_LEVELS_B_L: CP(levels_b_l[b]); break;
          case K_SURFACE_B: CP(surface_b); break;
          case K_SURFACE_B_L: CP(surface_b_l[b]); break;
          case K_COEF: CP(n_coef[a]); CP(coef[a]); break;
          case K_COEF_L: CP(coef_l[a][b]); break;
          case K_OMEGA: CP(omega[a]); break;
          case K_OMEGA_L: CP(omega_l[a][b]); break;
          case K_LTAU: CP(ltau[a]); break;
          case K_LTAU_L: CP(ltau_l[a][b]); break;
          case K_AMPFAC: CP(ampfac[a]); break;
          case K_AMPFAC_L: CP(ampfac_l[a][b]); break;
          case K_PARAMS: CP(params[a]); break;
          case K_PARAMS_L: CP(params_l[a][b]); break;
          case K_FUNC: xh_func_alt[a] = 0; break;
          }
          return;
     }
     switch (s->kind) {
     case K_DOUB_D_TAU: in->doub_d_tau = 3.e-2; break;
     case K_PADE: in->pade_s = 3; in->pade_r = 2; break;
     case K_SOS: in->sos_max_os = 2; in->sos_max_tau = .04; in->sos_tol = 1.e-5; break;
     case K_FOURIER_TOL: in->fourier_tol = .3; break;
     case K_LAMBDA: in->lambda = 8.; break;
     case K_PLANET_R: in->planet_r = 600.; break;
     case K_LEVELS_Z: for (i = 0; i <= c->n_layers; ++i) in->levels_z[i] = 30. * (c->n_layers - i); break;
     case K_OUT_LEVELS:
          if (c->n_out_levels == 1) in->out_levels[0] = (c->options & XRTM_OPTION_BOTTOM_UP_ADDING) ? 0 : c->n_layers;
          else if (c->n_out_levels <= c->n_layers) for (i = 0; i < c->n_out_levels; ++i) in->out_levels[i] = i + 1;
          break;
     case K_OUT_TAUS: for (i = 0; i < c->n_out_levels; ++i) in->out_taus[i] = in->out_taus[i] * .7 + .04; break;
     case K_OUT_THETAS:
          if (alt == 2) { in->out_thetas[0] = 35.; break; }   /* equal to the default theta_0 */
          for (i = 0; i < c->n_out_thetas; ++i) in->out_thetas[i] = 57. - 20. * i; break;
     case K_F_ISO_TOP: in->F_iso_top = .3; break;
     case K_F_ISO_TOP_L: in->F_iso_top_l[b] = .5; break;
     case K_F_ISO_BOT: in->F_iso_bot = .2; break;
     case K_F_ISO_BOT_L: in->F_iso_bot_l[b] = .5; break;
     case K_F_0: in->F_0 = 2.5; break;
     case K_THETA_0: in->theta_0 = alt == 2 ? 0. : 12.; break;      /* 12: equal to the first output angle */
     case K_PHI_0: in->phi_0 = 130.; break;
     case K_LEVELS_B: for (i = 0; i <= c->n_layers; ++i) in->levels_b[i] = .7 - .05 * i; break;
     case K_LEVELS_B_L: for (i = 0; i <= c->n_layers; ++i) in->levels_b_l[b][i] = .1 * (i + 1); break;
     case K_SURFACE_B: in->surface_b = .1; break;
     case K_SURFACE_B_L: in->surface_b_l[b] = .9; break;
     case K_COEF:
          in->n_coef[a] = alt == 2 ? (c->n_coef > 3 ? 3 : c->n_coef) : c->n_coef;
          if (c->n_stokes == 1) { memset(in->coef[a], 0, sizeof(in->coef[a])); xh_hg(alt == 2 ? -.3 : .25, in->n_coef[a], in->coef[a][0]); }
          else xh_rayleigh_elems(c, .45, .35, in->n_coef[a], in->coef[a]);
          break;
     case K_COEF_L:
          if (alt == 2) memset(in->coef_l[a][b], 0, sizeof(in->coef_l[a][b]));
          else { memset(in->coef_l[a][b], 0, sizeof(in->coef_l[a][b])); for (k = 1; k < c->n_coef; ++k) in->coef_l[a][b][0][k] = .3 / k; }
          break;
     case K_OMEGA: in->omega[a] = alt == 2 ? 1. : .42; break;
     case K_OMEGA_L: in->omega_l[a][b] = alt == 2 ? 0. : .8; break;
     case K_LTAU: in->ltau[a] = .31; break;
     case K_LTAU_L: in->ltau_l[a][b] = alt == 2 ? 0. : .6; break;
     case K_AMPFAC: in->ampfac[a] = .1; break;
     case K_AMPFAC_L: in->ampfac_l[a][b] = .3; break;
     case K_PARAMS: for (k = 0; k < MX; ++k) in->params[a][k] = kparam[c->kernels[a]][k] * 1.15; break;
     case K_PARAMS_L: for (k = 0; k < MX; ++k) in->params_l[a][b][k] = kparam_l[c->kernels[a]][k]; break;
     case K_FUNC: xh_func_alt[a] = 1; break;
     }
}

int xh_create(const xh_cfg *c, xrtm_data *d) {
     enum xrtm_kernel_type k[MK];
     int i;
     for (i = 0; i < c->n_kernels; ++i) k[i] = (enum xrtm_kernel_type) c->kernels[i];
     if (c->misc) {
          misc_input_data m;
          xrtm_misc_input_init(&m);
          if (c->misc & XM_SYM) m.use_symmetric_form = 1;
          if (c->misc & XM_REBUILD) m.use_rebuild_stacks = 1;
          return xrtm_create_misc(d, c->options, c->solvers, c->n_coef, c->n_quad, c->n_stokes, c->n_derivs, c->n_layers, 1,
                                  c->n_kernels, c->n_kernel_quad, k, c->n_out_levels, c->n_out_thetas, &m);
     }
     return xrtm_create(d, c->options, c->solvers, c->n_coef, c->n_quad, c->n_stokes, c->n_derivs, c->n_layers, 1,
                        c->n_kernels, c->n_kernel_quad, k, c->n_out_levels, c->n_out_thetas);
}

static void coef_ptrs(const xh_in *in, int a, double **p) { int j; for (j = 0; j < 6; ++j) p[j] = (double *) in->coef[a][j]; }
static void coef_l_ptrs(const xh_in *in, int a, int b, double **p) { int j; for (j = 0; j < 6; ++j) p[j] = (double *) in->coef_l[a][b][j]; }

int xh_exact = 0;
static void *hx_list[4000]; static int hx_n = 0;
/* with xh_exact: array arguments are copies on the heap with exactly the documented length */
static void *hx(const void *p, long n, long size) {
     void *q;
     if (! xh_exact) return (void *) p;
     if (hx_n == 4000) { fprintf(stdout, "hx: too many\n"); exit(3); }
     q = malloc(n * size); memcpy(q, p, n * size);
     return hx_list[hx_n++] = q;
}
void xh_exact_free(void) { while (hx_n > 0) free(hx_list[--hx_n]); }
#define HD(p, n) ((double *) hx(p, n, sizeof(double)))
#define HP(p, n) hx(p, n, sizeof(void *))

#define NEL(c) ((c)->n_stokes == 1 ? 1 : 6)
int xh_set(const xh_cfg *c, xrtm_data *d, const xh_in *in, const xh_slot *s, int variant) {
     int i, j, a = s->a, b = s->b;
     double *p1[ML][MD][6], **p2[ML][MD], ***p3[ML];
     double *q1[ML][6], **q2[ML];
     double *r[MD], t[ML > MD ? ML : MD];
     xh_exact_free();
     switch (s->kind) {
     case K_DOUB_D_TAU: return xrtm_set_doub_d_tau(d, in->doub_d_tau);
     case K_PADE: return xrtm_set_pade_params(d, in->pade_s, in->pade_r);
     case K_SOS: return xrtm_set_sos_params(d, in->sos_max_os, in->sos_max_tau, in->sos_tol);
     case K_FOURIER_TOL: return xrtm_set_fourier_tol(d, in->fourier_tol);
     case K_LAMBDA: return xrtm_set_lambda(d, in->lambda);
     case K_PLANET_R: return xrtm_set_planet_r(d, in->planet_r);
     case K_LEVELS_Z: return xrtm_set_levels_z(d, HD(in->levels_z, c->n_layers + 1));
     case K_OUT_LEVELS: return xrtm_set_out_levels(d, (int *) hx(in->out_levels, c->n_out_levels, sizeof(int)));
     case K_OUT_TAUS: return xrtm_set_out_taus(d, HD(in->out_taus, c->n_out_levels));
     case K_OUT_THETAS: return xrtm_set_out_thetas(d, HD(in->out_thetas, c->n_out_thetas));
     case K_F_ISO_TOP: return xrtm_set_F_iso_top(d, in->F_iso_top);
     case K_F_ISO_TOP_L: return variant ? xrtm_set_F_iso_top_l_n(d, HD(in->F_iso_top_l, c->n_derivs)) : xrtm_set_F_iso_top_l_1(d, b, in->F_iso_top_l[b]);
     case K_F_ISO_BOT: return xrtm_set_F_iso_bot(d, in->F_iso_bot);
     case K_F_ISO_BOT_L: return variant ? xrtm_set_F_iso_bot_l_n(d, HD(in->F_iso_bot_l, c->n_derivs)) : xrtm_set_F_iso_bot_l_1(d, b, in->F_iso_bot_l[b]);
     case K_F_0: return xrtm_set_F_0(d, in->F_0);
     case K_THETA_0: return xrtm_set_theta_0(d, in->theta_0);
     case K_PHI_0: return xrtm_set_phi_0(d, in->phi_0);
     case K_LEVELS_B: return xrtm_set_levels_b(d, HD(in->levels_b, c->n_layers + 1));
     case K_LEVELS_B_L:
          if (! variant) return xrtm_set_levels_b_l_1(d, b, HD(in->levels_b_l[b], c->n_layers + 1));
          { double *p[ML+1], v[ML+1][MD];
            for (i = 0; i <= c->n_layers; ++i) { for (j = 0; j < c->n_derivs; ++j) v[i][j] = in->levels_b_l[j][i]; p[i] = HD(v[i], c->n_derivs); }
            return xrtm_set_levels_b_l_n(d, (double **) HP(p, c->n_layers + 1)); }
     case K_SURFACE_B: return xrtm_set_surface_b(d, in->surface_b);
     case K_SURFACE_B_L: return variant ? xrtm_set_surface_b_l_n(d, HD(in->surface_b_l, c->n_derivs)) : xrtm_set_surface_b_l_1(d, b, in->surface_b_l[b]);
     case K_COEF:
          for (i = 0; i < c->n_layers; ++i) { coef_ptrs(in, i, q1[i]); for (j = 0; j < NEL(c); ++j) q1[i][j] = HD(q1[i][j], in->n_coef[i]); q2[i] = HP(q1[i], NEL(c)); }
          return variant ? xrtm_set_coef_n(d, (int *) hx(in->n_coef, c->n_layers, sizeof(int)), HP(q2, c->n_layers)) : xrtm_set_coef_1(d, a, in->n_coef[a], q2[a]);
     case K_COEF_L:
          for (i = 0; i < c->n_layers; ++i) { for (j = 0; j < c->n_derivs; ++j) { int e; coef_l_ptrs(in, i, j, p1[i][j]); for (e = 0; e < NEL(c); ++e) p1[i][j][e] = HD(p1[i][j][e], in->n_coef[i]); p2[i][j] = HP(p1[i][j], NEL(c)); } p3[i] = HP(p2[i], c->n_derivs); }
          switch (variant) {
          case 0: return xrtm_set_coef_l_11(d, a, b, p2[a][b]);
          case 1: for (i = 0; i < c->n_layers; ++i) q2[i] = p2[i][b]; return xrtm_set_coef_l_n1(d, b, HP(q2, c->n_layers));
          case 2: return xrtm_set_coef_l_1n(d, a, p3[a]);
          default: return xrtm_set_coef_l_nn(d, HP(p3, c->n_layers));
          }
#define SCALAR(NAME, F)                                                                                                    \
     case 0: return xrtm_set_ ## NAME ## _l_11(d, a, b, in->F[a][b]);                                                      \
     case 1: for (i = 0; i < c->n_layers; ++i) t[i] = in->F[i][b]; return xrtm_set_ ## NAME ## _l_n1(d, b, HD(t, c->n_layers));              \
     case 2: return xrtm_set_ ## NAME ## _l_1n(d, a, HD(in->F[a], c->n_derivs));                                                  \
     default: { double *p[ML]; for (i = 0; i < c->n_layers; ++i) p[i] = HD(in->F[i], c->n_derivs); return xrtm_set_ ## NAME ## _l_nn(d, HP(p, c->n_layers)); }
     case K_OMEGA: return variant ? xrtm_set_omega_n(d, HD(in->omega, c->n_layers)) : xrtm_set_omega_1(d, a, in->omega[a]);
     case K_OMEGA_L: switch (variant) { SCALAR(omega, omega_l) }
     case K_LTAU: return variant ? xrtm_set_ltau_n(d, HD(in->ltau, c->n_layers)) : xrtm_set_ltau_1(d, a, in->ltau[a]);
     case K_LTAU_L: switch (variant) { SCALAR(ltau, ltau_l) }
     case K_AMPFAC: return xrtm_set_kernel_ampfac(d, a, in->ampfac[a]);
     case K_AMPFAC_L: return variant ? xrtm_set_kernel_ampfac_l_n(d, a, HD(in->ampfac_l[a], c->n_derivs)) : xrtm_set_kernel_ampfac_l_1(d, a, b, in->ampfac_l[a][b]);
     case K_PARAMS:
          if (variant) return xrtm_set_kernel_params_n(d, a, HD(in->params[a], kernel_n_params((enum xrtm_kernel_type) c->kernels[a])));
          for (i = 0; i < kernel_n_params((enum xrtm_kernel_type) c->kernels[a]); ++i) if ((j = xrtm_set_kernel_params_1(d, a, i, in->params[a][i]))) return j;
          return 0;
     case K_PARAMS_L:
          switch (variant) {
          case 0: for (i = 0; i < kernel_n_params((enum xrtm_kernel_type) c->kernels[a]); ++i) if ((j = xrtm_set_kernel_params_l_11(d, a, b, i, in->params_l[a][b][i]))) return j;
               return 0;
          case 1: return xrtm_set_kernel_params_l_1n(d, a, b, HD(in->params_l[a][b], kernel_n_params((enum xrtm_kernel_type) c->kernels[a])));
          case 2: for (i = 0; i < kernel_n_params((enum xrtm_kernel_type) c->kernels[a]); ++i) {
                    for (j = 0; j < c->n_derivs; ++j) t[j] = in->params_l[a][j][i];
                    if ((j = xrtm_set_kernel_params_l_n1(d, a, i, HD(t, c->n_derivs)))) return j; }
               return 0;
          default: for (i = 0; i < c->n_derivs; ++i) r[i] = HD(in->params_l[a][i], kernel_n_params((enum xrtm_kernel_type) c->kernels[a]));
               return xrtm_set_kernel_params_l_nn(d, a, HP(r, c->n_derivs));
          }
     case K_FUNC: return xrtm_set_kernel_func(d, a, kernel_aux_none, xh_func_alt[a] ? xh_kernel_2 : xh_kernel_1);
     }
     return -1;
}

int xh_set_all(const xh_cfg *c, xrtm_data *d, const xh_in *in) {
     xh_slot s[400];
     int i, r, n = xh_required_slots(c, s);
     n += xh_deriv_slots(c, s + n);
     for (i = 0; i < n; ++i) {
          if ((r = xh_set(c, d, in, &s[i], 0))) return r;
     }
     return 0;
}

int xh_update(const xh_cfg *c, xrtm_data *d) {
     if (c->options & XRTM_OPTION_CALC_DERIVS) return xrtm_update_varied_layers(d);
     return 0;
}

int xh_nth(const xh_cfg *c) { return c->n_out_thetas ? c->n_out_thetas : c->n_quad; }
#define NPH(c) ((c)->n_phis)
int xh_i_I(const xh_cfg *c, int pm, int lev, int th, int ph, int st) {
     return (((pm * c->n_out_levels + lev) * xh_nth(c) + th) * NPH(c) + ph) * c->n_stokes + st;
}
static int nI(const xh_cfg *c) { return 2 * c->n_out_levels * xh_nth(c) * NPH(c) * c->n_stokes; }
static int nD(const xh_cfg *c) { return c->options & XRTM_OPTION_CALC_DERIVS ? c->n_derivs : 0; }
int xh_i_Il(const xh_cfg *c, int pm, int lev, int der, int th, int ph, int st) {
     return nI(c) + ((((pm * c->n_out_levels + lev) * nD(c) + der) * xh_nth(c) + th) * NPH(c) + ph) * c->n_stokes + st;
}
static int offM(const xh_cfg *c) { return nI(c) * (1 + nD(c)); }
int xh_i_M(const xh_cfg *c, int which, int lev) { return offM(c) + which * c->n_out_levels + lev; }
int xh_i_Ml(const xh_cfg *c, int which, int lev, int der) { return offM(c) + 5 * c->n_out_levels + (which * c->n_out_levels + lev) * nD(c) + der; }

int xh_run(const xh_cfg *c, xrtm_data *d, const xh_in *in, int solver, int solutions, int how, xh_out *o) {
     int i, j, k, l, m, nt = xh_nth(c), nl = c->n_out_levels, nd = nD(c), np = NPH(c), ns = c->n_stokes, r = 0;
     double ****I[2] = {NULL, NULL}, *****Il[2] = {NULL, NULL};
     double *M[5], **Ml[5] = {NULL, NULL, NULL, NULL, NULL};
     double *ph[MT], phv[MT][MP];
     xh_exact_free();
     for (i = 0; i < nt; ++i) { int jp; for (jp = 0; jp < MP; ++jp) phv[i][jp] = in->phis[jp] + i * in->dphi; ph[i] = HD(phv[i], np); }
     for (i = 0; i < 2; ++i) {
          I[i] = (double ****) alloc_array4(nl, nt, np, ns, sizeof(double));
          if (nd) Il[i] = (double *****) alloc_array5(nl, nd, nt, np, ns, sizeof(double));
          for (j = 0; j < nl * nt * np * ns; ++j) I[i][0][0][0][j] = -999.;
          for (j = 0; nd && j < nl * nd * nt * np * ns; ++j) Il[i][0][0][0][0][j] = -999.;
     }
     for (i = 0; i < 5; ++i) {
          M[i] = (double *) alloc_array1(nl, sizeof(double));
          for (j = 0; j < nl; ++j) M[i][j] = -999.;
          if (nd) { Ml[i] = (double **) alloc_array2(nl, nd, sizeof(double)); for (j = 0; j < nl * nd; ++j) Ml[i][0][j] = -999.; }
     }
     if (how == 0)
          r = xrtm_solution(d, (enum xrtm_solver_mask) solver, solutions, np, ph, I[0], I[1], Il[0], Il[1], M[0], M[1], Ml[0], Ml[1], M[2], M[3], Ml[2], Ml[3], M[4], Ml[4]);
     else if (how == 2)
          r = xrtm_solution_2(d, (enum xrtm_solver_mask) solver, solutions, np, ph, I[0], I[1], Il[0], Il[1], M[0], M[1], Ml[0], Ml[1], M[2], M[3], Ml[2], Ml[3], M[4], Ml[4]);
     else {
          if (! r && solutions & XRTM_OUTPUT_RADIANCE) r = xrtm_radiance(d, (enum xrtm_solver_mask) solver, np, ph, I[0], I[1], Il[0], Il[1]);
          if (! r && solutions & XRTM_OUTPUT_RADIANCE_MEAN) r = xrtm_mean_radiance(d, (enum xrtm_solver_mask) solver, M[0], M[1], Ml[0], Ml[1]);
          if (! r && solutions & XRTM_OUTPUT_FLUX) r = xrtm_flux(d, (enum xrtm_solver_mask) solver, M[2], M[3], Ml[2], Ml[3]);
     }
     o->rc = r;
     o->n = offM(c) + 5 * nl * (1 + nd);
     if (o->n > XH_MAXOUT) { fprintf(stdout, "xh_run: too much output\n"); exit(3); }
     if (r) for (i = 0; i < o->n; ++i) o->v[i] = -999.;
     else {
          for (i = 0; i < 2; ++i) for (j = 0; j < nl; ++j) for (k = 0; k < nt; ++k) for (l = 0; l < np; ++l) for (m = 0; m < ns; ++m)
               o->v[xh_i_I(c, i, j, k, l, m)] = I[i][j][k][l][m];
          for (i = 0; i < 2; ++i) for (j = 0; j < nl; ++j) { int q; for (q = 0; q < nd; ++q) for (k = 0; k < nt; ++k) for (l = 0; l < np; ++l) for (m = 0; m < ns; ++m)
               o->v[xh_i_Il(c, i, j, q, k, l, m)] = Il[i][j][q][k][l][m]; }
          for (i = 0; i < 5; ++i) for (j = 0; j < nl; ++j) { o->v[xh_i_M(c, i, j)] = M[i][j]; for (k = 0; k < nd; ++k) o->v[xh_i_Ml(c, i, j, k)] = Ml[i][j][k]; }
     }
     for (i = 0; i < 2; ++i) { free_array4((void ****) I[i]); if (nd) free_array5((void *****) Il[i]); }
     for (i = 0; i < 5; ++i) { free_array1(M[i]); if (nd) free_array2((void **) Ml[i]); }
     return r;
}

int xh_fresh_run(const xh_cfg *c, const xh_in *in, int solver, int solutions, int how, xh_out *o) {
     xrtm_data d;
     int r;
     if (xh_create(c, &d) == XRTM_INT_ERROR) return o->rc = -10;
     if (xh_set_all(c, &d, in)) { xrtm_destroy(&d); return o->rc = -11; }
     if (xh_update(c, &d)) { xrtm_destroy(&d); return o->rc = -12; }
     r = xh_run(c, &d, in, solver, solutions, how, o);
     xrtm_destroy(&d);
     return r;
}

double xh_diff(const xh_out *a, const xh_out *b, int *at) {
     int i;
     double m = 0., s = 0., e;
     if (at) *at = -1;
     if ((a->rc != 0) != (b->rc != 0)) return 1.e30;
     if (a->rc) return 0.;
     if (a->n != b->n) return 1.e31;
     for (i = 0; i < a->n; ++i) if (fabs(b->v[i]) < 1.e30 && fabs(b->v[i]) > s && b->v[i] != -999.) s = fabs(b->v[i]);
     for (i = 0; i < a->n; ++i) {
          if (isnan(a->v[i]) && isnan(b->v[i])) continue;
          if (a->v[i] == b->v[i]) continue;
          e = fabs(a->v[i] - b->v[i]) / (1.e-3 * s + fabs(b->v[i]) + 1.e-30);
          if (isnan(e)) e = 1.e32;
          if (e > m) { m = e; if (at) *at = i; }
     }
     return m;
}

const char *xh_solver_name(int s) { return xrtm_solver_mask_to_name((enum xrtm_solver_mask) s); }

void xh_cfg_str(const xh_cfg *c, char *b) {
     int i;
     b += sprintf(b, "%s{o=0x%x,s=0x%x,coef=%d,quad=%d,stokes=%d,derivs=%d,layers=%d,kernels=", c->name ? c->name : "", c->options, c->solvers, c->n_coef, c->n_quad, c->n_stokes, c->n_derivs, c->n_layers);
     for (i = 0; i < c->n_kernels; ++i) b += sprintf(b, "%d.", c->kernels[i]);
     sprintf(b, ",kq=%d,lev=%d,th=%d,phi=%d}", c->n_kernel_quad, c->n_out_levels, c->n_out_thetas, c->n_phis);
}
