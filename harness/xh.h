/* Harness library: configurations, input values, instances, results. */
#ifndef XH_H
#define XH_H

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <gutil.h>
#include "xrtm_interface.h"

#define ML 8     /* layers  */
#define MD 4     /* derivs  */
#define MC 20    /* coefs   */
#define MT 6     /* out thetas / quad points */
#ifndef MP
#define MP 3     /* phis    */
#endif
#define MO 9     /* out levels */
#define MK 3     /* kernels */
#define MS 4     /* stokes  */
#define MX 4     /* kernel params */

typedef struct {
     const char *name;
     int options;
     int solvers;
     int n_coef, n_quad, n_stokes, n_derivs, n_layers;
     int n_kernels;
     int n_kernel_quad;
     int kernels[MK];
     int n_out_levels, n_out_thetas, n_phis;
     int misc;     /* XM_* internal choices */
} xh_cfg;
#define XM_SYM 1
#define XM_REBUILD 4

typedef struct {
     double doub_d_tau;
     int pade_s, pade_r;
     int sos_max_os; double sos_max_tau, sos_tol;
     double fourier_tol, lambda, planet_r;
     double levels_z[ML+1];
     int out_levels[MO];
     double out_taus[MO];
     double out_thetas[MT];
     double F_iso_top, F_iso_top_l[MD], F_iso_bot, F_iso_bot_l[MD];
     double F_0, theta_0, phi_0;
     double levels_b[ML+1], levels_b_l[MD][ML+1];
     double surface_b, surface_b_l[MD];
     int n_coef[ML];
     double coef[ML][6][MC], coef_l[ML][MD][6][MC];
     double omega[ML], omega_l[ML][MD];
     double ltau[ML], ltau_l[ML][MD];
     double ampfac[MK], ampfac_l[MK][MD];
     double params[MK][MX], params_l[MK][MD][MX];
     double phis[MP];
     double dphi;     /* added to the azimuths once for each viewing angle */
} xh_in;

/* kinds of inputs */
enum { K_DOUB_D_TAU, K_PADE, K_SOS, K_FOURIER_TOL, K_LAMBDA, K_PLANET_R, K_LEVELS_Z, K_OUT_LEVELS, K_OUT_TAUS,
       K_OUT_THETAS, K_F_ISO_TOP, K_F_ISO_TOP_L, K_F_ISO_BOT, K_F_ISO_BOT_L, K_F_0, K_THETA_0, K_PHI_0,
       K_LEVELS_B, K_LEVELS_B_L, K_SURFACE_B, K_SURFACE_B_L, K_COEF, K_COEF_L, K_OMEGA, K_OMEGA_L, K_LTAU, K_LTAU_L,
       K_AMPFAC, K_AMPFAC_L, K_PARAMS, K_PARAMS_L, K_FUNC, N_KINDS };

typedef struct { int kind, a, b; } xh_slot;   /* a: layer or kernel, b: deriv */

const char *xh_kind_name(int kind);
int  xh_slot_name(const xh_slot *s, char *buf);
/* the inputs that an instance of this configuration must have before it can be run, then optional ones */
int  xh_required_slots(const xh_cfg *c, xh_slot *s);
int  xh_deriv_slots(const xh_cfg *c, xh_slot *s);

void xh_default_in(const xh_cfg *c, xh_in *in);
/* gives slot s of `in' its alternative value number alt (0 = the default one) */
void xh_alt(const xh_cfg *c, xh_in *in, const xh_slot *s, int alt);
void xh_hg(double g, int n, double *coef);
void xh_rayleigh_elems(const xh_cfg *c, double w, double g, int n, double coef[6][MC]);

int  xh_create(const xh_cfg *c, xrtm_data *d);
/* set one slot through the single-element setter (variant 0) or the array forms (1..) */
int  xh_set(const xh_cfg *c, xrtm_data *d, const xh_in *in, const xh_slot *s, int variant);
int  xh_set_all(const xh_cfg *c, xrtm_data *d, const xh_in *in);
int  xh_update(const xh_cfg *c, xrtm_data *d);

#define XH_MAXOUT 60000
typedef struct { int rc, n; double v[XH_MAXOUT]; } xh_out;

/* solutions: mask of XRTM_OUTPUT_*; how 0: xrtm_solution, 1: the separate functions */
int  xh_run(const xh_cfg *c, xrtm_data *d, const xh_in *in, int solver, int solutions, int how, xh_out *o);
int  xh_fresh_run(const xh_cfg *c, const xh_in *in, int solver, int solutions, int how, xh_out *o);
/* layout of xh_out */
int  xh_nth(const xh_cfg *c);      /* output angles */
int  xh_i_I(const xh_cfg *c, int pm, int lev, int th, int ph, int st);
int  xh_i_Il(const xh_cfg *c, int pm, int lev, int der, int th, int ph, int st);
int  xh_i_M(const xh_cfg *c, int which, int lev);            /* 0 mean_p 1 mean_m 2 flux_p 3 flux_m 4 flux_div */
int  xh_i_Ml(const xh_cfg *c, int which, int lev, int der);
/* largest |a-b| / (scale) ; returns index in *at */
double xh_diff(const xh_out *a, const xh_out *b, int *at);
const char *xh_solver_name(int solver);
void xh_cfg_str(const xh_cfg *c, char *buf);
int  xh_full_valid(const xh_cfg *c);
void xh_quiet(void);
void xh_loud(void);

#define SALL (XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX | XRTM_OUTPUT_FLUX_DIVERGENCE)

extern int xh_exact;     /* array arguments are passed as heap copies of exactly the documented length */
void xh_exact_free(void);

/* user defined kernels */
double xh_kernel_1(brdf_aux_data *aux, void *aux2, enum xrtm_brdf_geometry g, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, double *f_l);
double xh_kernel_2(brdf_aux_data *aux, void *aux2, enum xrtm_brdf_geometry g, int i, int j, int k, double phi, int n_derivs, uchar *derivs, double *p, double **p_l, double *f_l);
extern __thread int xh_func_alt[MK];
#endif
