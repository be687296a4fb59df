/* The inputs of an instance: every call that sets one, the model of them, and what the getters show. */
#include "cfgs.h"
#include "mc.h"
#include <malloc.h>
static const xh_cfg more_cfgs[] = {
{ "s-nn",    KD|LV|SO|TH,                           S(EIG_ADD)|S(PADE_ADD)|S(DOUB_ADD), 5, 2, 1, 3, 2, 2, 4, {K_RPV, K_LAMB},   2, 2, 1 },
{ "s-vec",   KD|LV|SO|O(VECTOR),                    S(EIG_BVP),               4, 2, 3, 2, 3, 0, 0, {0},              3, 1, 1 },
{ "s-taus",  KD|O(OUTPUT_AT_TAUS)|SO|TH|O(SFI),     S(EIG_BVP),               5, 2, 1, 2, 3, 1, 4, {K_RPV},          4, 3, 1 },
{ "s-psa",   KD|LV|SO|O(PSA),                       S(EIG_BVP),               5, 2, 1, 1, 3, 1, 4, {K_LAMB},         4, 1, 1 },
{ "s-kern",  KD|LV|SO,                              S(EIG_ADD)|S(SINGLE),     5, 2, 1, 2, 1, 3, 4, {XRTM_KERNEL_USER_DEFINED, K_RPV, XRTM_KERNEL_LI_SPARSE}, 2, 1, 1 },
{ "s-th",    LV|TH,                                 S(EIG_BVP),               5, 2, 1, 0, 3, 0, 0, {0},              4, 0, 1 },
};
#define NMORE ((int) (sizeof(more_cfgs) / sizeof(more_cfgs[0])))
#define NC (N_CFGS + NMORE)
static const xh_cfg *cfg_i(int i) { return i < N_CFGS ? &all_cfgs[i] : &more_cfgs[i - N_CFGS]; }
static const xh_cfg *C;
static int solv[12], n_solv;
#define NPAR(k) kernel_n_params((enum xrtm_kernel_type) C->kernels[k])
#define HAS(o) (C->options & XRTM_OPTION_ ## o)
#define ND (HAS(CALC_DERIVS) ? C->n_derivs : 0)
#define NEL (C->n_stokes == 1 ? 1 : 6)

/* ---- the model ---- */
typedef struct { xh_in in; uchar set[N_KINDS][ML][MX]; } model;
static double fr(int kind, int a, int b, int c, int v) { int x = (kind * 131 + a * 37 + b * 17 + c * 7 + v * 53 + 11) % 211; return (x + .5) / 211.; }
/* every value of `in' becomes valid value number v, distinct at each index */
static int alt_levels;     /* are there other levels this instance takes? */
static void fill(xh_in *in, int v) {
     int i, j, k, l; xh_in def;
     xh_slot s = {K_OUT_LEVELS, 0, 0};
     xh_default_in(C, &def);
     *in = def;
     in->doub_d_tau = .001 + .1 * fr(K_DOUB_D_TAU, 0, 0, 0, v);
     in->pade_s = 2 + v; in->pade_r = 1 + v;
     in->sos_max_os = 7 + v; in->sos_max_tau = .01 * (v + 2); in->sos_tol = .001 * (v + 1);
     in->fourier_tol = fr(K_FOURIER_TOL, 0, 0, 0, v);
     in->lambda = 5. + v; in->planet_r = 6000. + v;
     for (i = 0; i <= C->n_layers; ++i) in->levels_z[i] = (100. - 20. * i) + fr(K_LEVELS_Z, i, 0, 0, v);
     if (v % 2 && alt_levels) xh_alt(C, in, &s, 1);
     for (i = 0; i < C->n_out_levels; ++i) in->out_taus[i] = .1 * i + .05 * fr(K_OUT_TAUS, i, 0, 0, v);
     for (i = 0; i < C->n_out_thetas; ++i) in->out_thetas[i] = 80. * fr(K_OUT_THETAS, i, 0, 0, v);
     in->F_iso_top = fr(K_F_ISO_TOP, 0, 0, 0, v); in->F_iso_bot = fr(K_F_ISO_BOT, 0, 0, 0, v);
     in->F_0 = 1. + v; in->theta_0 = 10. + 21. * v; in->phi_0 = 20. * v + 1.;
     in->surface_b = fr(K_SURFACE_B, 0, 0, 0, v);
     for (i = 0; i <= C->n_layers; ++i) in->levels_b[i] = fr(K_LEVELS_B, i, 0, 0, v);
     for (j = 0; j < ND; ++j) {
          in->F_iso_top_l[j] = fr(K_F_ISO_TOP_L, j, 0, 0, v); in->F_iso_bot_l[j] = fr(K_F_ISO_BOT_L, j, 0, 0, v);
          in->surface_b_l[j] = fr(K_SURFACE_B_L, j, 0, 0, v);
          for (i = 0; i <= C->n_layers; ++i) in->levels_b_l[j][i] = fr(K_LEVELS_B_L, i, j, 0, v);
     }
     for (i = 0; i < C->n_layers; ++i) {
          in->n_coef[i] = v == 1 ? C->n_coef : C->n_coef - 1;
          in->omega[i] = .1 + .8 * fr(K_OMEGA, i, 0, 0, v);
          in->ltau[i] = .2 + fr(K_LTAU, i, 0, 0, v);
          memset(in->coef[i], 0, sizeof(in->coef[i]));
          for (k = 0; k < NEL; ++k) for (l = 0; l < C->n_coef; ++l) in->coef[i][k][l] = (k == 0 && l == 0) ? 1. : .2 * fr(K_COEF, i, k, l, v);
          for (j = 0; j < ND; ++j) {
               in->omega_l[i][j] = fr(K_OMEGA_L, i, j, 0, v); in->ltau_l[i][j] = fr(K_LTAU_L, i, j, 0, v);
               for (k = 0; k < NEL; ++k) for (l = 0; l < C->n_coef; ++l) in->coef_l[i][j][k][l] = (k == 0 && l == 0) ? 0. : .2 * fr(K_COEF_L, i * 8 + k, j, l, v);
          }
     }
     for (i = 0; i < C->n_kernels; ++i) {
          in->ampfac[i] = .3 * fr(K_AMPFAC, i, 0, 0, v);
          for (j = 0; j < ND; ++j) in->ampfac_l[i][j] = fr(K_AMPFAC_L, i, j, 0, v);
          for (k = 0; k < MX; ++k) {
               in->params[i][k] = def.params[i][k] * (1. + .01 * v + .001 * k);
               for (j = 0; j < ND; ++j) in->params_l[i][j][k] = fr(K_PARAMS_L, i, j, k, v);
          }
     }
}
static void model_init(model *m) {
     int i;
     memset(m, 0, sizeof(*m));
     for (i = 0; i < C->n_layers; ++i) m->in.n_coef[i] = C->n_coef;
}
typedef struct { int kind, var, a, b, p, v; } op;
static op ops[800];
static int n_ops;
static void addop(int kind, int var, int a, int b, int p) {
     int v;
     for (v = 1; v <= 2; ++v) { op *o = &ops[n_ops++]; if (n_ops > 790) exit(3); o->kind = kind; o->var = var; o->a = a; o->b = b; o->p = p; o->v = v; }
}
static void build_ops(void) {
     int i, j, k;
     n_ops = 0;
     if (C->solvers & XRTM_SOLVER_DOUB_ADD) addop(K_DOUB_D_TAU, 0, 0, 0, 0);
     if (C->solvers & XRTM_SOLVER_PADE_ADD) addop(K_PADE, 0, 0, 0, 0);
     if (C->solvers & XRTM_SOLVER_SOS) addop(K_SOS, 0, 0, 0, 0);
     addop(K_FOURIER_TOL, 0, 0, 0, 0);
     if (HAS(PSA)) { addop(K_PLANET_R, 0, 0, 0, 0); addop(K_LEVELS_Z, 0, 0, 0, 0); }
     addop(HAS(OUTPUT_AT_LEVELS) ? K_OUT_LEVELS : K_OUT_TAUS, 0, 0, 0, 0);
     if (C->n_out_thetas) addop(K_OUT_THETAS, 0, 0, 0, 0);
     addop(K_F_ISO_TOP, 0, 0, 0, 0); addop(K_F_ISO_BOT, 0, 0, 0, 0);
     if (HAS(SOURCE_SOLAR)) { addop(K_F_0, 0, 0, 0, 0); addop(K_THETA_0, 0, 0, 0, 0); addop(K_PHI_0, 0, 0, 0, 0); }
     if (HAS(SOURCE_THERMAL)) { addop(K_LEVELS_B, 0, 0, 0, 0); addop(K_SURFACE_B, 0, 0, 0, 0); addop(K_LAMBDA, 0, 0, 0, 0); }
     addop(K_COEF, 1, 0, 0, 0); addop(K_OMEGA, 1, 0, 0, 0); addop(K_LTAU, 1, 0, 0, 0);
     for (i = 0; i < C->n_layers; ++i) { addop(K_COEF, 0, i, 0, 0); addop(K_OMEGA, 0, i, 0, 0); addop(K_LTAU, 0, i, 0, 0); }
     for (i = 0; i < C->n_kernels; ++i) {
          addop(K_AMPFAC, 0, i, 0, 0);
          if (NPAR(i)) addop(K_PARAMS, 1, i, 0, 0);
          for (k = 0; k < NPAR(i); ++k) addop(K_PARAMS, 0, i, 0, k);
     }
     if (! ND) return;
     addop(K_F_ISO_TOP_L, 1, 0, 0, 0); addop(K_F_ISO_BOT_L, 1, 0, 0, 0);
     if (HAS(SOURCE_THERMAL)) { addop(K_LEVELS_B_L, 1, 0, 0, 0); addop(K_SURFACE_B_L, 1, 0, 0, 0); }
     for (k = K_COEF_L; k <= K_LTAU_L; k += 2) {
          addop(k, 3, 0, 0, 0);
          for (i = 0; i < C->n_layers; ++i) addop(k, 2, i, 0, 0);
          for (j = 0; j < ND; ++j) addop(k, 1, 0, j, 0);
          for (i = 0; i < C->n_layers; ++i) for (j = 0; j < ND; ++j) addop(k, 0, i, j, 0);
     }
     for (j = 0; j < ND; ++j) {
          addop(K_F_ISO_TOP_L, 0, 0, j, 0); addop(K_F_ISO_BOT_L, 0, 0, j, 0);
          if (HAS(SOURCE_THERMAL)) { addop(K_LEVELS_B_L, 0, 0, j, 0); addop(K_SURFACE_B_L, 0, 0, j, 0); }
          for (i = 0; i < C->n_kernels; ++i) {
               addop(K_AMPFAC_L, 0, i, j, 0);
               if (NPAR(i)) addop(K_PARAMS_L, 1, i, j, 0);
               for (k = 0; k < NPAR(i); ++k) addop(K_PARAMS_L, 0, i, j, k);
          }
     }
     for (i = 0; i < C->n_kernels; ++i) {
          addop(K_AMPFAC_L, 1, i, 0, 0);
          if (NPAR(i)) addop(K_PARAMS_L, 3, i, 0, 0);
          for (k = 0; k < NPAR(i); ++k) addop(K_PARAMS_L, 2, i, 0, k);
     }
}
static void opname(const op *o, char *b) { sprintf(b, "%s.form%d(%d,%d,%d)=%d", xh_kind_name(o->kind), o->var, o->a, o->b, o->p, o->v); }
/* the call itself, with every value of t at hand: those not addressed by the call must not be taken */
static int do_op(xrtm_data *d, const op *o, const xh_in *t) {
     xh_slot s; int j; double q[MD];
     if (o->kind == K_PARAMS && ! o->var) return xrtm_set_kernel_params_1(d, o->a, o->p, t->params[o->a][o->p]);
     if (o->kind == K_PARAMS_L && ! o->var) return xrtm_set_kernel_params_l_11(d, o->a, o->b, o->p, t->params_l[o->a][o->b][o->p]);
     if (o->kind == K_PARAMS_L && o->var == 2) { for (j = 0; j < ND; ++j) q[j] = t->params_l[o->a][j][o->p]; return xrtm_set_kernel_params_l_n1(d, o->a, o->p, q); }
     if (o->kind == K_LAMBDA) return xrtm_set_lambda(d, t->lambda);
     s.kind = o->kind; s.a = o->a; s.b = o->b;
     return xh_set(C, d, t, &s, o->var);
}
static void model_op(model *m, const op *o, const xh_in *t) {
     int i, j, k, l, a0 = o->a, a1 = o->a + 1, b0 = o->b, b1 = o->b + 1, p0 = o->p, p1 = o->p + 1;
     xh_in *in = &m->in;
#define CPV(F) in->F = t->F
#define CPA(F) memcpy(in->F, t->F, sizeof(in->F))
     switch (o->kind) {
     case K_DOUB_D_TAU: CPV(doub_d_tau); break;
     case K_PADE: CPV(pade_s); CPV(pade_r); break;
     case K_SOS: CPV(sos_max_os); CPV(sos_max_tau); CPV(sos_tol); break;
     case K_FOURIER_TOL: CPV(fourier_tol); break;
     case K_LAMBDA: CPV(lambda); break;
     case K_PLANET_R: CPV(planet_r); break;
     case K_LEVELS_Z: CPA(levels_z); break;
     case K_OUT_LEVELS: CPA(out_levels); break;
     case K_OUT_TAUS: CPA(out_taus); break;
     case K_OUT_THETAS: CPA(out_thetas); break;
     case K_F_ISO_TOP: CPV(F_iso_top); break;
     case K_F_ISO_BOT: CPV(F_iso_bot); break;
     case K_F_0: CPV(F_0); break;
     case K_THETA_0: CPV(theta_0); break;
     case K_PHI_0: CPV(phi_0); break;
     case K_LEVELS_B: CPA(levels_b); break;
     case K_SURFACE_B: CPV(surface_b); break;
     }
     switch (o->kind) {
     case K_COEF: case K_OMEGA: case K_LTAU: if (o->var) { a0 = 0; a1 = C->n_layers; } break;
     case K_COEF_L: case K_OMEGA_L: case K_LTAU_L: if (o->var & 1) { a0 = 0; a1 = C->n_layers; } if (o->var & 2) { b0 = 0; b1 = ND; } break;
     case K_PARAMS: if (o->var) { p0 = 0; p1 = NPAR(o->a); } break;
     case K_PARAMS_L: if (o->var & 1) { p0 = 0; p1 = NPAR(o->a); } if (o->var & 2) { b0 = 0; b1 = ND; } break;
     default: if (o->var) { b0 = 0; b1 = ND; }
     }
     for (i = a0; i < a1; ++i) for (k = p0; k < p1; ++k) m->set[o->kind][i][o->kind == K_PARAMS ? k : 0] = 1;
     for (i = a0; i < a1; ++i) switch (o->kind) {
     case K_COEF: CPV(n_coef[i]); for (k = 0; k < NEL; ++k) for (l = 0; l < in->n_coef[i]; ++l) CPV(coef[i][k][l]); break;
     case K_OMEGA: CPV(omega[i]); break;
     case K_LTAU: CPV(ltau[i]); break;
     case K_AMPFAC: CPV(ampfac[i]); break;
     case K_PARAMS: for (k = p0; k < p1; ++k) CPV(params[i][k]); break;
     }
     for (j = b0; j < b1; ++j) for (i = a0; i < a1; ++i) switch (o->kind) {
     case K_F_ISO_TOP_L: CPV(F_iso_top_l[j]); break;
     case K_F_ISO_BOT_L: CPV(F_iso_bot_l[j]); break;
     case K_SURFACE_B_L: CPV(surface_b_l[j]); break;
     case K_LEVELS_B_L: CPA(levels_b_l[j]); break;
     case K_OMEGA_L: CPV(omega_l[i][j]); break;
     case K_LTAU_L: CPV(ltau_l[i][j]); break;
     case K_COEF_L: for (k = 0; k < NEL; ++k) for (l = 0; l < in->n_coef[i]; ++l) CPV(coef_l[i][j][k][l]); break;
     case K_AMPFAC_L: CPV(ampfac_l[i][j]); break;
     case K_PARAMS_L: for (k = p0; k < p1; ++k) CPV(params_l[i][j][k]); break;
     }
}
/* ---- what the getters show ---- */
#define MSNAP 4000
typedef struct { int n; double v[MSNAP]; const char *nm[MSNAP]; } snap;
static void put(snap *s, const char *nm, double v) { if (s->n >= MSNAP) exit(3); s->nm[s->n] = nm; s->v[s->n++] = v; }
#define IERR ((double) (XRTM_INT_ERROR))
#define DERR (XRTM_DBL_ERROR)
/* m == NULL: what the instance says; else what the model expects */
static void take(xrtm_data *d, const model *m, snap *s) {
     int i, j, k, l, r, i1, i2, tmp[MO]; double x, y, t[ML + MO + MT];
     const xh_in *in = m ? &m->in : NULL;
     s->n = 0;
#define FLAG(K, A, P) (m->set[K][A][P])
#define D1(NM, GET, K, A, P, VAL) put(s, NM, m ? (FLAG(K, A, P) ? (double) (VAL) : DERR) : (double) (GET))
#define ARR(NM, GET, TYPE, K, N, VAL) do {                                                                  \
          if (m) { put(s, NM, FLAG(K, 0, 0) ? 0. : IERR); for (i = 0; i < (N); ++i) put(s, NM, FLAG(K, 0, 0) ? (double) (VAL)[i] : -77.); } \
          else { for (i = 0; i < (N); ++i) TYPE[i] = -77; r = GET; put(s, NM, r); for (i = 0; i < (N); ++i) put(s, NM, TYPE[i]); } } while (0)
     put(s, "options", m ? C->options & XRTM_OPTION_CALC_DERIVS : xrtm_get_options(d) & XRTM_OPTION_CALC_DERIVS);
     put(s, "max_coef", m ? C->n_coef : xrtm_get_max_coef(d));
     put(s, "n_quad", m ? C->n_quad : xrtm_get_n_quad(d));
     put(s, "n_stokes", m ? C->n_stokes : xrtm_get_n_stokes(d));
     put(s, "n_derivs", m ? ND : xrtm_get_n_derivs(d));
     put(s, "n_layers", m ? C->n_layers : xrtm_get_n_layers(d));
     put(s, "n_kernels", m ? C->n_kernels : xrtm_get_n_kernels(d));
     for (i = 0; i < C->n_kernels; ++i) put(s, "kernel", m ? C->kernels[i] : (double) (int) xrtm_get_kernel(d, i));
     put(s, "n_out_levels", m ? C->n_out_levels : xrtm_get_n_out_levels(d));
     put(s, "n_out_thetas", m ? C->n_out_thetas : xrtm_get_n_out_thetas(d));
     if (C->solvers & XRTM_SOLVER_DOUB_ADD) D1("doub_d_tau", xrtm_get_doub_d_tau(d), K_DOUB_D_TAU, 0, 0, in->doub_d_tau);
     if (C->solvers & XRTM_SOLVER_PADE_ADD) {
          i1 = i2 = -77; if (! m) r = xrtm_get_pade_params(d, &i1, &i2); else if (FLAG(K_PADE, 0, 0)) { r = 0; i1 = in->pade_s; i2 = in->pade_r; } else r = XRTM_INT_ERROR;
          put(s, "pade_params", r); put(s, "pade_params", i1); put(s, "pade_params", i2);
     }
     if (C->solvers & XRTM_SOLVER_SOS) {
          i1 = -77; x = y = -77; if (! m) r = xrtm_get_sos_params(d, &i1, &x, &y); else if (FLAG(K_SOS, 0, 0)) { r = 0; i1 = in->sos_max_os; x = in->sos_max_tau; y = in->sos_tol; } else r = XRTM_INT_ERROR;
          put(s, "sos_params", r); put(s, "sos_params", i1); put(s, "sos_params", x); put(s, "sos_params", y);
     }
     D1("fourier_tol", xrtm_get_fourier_tol(d), K_FOURIER_TOL, 0, 0, in->fourier_tol);
     if (HAS(PSA)) {
          D1("planet_r", xrtm_get_planet_r(d), K_PLANET_R, 0, 0, in->planet_r);
          ARR("levels_z", xrtm_get_levels_z(d, t), t, K_LEVELS_Z, C->n_layers + 1, in->levels_z);
     }
     if (HAS(OUTPUT_AT_LEVELS)) ARR("out_levels", xrtm_get_out_levels(d, tmp), tmp, K_OUT_LEVELS, C->n_out_levels, in->out_levels);
     else                       ARR("out_taus", xrtm_get_out_taus(d, t), t, K_OUT_TAUS, C->n_out_levels, in->out_taus);
     if (C->n_out_thetas) ARR("out_thetas", xrtm_get_out_thetas(d, t), t, K_OUT_THETAS, C->n_out_thetas, in->out_thetas);
     D1("F_iso_top", xrtm_get_F_iso_top(d), K_F_ISO_TOP, 0, 0, in->F_iso_top);
     D1("F_iso_bot", xrtm_get_F_iso_bot(d), K_F_ISO_BOT, 0, 0, in->F_iso_bot);
     if (HAS(SOURCE_SOLAR)) {
          D1("F_0", xrtm_get_F_0(d), K_F_0, 0, 0, in->F_0);
          D1("theta_0", xrtm_get_theta_0(d), K_THETA_0, 0, 0, in->theta_0);
          D1("phi_0", xrtm_get_phi_0(d), K_PHI_0, 0, 0, in->phi_0);
     }
     if (HAS(SOURCE_THERMAL)) {
          D1("lambda", xrtm_get_lambda(d), K_LAMBDA, 0, 0, in->lambda);
          ARR("levels_b", xrtm_get_levels_b(d, t), t, K_LEVELS_B, C->n_layers + 1, in->levels_b);
          D1("surface_b", xrtm_get_surface_b(d), K_SURFACE_B, 0, 0, in->surface_b);
     }
     for (i = 0; i < C->n_layers; ++i) {
          put(s, "n_coef", m ? (FLAG(K_COEF, i, 0) ? in->n_coef[i] : IERR) : xrtm_get_n_coef(d, i));
          for (k = 0; k < NEL; ++k) for (l = 0; l < C->n_coef; ++l)
               put(s, "coef", m ? (FLAG(K_COEF, i, 0) && l < in->n_coef[i] ? in->coef[i][k][l] : DERR) : xrtm_get_coef(d, i, k, l));
          D1("omega", xrtm_get_omega(d, i), K_OMEGA, i, 0, in->omega[i]);
          D1("ltau", xrtm_get_ltau(d, i), K_LTAU, i, 0, in->ltau[i]);
     }
     for (i = 0; i < C->n_kernels; ++i) {
          D1("kernel_ampfac", xrtm_get_kernel_ampfac(d, i), K_AMPFAC, i, 0, in->ampfac[i]);
          for (k = 0; k < NPAR(i); ++k) D1("kernel_params", xrtm_get_kernel_params(d, i, k), K_PARAMS, i, k, in->params[i][k]);
     }
     for (j = 0; j < ND; ++j) {
          put(s, "F_iso_top_l", m ? in->F_iso_top_l[j] : xrtm_get_F_iso_top_l(d, j));
          put(s, "F_iso_bot_l", m ? in->F_iso_bot_l[j] : xrtm_get_F_iso_bot_l(d, j));
          if (HAS(SOURCE_THERMAL)) {
               if (! m) xrtm_get_levels_b_l(d, j, t);
               for (i = 0; i <= C->n_layers; ++i) put(s, "levels_b_l", m ? in->levels_b_l[j][i] : t[i]);
               put(s, "surface_b_l", m ? in->surface_b_l[j] : xrtm_get_surface_b_l(d, j));
          }
          for (i = 0; i < C->n_layers; ++i) {
               put(s, "omega_l", m ? in->omega_l[i][j] : xrtm_get_omega_l(d, i, j));
               put(s, "ltau_l", m ? in->ltau_l[i][j] : xrtm_get_ltau_l(d, i, j));
               for (k = 0; k < NEL; ++k) for (l = 0; l < C->n_coef; ++l)
                    put(s, "coef_l", m ? (l < in->n_coef[i] ? in->coef_l[i][j][k][l] : DERR) : xrtm_get_coef_l(d, i, j, k, l));
          }
          for (i = 0; i < C->n_kernels; ++i) {
               put(s, "kernel_ampfac_l", m ? in->ampfac_l[i][j] : xrtm_get_kernel_ampfac_l(d, i, j));
               for (k = 0; k < NPAR(i); ++k) put(s, "kernel_params_l", m ? in->params_l[i][j][k] : xrtm_get_kernel_params_l(d, i, j, k));
          }
     }
}
/* index of the first difference or -1 */
static int cmp(const snap *a, const snap *b, double tol) {
     int i;
     if (a->n != b->n) return 0;
     for (i = 0; i < a->n; ++i) if (! (a->v[i] == b->v[i]) && ! (fabs(a->v[i] - b->v[i]) <= tol * fabs(b->v[i]))) return i;
     return -1;
}
static void use_cfg(int i) {
     int j; xrtm_data d; xh_in in; xh_slot s = {K_OUT_LEVELS, 0, 0};
     if (C == cfg_i(i)) return;
     C = cfg_i(i);
     xh_default_in(C, &in);
     alt_levels = 0;
     if (HAS(OUTPUT_AT_LEVELS) && xh_create(C, &d) == 0) { xh_alt(C, &in, &s, 1); alt_levels = ! xh_set(C, &d, &in, &s, 0); xrtm_destroy(&d); }
     build_ops();
     for (j = n_solv = 0; j < N_XRTM_SOLVERS; ++j) if (C->solvers & (1 << j)) solv[n_solv++] = 1 << j;
}
static int sols(void) { return (C->solvers & (S(SINGLE)|S(TWO_OS))) ? XRTM_OUTPUT_RADIANCE : (XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX); }
static void kfuncs(xrtm_data *d) { xh_slot s; xh_in in; int i; s.kind = K_FUNC; s.b = 0; memset(&in, 0, sizeof(in)); for (i = 0; i < C->n_kernels; ++i) if (C->kernels[i] == XRTM_KERNEL_USER_DEFINED) { s.a = i; xh_set(C, d, &in, &s, 0); } }
/* an instance in one of the starting states */
static int start(xrtm_data *d, model *m, int st) {
     xh_in t; int i; static xh_out o;
     if (xh_create(C, d) == XRTM_INT_ERROR) return -1;
     model_init(m);
     if (! st) return 0;
     fill(&t, 0);
     { int j; for (j = 0; j < 3; ++j) t.n_coef[j] = C->n_coef; }
     if (st == 2) { xh_default_in(C, &t); }
     kfuncs(d);
     for (i = 0; i < n_ops; ++i) {
          if (ops[i].v != 1) continue;
          if (ops[i].kind == K_COEF && ops[i].var) continue;
          if (do_op(d, &ops[i], &t)) return -1;
          model_op(m, &ops[i], &t);
     }
     if (st == 2) { if (xh_update(C, d)) return -1; if (xh_run(C, d, &t, solv[0], sols(), 0, &o)) return -1; }
     return 0;
}
static void report(const char *what, const char *seq, const snap *a, const snap *b, int i) {
     char sig[400];
     snprintf(sig, 239, "%s|%s|%s|%s", C->name, what, seq, a->nm[i]);
     mc_viol(sig, "getter of %s (entry %d) returns %.17g, should be %.17g", a->nm[i], i, a->v[i], b->v[i]);
}
