/* C29: the finite difference interface. */
#include "scen.h"
#include "mc.h"
#include "xrtm_fd_interface.h"
#include "xrtm_brdf.h"
#define FD 48
typedef struct {
     double Ft, Fb, lb[ML+1], sb, coef[ML][6][MC], omega[ML], ltau[ML], amp[MK], par[MK][MX], delta;
} pert;
static scen s;
static pert P[FD], M[FD];
static int nd;
static xh_out base, ref[2][FD], got, again;
static int bad[2][FD];
static const char *mn[3] = {"forward", "backward", "central"};
#define TH(c) ((c)->options & XRTM_OPTION_SOURCE_THERMAL)
#define NE(c) ((c)->n_stokes == 1 ? 1 : 6)
static int np(const xh_cfg *c, int k) { return kernel_n_params((enum xrtm_kernel_type) c->kernels[k]); }

/* one perturbation for each input, one of everything, and one of nothing */
static int patterns(const xh_cfg *c, const xh_in *in, pert *p, int max) {
     int n = 0, i, e, k, q; pert all;
     static const double kl[11][MX] = {{0}, {.1, .05, .025, .075}, {0}, {.01, .02}, {.01, .015}, {0}, {0}, {.01, .005, .005}, {.01, .005, .005}, {.001, .005}, {.05, .025, 0, 0}};
     memset(p, 0, max * sizeof(*p)); memset(&all, 0, sizeof(all));
#define SLOT(field, v) do { double x_ = (v); if (n < max - 2) p[n].field = x_; n += n < max - 2; all.field = x_ * .7; } while (0)
     SLOT(Ft, .013); SLOT(Fb, .017);
     if (TH(c)) { for (i = 0; i <= c->n_layers; ++i) SLOT(lb[i], .011 + .003 * i); SLOT(sb, .019); }
     for (i = 0; i < c->n_layers; ++i) {
          SLOT(omega[i], -.013 - .004 * i);
          SLOT(ltau[i], in->ltau[i] * (.021 + .003 * i));
          if (in->n_coef[i] > 1) {
               int z = n < max - 2;
               for (e = 0; e < NE(c); ++e) for (k = e == 0 || e == 3 ? 1 : 2; k < in->n_coef[i]; ++k) { double x = (.03 + .004 * k - .01 * i) * in->coef[i][e][k] + (e == 0 ? .002 : 0.); if (z) p[n].coef[i][e][k] = x; all.coef[i][e][k] = x * .7; }
               n += z;
          }
     }
     for (i = 0; i < c->n_kernels; ++i) { SLOT(amp[i], .007 + .002 * i); for (q = 0; q < np(c, i); ++q) if (kl[c->kernels[i]][q] != 0.) SLOT(par[i][q], kl[c->kernels[i]][q]); }
     p[n++] = all; n++;
     for (i = 0; i < n; ++i) p[i].delta = (i % 3 == 1 ? -1. : 1.) * .01 * (1. + .37 * i);
     return n;
}
static void perturb(const xh_cfg *c, const xh_in *in, const pert *p, double f, xh_in *o) {
     int i, e, k;
     *o = *in;
     o->F_iso_top += f * p->Ft; o->F_iso_bot += f * p->Fb; o->surface_b += f * p->sb;
     for (i = 0; i <= c->n_layers; ++i) o->levels_b[i] += f * p->lb[i];
     for (i = 0; i < c->n_layers; ++i) {
          o->omega[i] += f * p->omega[i]; o->ltau[i] += f * p->ltau[i];
          for (e = 0; e < 6; ++e) for (k = 0; k < in->n_coef[i]; ++k) o->coef[i][e][k] += f * p->coef[i][e][k];
     }
     for (i = 0; i < c->n_kernels; ++i) { o->ampfac[i] += f * p->amp[i]; for (k = 0; k < MX; ++k) o->params[i][k] += f * p->par[i][k]; }
}

/* ------------------------------------------------------------------ setters, each in every form; getters */
enum { V_DELTA, V_FT, V_FB, V_LB, V_SB, V_G, V_COEF, V_OMEGA, V_LTAU, V_AMP, V_PAR, N_V };
static const char *vn[] = {"delta", "F_iso_top_p", "F_iso_bot_p", "levels_b_p", "surface_b_p", "g_p", "coef_p", "omega_p", "ltau_p", "kernel_ampfac_p", "kernel_params_p"};
static int nforms(int v) { switch (v) { case V_DELTA: return 1; case V_G: case V_COEF: case V_OMEGA: case V_LTAU: case V_PAR: return 4; default: return 2; } }
/* which of (outer, deriv, param) a form takes: bits 1 2 4 */
static int fidx(int v, int f) {
     switch (v) {
     case V_DELTA: return 0;
     case V_FT: case V_FB: case V_LB: case V_SB: return f == 0 ? 2 : 0;
     case V_AMP: return f == 0 ? 3 : 1;
     case V_PAR: return f == 0 ? 7 : f == 1 ? 3 : f == 2 ? 5 : 1;
     default: return f == 0 ? 3 : f == 1 ? 2 : f == 2 ? 1 : 0;
     }
}
static double *mslot(int v, int a, int j, int e, int k) {
     switch (v) {
     case V_DELTA: return &M[j].delta; case V_FT: return &M[j].Ft; case V_FB: return &M[j].Fb; case V_LB: return &M[j].lb[k]; case V_SB: return &M[j].sb;
     case V_COEF: return &M[j].coef[a][e][k]; case V_OMEGA: return &M[j].omega[a]; case V_LTAU: return &M[j].ltau[a]; case V_AMP: return &M[j].amp[a]; case V_PAR: return &M[j].par[a][k];
     }
     return NULL;
}
static int outer_n(const xh_cfg *c, int v) { return v == V_AMP || v == V_PAR ? c->n_kernels : v >= V_G && v <= V_LTAU ? c->n_layers : 1; }
/* last dimension of a value */
static int last_n(const xh_cfg *c, int v, int a) { return v == V_LB ? c->n_layers + 1 : v == V_COEF ? s.in.n_coef[a] : v == V_PAR ? np(c, a) : 1; }
static int exists(const xh_cfg *c, int v) { return v == V_G ? 0 : v == V_LB || v == V_SB ? !! TH(c) : v == V_AMP || v == V_PAR ? c->n_kernels > 0 : v == V_COEF ? 1 : 1; }
static double val(int v, int a, int j, int e, int k, int z) { return .001 * (1 + v) + .1 * a + .01 * j + .003 * e + .00037 * k + z * 1.7; }

/* exactly sized arrays */
static double *mk1(int n) { return (double *) malloc(n ? n * sizeof(double) : 1); }
static int setf(const xh_cfg *c, xrtm_fd_data *d, int v, int f, int a, int j, int q, double (*g)(int, int, int, int, int, void *), void *x) {
     int i, jj, e, k, r, na = outer_n(c, v), ne = NE(c); double *p1, **p2, ***p3, ****p4;
     int xa = a < 0 || a >= na ? 0 : a, xj = j < 0 || j >= nd ? 0 : j;
     int mx = v == V_COEF ? c->n_coef : 0;
     switch (v) {
#define LIST(fn) do { p1 = mk1(nd); for (jj = 0; jj < nd; ++jj) p1[jj] = g(v, 0, jj, 0, 0, x); r = fn(d, p1); free(p1); return r; } while (0)
     case V_DELTA: LIST(xrtm_fd_set_delta);
     case V_FT: if (f == 0) return xrtm_fd_set_F_iso_top_p_1(d, j, g(v, 0, xj, 0, 0, x)); LIST(xrtm_fd_set_F_iso_top_p_n);
     case V_FB: if (f == 0) return xrtm_fd_set_F_iso_bot_p_1(d, j, g(v, 0, xj, 0, 0, x)); LIST(xrtm_fd_set_F_iso_bot_p_n);
     case V_SB: if (f == 0) return xrtm_fd_set_surface_b_p_1(d, j, g(v, 0, xj, 0, 0, x)); LIST(xrtm_fd_set_surface_b_p_n);
     case V_LB:
          if (f == 0) { p1 = mk1(c->n_layers + 1); for (k = 0; k <= c->n_layers; ++k) p1[k] = g(v, 0, xj, 0, k, x); r = xrtm_fd_set_levels_b_p_1(d, j, p1); free(p1); return r; }
          p2 = (double **) alloc_array2(c->n_layers + 1, nd, sizeof(double)); for (k = 0; k <= c->n_layers; ++k) for (jj = 0; jj < nd; ++jj) p2[k][jj] = g(v, 0, jj, 0, k, x);
          r = xrtm_fd_set_levels_b_p_n(d, p2); free_array2((void **) p2); return r;
#define LAY(name) do { \
          if (f == 0) return xrtm_fd_set_##name##_11(d, a, j, g(v, xa, xj, 0, 0, x)); \
          if (f == 1) { p1 = mk1(na); for (i = 0; i < na; ++i) p1[i] = g(v, i, xj, 0, 0, x); r = xrtm_fd_set_##name##_n1(d, j, p1); free(p1); return r; } \
          if (f == 2) { p1 = mk1(nd); for (jj = 0; jj < nd; ++jj) p1[jj] = g(v, xa, jj, 0, 0, x); r = xrtm_fd_set_##name##_1n(d, a, p1); free(p1); return r; } \
          p2 = (double **) alloc_array2(na, nd, sizeof(double)); for (i = 0; i < na; ++i) for (jj = 0; jj < nd; ++jj) p2[i][jj] = g(v, i, jj, 0, 0, x); \
          r = xrtm_fd_set_##name##_nn(d, p2); free_array2((void **) p2); return r; } while (0)
     case V_G: LAY(g_p);
     case V_OMEGA: LAY(omega_p);
     case V_LTAU: LAY(ltau_p);
     case V_COEF:
#define CF(p, i_, j_) for (e = 0; e < ne; ++e) for (k = 0; k < mx; ++k) p[e][k] = k < s.in.n_coef[i_] ? g(v, i_, j_, e, k, x) : -777.
          if (f == 0) { p2 = (double **) alloc_array2(ne, mx, sizeof(double)); CF(p2, xa, xj); r = xrtm_fd_set_coef_p_11(d, a, j, p2); free_array2((void **) p2); return r; }
          if (f == 1) { p3 = (double ***) alloc_array3(na, ne, mx, sizeof(double)); for (i = 0; i < na; ++i) CF(p3[i], i, xj); r = xrtm_fd_set_coef_p_n1(d, j, p3); free_array3((void ***) p3); return r; }
          if (f == 2) { p3 = (double ***) alloc_array3(nd, ne, mx, sizeof(double)); for (jj = 0; jj < nd; ++jj) CF(p3[jj], xa, jj); r = xrtm_fd_set_coef_p_1n(d, a, p3); free_array3((void ***) p3); return r; }
          p4 = (double ****) alloc_array4(na, nd, ne, mx, sizeof(double)); for (i = 0; i < na; ++i) for (jj = 0; jj < nd; ++jj) CF(p4[i][jj], i, jj); r = xrtm_fd_set_coef_p_nn(d, p4); free_array4((void ****) p4); return r;
     case V_AMP:
          if (f == 0) return xrtm_fd_set_kernel_ampfac_p_1(d, a, j, g(v, xa, xj, 0, 0, x));
          p1 = mk1(nd); for (jj = 0; jj < nd; ++jj) p1[jj] = g(v, xa, jj, 0, 0, x); r = xrtm_fd_set_kernel_ampfac_p_n(d, a, p1); free(p1); return r;
     case V_PAR: {
          int n = c->n_kernels ? np(c, xa) : 0;
          if (f == 0) return xrtm_fd_set_kernel_params_p_11(d, a, j, q, g(v, xa, xj, 0, q, x));
          if (f == 1) { p1 = mk1(n); for (k = 0; k < n; ++k) p1[k] = g(v, xa, xj, 0, k, x); r = xrtm_fd_set_kernel_params_p_1n(d, a, j, p1); free(p1); return r; }
          if (f == 2) { p1 = mk1(nd); for (jj = 0; jj < nd; ++jj) p1[jj] = g(v, xa, jj, 0, q, x); r = xrtm_fd_set_kernel_params_p_n1(d, a, q, p1); free(p1); return r; }
          p2 = (double **) malloc(nd * sizeof(double *)); for (jj = 0; jj < nd; ++jj) { p2[jj] = mk1(n); for (k = 0; k < n; ++k) p2[jj][k] = g(v, xa, jj, 0, k, x); }
          r = xrtm_fd_set_kernel_params_p_nn(d, a, p2); for (jj = 0; jj < nd; ++jj) free(p2[jj]); free(p2); return r;
     }
     }
     return -1;
}
static double getv(const xh_cfg *c, xrtm_fd_data *d, int v, int a, int j, int e, int k) {
     double t[ML + FD];
     switch (v) {
     case V_DELTA: xrtm_fd_get_delta(d, t); return t[j];
     case V_FT: return xrtm_fd_get_F_iso_top_p(d, j); case V_FB: return xrtm_fd_get_F_iso_bot_p(d, j); case V_SB: return xrtm_fd_get_surface_b_p(d, j);
     case V_LB: if (xrtm_fd_get_levels_b_p(d, j, t) != 0.) return XRTM_DBL_ERROR; return t[k];
     case V_G: return xrtm_fd_get_g_p(d, a, j); case V_COEF: return xrtm_fd_get_coef_p(d, a, j, e, k); case V_OMEGA: return xrtm_fd_get_omega_p(d, a, j); case V_LTAU: return xrtm_fd_get_ltau_p(d, a, j);
     case V_AMP: return xrtm_fd_get_kernel_ampfac_p(d, a, j); default: return xrtm_fd_get_kernel_params_p(d, a, j, k);
     }
}
static int same(const xh_cfg *c, xrtm_fd_data *d, const char *w) {
     int v, a, j, e, k;
     if (xrtm_fd_get_n_derivs(d) != nd) { mc_viol("fd|n_derivs", "%s: n_derivs %d, not %d", w, xrtm_fd_get_n_derivs(d), nd); return 0; }
     for (v = 0; v < N_V; ++v) if (exists(c, v)) for (a = 0; a < outer_n(c, v); ++a) for (j = 0; j < nd; ++j) for (e = 0; e < (v == V_COEF ? NE(c) : 1); ++e) for (k = 0; k < last_n(c, v, a); ++k)
          if (getv(c, d, v, a, j, e, k) != *mslot(v, a, j, e, k)) { char sig[100]; snprintf(sig, 100, "fd|%s|value", vn[v]); mc_viol(sig, "%s: %s[%d][%d][%d][%d] is %.17g, set to %.17g", w, vn[v], a, j, e, k, getv(c, d, v, a, j, e, k), *mslot(v, a, j, e, k)); return 0; }
     return 1;
}
static double gval(int v, int a, int j, int e, int k, void *x) { return val(v, a, j, e, k, *(int *) x); }
static void mset(const xh_cfg *c, int v, int f, int a, int j, int q, int z) {
     int i, jj, e, k, m = fidx(v, f);
     for (i = 0; i < outer_n(c, v); ++i) if (! (m & 1) || i == a) for (jj = 0; jj < nd; ++jj) if (! (m & 2) || jj == j)
          for (e = 0; e < (v == V_COEF ? NE(c) : 1); ++e) for (k = 0; k < last_n(c, v, i); ++k) if (! (m & 4) || k == q) *mslot(v, i, jj, e, k) = val(v, i, jj, e, k, z);
}
static const int nds[] = {0, 1, 3};
static void f_set(long idx) {
     xrtm_data d; xrtm_fd_data fd; int v, f, v2, f2, a, j, q, na, nq, r, it; const xh_cfg *c = &s.c; char w[300], sig[100];
     nd = nds[idx % 3]; if (sc_get(idx / 6, &s)) return;
     s.c.options &= ~XRTM_OPTION_CALC_DERIVS; s.c.n_derivs = 0;
     if (idx / 3 % 2) {        /* more coefficients from layer to layer */
          if (c->n_layers < 2 || ! nd) return;
          for (a = 0; a < c->n_layers; ++a) s.in.n_coef[a] = 1 + 2 * a < c->n_coef ? 1 + 2 * a : c->n_coef;
     }
     xh_quiet();
     if (xh_create(c, &d) == XRTM_INT_ERROR || xh_set_all(c, &d, &s.in)) return;
     mc_ctx("%s setters, %d derivatives", s.name, nd);
     if (xrtm_fd_create(&fd, &d, nd)) { mc_viol("fd|create", "%s: refused", s.name); return; }
     memset(M, 0, sizeof(M));
     snprintf(w, sizeof(w), "%s new", s.name); if (! same(c, &fd, w)) return;
     /* every form with every index and one beyond each end; all pairs of forms of one input */
     for (v = 0; v < N_V; ++v) for (f = 0; f < nforms(v); ++f) {
          int m = fidx(v, f);
          na = m & 1 ? outer_n(c, v) : 1; 
          for (a = m & 1 ? -1 : 0; a <= (m & 1 ? na : 0); ++a) for (j = m & 2 ? -1 : 0; j <= (m & 2 ? nd : 0); ++j) {
               nq = m & 4 ? (c->n_kernels && a >= 0 && a < na ? np(c, a) : 1) : 1;
               for (q = m & 4 ? -1 : 0; q <= (m & 4 ? nq : 0); ++q) {
                    int ok = exists(c, v) && (! (m & 1) || (a >= 0 && a < na)) && (! (m & 2) || (j >= 0 && j < nd)) && (! (m & 4) || (q >= 0 && q < nq)), free_ = nd == 0;
                    if (v == V_PAR && (m & 4) && c->n_kernels && a >= 0 && a < na && np(c, a) == 0) ok = 0;
                    it = 1 + (f + a + j + q) % 3;
                    mc_execs(1); mc_transitions(1);
                    snprintf(w, sizeof(w), "%s, %d derivatives, %s form %d indexes %d %d %d", s.name, nd, vn[v], f, a, j, q); mc_ctx("%s", w);
                    r = setf(c, &fd, v, f, a, j, q, gval, &it);
                    if (r && ok && ! free_) { snprintf(sig, 100, "fd|%s|form %d refused", vn[v], f); mc_viol(sig, "%s: refused", w); }
                    if (! r && ! ok && exists(c, v) ) { snprintf(sig, 100, "fd|%s|form %d accepted", vn[v], f); mc_viol(sig, "%s: accepted", w); }
                    if (! r && ! exists(c, v)) { snprintf(sig, 100, "fd|%s|form %d accepted", vn[v], f); mc_viol(sig, "%s: accepted without it", w); }
                    if (! r && ok) { mset(c, v, f, a, j, q, it); mc_nontrivial(1); }
                    if (! same(c, &fd, w)) goto out;
                    if (ok && ! r) for (v2 = v, f2 = 0; f2 < nforms(v); ++f2) {
                         int m2 = fidx(v2, f2), z = 5;
                         int a2 = m2 & 1 ? outer_n(c, v) - 1 : 0, j2 = m2 & 2 ? nd - 1 : 0, q2 = 0; if (m2 & 4 && np(c, a2) == 0) continue;
                         if (nd == 0) continue;
                         mc_execs(1); mc_transitions(1);
                         if (setf(c, &fd, v2, f2, a2, j2, q2, gval, &z)) { snprintf(sig, 100, "fd|%s|form %d refused", vn[v], f2); mc_viol(sig, "%s then form %d: refused", w, f2); continue; }
                         mset(c, v2, f2, a2, j2, q2, z);
                         if (! same(c, &fd, w)) goto out;
                    }
               }
          }
     }
     /* getters beyond the ends */
     for (v = V_FT; v < N_V; ++v) {
          na = outer_n(c, v);
          for (a = -1; a <= na; ++a) for (j = -1; j <= nd; ++j) {
               int e, k, ia = a >= 0 && a < na, ln = ia && exists(c, v) ? last_n(c, v, a) : 1;
               if (na == 1 && ! (v >= V_G) && a != 0) continue;
               for (e = -1; e <= (v == V_COEF ? NE(c) : -1); ++e) for (k = -1; k <= (v == V_COEF || v == V_PAR ? ln : -1); ++k) {
                    int ok = exists(c, v) && ia && j >= 0 && j < nd && (v != V_COEF || (e >= 0 && e < NE(c))) && ((v != V_COEF && v != V_PAR) || (k >= 0 && k < ln));
                    double x;
                    if (ok) continue;
                    mc_ctx("%s get %s %d %d %d %d", s.name, vn[v], a, j, e, k);
                    x = getv(c, &fd, v, a, j, e, k); mc_execs(1);
                    if (x != XRTM_DBL_ERROR && x != XRTM_INT_ERROR) { snprintf(sig, 100, "fd|%s|get", vn[v]); mc_viol(sig, "%s: get %s %d %d %d %d of %d gives %g, not an error", s.name, vn[v], a, j, e, k, nd, x); }
               }
          }
     }
     mc_states(1);
out: xrtm_fd_destroy(&fd); xrtm_destroy(&d);
}

/* ------------------------------------------------------------------ solutions */
static double gpert(int v, int a, int j, int e, int k, void *x) {
     pert *p = (pert *) x + j;
     switch (v) {
     case V_DELTA: return p->delta; case V_FT: return p->Ft; case V_FB: return p->Fb; case V_LB: return p->lb[k]; case V_SB: return p->sb;
     case V_COEF: return p->coef[a][e][k]; case V_OMEGA: return p->omega[a]; case V_LTAU: return p->ltau[a]; case V_AMP: return p->amp[a]; case V_PAR: return p->par[a][k];
     }
     return 0.;
}
static int set_perts(const xh_cfg *c, xrtm_fd_data *fd) {
     int v, a, j, q, f;
     for (v = 0; v < N_V; ++v) if (exists(c, v)) {
          f = nforms(v) - 1;
          for (a = 0; a < (fidx(v, f) & 1 ? outer_n(c, v) : 1); ++a) for (j = 0; j < 1; ++j) { q = 0; if (setf(c, fd, v, f, a, j, q, gpert, P)) return -1; }
     }
     return 0;
}
/* layout of xh_out with nd derivatives */
static xh_cfg cd;
static int fd_run(const xh_cfg *c, xrtm_fd_data *fd, int sols, int method, int how, xh_out *o) {
     int i, j, k, l, m, q, nt = xh_nth(c), nl = c->n_out_levels, np = c->n_phis, ns = c->n_stokes, r, n1 = nd ? nd : 1;
     double ****I[2], *****Il[2], *Mn[5], **Ml[5], *ph[MT], phv[MT][MP];
     for (i = 0; i < nt; ++i) { for (j = 0; j < MP; ++j) phv[i][j] = s.in.phis[j] + i * s.in.dphi; ph[i] = phv[i]; }
     for (i = 0; i < 2; ++i) {
          I[i] = (double ****) alloc_array4(nl, nt, np, ns, sizeof(double)); Il[i] = (double *****) alloc_array5(nl, n1, nt, np, ns, sizeof(double));
          for (j = 0; j < nl * nt * np * ns; ++j) I[i][0][0][0][j] = -999.;
          for (j = 0; j < nl * n1 * nt * np * ns; ++j) Il[i][0][0][0][0][j] = -999.;
     }
     for (i = 0; i < 5; ++i) {
          Mn[i] = (double *) alloc_array1(nl, sizeof(double)); Ml[i] = (double **) alloc_array2(nl, n1, sizeof(double));
          for (j = 0; j < nl; ++j) Mn[i][j] = -999.;
          for (j = 0; j < nl * n1; ++j) Ml[i][0][j] = -999.;
     }
#define A(b, x) (how == 0 || sols & (b) ? (x) : NULL)
     if (how == 2) r = xrtm_fd_radiance(fd, (enum xrtm_solver_mask) s.solver, (enum xrtm_fd_method_type) method, np, ph, I[0], I[1], Il[0], Il[1]);
     else r = xrtm_fd_solution(fd, (enum xrtm_solver_mask) s.solver, sols, (enum xrtm_fd_method_type) method, np, ph, A(1, I[0]), A(1, I[1]), A(1, Il[0]), A(1, Il[1]),
          A(2, Mn[0]), A(2, Mn[1]), A(2, Ml[0]), A(2, Ml[1]), A(4, Mn[2]), A(4, Mn[3]), A(4, Ml[2]), A(4, Ml[3]), A(8, Mn[4]), A(8, Ml[4]));
     o->rc = r; o->n = xh_i_M(&cd, 0, 0) + 5 * nl * (1 + nd);
     if (o->n > XH_MAXOUT) { printf("too much output\n"); exit(3); }
     for (i = 0; i < 2; ++i) for (j = 0; j < nl; ++j) for (k = 0; k < nt; ++k) for (l = 0; l < np; ++l) for (m = 0; m < ns; ++m) {
          o->v[xh_i_I(&cd, i, j, k, l, m)] = I[i][j][k][l][m];
          for (q = 0; q < nd; ++q) o->v[xh_i_Il(&cd, i, j, q, k, l, m)] = Il[i][j][q][k][l][m];
     }
     for (i = 0; i < 5; ++i) for (j = 0; j < nl; ++j) { o->v[xh_i_M(&cd, i, j)] = Mn[i][j]; for (q = 0; q < nd; ++q) o->v[xh_i_Ml(&cd, i, j, q)] = Ml[i][j][q]; }
     for (i = 0; i < 2; ++i) { free_array4((void ****) I[i]); free_array5((void *****) Il[i]); }
     for (i = 0; i < 5; ++i) { free_array1(Mn[i]); free_array2((void **) Ml[i]); }
     return r;
}
static int inputs_same(const xh_cfg *c, xrtm_data *d, const char *w) {
     int i, e, k; double t[ML+1];
#define EQ(x, y, n) do { double a_ = (x), b_ = (y); if (a_ != b_) { mc_viol("fd|inputs|" n, "%s: " n " is %.17g afterwards, was %.17g", w, a_, b_); return 0; } } while (0)
     EQ(xrtm_get_F_iso_top(d), s.in.F_iso_top, "F_iso_top"); EQ(xrtm_get_F_iso_bot(d), s.in.F_iso_bot, "F_iso_bot");
     if (TH(c)) { xrtm_get_levels_b(d, t); for (i = 0; i <= c->n_layers; ++i) EQ(t[i], s.in.levels_b[i], "levels_b"); EQ(xrtm_get_surface_b(d), s.in.surface_b, "surface_b"); }
     for (i = 0; i < c->n_layers; ++i) {
          if (xrtm_get_n_coef(d, i) != s.in.n_coef[i]) { mc_viol("fd|inputs|n_coef", "%s: n_coef[%d] is %d", w, i, xrtm_get_n_coef(d, i)); return 0; }
          for (e = 0; e < NE(c); ++e) for (k = 0; k < s.in.n_coef[i]; ++k) EQ(xrtm_get_coef(d, i, e, k), s.in.coef[i][e][k], "coef");
          EQ(xrtm_get_omega(d, i), s.in.omega[i], "omega"); EQ(xrtm_get_ltau(d, i), s.in.ltau[i], "ltau");
     }
     for (i = 0; i < c->n_kernels; ++i) { EQ(xrtm_get_kernel_ampfac(d, i), s.in.ampfac[i], "ampfac"); for (k = 0; k < np(c, i); ++k) EQ(xrtm_get_kernel_params(d, i, k), s.in.params[i][k], "params"); }
     return 1;
}
static int tolbad(double x, double y, double scale) { return ! (fabs(x - y) <= 1e-11 * scale); }
static void f_solve(long idx) {
     xrtm_data d; xrtm_fd_data fd; static xh_in in; int i, j, k, l, m, q, method, sols, how, b, any, nsel; const xh_cfg *c = &s.c; char w[300], sig[160];
     if (sc_get(idx, &s)) return;
     s.c.options &= ~XRTM_OPTION_CALC_DERIVS; s.c.n_derivs = 0;
     if (xh_nth(c) > MT) return;
     xh_quiet();
     if (xh_fresh_run(c, &s.in, s.solver, s.sols & 7, 0, &base)) return;
     if (xh_create(c, &d) == XRTM_INT_ERROR || xh_set_all(c, &d, &s.in)) return;
     for (i = 0; i < c->n_layers; ++i) s.in.omega[i] = xrtm_get_omega(&d, i);     /* 1 is stored as a little less */
     nd = patterns(c, &s.in, P, mc_thorough ? 40 : 26);
     cd = *c; cd.options |= XRTM_OPTION_CALC_DERIVS; cd.n_derivs = nd;
     for (j = 0; j < nd; ++j) for (b = 0; b < 2; ++b) {
          perturb(c, &s.in, &P[j], b ? -1. : 1., &in);
          bad[b][j] = xh_fresh_run(c, &in, s.solver, s.sols & 7, 0, &ref[b][j]) != 0; mc_execs(1);
     }
     if (xrtm_fd_create(&fd, &d, nd)) { mc_viol("fd|create", "%s: refused", s.name); return; }
     if (set_perts(c, &fd)) { mc_viol("fd|perturbations refused", "%s", s.name); return; }
     mc_states(1);
     for (method = 0; method < 3; ++method) {
          /* perturbations that leave the range of an input: an error, then the others */
          for (any = j = 0; j < nd; ++j) any |= (method != 1 && bad[0][j]) || (method != 0 && bad[1][j]);
          if (any) {
               snprintf(w, sizeof(w), "%s %s out of range", s.name, mn[method]); mc_ctx("%s", w);
               mc_execs(1); mc_transitions(1);
               if (! fd_run(c, &fd, s.sols & 7, method, 0, &got)) mc_viol("fd|out of range accepted", "%s", w);
               if (! inputs_same(c, &d, w)) return;
               if (xh_run(c, &d, &s.in, s.solver, s.sols & 7, 0, &again) || memcmp(again.v, base.v, base.n * sizeof(double))) { mc_viol("fd|base changed by an error", "%s", w); return; }
               for (j = 0; j < nd; ++j) if (bad[0][j] || bad[1][j]) { double dl = P[j].delta; memset(&P[j], 0, sizeof(pert)); P[j].delta = dl; ref[0][j] = ref[1][j] = base; bad[0][j] = bad[1][j] = 0; }
               if (set_perts(c, &fd)) { mc_viol("fd|perturbations refused", "%s", s.name); return; }
          }
          for (nsel = 7, sols = 1; sols <= nsel; ++sols) {
               if (sols & ~(s.sols & 7)) continue;
               if (! mc_thorough && sols != 7 && (sols & (sols - 1))) continue;
               how = sols == 1 && method == 1 ? 2 : (method + sols) % 2;
               snprintf(w, sizeof(w), "%s %s outputs %d%s", s.name, mn[method], sols, how == 2 ? " xrtm_fd_radiance" : ""); mc_ctx("%s", w);
               mc_execs(1); mc_transitions(1);
               if (fd_run(c, &fd, sols, method, how, &got)) { mc_viol("fd|solution refused", "%s", w); continue; }
               if (! inputs_same(c, &d, w)) return;
               mc_nontrivial(1);
#define CMP(at, bi, dat, what) do { \
               double *a_ = NULL, x_, r_; int on = 1; \
               (void) a_; if (got.v[at] != base.v[bi]) { snprintf(sig, 160, "fd|%s|" what, xh_solver_name(s.solver)); mc_viol(sig, "%s: " what " %.17g, not %.17g", w, got.v[at], base.v[bi]); return; } \
               (void) on; (void) x_; (void) r_; } while (0)
#define DIFF(dat, bi, what) do { \
               double p_ = method == 1 ? base.v[bi] : ref[0][q].v[bi], m_ = method == 0 ? base.v[bi] : ref[1][q].v[bi], r_ = (p_ - m_) / P[q].delta; \
               if (tolbad(got.v[dat], r_, (fabs(base.v[bi]) + fabs(p_) + 1e-3) / fabs(P[q].delta))) { snprintf(sig, 160, "fd|%s|%s|" what " derivative", xh_solver_name(s.solver), mn[method]); \
                    mc_viol(sig, "%s: " what " derivative %d is %.17g, the difference %.17g", w, q, got.v[dat], r_); return; } } while (0)
#define UNSET(at, what) do { if (got.v[at] != -999.) { mc_viol("fd|output not asked for|" what, "%s: " what " written: %g", w, got.v[at]); return; } } while (0)
               for (i = 0; i < 2; ++i) for (j = 0; j < c->n_out_levels; ++j) for (k = 0; k < xh_nth(c); ++k) for (l = 0; l < c->n_phis; ++l) for (m = 0; m < c->n_stokes; ++m) {
                    int at = xh_i_I(&cd, i, j, k, l, m), bi = xh_i_I(c, i, j, k, l, m);
                    if (sols & 1) { CMP(at, bi, 0, "radiance"); for (q = 0; q < nd; ++q) DIFF(xh_i_Il(&cd, i, j, q, k, l, m), bi, "radiance"); }
                    else { UNSET(at, "radiance"); for (q = 0; q < nd; ++q) UNSET(xh_i_Il(&cd, i, j, q, k, l, m), "radiance derivative"); }
               }
               for (i = 0; i < 5; ++i) for (j = 0; j < c->n_out_levels; ++j) {
                    int at = xh_i_M(&cd, i, j), bi = xh_i_M(c, i, j), up = c->options & XRTM_OPTION_UPWELLING_OUTPUT, dn = c->options & XRTM_OPTION_DOWNWELLING_OUTPUT, dir = ! (up || dn) || (i % 2 ? dn : up);
                    if (i < 4 && sols & (i < 2 ? 2 : 4) && dir) { CMP(at, bi, 0, "mean or flux"); for (q = 0; q < nd; ++q) DIFF(xh_i_Ml(&cd, i, j, q), bi, "mean or flux"); }
                    else { UNSET(at, "mean or flux"); for (q = 0; q < nd; ++q) UNSET(xh_i_Ml(&cd, i, j, q), "mean or flux derivative"); }
               }
               if (xh_run(c, &d, &s.in, s.solver, s.sols & 7, 0, &again) || memcmp(again.v, base.v, base.n * sizeof(double))) { mc_viol("fd|base changed", "%s: the instance's own solution differs afterwards", w); return; }
          }
     }
     mc_outcome(mc_hash(got.v, got.n * sizeof(double), 0));
     xrtm_fd_destroy(&fd); xrtm_destroy(&d);
}

/* ------------------------------------------------------------------ refused calls */
static void f_gate(long idx) {
     xrtm_data d; xrtm_fd_data fd; int i, k, v; const xh_cfg *c = &s.c; double z[FD];
     if (sc_get(idx, &s)) return;
     xh_quiet();
     mc_ctx("%s gating", s.name);
     if (s.c.options & XRTM_OPTION_CALC_DERIVS) {
          if (xh_create(c, &d) == XRTM_INT_ERROR) return;
          mc_execs(1); if (! xrtm_fd_create(&fd, &d, 2)) mc_viol("fd|create|calc_derivs", "%s: accepted with calc_derivs", s.name);
          xrtm_destroy(&d);
     }
     s.c.options &= ~XRTM_OPTION_CALC_DERIVS; s.c.n_derivs = 0;
     if (xh_create(c, &d) == XRTM_INT_ERROR) return;
     for (i = -2; i < 0; ++i) { mc_execs(1); if (! xrtm_fd_create(&fd, &d, i)) mc_viol("fd|create|n_derivs", "%s: accepted with %d derivatives", s.name, i); }
     nd = patterns(c, &s.in, P, 8); cd = *c; cd.options |= XRTM_OPTION_CALC_DERIVS; cd.n_derivs = nd;
     if (xrtm_fd_create(&fd, &d, nd)) { mc_viol("fd|create", "%s: refused", s.name); return; }
     for (i = 0; i < nd; ++i) z[i] = .01; xrtm_fd_set_delta(&fd, z);
     mc_execs(1); if (! fd_run(c, &fd, 1, 0, 0, &got)) mc_viol("fd|not set", "%s: solution of an instance that is not set", s.name);
     if (xh_set_all(c, &d, &s.in)) { xrtm_fd_destroy(&fd); xrtm_destroy(&d); return; }
     for (i = 0; i < c->n_layers; ++i) s.in.omega[i] = xrtm_get_omega(&d, i);
     if (set_perts(c, &fd)) { mc_viol("fd|perturbations refused", "%s", s.name); return; }
     if (xh_fresh_run(c, &s.in, s.solver, s.sols & 7, 0, &base)) return;
     for (k = 0; k < 3; ++k) {
          for (v = 0; v < nd; ++v) {     /* one delta not set */
               for (i = 0; i < nd; ++i) z[i] = i == v ? 0. : .01;
               xrtm_fd_set_delta(&fd, z); mc_execs(1); mc_transitions(1);
               if (! fd_run(c, &fd, 1, k, 0, &got)) mc_viol("fd|delta 0", "%s: %s accepted", s.name, mn[k]);
               if (! inputs_same(c, &d, s.name)) return;
          }
          z[nd - 1] = .01; xrtm_fd_set_delta(&fd, z);
          mc_execs(2);
          if (! fd_run(c, &fd, 9, k, 0, &got)) mc_viol("fd|flux divergence", "%s: %s accepted", s.name, mn[k]);
          for (i = 1; i < XRTM_SOLVER_TWO_STREAM * 2; i <<= 1) if (! (c->solvers & i)) { int h = s.solver; s.solver = i; mc_execs(1); if (! fd_run(c, &fd, 1, k, 0, &got)) mc_viol("fd|solver", "%s: %s: solver %s not asked for at creation accepted", s.name, mn[k], xh_solver_name(i)); s.solver = h; }
          if (! inputs_same(c, &d, s.name)) return;
          if (xh_run(c, &d, &s.in, s.solver, s.sols & 7, 0, &again) || memcmp(again.v, base.v, base.n * sizeof(double))) { mc_viol("fd|base changed by a refusal", "%s", s.name); return; }
          mc_nontrivial(1);
     }
     mc_states(1);
     xrtm_fd_destroy(&fd); xrtm_destroy(&d);
}
int main(int argc, char **argv) {
     int k = argc > 1 && argv[1][0] >= '0' && argv[1][0] <= '9' ? atoi(argv[1]) : 1;
     mc_init(argc, argv);
     sc_init(k + (mc_thorough ? 1 : 0), SC_ALLDIMS & ~(1u << D_DERIV), -1);
     if (! (argc > 2 && ! strcmp(argv[2], "solve"))) {
          mc_family("setters", 6 * sc_n(), f_set, 120);
          mc_family("gate", sc_n(), f_gate, 120);
     }
     mc_family("solve", sc_n(), f_solve, 200);
     mc_done();
     return 0;
}
