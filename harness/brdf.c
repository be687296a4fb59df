/* C21: surface reflectance. An atmosphere that does nothing leaves the surface alone: the upward radiance must be the Fourier series of the
   bidirectional reflectance of the published kernels, computed here in long double from the angles. Every kernel x every point of a lattice of its
   parameters x sun and view angles x azimuths x solvers x ways of getting user angles; every sequence of up to three kernels; derivatives with
   respect to every parameter and weight; illumination by the sun, by an isotropic sky and emission of the surface itself. */
#include "xh.h"
#include "mc.h"
typedef long double ld;
#define N(A) ((int) (sizeof(A) / sizeof(A[0])))
#define PIL 3.14159265358979323846264338327950288L
#define S(x) XRTM_SOLVER_##x
#define O(x) XRTM_OPTION_##x
enum { QQ, Q0, UQ, U0 };
static char sg[120];
#define V(what, ...) do { snprintf(sg, sizeof(sg), "%s", what); mc_viol(sg, __VA_ARGS__); } while (0)

/*---------------------------------------------------------------- the kernels, as published ----------------------------------------------------*/
/* i: incident, r: reflected; phi in [0,pi], 0: the view is on the side of the sun */
static ld sq(ld x) { return x * x; }
static ld f_li(int dense, ld ci, ld cr, ld phi, const ld *p) {
     ld ti = atanl(p[0] * tanl(acosl(ci))), tr = atanl(p[0] * tanl(acosl(cr))), cx = cosl(ti) * cosl(tr) + sinl(ti) * sinl(tr) * cosl(phi);
     ld D2 = sq(tanl(ti)) + sq(tanl(tr)) - 2 * tanl(ti) * tanl(tr) * cosl(phi), sec = 1 / cosl(ti) + 1 / cosl(tr);
     ld ct = p[1] * sqrtl(fabsl(D2) + sq(tanl(ti) * tanl(tr) * sinl(phi))) / sec, t, o;
     if (ct > 1) ct = 1;
     t = acosl(ct); o = (t - sinl(t) * cosl(t)) * sec / PIL;
     return dense ? (1 + cx) / cosl(tr) / (sec - o) - 2 : o - sec + (1 + cx) / cosl(tr) / 2;
}
static ld f_kernel(int k, int func, int geom, ld ci, ld cr, ld phi, const ld *p) {
     ld si = sqrtl(fmaxl(0, 1 - ci * ci)), sr = sqrtl(fmaxl(0, 1 - cr * cr)), ti = si / ci, tr = sr / cr, c = ci * cr + si * sr * cosl(phi), x, d, g, P, R, m, n, k2;
     if (c > 1) c = 1;
     x = acosl(c);
     d = sqrtl(fmaxl(0, ti * ti + tr * tr - 2 * ti * tr * cosl(phi)));
     switch (k) {
     case XRTM_KERNEL_LAMBERTIAN: return 1;
     case XRTM_KERNEL_DIRECT_AND_DIFFUSE: return geom == U0 ? p[0] : geom == Q0 ? p[1] : geom == UQ ? p[2] : p[3];
     case XRTM_KERNEL_ROUJEAN: return ((PIL - phi) * cosl(phi) + sinl(phi)) * ti * tr / (2 * PIL) - (ti + tr + d) / PIL;
     case XRTM_KERNEL_LI_SPARSE: return f_li(0, ci, cr, phi, p);
     case XRTM_KERNEL_LI_DENSE: return f_li(1, ci, cr, phi, p);
     case XRTM_KERNEL_ROSS_THIN: return ((PIL / 2 - x) * c + sinl(x)) / (ci * cr) - PIL / 2;
     case XRTM_KERNEL_ROSS_THICK: return ((PIL / 2 - x) * c + sinl(x)) / (ci + cr) - PIL / 4;
     case XRTM_KERNEL_HAPKE:
          g = sqrtl(1 - p[0]);
          return p[0] / (4 * (ci + cr)) * ((1 + p[1] * p[2] / (p[2] + tanl(x / 2))) * (1 + c / 2) + (1 + 2 * ci) / (1 + 2 * ci * g) * (1 + 2 * cr) / (1 + 2 * cr * g) - 1);
     case XRTM_KERNEL_RAHMAN:
          P = (1 - p[1] * p[1]) / powl(1 + p[1] * p[1] + 2 * p[1] * c, 1.5L);
          return p[0] * P * (1 + (1 - p[0]) / (1 + d)) * powl(ci * cr * (ci + cr), p[2] - 1);
     case XRTM_KERNEL_COX_MUNK:     /* facets that reflect: half the angle between the directions is the angle of incidence */
          m = cosl(x / 2); g = (ci + cr) / (2 * m); k2 = sqrtl(p[1] + m * m - 1);
          R = (sq((p[1] * m - k2) / (p[1] * m + k2)) + sq((m - k2) / (m + k2))) / 2;
          n = (1 - g * g) / (g * g);
          return R * expl(-n / p[0]) / (PIL * p[0] * 4 * ci * cr * sq(sq(g)));
     case XRTM_KERNEL_USER_DEFINED:
          return func == 0 ? p[0] * (1 + .5L * ci * cr + .25L * si * sr * cosl(phi)) + p[1] * ci * cr : p[0] * (1 + .3L * (ci + cr)) + p[1] * (.2L - .1L * si * sr * cosl(phi));
     }
     return NAN;
}
static int npar(int k) { static const int n[] = {0, 4, 0, 2, 2, 0, 0, 3, 3, 2, 4}; return n[k]; }
static int azim(int k) { return k >= XRTM_KERNEL_ROUJEAN; }

/* nodes of the integration over azimuth */
#define QN 64
static ld gx[QN], gw[QN]; static int gn;
static void gauss(int n) {
     int i, j, k; ld x, p, q, r, d;
     if (n == gn) return;
     for (i = 0; i < n; ++i) {
          x = cosl(PIL * (i + .75L) / (n + .5L));
          for (j = 0; j < 60; ++j) {
               for (p = 1, q = 0, k = 0; k < n; ++k) { r = q; q = p; p = ((2 * k + 1) * x * q - k * r) / (k + 1); }
               d = n * (x * p - q) / (x * x - 1); x -= p / d;
          }
          gx[i] = PIL * (1 - x) / 2; gw[i] = 1 / ((1 - x * x) * d * d);   /* weights sum to one over (0,pi) */
     }
     gn = n;
}
/* the coefficients of cos m phi in the sum of the kernels, m < n */
static void series(const xh_cfg *c, const ld *amp, ld (*par)[MX], int geom, double ci, double cr, int n, ld *rho) {
     int i, k, m; ld f;
     for (m = 0; m < n; ++m) rho[m] = 0;
     for (k = 0; k < c->n_kernels; ++k) {
          if (! azim(c->kernels[k])) { rho[0] += amp[k] * f_kernel(c->kernels[k], 0, geom, ci, cr, 0, par[k]); continue; }
          gauss(c->n_kernel_quad);
          for (i = 0; i < gn; ++i) {
               f = amp[k] * f_kernel(c->kernels[k], xh_func_alt[k], geom, ci, cr, gx[i], par[k]);
               for (m = 0; m < n; ++m) rho[m] += (m ? 2 : 1) * gw[i] * cosl(m * gx[i]) * f;
          }
     }
}

/*---------------------------------------------------------------- the instance ----------------------------------------------------------------*/
typedef struct { const char *name; int solver, opt, n_thetas, nq; } wayt;
/* sfi: angles of the user by integrating the source function; xtr: by nodes of no weight; quad: the nodes themselves */
static const wayt ways[] = {
     {"eig_bvp sfi", S(EIG_BVP), O(SFI), 6, 5}, {"eig_bvp quad", S(EIG_BVP), 0, 0, 6}, {"eig_bvp extra", S(EIG_BVP), 0, 6, 4}, {"eig_add extra", S(EIG_ADD), 0, 6, 4}, {"eig_add quad", S(EIG_ADD), 0, 0, 5},
     {"doub_add extra3", S(DOUB_ADD), 0, 6, 3}, {"doub_add quad", S(DOUB_ADD), 0, 0, 3}, {"doub_add extra", S(DOUB_ADD), 0, 6, 3}, {"pade_add quad", S(PADE_ADD), 0, 0, 4}, {"mem_bvp quad", S(MEM_BVP), 0, 0, 3},
     {"sos extra", S(SOS), 0, 6, 3}, {"sos quad", S(SOS), 0, 0, 3}, {"single extra", S(SINGLE), 0, 6, 4},
     {"two_stream sfi", S(TWO_STREAM), O(SFI), 6, 1}, {"four_stream sfi", S(FOUR_STREAM), O(SFI), 6, 2}, {"six_stream sfi", S(SIX_STREAM), O(SFI), 6, 3},
     {"eig_bvp sfi old", S(EIG_BVP), O(SFI) | O(FOUR_CONV_OLD), 6, 4}, {"eig_bvp lob", S(EIG_BVP), O(QUAD_NORM_GAUS_LEG), 0, 4}, {"eig_add up", S(EIG_ADD), O(UPWELLING_OUTPUT), 0, 4},
     {"eig_add vec", S(EIG_ADD), O(VECTOR), 0, 3}, {"eig_bvp vec sfi", S(EIG_BVP), O(VECTOR) | O(SFI), 4, 3}, {"mem_add vec extra", S(DOUB_ADD), O(VECTOR), 3, 2}, {"eig_bvp greens", S(EIG_BVP), O(PART_SOL_GREENS), 0, 4},
};
#define NW N(ways)
static const double suns[] = {20, 0, 53, 75, 38, 85, 64};
static const double views[] = {0, 17, 35, 50, 66, 80};

static xh_out o;
/* what: 1 sun, 2 isotropic light from above, 4 emission of the surface; nd derivatives as in in->*_l */
static int inst(xh_cfg *c, xh_in *in, const wayt *w, int nk, const int *kern, int what, int nd, int kq, int sun) {
     int i;
     memset(c, 0, sizeof(*c));
     c->name = w->name;
     c->options = O(OUTPUT_AT_LEVELS) | w->opt | (what & 1 ? O(SOURCE_SOLAR) : 0) | (what & 4 ? O(SOURCE_THERMAL) : 0) | (nd ? O(CALC_DERIVS) : 0);
     c->solvers = w->solver; c->n_coef = 2 * w->nq + 1 - 2 * (kq % 3); if (c->n_coef < 1) c->n_coef = 1; c->n_quad = w->nq; c->n_stokes = w->opt & O(VECTOR) ? 3 : 1; c->n_derivs = nd; c->n_layers = 1; c->n_kernels = nk; c->n_kernel_quad = kq;
     for (i = 0; i < nk; ++i) c->kernels[i] = kern[i];
     c->n_out_levels = 1; c->n_out_thetas = w->n_thetas; c->n_phis = 3;
     xh_default_in(c, in);
     in->out_levels[0] = 0; in->fourier_tol = 0; in->F_0 = 1.5; in->theta_0 = suns[sun]; in->phi_0 = 40; in->F_iso_top = what & 2 ? .7 : 0; in->F_iso_bot = 0;
     for (i = 0; i < w->n_thetas; ++i) in->out_thetas[i] = views[i];
     if (suns[sun] == 0) in->out_thetas[0] = 4;
     in->levels_b[0] = in->levels_b[1] = 0; in->surface_b = what & 4 ? 2.5 : 0;
     in->ltau[0] = 1e-13; in->omega[0] = .5; in->dphi = 23;
     in->phis[0] = 40; in->phis[1] = 97; in->phis[2] = 215;
     for (i = 0; i < nd; ++i) { int j, k; in->F_iso_top_l[i] = in->F_iso_bot_l[i] = in->surface_b_l[i] = in->ltau_l[0][i] = in->omega_l[0][i] = 0; for (j = 0; j < 2; ++j) in->levels_b_l[i][j] = 0;
          for (j = 0; j < MK; ++j) { in->ampfac_l[j][i] = 0; for (k = 0; k < MX; ++k) in->params_l[j][i][k] = 0; } memset(in->coef_l[0][i], 0, sizeof(in->coef_l[0][i])); }
     return 0;
}
static int only0;     /* the azimuthal mean alone */
/* the reflected radiance expected at angle th, azimuth ph */
static ld expect(const xh_cfg *c, const xh_in *in, const wayt *w, int what, const double *qx, const double *qw, const ld *amp, ld (*par)[MX], ld sb, int th, int ph) {
     ld rho[16], s = 0, e, dp = (in->phis[ph] + th * in->dphi - in->phi_0) * PIL / 180; int m, q, user = w->n_thetas > 0 && (w->opt & O(SFI)), n4 = c->n_coef < 2 * w->nq ? c->n_coef : 2 * w->nq; double cr; ld nf = 1;
     if ((in->theta_0 == 0 && c->n_stokes == 1) || only0) n4 = 1;
     cr = w->n_thetas ? cos(in->out_thetas[th] * M_PI / 180) : qx[th];
     if (c->options & O(QUAD_NORM_GAUS_LEG)) { for (nf = 0, q = 0; q < w->nq; ++q) nf += qx[q] * qw[q]; nf = .5L / nf; }    /* the quadrature is made to conserve energy */
     if (what & 1) {
          double c0 = cos(in->theta_0 * M_PI / 180);
          series(c, amp, par, user ? U0 : Q0, c0, cr, n4, rho);
          for (m = 0; m < n4; ++m) s += nf * in->F_0 * c0 / PIL * rho[m] * cosl(m * dp);
     }
     if (what & 6) {
          for (e = 0, q = 0; q < w->nq; ++q) { series(c, amp, par, user ? UQ : QQ, qx[q], cr, 1, rho); e += nf * 2 * qx[q] * qw[q] * rho[0]; }
          if (what & 2) s += in->F_iso_top * e;
          if (what & 4) s += sb * (1 - e);
     }
     return s;
}
/* d: the direction of every derivative is in in->*_l; returns the number of results compared */
static int judge(const xh_cfg *c, const xh_in *in, const wayt *w, int what, xrtm_data *d, const char *id, double tol) {
     int th, ph, k, l, j, nd = c->n_derivs, nth = w->n_thetas ? w->n_thetas : w->nq; double qx[32], qw[32], scale = .05; ld a[MK], p[MK][MX], a2[MK], p2[MK][MX], r, r1, r2, h;
     if (xrtm_qx(d, qx) || xrtm_qw(d, qw)) { V("quadrature", "xrtm_qx or xrtm_qw fails"); return -1; }
     for (k = 0; k < c->n_kernels; ++k) { a[k] = in->ampfac[k]; for (j = 0; j < MX; ++j) p[k][j] = in->params[k][j]; }
     for (th = 0; th < nth; ++th) for (ph = 0; ph < 3; ++ph) { r = fabsl(expect(c, in, w, what, qx, qw, a, p, in->surface_b, th, ph)); if (r > scale) scale = r; }
     for (th = 0; th < nth; ++th) for (ph = 0; ph < 3; ++ph) {
          double v = o.v[xh_i_I(c, 0, 0, th, ph, 0)];
          if (w->solver == S(SINGLE)) {
               only0 = 0; r1 = expect(c, in, w, what, qx, qw, a, p, in->surface_b, th, ph);
               if (! (fabsl(v - r1) <= tol * scale)) mc_viol("single azimuth", "%s, angle %d, azimuth %g: %.12g, the kernels give %.12Lg", w->name, th, in->phis[ph] + th * in->dphi, v, r1);
               only0 = 1; r2 = expect(c, in, w, what, qx, qw, a, p, in->surface_b, th, ph);
               if (fabsl(r1 - r2) <= tol * scale) { only0 = 0; nd = 0; } else { only0 = fabsl(v - r2) <= tol * scale; nd = c->n_derivs; }
          }
          r = expect(c, in, w, what, qx, qw, a, p, in->surface_b, th, ph);
          mc_count("results compared", 1);
          if (! (fabsl(v - r) <= tol * scale)) {
               V(id, "%s, angle %d, azimuth %g: %.12g, the kernels give %.12Lg", w->name, th, in->phis[ph] + th * in->dphi, v, r); return -1;
          }
          for (l = 1; l < c->n_stokes; ++l) if (! (fabs(o.v[xh_i_I(c, 0, 0, th, ph, l)]) <= tol * scale)) { V(id, "%s, angle %d: the surface polarizes: Stokes %d is %g", w->name, th, l, o.v[xh_i_I(c, 0, 0, th, ph, l)]); return -1; }
          for (l = 0; l < nd; ++l) {
               double g = o.v[xh_i_Il(c, 0, 0, l, th, ph, 0)], s2; 
               h = 1e-6L;
               for (k = 0; k < c->n_kernels; ++k) { a2[k] = a[k] + h * in->ampfac_l[k][l]; for (j = 0; j < MX; ++j) p2[k][j] = p[k][j] + h * in->params_l[k][l][j]; }
               r1 = expect(c, in, w, what, qx, qw, a2, p2, in->surface_b + h * in->surface_b_l[l], th, ph);
               for (k = 0; k < c->n_kernels; ++k) { a2[k] = a[k] - h * in->ampfac_l[k][l]; for (j = 0; j < MX; ++j) p2[k][j] = p[k][j] - h * in->params_l[k][l][j]; }
               r2 = expect(c, in, w, what, qx, qw, a2, p2, in->surface_b - h * in->surface_b_l[l], th, ph);
               r = (r1 - r2) / (2 * h); s2 = scale + fabsl(r);
               mc_count("derivatives compared", 1);
               if (! (fabsl(g - r) <= 1e-6L * s2)) { V(id, "%s, angle %d, azimuth %g: derivative %d is %.10g, that of the kernels %.10Lg", w->name, th, in->phis[ph] + th * in->dphi, l, g, r); return -1; }
          }
     }
     return 0;
}
static int go(const xh_cfg *c, const xh_in *in, const wayt *w, int what, const char *id, double tol) {
     xrtm_data d; int rc = -1;
     mc_execs(1); only0 = 0;
     if (xh_create(c, &d)) { V("create", "%s: xrtm_create fails", w->name); return -1; }
     if (xh_set_all(c, &d, in) || xh_update(c, &d)) V("set", "%s: an input is refused", w->name);
     else if (xh_run(c, &d, in, w->solver, XRTM_OUTPUT_RADIANCE, 1, &o), o.rc) V("solve", "%s: the solution fails", w->name);
     else { mc_states(1); mc_transitions(1); mc_nontrivial(1); mc_sample("%s: %s with %d kernels (%s ...), sun at %g, sources %d, %d derivatives", id, w->name, c->n_kernels, xrtm_kernel_value_to_name(c->kernels[0]), in->theta_0, what, c->n_derivs); rc = judge(c, in, w, what, &d, id, tol); }
     if (c->name && o.n > 3) mc_outcome(mc_hash(o.v, 3 * sizeof(double), 0));
     xrtm_destroy(&d);
     return rc;
}

/*---------------------------------------------------------------- parameters ----------------------------------------------------------------*/
static const double li0[] = {1, .5, 2.5}, li1[] = {2, .5, 1, 4}, ha0[] = {.6, .1, .95}, ha1[] = {1, 0, .4}, ha2[] = {.06, .02, .3}, ra0[] = {.3, .05, .9}, ra1[] = {-.1, -.6, 0, .4}, ra2[] = {.75, .4, 1, 1.3}, cm0[] = {.1, .03, .3}, cm1[] = {1.779, 1.5, 2.2},
     dd[] = {.3, 0, .7}, us[] = {.2, 0, -.1};
typedef struct { const double *v; int n; } lat;
#define L(A) { A, N(A) }
static const lat lats[11][4] = { {{0}}, {L(dd), L(dd), L(dd), L(dd)}, {{0}}, {L(li0), L(li1)}, {L(li0), L(li1)}, {{0}}, {{0}}, {L(ha0), L(ha1), L(ha2)}, {L(ra0), L(ra1), L(ra2)}, {L(cm0), L(cm1)}, {L(us), L(us), {us, 1}, {us, 1}} };
static int lat_n(int k) { int i, n = 1; for (i = 0; i < npar(k); ++i) n *= lats[k][i].n; return n; }
static void lat_get(int k, int i, double *p) { int j; for (j = 0; j < npar(k); ++j) { p[j] = lats[k][j].v[i % lats[k][j].n]; i /= lats[k][j].n; } if (k == XRTM_KERNEL_DIRECT_AND_DIFFUSE) for (j = 0; j < 4; ++j) p[j] += .01 * j; }
static int lat_off[12];
static const char *kname(int k) { return xrtm_kernel_value_to_name(k); }

/* one kernel: all parameters, suns, ways */
static void one(long n) {
     int s = n % N(suns), k, i, w; xh_cfg c; xh_in in; char id[60];
     n /= N(suns);
     for (k = 0; n >= lat_off[k + 1]; ++k) ;
     i = n - lat_off[k];
     for (w = 0; w < NW; ++w) {
          if (! mc_thorough && w >= 6 && (n + s) % 5 != w % 5) continue;
          mc_ctx("%s, parameters %d, sun %g, %s", kname(k), i, suns[s], ways[w].name);
          snprintf(id, sizeof(id), "%s value", kname(k));
          inst(&c, &in, &ways[w], 1, &k, 1, 0, 7 + n % 3 * 6, s);
          lat_get(k, i, in.params[0]); in.ampfac[0] = i % 2 ? .35 : 1; if (k == XRTM_KERNEL_USER_DEFINED) xh_func_alt[0] = s % 2;
          if (go(&c, &in, &ways[w], 1, id, 1e-9) < 0) return;
     }
}
/* one kernel, derivatives with respect to every parameter and the weight */
static void der(long n) {
     int s = n % N(suns), k, i, j, w, np, first, nd; xh_cfg c; xh_in in; char id[60];
     n /= N(suns);
     for (k = 0; n >= lat_off[k + 1]; ++k) ;
     i = n - lat_off[k]; np = npar(k) + 1;
     for (w = 0; w < NW; ++w) {
          if (ways[w].solver & (S(MEM_BVP) | S(SOS) | S(FOUR_STREAM) | S(SIX_STREAM))) continue;
          if (ways[w].opt & O(PART_SOL_GREENS)) continue;
          if (! mc_thorough && (n + s) % 7 != w % 7) continue;
          for (first = 0; first < np; first += MD) {
               nd = np - first < MD ? np - first : MD;
               mc_ctx("derivatives of %s, parameters %d, sun %g, %s", kname(k), i, suns[s], ways[w].name);
               snprintf(id, sizeof(id), "%s derivative", kname(k));
               inst(&c, &in, &ways[w], 1, &k, 1, nd, 8, s);
               lat_get(k, i, in.params[0]); in.ampfac[0] = .6; if (k == XRTM_KERNEL_USER_DEFINED) xh_func_alt[0] = s % 2;
               for (j = 0; j < nd; ++j) { if (first + j == 0) in.ampfac_l[0][j] = 1; else in.params_l[0][j][first + j - 1] = 1; }
               if (nd > 1 && s % 2) in.ampfac_l[0][nd - 1] = .3;     /* a mixed direction */
               if (go(&c, &in, &ways[w], 1, id, 1e-9) < 0) return;
          }
     }
}
/* every sequence of kernels */
static void seq(long n) {
     int len = 1 + (n >= 11) + (n >= 11 + 121), i, k[3], w, s; xh_cfg c; xh_in in; long m = n - (len > 1) * 11 - (len > 2) * 121;
     for (i = 0; i < len; ++i) { k[i] = m % 11; m /= 11; }
     for (w = 0; w < 5; ++w) {
          if (! mc_thorough && len == 3 && n % 5 != w) continue;
          s = (n + w) % N(suns);
          mc_ctx("kernels %s %s %s, sun %g, %s", kname(k[0]), len > 1 ? kname(k[1]) : "", len > 2 ? kname(k[2]) : "", suns[s], ways[w].name);
          inst(&c, &in, &ways[w], len, k, 1 + 2 * (n % 2), (w == 0 || w == 3) && len > 1 ? 3 : 0, 6 + n % 4, s);
          for (i = 0; i < len; ++i) {
               lat_get(k[i], (n + i) % lat_n(k[i]), in.params[i]); in.ampfac[i] = .5 - .2 * i; xh_func_alt[i] = i % 2;
               if (c.n_derivs) { if (npar(k[i])) in.params_l[i][i][0] = 1; else in.ampfac_l[i][i] = 1; in.ampfac_l[i][(i + 1) % 3] += .5; }
          }
          if (go(&c, &in, &ways[w], c.n_derivs ? c.options & 0 ? 0 : 1 + 2 * (n % 2) : 1 + 2 * (n % 2), "kernels in sequence", 1e-9) < 0) return;
     }
}
/* every kernel under every combination of sources */
static void src(long n) {
     static const int wy[] = {0, 1, 2, 3, 4, 5, 7, 8, 18};
     int k = n % 11, what = 1 + n / 11 % 7, s = n / 77, i, w; xh_cfg c; xh_in in; char id[60];
     for (i = 0; i < lat_n(k); i += mc_thorough ? 1 : 5) for (w = 0; w < N(wy); ++w) {
          const wayt *y = &ways[wy[w]];
          mc_ctx("%s, sources %d, parameters %d, sun %g, %s", kname(k), what, i, suns[s], y->name);
          snprintf(id, sizeof(id), "%s with sources %d", kname(k), what);
          inst(&c, &in, y, 1, &k, what, w < 4 ? 2 : 0, 8, s);
          lat_get(k, i, in.params[0]); in.ampfac[0] = .4; xh_func_alt[0] = s % 2;
          if (c.n_derivs) { in.ampfac_l[0][0] = 1; if (npar(k)) in.params_l[0][0][s % npar(k)] = 1; if (what & 4) in.surface_b_l[1] = -.5; else in.ampfac_l[0][1] = 2; }
          if (go(&c, &in, y, what, id, 1e-9) < 0) return;
     }
}
int main(int argc, char **argv) {
     int k;
     mc_init(argc, argv);
     if (! mc_replaying) xh_quiet();
     for (k = 0; k < 11; ++k) lat_off[k + 1] = lat_off[k] + lat_n(k);
     mc_family("one", (long) lat_off[11] * N(suns), one, 60);
     mc_family("der", (long) lat_off[11] * N(suns), der, 60);
     mc_family("seq", 11 + 121 + 1331, seq, 60);
     mc_family("src", 77 * 4, src, 60);
     return mc_done();
}
