/* C28: quadratures and special functions. Every order up to N, every polynomial degree up to the degree of exactness, every interval of a set;
   every (p, q, l) up to a bound at every abscissa of a set; against sums in long double and the explicit formula of the rotation functions. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "xh.h"
#include "mc.h"
#include "gutil.h"
#include "rtutil_math.h"

#define NMAX 400
typedef long double ld;
static char sg[100];
#define V(what, ...) do { snprintf(sg, sizeof(sg), "%s", what); mc_viol(sg, __VA_ARGS__); } while (0)
#define N(A) ((int) (sizeof(A) / sizeof(A[0])))

/* all the moments: the sum of w P_k(t), with t the abscissa mapped to [-1,1], is 2 (k = 0) or 0, times half the interval */
static int rule(const char *what, int n, const double *x, const double *w, double a, double b, int deg, int inner, double tol) {
     int i, k; ld *p0 = malloc(3 * n * sizeof(ld)), *p1 = p0 + n, *t = p1 + n, s, h = ((ld) b - a) / 2;
     mc_states(1); mc_transitions(deg + 1); mc_nontrivial(1);
     for (i = 0; i < n; ++i) {
          if (! (w[i] * (b > a ? 1 : -1) > 0)) { V(what, "n = %d, [%g,%g]: weight %d is %g", n, a, b, i, w[i]); goto bad; }
          if (i && ! ((x[i] - x[i - 1]) * (b > a ? 1 : -1) > 0)) { V(what, "n = %d, [%g,%g]: nodes %d and %d are %.15g and %.15g", n, a, b, i - 1, i, x[i - 1], x[i]); goto bad; }
          if (inner ? ! ((x[i] - a) * (x[i] - b) < 0) : ! ((x[i] - a) * (x[i] - b) <= 1e-14 * (b - a) * (fabs(a) + fabs(b)))) { V(what, "n = %d, [%g,%g]: node %d is %.15g", n, a, b, i, x[i]); goto bad; }
          t[i] = (x[i] - ((ld) a + b) / 2) / h; p0[i] = 1; p1[i] = t[i];
     }
     for (k = 0; k <= deg; ++k) {
          for (s = 0, i = 0; i < n; ++i) s += w[i] * (k == 0 ? 1 : p1[i]);
          if (! (fabsl(s / h - (k == 0 ? 2 : 0)) < tol)) { V(what, "n = %d, [%g,%g]: a polynomial of degree %d is integrated with an error of %Lg", n, a, b, k, s / h - (k == 0 ? 2 : 0)); goto bad; }
          if (k) for (i = 0; i < n; ++i) { ld q = ((2 * k + 1) * t[i] * p1[i] - k * p0[i]) / (k + 1); p0[i] = p1[i]; p1[i] = q; }
     }
     free(p0); return 0;
bad: free(p0); return 1;
}
static const double iv[][2] = {{-1, 1}, {0, 1}, {0, M_PI}, {2, 5}, {-3, -2.5}, {1e-3, 1e3}, {-1, 0}, {100, 100.25}};
#define NI N(iv)

static double *vec(int n) { double *x = malloc(n * sizeof(double)); int i; for (i = 0; i < n; ++i) x[i] = NAN; return x; }
static void gauss(long c) {
     int n = c + 1, i, k, j; double *x = vec(n), *w = vec(n), x2[2 * NMAX], w2[2 * NMAX]; double tol = 2e-14 * (n < 50 ? 50 : n);
     mc_ctx("n=%d", n); mc_execs(1);
     /* the positive half of the rule of order 2n on [-1,1] */
     gauss_leg_quad(n, x, w);
     for (i = 0; i < n; ++i) { x2[n + i] = x[i]; w2[n + i] = w[i]; x2[n - 1 - i] = -x[i]; w2[n - 1 - i] = w[i]; }
     rule("gauss_leg_quad", 2 * n, x2, w2, -1, 1, 4 * n - 1, 1, 2 * tol);
     if (! (x[0] > 0)) V("gauss_leg_quad", "n = %d: a node of %g", n, x[0]);
     free(x); free(w); x = vec(n); w = vec(n);
     gauss_leg_quad2(n, x, w);
     rule("gauss_leg_quad2", n, x, w, 0, 1, 2 * n - 1, 1, tol);
     for (i = 0; i < NI; ++i) {
          double a = iv[i][0], b = iv[i][1], al[3] = {1, 0, .3}, bl[3] = {0, 1, -2}, **xl = (double **) alloc_array2(n, 3, sizeof(double)), **wl = (double **) alloc_array2(n, 3, sizeof(double)), *y = vec(n), *v = vec(n), **yl = (double **) alloc_array2(n, 3, sizeof(double)), **vl = (double **) alloc_array2(n, 3, sizeof(double));
          double cond = 1 + (fabs(a) + fabs(b)) / fabs(b - a);
          free(x); free(w); x = vec(n); w = vec(n);
          gauss_leg_quadx(n, a, b, x, w);
          if (rule("gauss_leg_quadx", n, x, w, a, b, 2 * n - 1, 1, tol * n * cond)) break;
          for (j = 0; j < n; ++j) { y[j] = x[j]; v[j] = w[j]; x[j] = w[j] = NAN; for (k = 0; k < 3; ++k) xl[j][k] = wl[j][k] = NAN; }
          gauss_leg_quadx_l(n, 3, a, b, al, bl, x, w, xl, wl);
          for (j = 0; j < n; ++j) {
               if (x[j] != y[j] || w[j] != v[j]) { V("gauss_leg_quadx_l", "n = %d, [%g,%g]: node %d differs from that without derivatives", n, a, b, j); break; }
               for (k = 0; k < 3; ++k) {
                    double t = (x[j] - a) / (b - a), dx = al[k] * (1 - t) + bl[k] * t, dw = w[j] * (bl[k] - al[k]) / (b - a);
                    if (! (fabs(xl[j][k] - dx) < 1e-12 * cond)) V("gauss_leg_quadx_l", "n = %d, [%g,%g]: derivative %d of node %d is %.12g, expected %.12g", n, a, b, k, j, xl[j][k], dx);
                    if (! (fabs(wl[j][k] - dw) < 1e-12)) V("gauss_leg_quadx_l", "n = %d, [%g,%g]: derivative %d of weight %d is %.12g, expected %.12g", n, a, b, k, j, wl[j][k], dw);
               }
          }
          /* moved from [-1,1] to [a,b], where the limits and the first rule depend on the parameters */
          { double c[3] = {.1, 0, .2}, d[3] = {0, .4, -.1}, **ul = (double **) alloc_array2(n, 3, sizeof(double)), **sl = (double **) alloc_array2(n, 3, sizeof(double)), *u = vec(n), *s = vec(n);
            for (k = 0; k < 3; ++k) d[k] = -c[k];       /* the first rule stays symmetric, as the one moved must be */
            gauss_leg_quadx_l(n, 3, -1, 1, d, c, u, s, ul, sl);
            gauss_leg_quad_fit(n, a, b, u, s, y, v);
            if (! rule("gauss_leg_quad_fit", n, y, v, a, b, 2 * n - 1, 1, tol * n * cond)) {
                 gauss_leg_quad_fit_l(n, 3, a, b, al, bl, u, s, y, v, ul, sl, yl, vl);
                 for (j = 0; j < n; ++j) for (k = 0; k < 3; ++k) {
                      double dx = (al[k] + bl[k]) / 2 + (bl[k] - al[k]) / 2 * u[j] + (b - a) / 2 * ul[j][k], dw = sl[j][k] * (b - a) / 2 + s[j] * (bl[k] - al[k]) / 2;
                      if (! (fabs(yl[j][k] - dx) < 1e-12 * (fabs(a) + fabs(b) + 4))) V("gauss_leg_quad_fit_l", "n = %d, [%g,%g]: derivative %d of node %d is %.12g, expected %.12g", n, a, b, k, j, yl[j][k], dx);
                      if (! (fabs(vl[j][k] - dw) < 1e-12 * (fabs(b - a) + 4))) V("gauss_leg_quad_fit_l", "n = %d, [%g,%g]: derivative %d of weight %d is %.12g, expected %.12g", n, a, b, k, j, vl[j][k], dw);
                 } }
            free_array2((void **) ul); free_array2((void **) sl); free(u); free(s); }
          free_array2((void **) xl); free_array2((void **) wl); free_array2((void **) yl); free_array2((void **) vl); free(y); free(v);
          /* the simple rules */
          if (n > 1) {
               free(x); free(w); x = vec(n); w = vec(n);
               trapezoidal_quad(n, a, b, x, w); rule("trapezoidal_quad", n, x, w, a, b, 1, 0, tol * cond);
               free(x); free(w); x = vec(n); w = vec(n);
          }
          extended_trapezoidal_quad(n, a, b, x, w); rule("extended_trapezoidal_quad", n, x, w, a, b, 1, 0, tol * cond);
          free(x); free(w); x = vec(n); w = vec(n);
          if (n != 1) {
               xh_quiet(); k = simpsons_rule_quad(n, a, b, x, w); xh_loud();
               if (! k != n % 2) V("simpsons_rule_quad", "n = %d: %s", n, k ? "refused" : "accepted");
               else if (! k) rule("simpsons_rule_quad", n, x, w, a, b, 3, 0, tol * cond);
          }
     }
     free(x); free(w);
}

/* d^l_mn of Wigner by its explicit sum, times i^(m-n) */
static ld lfact(int n) { ld s = 0; while (n > 1) s += logl(n--); return s; }
static ld wigner(int l, int m, int n, ld x) {
     int k; ld c = sqrtl((1 + x) / 2), s = sqrtl((1 - x) / 2), r = 0, f;
     if (l < abs(m) || l < abs(n)) return 0;
     f = (lfact(l + m) + lfact(l - m) + lfact(l + n) + lfact(l - n)) / 2;
     for (k = 0; k <= 2 * l; ++k) {
          int a = l + n - k, b = l - m - k, e = m - n + k, pc = 2 * l + n - m - 2 * k, ps = m - n + 2 * k;
          if (a < 0 || b < 0 || e < 0) continue;
          r += ((m - n + k) % 2 ? -1 : 1) * expl(f - lfact(a) - lfact(b) - lfact(k) - lfact(e)) * powl(c, pc) * powl(s, ps);
     }
     return r;
}
static const double mus[] = {-1, -.999, -.7, -.3, -1e-8, 0, .1, .5, .77, .99, 1};
#define NM N(mus)
#define PMAX 5
static int near_(double a, ld b, double tol) { return fabsl(a - b) <= tol; }
static void gsf(long c) {
     int p = c / (2 * PMAX + 1) - PMAX, q = c % (2 * PMAX + 1) - PMAX, r = abs(p) > abs(q) ? abs(p) : abs(q), n_l, l, i, lmax = mc_thorough ? 24 : 16, d = p - q; double mu[NM];
     dcomplex **z, *y;
     memcpy(mu, mus, sizeof(mus));
     mc_ctx("p=%d,q=%d", p, q);
     for (n_l = r + 1; n_l <= lmax; ++n_l) {
          mc_execs(1); mc_states(n_l * NM); mc_nontrivial(1); mc_transitions(2);
          z = (dcomplex **) alloc_array2(NM, n_l, sizeof(dcomplex));
          gen_spher_funcs2(p, q, NM, n_l, mu, z);
          for (i = 0; i < NM; ++i) for (l = 0; l < n_l; ++l) {
               ld w = wigner(l, p, q, mu[i]); dcomplex ip = ((d % 4) + 4) % 4 == 0 ? 1 : ((d % 4) + 4) % 4 == 1 ? _Complex_I : ((d % 4) + 4) % 4 == 2 ? -1 : -_Complex_I; dcomplex e = ip * (double) w;
               if (! (cabs(z[i][l] - e) < 1e-11)) { V("gen_spher_funcs2", "P^%d_%d,%d(%g) is %g%+gi, expected %g%+gi", l, p, q, mu[i], creal(z[i][l]), cimag(z[i][l]), creal(e), cimag(e)); goto out; }
          }
          y = malloc(n_l * sizeof(dcomplex));
          gen_spher_funcs(p, q, n_l, mu[3], y);
          for (l = 0; l < n_l; ++l) if (y[l] != z[3][l]) V("gen_spher_funcs", "P^%d_%d,%d differs from gen_spher_funcs2()", l, p, q);
          if (p == 0 && q >= 0) { gen_spher_funcs_0q(q, n_l, mu[3], y); for (l = 0; l < n_l; ++l) if (! (cabs(y[l] - z[3][l]) < 1e-12)) { V("gen_spher_funcs_0q", "P^%d_0,%d is %g%+gi, expected %g%+gi", l, q, creal(y[l]), cimag(y[l]), creal(z[3][l]), cimag(z[3][l])); break; } }
          if (q == 0 && p >= 0) { gen_spher_funcs_p0(p, n_l, mu[3], y); for (l = 0; l < n_l; ++l) if (! (cabs(y[l] - z[3][l]) < 1e-12)) { V("gen_spher_funcs_p0", "P^%d_%d,0 is %g%+gi, expected %g%+gi", l, p, creal(y[l]), cimag(y[l]), creal(z[3][l]), cimag(z[3][l])); break; } }
          free(y);
out:      free_array2((void **) z);
     }
}
static void leg(long c) {
     int n_l = c + 1, i, l, k, m; double mu[NM], **p = (double **) alloc_array2(NM, n_l, sizeof(double)), **q[4], *r[4]; ld a, b, e;
     memcpy(mu, mus, sizeof(mus));
     mc_ctx("n_l=%d", n_l); mc_execs(1); mc_states(n_l * NM); mc_transitions(n_l + 3); mc_nontrivial(1);
     leg_poly2(NM, n_l, mu, p);
     for (i = 0; i < NM; ++i) for (a = 1, b = mu[i], l = 0; l < n_l; ++l) {
          if (! near_(p[i][l], a, 1e-13 * (l + 10))) { V("leg_poly2", "P_%d(%g) is %.15g, expected %.15Lg", l, mu[i], p[i][l], a); break; }
          e = ((2 * l + 3) * (ld) mu[i] * b - (l + 1) * a) / (l + 2); a = b; b = e;
     }
     r[0] = vec(n_l);
     for (i = 0; i < NM; ++i) { leg_poly(n_l, mu[i], r[0]); for (l = 0; l < n_l; ++l) if (r[0][l] != p[i][l]) { V("leg_poly", "P_%d(%g) differs from leg_poly2()", l, mu[i]); break; } }
     free(r[0]);
     /* associated functions, normalized: d^l_m0; the factors are carried from one m to the next */
     { double cn = NAN, dn = NAN, cn2 = NAN, dn2 = NAN; r[0] = vec(n_l);
       for (m = 0; m < n_l && m < 24; ++m) {
            for (i = 0; i < NM; ++i) for (l = 0; l < n_l; ++l) p[i][l] = NAN;
            leg_poly_assoc2(m, NM, n_l, mu, &cn, &dn, p, 1);
            for (i = 0; i < NM && n_l <= 24; ++i) for (l = 0; l < n_l; ++l) { e = wigner(l, m, 0, mu[i]); if (! near_(p[i][l], e, 1e-11)) { V("leg_poly_assoc2", "Y_%d^%d(%g) is %.12g, expected %.12Lg", l, m, mu[i], p[i][l], e); i = NM; break; } }
            leg_poly_assoc(m, n_l, mu[2], &cn2, &dn2, r[0], 1);
            for (l = 0; l < n_l; ++l) if (r[0][l] != p[2][l]) { V("leg_poly_assoc", "Y_%d^%d differs from leg_poly_assoc2()", l, m); break; }
            leg_poly_assoc(m, n_l, mu[2], &cn2, &dn2, r[0], 0);
            for (l = 0; l < n_l; ++l) if (r[0][l] != p[2][l]) { V("leg_poly_assoc", "Y_%d^%d differs when the factors are there already", l, m); break; }
       }
       free(r[0]); }
     /* the four functions of a phase matrix */
     for (k = 0; k < 4; ++k) { q[k] = (double **) alloc_array2(NM, n_l, sizeof(double)); r[k] = vec(n_l); }
     gen_spher_funcs_prt2(NM, n_l, mu, q[0], q[1], q[2], q[3]);
     for (k = 0; k < 4; ++k) { static const int P[] = {0, 0, 2, 2}, Q[] = {0, 2, 2, -2}; static const int sgn[] = {1, -1, 1, 1};
          for (i = 0; i < NM && n_l <= 24; ++i) for (l = 0; l < n_l; ++l) { e = sgn[k] * wigner(l, P[k], Q[k], mu[i]); if (! near_(q[k][i][l], e, 1e-11)) { V("gen_spher_funcs_prt2", "P^%d_%d,%d(%g) is %.12g, expected %.12Lg", l, P[k], Q[k], mu[i], q[k][i][l], e); i = NM; break; } } }
     for (i = 0; i < NM; ++i) { gen_spher_funcs_prt(n_l, mu[i], r[0], r[1], r[2], r[3]); for (k = 0; k < 4; ++k) for (l = 0; l < n_l; ++l) if (r[k][l] != q[k][i][l]) { V("gen_spher_funcs_prt", "function %d, l = %d differs from gen_spher_funcs_prt2()", k, l); i = NM; k = 4; break; } }
     for (k = 0; k < 4; ++k) { free_array2((void **) q[k]); free(r[k]); }
     /* orthogonality, with a rule which is exact for the products */
     if (n_l >= 2 && n_l <= 200) {
          int n = n_l + 1; double *x = vec(n), *w = vec(n), **z[4]; int k2, l2;
          gauss_leg_quadx(n, -1, 1, x, w);
          for (k = 0; k < 4; ++k) z[k] = (double **) alloc_array2(n, n_l, sizeof(double));
          gen_spher_funcs_prt2(n, n_l, x, z[0], z[1], z[2], z[3]);
          free_array2((void **) p); p = (double **) alloc_array2(n, n_l, sizeof(double)); leg_poly2(n, n_l, x, p);
          for (k = 0; k < 5; ++k) for (l = 0; l < n_l; ++l) for (l2 = n_l <= 32 ? 0 : l; l2 < n_l; l2 += n_l <= 32 || l2 < l + 2 ? 1 : 7) {
               double **f = k < 4 ? z[k] : p; ld s = 0, want = l == l2 && (l >= 2 || k == 0 || k == 4) ? 2. / (2 * l + 1) : 0;
               for (k2 = 0; k2 < n; ++k2) s += (ld) w[k2] * f[k2][l] * f[k2][l2];
               if (! (fabsl(s - want) < 1e-10)) { V(k < 4 ? "gen_spher_funcs_prt2" : "leg_poly2", "function %d: the product of l = %d and %d integrates to %Lg, expected %Lg", k, l, l2, s, want); l = n_l; break; }
          }
          for (k = 0; k < 4; ++k) free_array2((void **) z[k]);
          free(x); free(w);
     }
     free_array2((void **) p);
}

/* the quadratures an instance uses, as it returns them */
static void instance(long c) {
     static const unsigned q[] = {XRTM_OPTION_QUAD_NORM_GAUS_LEG, XRTM_OPTION_QUAD_DOUB_GAUS_LEG, 0}; int n = c / 3 + 1, i, umus, st; double *x, *w, x2[2 * NMAX], w2[2 * NMAX]; xh_cfg f; xrtm_data d; xh_in in;
     for (umus = 0; umus < 3; ++umus) for (st = 1; st <= 4; st += 3) {
          memset(&f, 0, sizeof(f));
          f.options = XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_SOURCE_SOLAR | q[c % 3] | (st > 1 ? XRTM_OPTION_VECTOR : 0); f.solvers = XRTM_SOLVER_EIG_ADD; f.n_coef = 3; f.n_quad = n; f.n_stokes = st; f.n_layers = 1; f.n_kernels = 1; f.n_kernel_quad = n; f.kernels[0] = XRTM_KERNEL_LI_SPARSE; f.n_out_levels = 1; f.n_phis = 1; f.n_out_thetas = umus;
          xh_default_in(&f, &in);
          mc_ctx("instance,%ld,%d,%d", c, umus, st); mc_execs(1); mc_states(1);
          if (xh_create(&f, &d)) { V("instance", "xrtm_create()"); return; }
          x = vec(n + umus); w = vec(n + umus);
          xrtm_qx(&d, x); xrtm_qw(&d, w);
          if (q[c % 3] & XRTM_OPTION_QUAD_NORM_GAUS_LEG) {
               for (i = 0; i < n; ++i) { x2[n + i] = x[i]; w2[n + i] = w[i]; x2[n - 1 - i] = -x[i]; w2[n - 1 - i] = w[i]; }
               rule("xrtm_qx", 2 * n, x2, w2, -1, 1, 4 * n - 1, 1, 2e-12);
          }
          else rule("xrtm_qx", n, x, w, 0, 1, 2 * n - 1, 1, 1e-12);
          free(x); free(w); x = vec(n); w = vec(n);
          xrtm_kernel_qx(&d, x); xrtm_kernel_qw(&d, w);
          for (i = 0; i < n; ++i) w[i] *= M_PI;
          rule("xrtm_kernel_qx", n, x, w, 0, M_PI, 2 * n - 1, 1, 1e-12);
          free(x); free(w); xrtm_destroy(&d);
     }
}

int main(int argc, char **argv) {
     mc_init(argc, argv);
     mc_family("gauss", mc_thorough ? NMAX : 100, gauss, 60);
     mc_family("functions", (2 * PMAX + 1) * (2 * PMAX + 1), gsf, 60);
     mc_family("legendre", mc_thorough ? 200 : 64, leg, 60);
     mc_family("instance", 3 * (mc_thorough ? 40 : 16), instance, 60);
     return mc_done();
}
