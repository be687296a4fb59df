#include "ref.h"
#define NQ 8
#define NA (2 * NQ + 3)
#define RO(x) XRTM_OPTION_##x
static int nq, na;                  /* quadrature angles; with zero weight angles */
static double mu[NQ], w[NQ], qf;

static double leg(int n, double x, double *d) {
     double a = 1., b = x, c; int k;
     if (n == 0) { if (d) *d = 0.; return 1.; }
     for (k = 2; k <= n; ++k) { c = ((2 * k - 1) * x * b - (k - 1) * a) / k; a = b; b = c; }
     if (d) *d = n * (x * b - a) / (x * x - 1.);
     return b;
}
static void gauss(int n, double *x, double *wt) {
     int i, k; double z, d;
     for (i = 0; i < n; ++i) {
          z = cos(M_PI * (i + .75) / (n + .5));
          for (k = 0; k < 100; ++k) { double p = leg(n, z, &d); z -= p / d; }
          leg(n, z, &d); x[i] = z; wt[i] = 2. / ((1. - z * z) * d * d);
     }
}
static void mm(int n, double a[NA][NA], double b[NA][NA], double c[NA][NA]) {
     int i, j, k; static double t[NA][NA];
     for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { double s = 0.; for (k = 0; k < n; ++k) s += a[i][k] * b[k][j]; t[i][j] = s; }
     for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) c[i][j] = t[i][j];
}
static void mexp(int n, double a[NA][NA], double f, double e[NA][NA]) {
     static double t[NA][NA], b[NA][NA]; int i, j, k, s = 0; double nm = 0.;
     for (i = 0; i < n; ++i) { double r = 0.; for (j = 0; j < n; ++j) r += fabs(a[i][j] * f); if (r > nm) nm = r; }
     while (nm > .5) { nm /= 2; s++; }
     for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { b[i][j] = a[i][j] * f / pow(2., s); e[i][j] = t[i][j] = i == j; }
     for (k = 1; k < 18; ++k) { mm(n, t, b, t); for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { t[i][j] /= k; e[i][j] += t[i][j]; } }
     while (s--) mm(n, e, e, e);
}
static double pf(int n, const double *c, double x) { int l; double s = 0.; for (l = 0; l < n; ++l) s += c[l] * leg(l, x, NULL); return s; }
/* Fourier component m of the phase function between directions of cosines a and b */
static double pm(int m, int n, const double *c, double a, double b) {
     int k, N = 2 * (m + n) + 2; double s = 0.;
     for (k = 0; k < N; ++k) { double f = 2. * M_PI * k / N; s += cos(m * f) * pf(n, c, a * b + sqrt((1. - a * a) * (1. - b * b)) * cos(f)); }
     return s / N * (m ? 2. : 1.);
}
static int lu(int n, double *a, double *b) {
     int i, j, k, p;
     for (k = 0; k < n; ++k) {
          double *ak; int hi = n;
          for (p = k, i = k + 1; i < n; ++i) if (fabs(a[i * n + k]) > fabs(a[p * n + k])) p = i;
          if (a[p * n + k] == 0.) return 1;
          if (p != k) { for (j = k; j < n; ++j) { double t = a[k * n + j]; a[k * n + j] = a[p * n + j]; a[p * n + j] = t; } { double t = b[k]; b[k] = b[p]; b[p] = t; } }
          ak = a + k * n;
          for (i = k + 1; i < n; ++i) if (a[i * n + k] != 0.) { double f = a[i * n + k] / ak[k]; for (j = k; j < hi; ++j) a[i * n + j] -= f * ak[j]; b[i] -= f * b[k]; }
     }
     for (i = n - 1; i >= 0; --i) { for (j = i + 1; j < n; ++j) b[i] -= a[i * n + j] * b[j]; b[i] /= a[i * n + i]; }
     return 0;
}
/* the atmosphere, delta-M scaled */
static struct { int nl, n[ML], nt[ML]; double tau[ML], om[ML], c[ML][MC], f[ML], mu0, F0, as[ML], bt[ML + 1]; int nk; double rho; } A;
static double tau_of(const xh_cfg *c, const xh_in *in, int k, int *lay, double *frac) {
     int i; double t, s;
     if (c->options & RO(OUTPUT_AT_LEVELS)) { *lay = in->out_levels[k] < A.nl ? in->out_levels[k] : A.nl - 1; *frac = in->out_levels[k] == A.nl ? 1. : 0.; }
     else { t = in->out_taus[k]; for (i = 0; i < A.nl - 1 && t > in->ltau[i]; ++i) t -= in->ltau[i]; *lay = i; *frac = t / in->ltau[i]; if (*frac > 1.) *frac = 1.; }
     for (s = 0., i = 0; i < *lay; ++i) s += A.tau[i];
     return s + *frac * A.tau[*lay];
}
static int setup(const xh_cfg *c, const xh_in *in) {
     int i, j, k, n2 = 2 * c->n_quad;
     double x[2 * NQ], wt[2 * NQ], s;
     if (c->n_stokes != 1 || c->n_kernels > 1 || (c->n_kernels == 1 && c->kernels[0] != XRTM_KERNEL_LAMBERTIAN)) return 1;
     nq = c->n_quad; na = nq + c->n_out_thetas;
     if (na > NQ) return 1;
     if (c->options & RO(QUAD_NORM_GAUS_LEG)) { gauss(2 * nq, x, wt); for (i = 0; i < nq; ++i) { mu[i] = x[i]; w[i] = wt[i]; } }
     else { gauss(nq, x, wt); for (i = 0; i < nq; ++i) { mu[i] = (x[i] + 1.) / 2.; w[i] = wt[i] / 2.; } }
     for (i = 0; i < nq; ++i) for (j = i + 1; j < nq; ++j) if (mu[j] < mu[i]) { s = mu[i]; mu[i] = mu[j]; mu[j] = s; s = w[i]; w[i] = w[j]; w[j] = s; }
     for (s = 0., i = 0; i < nq; ++i) s += mu[i] * w[i];
     qf = .5 / s;
     for (i = 0; i < c->n_out_thetas; ++i) { mu[nq + i] = cos(in->out_thetas[i] * M_PI / 180.); w[nq + i] = 0.; }
     A.nl = c->n_layers; A.mu0 = cos(in->theta_0 * M_PI / 180.); A.F0 = c->options & RO(SOURCE_SOLAR) ? in->F_0 : 0.;
     A.nk = c->n_kernels; A.rho = A.nk ? in->ampfac[0] : 0.;
     for (i = 0; i < A.nl; ++i) {
          double om = in->omega[i] > 1. - 1.e-5 ? 1. - 1.e-5 : in->omega[i], f = 0.;
          A.n[i] = in->n_coef[i];
          if (c->options & RO(DELTA_M) && in->n_coef[i] > n2) f = in->coef[i][0][n2] / (2. * n2 + 1.);
          A.nt[i] = A.n[i] < n2 ? A.n[i] : n2;
          for (j = 0; j < A.n[i]; ++j) A.c[i][j] = (in->coef[i][0][j] - f * (2. * j + 1.)) / (1. - f);
          A.f[i] = f;
          A.om[i] = (1. - f) * om / (1. - f * om); A.tau[i] = (1. - f * om) * in->ltau[i];
     }
     A.bt[0] = 0.;
     for (i = 0; i < A.nl; ++i) {
          if (! (c->options & RO(PSA))) A.as[i] = 1. / A.mu0;
          else {
               double s2 = 1. - A.mu0 * A.mu0, rb = in->planet_r + in->levels_z[i + 1], b = 0.;
               for (k = 0; k <= i; ++k) { double r0 = in->planet_r + in->levels_z[k], r1 = in->planet_r + in->levels_z[k + 1];
                    b += A.tau[k] / (r0 - r1) * (sqrt(r0 * r0 - rb * rb * s2) - sqrt(r1 * r1 - rb * rb * s2)); }
               A.as[i] = (b - A.bt[i]) / A.tau[i];
          }
          A.bt[i + 1] = A.bt[i] + A.as[i] * A.tau[i];
     }
     return 0;
}
/* exact single scattering with the phase function of n coefficients c[] of each layer */
static double ss(int up, int lay, double frac, double m1, double phi, int full, const xh_in *in) {
     int l; double v = 0., C = (up ? -1. : 1.) * m1 * A.mu0 + sqrt((1. - m1 * m1) * (1. - A.mu0 * A.mu0)) * cos(phi * M_PI / 180.), d = 0.;   /* d: optical depth from the point of output */
     if (up) for (l = lay; l < A.nl; ++l) {
          double f0 = l == lay ? frac : 0., t = (1. - f0) * A.tau[l], a = A.as[l] + 1. / m1;
          double p = full ? pf(in->n_coef[l], in->coef[l][0], C) / (1. - A.f[l]) : pf(A.nt[l], A.c[l], C);
          v += A.om[l] * p * exp(-A.bt[l] - A.as[l] * f0 * A.tau[l]) * exp(-d / m1) * (-expm1(-a * t)) / a / m1;
          d += t;
     }
     else for (l = lay; l >= 0; --l) {
          double f1 = l == lay ? frac : 1., t = f1 * A.tau[l], a = 1. / m1 - A.as[l];
          double p = full ? pf(in->n_coef[l], in->coef[l][0], C) / (1. - A.f[l]) : pf(A.nt[l], A.c[l], C);
          v += A.om[l] * p * exp(-A.bt[l]) * exp(-d / m1) * exp(-A.as[l] * t) * (fabs(a * t) < 1.e-9 ? t : -expm1(-a * t) / a) / m1;
          d += t;
     }
     return v * A.F0 / 4. / M_PI;
}
int ref_single(const xh_cfg *c, const xh_in *in, xh_out *o) {
     int k, i, p, up, lay, l; double frac, d;
     if (setup(c, in) || c->options & (RO(DELTA_M) | RO(SOURCE_THERMAL))) return 1;
     for (i = 0; i < XH_MAXOUT; ++i) o->v[i] = -999.;
     o->rc = 0;
     for (k = 0; k < c->n_out_levels; ++k) {
          double t = tau_of(c, in, k, &lay, &frac), T = 0.;
          for (l = 0; l < A.nl; ++l) T += A.tau[l];
          for (i = 0; i < xh_nth(c); ++i) for (p = 0; p < c->n_phis; ++p) for (up = 0; up < 2; ++up) {
               double m1 = mu[c->n_out_thetas ? nq + i : i], v;
               d = up ? T - t : t;
               v = ss(up, lay, frac, m1, in->phis[p] - in->phi_0, 1, in);
               v += exp(-d / m1) * (up ? in->F_iso_bot + A.rho * A.mu0 * A.F0 / M_PI * exp(-A.bt[A.nl]) : in->F_iso_top);
               o->v[xh_i_I(c, up ? 0 : 1, k, i, p, 0)] = v;
          }
     }
     return 0;
}
int ref_run(const xh_cfg *c, const xh_in *in, xh_out *o) {
     int i, j, k, l, m, n, nsub = 0, first[ML + 1], nm, dim; int lay; double frac, t; static double P[2][NQ][NQ];
     static double M[NA][NA], E[NA][NA]; double *B, *b, thermal = c->options & RO(SOURCE_THERMAL) ? 1. : 0.;
     if (setup(c, in)) return 1;
     for (first[0] = 0, l = 0; l < A.nl; ++l) { n = 1 + A.tau[l] / (3. * mu[0]); for (i = nq; i < na; ++i) if (1 + A.tau[l] / (6. * mu[i]) > n) n = 1 + A.tau[l] / (6. * mu[i]); nsub += n; first[l + 1] = nsub; }
     dim = 2 * na * (nsub + 1);
     if (dim > 400) return 1;
     B = malloc(sizeof(double) * dim * dim); b = malloc(sizeof(double) * dim);
     for (i = 0; i < XH_MAXOUT; ++i) o->v[i] = -999.;
     o->rc = 0;
     nm = A.F0 == 0. || c->options & RO(NO_AZIMUTHAL) ? 1 : 2 * nq;
     for (k = 0; k < c->n_out_levels; ++k) for (i = 0; i < xh_nth(c); ++i) for (j = 0; j < c->n_phis; ++j) o->v[xh_i_I(c, 0, k, i, j, 0)] = o->v[xh_i_I(c, 1, k, i, j, 0)] = 0.;
     for (m = 0; m < nm; ++m) {
          /* x = (I+, I-, beam, planck, 1) ; dx/dtau = M x */
          int N = 2 * na, nx = N + 3;
          for (i = 0; i < dim * dim; ++i) B[i] = 0.;
          for (i = 0; i < dim; ++i) b[i] = 0.;
          for (i = 0; i < na; ++i) {   /* top: I-; bottom: I+ - rho 2 sum mu w I- */
               B[i * dim + na + i] = 1.; b[i] = m == 0 ? in->F_iso_top : 0.;
               j = dim - na + i;
               B[j * dim + nsub * N + i] = 1.;
               if (m == 0) {
                    for (k = 0; k < nq; ++k) B[j * dim + nsub * N + na + k] -= 2. * qf * A.rho * mu[k] * w[k];
                    b[j] = in->F_iso_bot + qf * A.rho * A.mu0 * A.F0 / M_PI * exp(-A.bt[A.nl]) + (A.nk ? thermal * in->surface_b * (1. - A.rho) : 0.);
               }
          }
          for (l = 0; l < A.nl; ++l) {
               int n = first[l + 1] - first[l]; double dt = A.tau[l] / n;
               double p0p[NQ], p0m[NQ];
               double a = A.om[l] / 2. / (m ? 2. : 1.);
               for (i = 0; i < na; ++i) for (j = 0; j < nq; ++j) { P[0][i][j] = pm(m, A.nt[l], A.c[l], mu[i], mu[j]); P[1][i][j] = pm(m, A.nt[l], A.c[l], mu[i], -mu[j]); }
               for (i = 0; i < na; ++i) { p0p[i] = pm(m, A.nt[l], A.c[l], mu[i], -A.mu0); p0m[i] = pm(m, A.nt[l], A.c[l], mu[i], A.mu0); }
               memset(M, 0, sizeof(M));
               for (i = 0; i < na; ++i) {
                    for (j = 0; j < nq; ++j) { double x = a * w[j] / mu[i];
                         M[i][j] -= x * P[0][i][j]; M[i][na + j] -= x * P[1][i][j];
                         M[na + i][j] += x * P[1][i][j]; M[na + i][na + j] += x * P[0][i][j]; }
                    M[i][i] += 1. / mu[i]; M[na + i][na + i] -= 1. / mu[i];
                    M[i][N] = -A.om[l] * A.F0 / 4. / M_PI * p0p[i] / mu[i];
                    M[na + i][N] = A.om[l] * A.F0 / 4. / M_PI * p0m[i] / mu[i];
                    M[i][N + 1] = -(1. - A.om[l]) / mu[i]; M[na + i][N + 1] = (1. - A.om[l]) / mu[i];
               }
               M[N][N] = -A.as[l];
               M[N + 1][N + 2] = m == 0 ? thermal * (in->levels_b[l + 1] - in->levels_b[l]) / A.tau[l] : 0.;
               mexp(nx, M, dt, E);
               for (k = 0; k < n; ++k) {
                    int s = first[l] + k, r = na + s * N; double e = exp(-A.bt[l] - A.as[l] * k * dt), pl = m == 0 ? thermal * (in->levels_b[l] + (in->levels_b[l + 1] - in->levels_b[l]) * k / n) : 0.;
                    for (i = 0; i < N; ++i) {
                         B[(r + i) * dim + (s + 1) * N + i] = 1.;
                         for (j = 0; j < N; ++j) B[(r + i) * dim + s * N + j] -= E[i][j];
                         b[r + i] = E[i][N] * e + E[i][N + 1] * pl + E[i][N + 2];
                    }
               }
          }
          if (lu(dim, B, b)) { free(B); free(b); return 1; }
          for (k = 0; k < c->n_out_levels; ++k) {
               double x[NA], y[NA]; int s, nn; double at, rem;
               t = tau_of(c, in, k, &lay, &frac); nn = first[lay + 1] - first[lay];
               at = frac * nn; s = (int) at; if (s == nn) s--; rem = (at - s) * A.tau[lay] / nn;
               {    /* rebuild the layer's matrix */
                    double a = A.om[lay] / 2. / (m ? 2. : 1.);
                    memset(M, 0, sizeof(M));
                    for (i = 0; i < na; ++i) {
                         for (j = 0; j < nq; ++j) { double z = a * w[j] / mu[i], pp = pm(m, A.nt[lay], A.c[lay], mu[i], mu[j]), qq = pm(m, A.nt[lay], A.c[lay], mu[i], -mu[j]);
                              M[i][j] -= z * pp; M[i][na + j] -= z * qq; M[na + i][j] += z * qq; M[na + i][na + j] += z * pp; }
                         M[i][i] += 1. / mu[i]; M[na + i][na + i] -= 1. / mu[i];
                         M[i][N] = -A.om[lay] * A.F0 / 4. / M_PI * pm(m, A.nt[lay], A.c[lay], mu[i], -A.mu0) / mu[i];
                         M[na + i][N] = A.om[lay] * A.F0 / 4. / M_PI * pm(m, A.nt[lay], A.c[lay], mu[i], A.mu0) / mu[i];
                         M[i][N + 1] = -(1. - A.om[lay]) / mu[i]; M[na + i][N + 1] = (1. - A.om[lay]) / mu[i];
                    }
                    M[N][N] = -A.as[lay];
                    M[N + 1][N + 2] = m == 0 ? thermal * (in->levels_b[lay + 1] - in->levels_b[lay]) / A.tau[lay] : 0.;
               }
               mexp(nx, M, rem, E);
               for (i = 0; i < N; ++i) x[i] = b[(first[lay] + s) * N + i];
               x[N] = exp(-A.bt[lay] - A.as[lay] * s * A.tau[lay] / nn); x[N + 1] = m == 0 ? thermal * (in->levels_b[lay] + (in->levels_b[lay + 1] - in->levels_b[lay]) * s / nn) : 0.; x[N + 2] = 1.;
               for (i = 0; i < nx; ++i) { y[i] = 0.; for (j = 0; j < nx; ++j) y[i] += E[i][j] * x[j]; }
               for (i = 0; i < xh_nth(c); ++i) for (j = 0; j < c->n_phis; ++j) {
                    double z = cos(m * (in->phis[j] - in->phi_0) * M_PI / 180.); int q = c->n_out_thetas ? nq + i : i;
                    o->v[xh_i_I(c, 0, k, i, j, 0)] += y[q] * z; o->v[xh_i_I(c, 1, k, i, j, 0)] += y[na + q] * z;
               }
               if (m == 0) {
                    double fp = 0., fm = 0., mp = 0., mmn = 0.;
                    for (i = 0; i < nq; ++i) { fp += mu[i] * w[i] * y[i]; fm += mu[i] * w[i] * y[na + i]; mp += w[i] * y[i]; mmn += w[i] * y[na + i]; }
                    o->v[xh_i_M(c, 2, k)] = 2. * M_PI * fp; o->v[xh_i_M(c, 3, k)] = 2. * M_PI * fm + A.mu0 * A.F0 * y[N];
                    o->v[xh_i_M(c, 0, k)] = mp / 2.; o->v[xh_i_M(c, 1, k)] = mmn / 2. + A.F0 / 4. / M_PI * y[N];
               }
          }
     }
     if (c->options & RO(N_T_TMS) && A.F0 != 0.) for (k = 0; k < c->n_out_levels; ++k) {
          tau_of(c, in, k, &lay, &frac);
          for (i = 0; i < xh_nth(c); ++i) for (j = 0; j < c->n_phis; ++j) { double m1 = mu[c->n_out_thetas ? nq + i : i], ph = in->phis[j] - in->phi_0;
               o->v[xh_i_I(c, 0, k, i, j, 0)] += ss(1, lay, frac, m1, ph, 1, in) - ss(1, lay, frac, m1, ph, 0, in);
               o->v[xh_i_I(c, 1, k, i, j, 0)] += ss(0, lay, frac, m1, ph, 1, in) - ss(0, lay, frac, m1, ph, 0, in); }
     }
     free(B); free(b);
     return 0;
}
