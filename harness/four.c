/* C31: a Fourier tolerance only cuts the series in azimuth. For each scenario the terms of the series are
   taken apart from solutions at enough azimuths, the terms at which each tolerance may cut the series follow
   from them, and a solution is made for a tolerance between every two sizes of terms. */
#include "scen.h"
#include "mc.h"
#include <math.h>
#include <unistd.h>
#define RO(x) XRTM_OPTION_##x
#define RS(x) XRTM_SOLVER_##x
static scen s; static xh_cfg c; static xh_in in;
static xh_out full, cut0, o;
static int M;
#define NG 2000                                  /* groups of values at all azimuths: direction, level, angle, Stokes, derivative or none */
static int gi[NG], gst[NG], gder[NG], gdn[NG], ng;        /* index of the first azimuth's value in the output, its Stokes component */
static double sc[NG], T[NG][MC + 1], F[NG][MC + 1], C[MC + 1];
static int stride;
/* modes of values at azimuths (k + .5) pi / M: of cos(m x), or of sin((m + 1) x) kept at m + 1 */
static void modes(const double *v, int st, double *m) {
     int i, k; for (i = 0; i <= M; ++i) { m[i] = 0.; if (st < 2 ? i == M : i == 0) continue;
     for (k = 0; k < M; ++k) m[i] += v[k] * (st < 2 ? cos(i * (k + .5) * M_PI / M) : sin(i * (k + .5) * M_PI / M)); m[i] *= (st < 2 ? i == 0 : i == M) ? 1. / M : 2. / M; }
}
static double term(double a, int m, int st, int k) { return a * (st < 2 ? cos(m * (k + .5) * M_PI / M) : sin(m * (k + .5) * M_PI / M)); }
static void diff(const xh_out *x, const xh_out *y, int g, double *m) { double v[MC + 1]; int k; for (k = 0; k < M; ++k) v[k] = x->v[gi[g] + k * stride] - y->v[gi[g] + k * stride]; modes(v, gst[g], m); }
static int solve(double tol, xh_out *q) { in.fourier_tol = tol; return xh_fresh_run(&c, &in, s.solver, s.sols & 7, 0, q) || q->rc; }
static const char *V(const char *w) { static char b[100]; snprintf(b, sizeof(b), "%s|%s|%s", w, xh_solver_name(s.solver), c.options & RO(N_T_TMS) ? c.options & RO(FOUR_CONV_OLD) ? "tms old" : "tms" : "plain"); return b; }
static int first(const xh_out *q, double eps) {   /* first term that q lacks; M + 1 if none */
     int g, m, f = M + 1; double d[MC + 1];
     for (g = 0; g < ng; ++g) { diff(&full, q, g, d); for (m = 0; m < f; ++m) if (fabs(d[m]) > eps * sc[g]) f = m; }
     return f;
}
static void one(long idx) {
     int pm, l, t, st, k, g, m, j, nf, n, kn, cm; double e[MC + 2], tols[MC + 4], d[MC + 1], eps; int known[MC + 2], nt = 0, z[MC + 1], nz;
     if (sc_get(idx, &s)) return;
     if (! (s.sols & XRTM_OUTPUT_RADIANCE) || s.solver == RS(SINGLE) || s.c.options & RO(NO_AZIMUTHAL)) return;
     c = s.c; in = s.in; M = c.n_coef; c.n_phis = M; in.dphi = 0.;
     if (M > MP) return;
     for (k = 0; k < M; ++k) in.phis[k] = in.phi_0 + (k + .5) * 180. / M;
     mc_ctx("%s", s.name);
     if (solve(0., &full)) return;
     mc_states(1); mc_execs(1);
     stride = M > 1 ? xh_i_I(&c, 0, 0, 0, 1, 0) - xh_i_I(&c, 0, 0, 0, 0, 0) : 1;
     ng = 0;
     for (pm = 0; pm < 2; ++pm) { if (! (c.options & (pm ? RO(DOWNWELLING_OUTPUT) : RO(UPWELLING_OUTPUT))) && c.options & (RO(DOWNWELLING_OUTPUT) | RO(UPWELLING_OUTPUT))) continue;
     for (l = 0; l < c.n_out_levels; ++l) for (t = 0; t < xh_nth(&c); ++t) for (st = 0; st < c.n_stokes; ++st) for (j = -1; j < (c.options & RO(CALC_DERIVS) ? c.n_derivs : 0); ++j) if (ng < NG) {
          gi[ng] = j < 0 ? xh_i_I(&c, pm, l, t, 0, st) : xh_i_Il(&c, pm, l, j, t, 0, st);
          gst[ng] = st; gder[ng] = j; gdn[ng] = pm; ng++;
     } }
     for (g = 0; g < ng; ++g) { int g0 = g; while (gst[g0] || gder[g0] != gder[g]) g0--; if (g0 == g) { sc[g] = 1.e-14; for (k = 0; k < M; ++k) if (fabs(full.v[gi[g] + k * stride]) > sc[g]) sc[g] = fabs(full.v[gi[g] + k * stride]); } else sc[g] = sc[g0]; }
     eps = 1.e-9;
#define SAME(q, what, text) do { for (k = 0; k < (nz ? xh_i_Il(&c, 0, 0, 0, 0, 0, 0) : full.n); ++k) if (! (fabs((q).v[k] - full.v[k]) <= 1.e-8 * (fabs(full.v[k]) + 1.e-5))) { mc_viol(V(what), "%s: %s: value %d is %.12g, not %.12g", s.name, text, k, (q).v[k], full.v[k]); break; } } while (0)
     /* without two terms of the radiances the derivatives' are not asked for */
     for (m = 0; m <= M; ++m) { z[m] = 1; for (g = 0; g < ng; ++g) if (gder[g] < 0) { double v[MC + 1]; for (k = 0; k < M; ++k) v[k] = full.v[gi[g] + k * stride]; modes(v, gst[g], d); if (fabs(d[m]) > 1.e-13 * sc[g]) z[m] = 0; } }
     for (m = 2, nz = 0; m < M; ++m) if (z[m] && z[m - 1]) nz = 1;
     /* no term is smaller than this */
     if (solve(1.e-300, &o)) { mc_viol(V("fails"), "%s: tolerance 1e-300", s.name); return; }
     mc_execs(1);
     /* Known: with the corrections summed first, the modes of the surface's direct reflection are lost from one on
        (upwelling only). Where there can be some, the solution without them stands for the series, if it lacks no other. */
     for (k = 0, m = 0; k < c.n_kernels; ++k) m |= c.kernels[k] != XRTM_KERNEL_LAMBERTIAN;
     if (m && c.options & RO(N_T_TMS) && ! (c.options & RO(FOUR_CONV_OLD)) && c.options & RO(SOURCE_SOLAR)) {
          for (g = 0, m = 0, n = 0; g < ng; ++g) { diff(&full, &o, g, d); for (k = 0; k <= M; ++k) if (fabs(d[k]) > 1.e-8 * sc[g]) { if (gdn[g] || k == 0) m = 1; else n = 1; } }
          if (! m && n) { mc_viol(V("surface modes lost"), "%s: tolerance 1e-300 lacks modes of the upwelling radiance from one on", s.name); full = o; }
     }
     SAME(o, "tiny", "tolerance 1e-300 against 0");
     /* no term is larger than this: the series is cut after the third */
     if (solve(1.e300, &cut0)) { mc_viol(V("fails"), "%s: tolerance 1e300", s.name); return; }
     mc_execs(1);
     cm = first(&cut0, eps);
     if (cm < 3) { mc_viol(V("cut"), "%s: tolerance 1e300: term %d is left out", s.name, cm); return; }
     for (g = 0; g < ng; ++g) { diff(&full, &cut0, g, T[g]); { double v[MC + 1]; for (k = 0; k < M; ++k) v[k] = full.v[gi[g] + k * stride]; modes(v, gst[g], F[g]); } }
     kn = ! (c.options & RO(N_T_TMS)) ? 0 : 3;    /* terms from here on are known */
     if (! kn) for (g = 0; g < ng; ++g) for (m = 0; m <= M; ++m) {
          if (m >= 3 && fabs(T[g][m] - F[g][m]) > 1.e-8 * sc[g]) { mc_viol(V("terms"), "%s: tolerance 1e300: lacks %.12g of term %d, which is %.12g", s.name, T[g][m], m, F[g][m]); return; }
          T[g][m] = F[g][m];
     }
     /* sizes of the terms, as the rule has them: largest ratio of a term to the sum up to it */
     nf = 0;
     for (m = 0; m <= M; ++m) for (g = 0; g < ng; ++g) if (gder[g] < 0 && fabs(T[g][m]) > 1.e-9 * sc[g]) nf = m + 1;
     for (m = 0; m <= M + 1; ++m) { e[m] = 0.; known[m] = m >= kn; }
     for (g = 0; g < ng; ++g) if (gder[g] < 0 && gst[g] == 0) for (k = 0; k < M; ++k) {
          if (sc[g] <= 1.e-13) { if (full.v[gi[g] + k * stride] != 0.) memset(known, 0, sizeof(known)); break; }   /* noise decides */
          double S = full.v[gi[g] + k * stride];
          for (m = M; m >= kn && m > 0; --m) { double x = term(T[g][m], m, 0, k); if (fabs(T[g][m]) > 1.e-12 * sc[g]) { if (fabs(S) < 1.e-6 * sc[g]) known[m] = 0; else if (fabs(x / S) > e[m]) e[m] = fabs(x / S); } S -= x; }
     }
     /* a tolerance between every two sizes */
     for (m = kn > 1 ? kn : 1; m < nf; ++m) if (e[m] > 1.e-8) tols[nt++] = e[m];
     for (j = 0; j < nt; ++j) for (k = j + 1; k < nt; ++k) if (tols[k] > tols[j]) { double x = tols[j]; tols[j] = tols[k]; tols[k] = x; }
     for (j = 0, n = 0; j < nt; ++j) { double x = j + 1 < nt ? sqrt(tols[j] * tols[j + 1]) : tols[j] * .5; if (x < tols[j] * .999 && (j + 1 == nt || x > tols[j + 1] * 1.001)) C[n++] = x; }
     if (nt && ! mc_thorough && n > 5) { double keep[5]; for (j = 0; j < 5; ++j) keep[j] = C[j * (n - 1) / 4]; memcpy(C, keep, sizeof(keep)); n = 5; }
     mc_transitions(1);
     for (j = 0; j < n; ++j) {
          double tol = C[j]; int f, cs; long miss = 0;
          if (solve(tol, &o)) { mc_viol(V("fails"), "%s: tolerance %.3g", s.name, tol); return; }
          mc_execs(1); mc_transitions(1);
          f = first(&o, eps);
          /* what it lacks are whole terms, from one on */
          for (g = 0; g < ng && ! miss; ++g) { diff(&full, &o, g, d);
               for (m = 0; m <= M; ++m) { double x = m < f ? 0. : T[g][m]; if (fabs(d[m] - x) > 1.e-8 * sc[g]) { mc_viol(V(gder[g] < 0 ? "terms" : "derivative terms"), "%s: tolerance %.3g: cut at term %d, lacks %.12g of term %d, which is %.12g (scale %.3g)", s.name, tol, f, d[m], m, T[g][m], sc[g]); miss = 1; break; } } }
          /* where it may be cut */
          if (f < nf) for (m = f - 1; m >= f - 2; --m) if (m < 1 || (known[m] && e[m] > tol * 1.0001)) { mc_viol(V("early"), "%s: tolerance %.6g: cut at term %d, but term %d is up to %.6g of the sum", s.name, tol, f, m, e[m]); break; }
          for (cs = nf, m = nf - 1; m >= 2 && m >= kn + 1; --m) if (known[m] && known[m - 1] && e[m] < tol * .9999 && e[m - 1] < tol * .9999) cs = m + 1;
          if (f > cs) { int late = 0; for (m = cs; m < f && m < nf; ++m) for (g = 0; g < ng; ++g) if (gder[g] < 0 && fabs(T[g][m]) > 1.e-8 * sc[g]) late = 1;
               if (late) mc_viol(V("late"), "%s: tolerance %.6g: terms %d and %d are at most %.6g and %.6g of the sum, but the next is not left out", s.name, tol, cs - 2, cs - 1, e[cs - 2], e[cs - 1]); }
          if (f < nf) mc_nontrivial(1), mc_count("cut at known terms", 1);
          /* the mean radiances and fluxes have one term */
          for (k = xh_i_M(&c, 0, 0); k < full.n; ++k) if (full.v[k] != o.v[k] && ! (isnan(full.v[k]) && isnan(o.v[k]))) { mc_viol(V("flux"), "%s: tolerance %.3g: mean or flux %d is %.12g, not %.12g", s.name, tol, k, o.v[k], full.v[k]); break; }
     }
     mc_outcome(idx * 100 + nf);
}
int main(int argc, char **argv) {
     int k = argc > 1 && argv[1][0] >= '0' && argv[1][0] <= '9' ? atoi(argv[1]) : 2;
     if (! getenv("OPENBLAS_NUM_THREADS")) { setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1); execv("/proc/self/exe", argv); }
     mc_init(argc, argv);
     sc_nq = 4;
     sc_init(k + (mc_thorough ? 1 : 0), SC_ALLDIMS, -1);
     mc_family("fourier", sc_n(), one, 120);
     mc_done();
     return 0;
}
