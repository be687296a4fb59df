/* C32: values at and near the ends of their ranges: a solution gives finite values of a sane size or an error. */
#include "scen.h"
#include "mc.h"
#define O(x) XRTM_OPTION_ ## x
#define S(x) XRTM_SOLVER_ ## x
static const double OM[] = {.9, 0., 1.e-12, .9999999, 1.};
static const double GG[] = {.55, 0., .95, .999, -.9};
static const double TA[] = {.21, 1.e-13, 1.e-6, 25., 400.};
static const double T0[] = {35., 0., .001, 89., 89.999};
static const double TH_[] = {12., 0., .001, 35., 89.999};
static const char *on[] = {"", "+omega0", "+omega-tiny", "+omega-near1", "+omega1"}, *gn[] = {"", "+g0", "+g.95", "+g.999", "+g-.9"},
     *tn[] = {"", "+tau-tiny", "+tau-thin", "+tau25", "+tau400"}, *zn[] = {"", "+sun0", "+sun.001", "+sun89", "+sun89.999"}, *vn[] = {"", "+view0", "+view.001", "+view-sun", "+view89.999"};
#define NV 5
static scen s; static xh_out o, p;
/* the values of the first layer (or the second) and of the geometry deviate from ordinary ones in all combinations of up to `depth' */
static int depth = 2;
static void f_ext(long idx) {
     xrtm_data d; xh_in b; int v[6], n, i, l, both, bad, made = 0; char nm[160], sig[400];
     if (sc_get(idx, &s)) return;
     if (s.dim[D_OMEGA] || s.dim[D_TAU] || s.dim[D_COEF] || s.dim[D_GEOM]) return;
     xh_quiet(); mc_ctx("%s", s.name);
     if (s.c.n_out_levels < 2 && s.dim[D_OUT] == 2) return;
     b = s.in;
     for (both = 0; both < 2; ++both)
     for (v[0] = 0; v[0] < NV; ++v[0]) for (v[1] = 0; v[1] < NV; ++v[1]) for (v[2] = 0; v[2] < NV; ++v[2]) for (v[3] = 0; v[3] < NV; ++v[3]) for (v[4] = 0; v[4] < NV; ++v[4]) {
          for (n = 0, i = 0; i < 5; ++i) n += v[i] != 0;
          if (n > depth || (both && ! v[0] && ! v[1] && ! v[2])) continue;
          if (v[4] && ! s.c.n_out_thetas) continue;
          if (v[2] > 2 && s.solver == S(SOS)) continue;     /* cut into layers of sos_max_tau */
          if (v[1] == 4 && s.solver == S(SOS) && s.c.options & O(DELTA_M)) continue;     /* scaled to a phase function that isn't one, for which orders of scattering grow */
          s.in = b;
          for (l = 0; l < s.c.n_layers; ++l) {
               if (! both && l != (s.c.n_layers > 1 ? 1 : 0)) continue;
               if (v[0]) s.in.omega[l] = OM[v[0]];
               if (v[2]) s.in.ltau[l] = TA[v[2]];
               if (v[1]) { if (s.c.n_stokes == 1) xh_hg(GG[v[1]], s.in.n_coef[l], s.in.coef[l][0]); else xh_rayleigh_elems(&s.c, v[1] == 1 ? 1. : .1, GG[v[1]], s.in.n_coef[l], s.in.coef[l]); }
          }
          if (s.c.options & XRTM_OPTION_OUTPUT_AT_TAUS) { double t = 0.; for (l = 0; l < s.c.n_layers; ++l) t += s.in.ltau[l]; for (i = 0; i < s.c.n_out_levels; ++i) s.in.out_taus[i] = s.c.n_out_levels == 1 ? .37 * t : t * i / (s.c.n_out_levels - 1.); }
          if (v[3]) s.in.theta_0 = T0[v[3]];
          if (v[4]) s.in.out_thetas[0] = v[4] == 3 ? s.in.theta_0 : TH_[v[4]];
          sprintf(nm, "%s%s%s%s%s%s", on[v[0]], gn[v[1]], tn[v[2]], zn[v[3]], vn[v[4]], both ? "|all" : "");
          snprintf(sig, sizeof(sig), "extreme|%s%s", s.name, nm);
          if (! made) { if (xh_create(&s.c, &d) == XRTM_INT_ERROR) return; made = 1; }
          mc_states(1);
          if (xh_set_all(&s.c, &d, &s.in) || xh_update(&s.c, &d)) { mc_viol(sig, "%s%s: inputs refused", s.name, nm); xrtm_destroy(&d); made = 0; continue; }
          mc_execs(1); mc_transitions(1);
          if (xh_run(&s.c, &d, &s.in, s.solver, s.sols & 7, 0, &o)) { mc_count("solutions refused", 1); xrtm_destroy(&d); made = 0; continue; }
          for (bad = -1, i = 0; i < o.n && bad < 0; ++i) if (! isfinite(o.v[i]) || fabs(o.v[i]) > 1.e20) bad = i;
          if (bad >= 0) { mc_viol(sig, "%s%s: output %d of %d is %g", s.name, nm, bad, o.n, o.v[bad]); xrtm_destroy(&d); made = 0; continue; }
          mc_nontrivial(n > 0);
     }
     if (made) xrtm_destroy(&d);
}
/* pairs of inputs that differ by next to nothing where the library takes a way of its own */
enum { P_OM, P_OM0, P_OM1, P_SUN, P_VIEW, P_VSUN, P_SUNQ, P_VIEWQ, P_G, P_NC, P_PHI, P_PHI180, P_PHI360, P_TAU, P_F0, P_FISO, P_B0, P_B1, P_BS, P_AMP, P_THIN, P_SPHERE, N_PAIRS };
static const char *pn[] = {"omega 0", "omega of layer 0 0", "omega 1", "sun in the zenith", "view 0", "view and sun equal", "sun at a node", "view at a node", "g 0", "one coefficient", "azimuth of the sun", "azimuth 180", "azimuth 360",
     "level at a boundary", "F_0 0", "F_iso_top 0", "planck of the top 0", "planck of the bottom 0", "surface planck 0", "ampfac 0", "layer of no thickness", "large planet"};
/* a node of the quadrature, as an angle */
static double node(int k) {
     int dg = ! (s.c.options & O(QUAD_NORM_GAUS_LEG)), n = dg ? s.c.n_quad : 2 * s.c.n_quad, i, j; double x = cos(M_PI * (k + .75) / (n + .5)), q, r, y;
     for (i = 0; i < 60; ++i) { for (r = 1., q = 0., j = 0; j < n; ++j) { y = q; q = r; r = ((2. * j + 1.) * x * q - j * y) / (j + 1.); } x -= r / (n * (x * r - q) / (x * x - 1.)); }
     return acos(dg ? (x + 1.) / 2. : x) * 180. / M_PI;
}
static int near_(int pr, int sd, xh_in *in, double *tol) {
     const xh_cfg *c = &s.c; int i, j, k; double e = sd ? 1.e-9 : 0., q;
     *tol = s.solver == S(SOS) ? 1.e-3 : 1.e-4;
     switch (pr) {
     case P_OM:   for (i = 0; i < c->n_layers; ++i) in->omega[i] = e; break;
     case P_OM0:  if (c->n_layers < 2) return 1; in->omega[0] = e; break;
     case P_OM1:  for (i = 0; i < c->n_layers; ++i) in->omega[i] = sd ? 1. - 1.00001e-5 : 1.; break;
     case P_SUN:  in->theta_0 = sd ? 1.e-3 : 0.; *tol = 2.e-3; break;
     case P_VIEW: if (! c->n_out_thetas) return 1; in->out_thetas[0] = sd ? 1.e-3 : 0.; *tol = 2.e-3; break;
     case P_VSUN: if (! c->n_out_thetas) return 1; in->out_thetas[0] = in->theta_0 + (sd ? 1.e-3 : 0.); *tol = 1.e-2; break;
     case P_SUNQ: if ((q = node(0)) < 0.) return 1; in->theta_0 = q + (sd ? 1.e-2 : 0.); *tol = 2.e-2; break;
     case P_VIEWQ: if (! c->n_out_thetas || (q = node(0)) < 0.) return 1; in->out_thetas[0] = q + (sd ? 1.e-2 : 0.); *tol = 2.e-2; break;
     case P_G:    for (i = 0; i < c->n_layers; ++i) for (k = 1; k < MC; ++k) for (j = 0; j < 6; ++j) in->coef[i][j][k] *= e; break;
     case P_NC:   if (c->n_derivs) for (i = 0; i < c->n_layers; ++i) for (j = 0; j < c->n_derivs; ++j) memset(in->coef_l[i][j], 0, sizeof(in->coef_l[i][j]));
                  for (i = 0; i < c->n_layers; ++i) { for (k = 1; k < MC; ++k) for (j = 0; j < 6; ++j) in->coef[i][j][k] = 0.; if (sd) in->n_coef[i] = 1; } break;
     case P_PHI:  in->phis[0] = in->phi_0 + (sd ? 1.e-3 : 0.); *tol = 2.e-3; break;
     case P_PHI180: in->phis[0] = in->phi_0 + 180. + (sd ? 1.e-3 : 0.); *tol = 2.e-3; break;
     case P_PHI360: in->phis[0] += sd ? 360. : 0.; break;
     case P_TAU:  if (! (c->options & O(OUTPUT_AT_TAUS))) return 1; for (q = 0., i = 0; i < c->n_layers; ++i) q += in->ltau[i];
                  for (i = 0; i < c->n_out_levels; ++i) in->out_taus[i] = i == 0 ? e : i == c->n_out_levels - 1 ? q - e : in->ltau[0] + e; if (c->n_out_levels < 2 || (c->n_out_levels > 2 && c->n_layers < 2)) return 1; break;
     case P_F0:   in->F_0 = e; break;
     case P_FISO: in->F_iso_top = e; break;
     case P_B0:   if (! (c->options & O(SOURCE_THERMAL))) return 1; for (i = 0; i < c->n_layers; ++i) in->levels_b[i] = e; break;
     case P_B1:   if (! (c->options & O(SOURCE_THERMAL))) return 1; for (i = 1; i <= c->n_layers; ++i) in->levels_b[i] = e; break;
     case P_BS:   if (! (c->options & O(SOURCE_THERMAL))) return 1; in->surface_b = e; break;
     case P_AMP:  if (! c->n_kernels) return 1; in->ampfac[0] = e; break;
     case P_THIN: if (c->options & O(SOURCE_THERMAL)) { in->ltau[0] = sd ? 1.e-5 : 2.e-5; *tol = s.solver == S(DOUB_ADD) ? 2.e-2 : 1.e-3; } else in->ltau[0] = sd ? 1.e-9 : 1.e-12; break;
     case P_SPHERE: if (! (c->options & O(PSA)) || sd > 1) return 1; in->planet_r = sd ? 6.371e9 : 6.371e11; break;
     }
     return 0;
}
static void f_near(long idx) {
     int pr = idx % N_PAIRS, i, k, r0, r1; char sig[300]; double tol, sc, e, m; xh_in b;
     if (sc_get(idx / N_PAIRS, &s)) return;
     xh_quiet(); mc_ctx("%s: %s", s.name, pn[pr]);
     b = s.in;
     snprintf(sig, sizeof(sig), "near|%s|%s", s.name, pn[pr]);
     if (near_(pr, 0, &s.in, &tol)) return;
     mc_states(2); mc_execs(2); mc_transitions(1);
     r0 = xh_fresh_run(&s.c, &s.in, s.solver, s.sols & 7, 0, &o);
     s.in = b; near_(pr, 1, &s.in, &tol);
     r1 = xh_fresh_run(&s.c, &s.in, s.solver, s.sols & 7, 0, &p);
     if (r0 || r1) { if (r0 != r1) { sig[0] = 'N'; mc_viol(sig, "%s: %s: one of the two is refused", s.name, pn[pr]); } return; }
     if (o.n != p.n) { mc_viol(sig, "%s: %s: %d and %d values", s.name, pn[pr], o.n, p.n); return; }
     for (sc = 0., i = 0; i < o.n; ++i) if (p.v[i] != -999.) sc = fmax(sc, fabs(p.v[i]));
     for (m = 0., k = 0, i = 0; i < o.n; ++i) { e = fabs(o.v[i] - p.v[i]); if (! (e <= m)) { m = isfinite(e) ? e : 1.e30; k = i; } }
     if (m > tol * fmax(sc, 1.e-6) && m > 1.e-7) mc_viol(sig, "%s: %s: output %d is %.8g there and %.8g beside it (error %.2g)", s.name, pn[pr], k, o.v[k], p.v[k], m / sc);
     else mc_nontrivial(1);
}
int main(int argc, char **argv) {
     int k = argc > 1 && argv[1][0] >= '0' && argv[1][0] <= '9' ? atoi(argv[1]) : 1;
     mc_init(argc, argv);
     if (mc_thorough) { if (k < 2) ++k; else depth = 3; }
     sc_init(k, SC_ALLDIMS, -1);
     mc_family("ext", sc_n(), f_ext, 200);
     mc_family("near", sc_n() * N_PAIRS, f_near, 60);
     mc_done();
     return 0;
}
