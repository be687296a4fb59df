/* Relations that hold between runs (derivatives and finite differences, splitting of layers, linearity in the sources,
   selections of outputs, ...), checked in every scenario of the lattice of scen.c.  usage: rel PROPERTY [mc options] */
#include "rel.h"
#include <unistd.h>

static long n_run;
int rel_run(const scen *s, const xh_cfg *c, const xh_in *in, xh_out *o) {
     mc_transitions(1);
     n_run++;
     return xh_fresh_run(c, in, s->solver, s->sols, 0, o);
}
static int nIl(const xh_cfg *c) { return xh_i_M(c, 0, 0); }
static int nIv(const xh_cfg *c) { return 2 * c->n_out_levels * xh_nth(c) * c->n_phis * c->n_stokes; }
static int group(const xh_cfg *c, int i) {
     if (i < nIv(c)) return 0;
     if (i < nIl(c)) return 2;
     return i < nIl(c) + 5 * c->n_out_levels ? 1 : 3;
}
const char *rel_where(const xh_cfg *c, int at, char *b) {
     int nd = c->options & RO(CALC_DERIVS) ? c->n_derivs : 0, pm, lev, der = -1, th, ph, st, i = at;
     static const char *m[] = {"mean_p", "mean_m", "flux_p", "flux_m", "flux_div"};
     switch (group(c, at)) {
     case 0: st = i % c->n_stokes; i /= c->n_stokes; ph = i % c->n_phis; i /= c->n_phis; th = i % xh_nth(c); i /= xh_nth(c); lev = i % c->n_out_levels; pm = i / c->n_out_levels;
          sprintf(b, "I_%c[%d][%d][%d][%d]", pm ? 'm' : 'p', lev, th, ph, st); break;
     case 2: i -= nIv(c); st = i % c->n_stokes; i /= c->n_stokes; ph = i % c->n_phis; i /= c->n_phis; th = i % xh_nth(c); i /= xh_nth(c); der = i % nd; i /= nd; lev = i % c->n_out_levels; pm = i / c->n_out_levels;
          sprintf(b, "I_%c_l[%d][%d][%d][%d][%d]", pm ? 'm' : 'p', lev, der, th, ph, st); break;
     case 1: i -= nIl(c); sprintf(b, "%s[%d]", m[i / c->n_out_levels], i % c->n_out_levels); break;
     default: i -= nIl(c) + 5 * c->n_out_levels; der = i % nd; i /= nd; sprintf(b, "%s_l[%d][%d]", m[i / c->n_out_levels], i % c->n_out_levels, der); break;
     }
     return b;
}
double rel_cmp(const xh_cfg *c, const xh_out *a, const xh_out *b, int groups, double frac, double abs_, int *at) {
     int i, g; double mx[4] = {0., 0., 0., 0.}, m = 0., e;
     *at = 0;
     if (a->rc || b->rc) return (a->rc != 0) == (b->rc != 0) ? 0. : 1.e31;
     for (i = 0; i < b->n; ++i) if (isfinite(b->v[i]) && b->v[i] != -999.) { g = group(c, i); if (fabs(b->v[i]) > mx[g]) mx[g] = fabs(b->v[i]); }
     for (i = 0; i < b->n; ++i) {
          g = group(c, i);
          if (! (groups & 1 << g) || a->v[i] == b->v[i]) continue;
          if (! isfinite(a->v[i]) || ! isfinite(b->v[i])) { *at = i; return 1.e30; }
          e = fabs(a->v[i] - b->v[i]) / (fabs(b->v[i]) + frac * mx[g] + abs_);
          if (e > m) { m = e; *at = i; }
     }
     return m;
}
#define V(what, ...) do { char sg_[200]; snprintf(sg_, sizeof(sg_), "%s:%s", s->name, what); mc_viol(sg_, __VA_ARGS__); } while (0)
static xh_out o0, o1, o2, o3;
static char wb[200];

/* ---------------------------------------------------------------- C06 */
static void c06(scen *s) {
     int j, r;
     xrtm_data d;
     if (rel_run(s, &s->c, &s->in, &o0)) {
          V(o0.rc == -11 ? "input" : "run", "a configuration that xrtm_create() accepts and inputs in range: error %d", o0.rc); return; }
     for (j = 0; j < o0.n; ++j) if (! isfinite(o0.v[j]) || fabs(o0.v[j]) > 1.e4) break;
     if (j < o0.n) V("value", "%s is %g", rel_where(&s->c, j, wb), o0.v[j]);
     for (j = 0; j < o0.n; ++j) if (group(&s->c, j) == 0 && o0.v[j] == -999.) break;
     if (j < o0.n && ! (s->c.options & (RO(UPWELLING_OUTPUT) | RO(DOWNWELLING_OUTPUT)))) V("unset", "%s is not set", rel_where(&s->c, j, wb));
     for (j = 0; j < nIv(&s->c); j += s->c.n_stokes) if (o0.v[j] < -1.e-6 * (1. + fabs(o0.v[j])) && o0.v[j] != -999. && ! s->dim[D_COEF]) break;
     mc_nontrivial(1);
     /* the getters of the created instance give back the configuration */
     xh_create(&s->c, &d);
     r = xrtm_get_n_quad(&d) != s->c.n_quad || xrtm_get_n_stokes(&d) != s->c.n_stokes || xrtm_get_n_derivs(&d) != s->c.n_derivs ||
         xrtm_get_n_layers(&d) != s->c.n_layers || xrtm_get_n_kernels(&d) != s->c.n_kernels || xrtm_get_n_out_levels(&d) != s->c.n_out_levels || xrtm_get_n_out_thetas(&d) != s->c.n_out_thetas ||
         (xrtm_get_options(&d) & s->c.options) != s->c.options || xrtm_get_solvers(&d) != s->solver;
     for (j = 0; j < s->c.n_kernels; ++j) r |= xrtm_get_kernel(&d, j) != s->c.kernels[j];
     if (r) V("getters", "the configuration read back is not the one given");
     xrtm_destroy(&d);
}

/* ---------------------------------------------------------------- C10 */
static void shift(const scen *s, const xh_cfg *c, xh_in *in, int j, double h) {
     int i, k, e; const xh_in *b = &s->in; double t, t2, f;
     *in = *b;
     in->F_iso_top += h * b->F_iso_top_l[j]; in->F_iso_bot += h * b->F_iso_bot_l[j]; in->surface_b += h * b->surface_b_l[j];
     for (i = 0; i <= c->n_layers; ++i) in->levels_b[i] += h * b->levels_b_l[j][i];
     for (i = 0; i < c->n_layers; ++i) {
          in->omega[i] += h * b->omega_l[i][j]; in->ltau[i] += h * b->ltau_l[i][j];
          for (e = 0; e < 6; ++e) for (k = 0; k < b->n_coef[i]; ++k) in->coef[i][e][k] += h * b->coef_l[i][j][e][k];
     }
     for (i = 0; i < c->n_kernels; ++i) {
          in->ampfac[i] += h * b->ampfac_l[i][j];
          for (k = 0; k < MX; ++k) in->params[i][k] += h * b->params_l[i][j][k];
     }
     /* output optical depths stay at the same fraction of their layer */
     if (c->options & RO(OUTPUT_AT_TAUS)) for (k = 0; k < c->n_out_levels; ++k) {
          t = t2 = 0.;
          for (i = 0; i < c->n_layers - 1 && b->out_taus[k] > t + b->ltau[i]; ++i) { t += b->ltau[i]; t2 += in->ltau[i]; }
          f = (b->out_taus[k] - t) / b->ltau[i];
          in->out_taus[k] = t2 + f * in->ltau[i];
     }
}
/* which way can derivative j be followed? 0: both, 1, -1, 2: neither */
static int way(const scen *s, int j) {
     int i, w = 0, v;
     for (i = 0; i < s->c.n_layers; ++i) {
          double l = s->in.omega_l[i][j];
          v = l == 0. ? 0 : s->in.omega[i] >= 1. - 1.e-6 ? (l > 0. ? -1 : 1) : s->in.omega[i] <= 1.e-6 ? (l > 0. ? 1 : -1) : 0;
          if (v && w && v != w) return 2;
          if (v) w = v;
          l = s->in.ltau_l[i][j];
          v = l != 0. && s->in.ltau[i] < 1.e-3 ? (l > 0. ? 1 : -1) : 0;
          if (v && w && v != w) return 2;
          if (v) w = v;
     }
     v = s->in.F_iso_top == 0. && s->in.F_iso_top_l[j] != 0. ? (s->in.F_iso_top_l[j] > 0 ? 1 : -1) : 0;
     if (v && w && v != w) return 2;
     if (v) w = v;
     v = s->in.F_iso_bot == 0. && s->in.F_iso_bot_l[j] != 0. ? (s->in.F_iso_bot_l[j] > 0 ? 1 : -1) : 0;
     if (v && w && v != w) return 2;
     return v ? v : w;
}
static xh_out fo[5];
static void c10(scen *s) {
     int j, i, k, l, m, pm, w, n, i1, i2, q; static xh_in in; xh_cfg c2 = s->c; char b[80];
     double h, fd, an, mx, e;
     if (s->n_devs > 1 && s->dim[D_TAU] == 4) return;     /* rounding of a very thick layer */
     if (! (s->c.options & RO(CALC_DERIVS)) || s->dim[D_OUT] == 6 || rel_run(s, &s->c, &s->in, &o0)) return;   /* no derivative at the edge of a layer */
     if (! s->dim[D_ADD]) { c2.options &= ~RO(CALC_DERIVS); c2.n_derivs = 0; c2.options &= ~RO(STACK_REUSE_ADDING); }
     for (j = 0; j < s->c.n_derivs; ++j) {
          if ((w = way(s, j)) == 2) continue;
          h = s->dim[D_TAU] < 2 ? 2.e-4 : w ? 1.e-4 : 1.e-5;
          n = 4;    /* one-sided: without the limit itself, where xrtm shifts omega off the singularity */
          for (i = 0; i < n; ++i) {
               static const double st[2][4] = {{-2., -1., 1., 2.}, {1., 2., 3., 5.}};
               shift(s, &s->c, &in, j, st[w != 0][i] * h * (w ? w : 1.));
               if (rel_run(s, &c2, &in, &fo[i])) { V("fd-run", "error %d with inputs shifted along derivative %d", fo[i].rc, j); return; }
          }
          mc_states(1);
          for (q = 0; q < 2; ++q) {
               double worst = 0., wf = 0., wa = 0.; mx = 0.; int p;
               for (p = 0; p < 2; ++p)
               for (pm = 0; pm < (q ? 4 : 2); ++pm) for (i = 0; i < s->c.n_out_levels; ++i)
               for (k = 0; k < (q ? 1 : xh_nth(&s->c)); ++k) for (l = 0; l < (q ? 1 : s->c.n_phis); ++l) for (m = 0; m < (q ? 1 : s->c.n_stokes); ++m) {
                    i1 = q ? xh_i_M(&c2, pm, i) : xh_i_I(&c2, pm, i, k, l, m);
                    i2 = q ? xh_i_Ml(&s->c, pm, i, j) : xh_i_Il(&s->c, pm, i, j, k, l, m);
                    if (fo[0].v[i1] == -999.) continue;
                    if (! w) fd = (fo[0].v[i1] - 8. * fo[1].v[i1] + 8. * fo[2].v[i1] - fo[3].v[i1]) / (12. * h);
                    else fd = w * (-93. * fo[0].v[i1] + 184. * fo[1].v[i1] + -102. * fo[2].v[i1] + 11. * fo[3].v[i1]) / (24. * h);
                    an = o0.v[i2];
                    if (! p) { if (isfinite(fd) && fabs(fd) > mx) mx = fabs(fd); }
                    else {
                         e = isfinite(an) && isfinite(fd) ? fabs(an - fd) / (fabs(fd) + .05 * mx + 1.e-5) : 1e30;
                         if (e > worst) { worst = e; wf = fd; wa = an; rel_where(&s->c, i2, b); }
                    }
               }
               if (mx > 1.e-6) mc_nontrivial(1);
               if (getenv("REL_V")) { FILE *fp = fopen(getenv("REL_V"), "a"); fprintf(fp, "%d %d %s %.9g %.9g %.2g\n",j,q,b,wa,wf,worst); fclose(fp); }
               if (worst > (w ? 5.e-3 : s->solver & (RS(DOUB_ADD) | RS(PADE_ADD)) ? (s->dim[D_TAU] > 1 ? 1.e-3 : 3.e-4) : s->dim[D_GEOM] == 4 ? 1.e-4 : s->dim[D_TAU] ? 3.e-5 : 3.e-6)) { char sg[40]; sprintf(sg, "%s%d", q ? "mean_flux_l" : "I_l", j); V(sg, "%s is %.9g, finite differences give %.9g (error %.2g)", b, wa, wf, worst); }
          }
     }
}


/* ---------------------------------------------------------------- comparison of two layouts */
typedef struct { int lev[MO], th[MT], ph[MP], der[MD], flip[MS]; int st; double scale, dscale; int no_radiance, no_mean, no_derivs, unset_ok, no_pm; } map;  /* of an index in b, that in a; -1: none */
static void map_id(map *m) {
     int i;
     memset(m, 0, sizeof(*m));
     for (i = 0; i < MO; ++i) m->lev[i] = i;
     for (i = 0; i < MT; ++i) m->th[i] = i;
     for (i = 0; i < MP; ++i) m->ph[i] = i;
     for (i = 0; i < MD; ++i) m->der[i] = i;
     for (i = 0; i < MS; ++i) m->flip[i] = 1;
     m->scale = 1.; m->dscale = 1.;
}
static double mw, mx4[4]; static int m_n, m_at; static double m_a, m_b;
static double m_floor = 1.e-6;   /* rounding of sources of the order of one */
static void me(int pass, int g, int ia, const xh_out *a, int ib, const xh_out *b, double frac, double scale, int unset_ok) {
     double x = a->v[ia], y = b->v[ib], e;
     if (y == -999.) { if (pass && x != -999. && ! unset_ok) { mw = 1.e32; m_at = ib; m_a = x; m_b = y; } return; }
     if (x == -999.) return;
     x *= scale;
     if (! pass) { if (isfinite(x) && fabs(x) > mx4[g]) mx4[g] = fabs(x); return; }
     m_n++;
     if (x == y) return;
     e = isfinite(x) && isfinite(y) ? fabs(x - y) / (fabs(x) + frac * mx4[g] + m_floor) : 1.e30;
     if (e > mw) { mw = e; m_at = ib; m_a = x; m_b = y; }
}
/* largest difference of b from a at what they have in common; the place and both values in wb */
static double mcmp(const xh_cfg *ca, const xh_out *a, const xh_cfg *cb, const xh_out *b, const map *m, double frac) {
     int p, pm, i, j, k, l, q, ns = ca->n_stokes < cb->n_stokes ? ca->n_stokes : cb->n_stokes;
     int nd = cb->options & RO(CALC_DERIVS) && ca->options & RO(CALC_DERIVS) && ! m->no_derivs ? cb->n_derivs : 0;
     if (m->st && m->st < ns) ns = m->st;
     mw = 0.; m_n = 0; m_at = 0; memset(mx4, 0, sizeof(mx4));
     if (a->rc || b->rc) { sprintf(wb, "status %d and %d", a->rc, b->rc); return (a->rc != 0) == (b->rc != 0) ? 0. : 1.e31; }
     for (p = 0; p < 2; ++p) {
          for (pm = 0; pm < 2 && ! m->no_radiance; ++pm) if (! (m->no_pm & 1 << pm)) for (i = 0; i < cb->n_out_levels; ++i) { if (m->lev[i] < 0) continue;
               for (j = 0; j < xh_nth(cb); ++j) { if (m->th[j] < 0) continue;
               for (k = 0; k < cb->n_phis; ++k) { if (m->ph[k] < 0) continue;
               for (l = 0; l < ns; ++l) {
                    me(p, 0, xh_i_I(ca, pm, m->lev[i], m->th[j], m->ph[k], l), a, xh_i_I(cb, pm, i, j, k, l), b, frac, m->scale * m->flip[l], m->unset_ok);
                    for (q = 0; q < nd; ++q) if (m->der[q] >= 0)
                         me(p, 2, xh_i_Il(ca, pm, m->lev[i], m->der[q], m->th[j], m->ph[k], l), a, xh_i_Il(cb, pm, i, q, j, k, l), b, frac, m->dscale * m->flip[l], m->unset_ok);
               } } } }
          for (pm = 0; pm < 4 && ! m->no_mean; ++pm) if (! (m->no_pm & 1 << pm % 2)) for (i = 0; i < cb->n_out_levels; ++i) { if (m->lev[i] < 0) continue;
               me(p, 1, xh_i_M(ca, pm, m->lev[i]), a, xh_i_M(cb, pm, i), b, frac, m->scale, m->unset_ok);
               for (q = 0; q < nd; ++q) if (m->der[q] >= 0)
                    me(p, 3, xh_i_Ml(ca, pm, m->lev[i], m->der[q]), a, xh_i_Ml(cb, pm, i, q), b, frac, m->dscale, m->unset_ok);
          }
     }
     if (m_n) mc_nontrivial(1);
     rel_where(cb, m_at, wb);
     sprintf(wb + strlen(wb), ": %.10g and %.10g", m_a, m_b);
     return mw;
}
static void dump(const char *what, const scen *s, double e) {
     if (getenv("REL_V")) { FILE *fp = fopen(getenv("REL_V"), "a"); fprintf(fp, "%s %s %.2g %s\n", s->name, what, e, wb); fclose(fp); }
}
#define CHECK(what, e_, tol, text) do { double e__ = e_; dump(what, s, e__); if (e__ > (tol)) V(what, "%s: %s (error %.2g)", text, wb, e__); } while (0)
static int approx_solver(const scen *s) { return s->solver & (RS(DOUB_ADD) | RS(PADE_ADD)); }

/* ---------------------------------------------------------------- C07 */
static int how_run(const scen *s, const xh_cfg *c, const xh_in *in, int sols, int how, xh_out *o) {
     mc_transitions(1); n_run++;
     return xh_fresh_run(c, in, s->solver, sols, how, o);
}
static void c07(scen *s) {
     static xh_in in; xh_cfg c, r; map m; int i, j, k, n; char what[80]; double e;
     if (rel_run(s, &s->c, &s->in, &o0)) return;
     mc_states(1);
     map_id(&m);
     how_run(s, &s->c, &s->in, s->sols, 1, &o1);
     CHECK("separate", mcmp(&s->c, &o0, &s->c, &o1, &m, 1.e-3), 1.e-9, "xrtm_solution() and the functions for one output differ");
     for (i = 1; i < s->sols; ++i) {
          m.unset_ok = 1;
          m.no_radiance = ! (i & 1); m.no_mean = 0;
          if (how_run(s, &s->c, &s->in, i, 0, &o1)) { V("mask-run", "solutions mask %d: error", i); continue; }
          sprintf(what, "mask%d", i);
          if (mcmp(&s->c, &o0, &s->c, &o1, &m, 1.e-3) > 1.e-9) V(what, "solutions mask %d: %s", i, wb);
          for (j = 0; j < 4; ++j) for (k = 0; k < s->c.n_out_levels; ++k)
               if (! (i & (j < 2 ? 2 : 4)) != (o1.v[xh_i_M(&s->c, j, k)] == -999.) && ! (s->c.options & (RO(UPWELLING_OUTPUT) | RO(DOWNWELLING_OUTPUT)))) V("mask-set", "solutions mask %d sets the wrong outputs", i);
     }
     /* directions */
     if (! (s->c.options & (RO(UPWELLING_OUTPUT) | RO(DOWNWELLING_OUTPUT)))) for (i = 0; i < 3; ++i) {
          c = s->c; c.options |= i == 0 ? RO(UPWELLING_OUTPUT) : i == 1 ? RO(DOWNWELLING_OUTPUT) : RO(UPWELLING_OUTPUT) | RO(DOWNWELLING_OUTPUT);
          if (how_run(s, &c, &s->in, s->sols, 0, &o1) == -10) continue;
          map_id(&m); m.no_pm = i == 0 ? 2 : i == 1 ? 1 : 0;
          CHECK(i == 0 ? "up" : i == 1 ? "down" : "updown", mcmp(&s->c, &o0, &c, &o1, &m, 1.e-3), 1.e-9, "output in one direction only");
          if (i < 2) for (j = xh_i_I(&c, i, 0, 0, 0, 0); j < xh_i_I(&c, i, 0, 0, 0, 0) + nIv(&c) / 2; ++j) if (o1.v[j] == -999.) { V(i ? "down-unset" : "up-unset", "%s not set", rel_where(&c, j, wb)); break; }
     }
     /* azimuths */
     r = s->c; r.n_phis = 3; in = s->in; in.phis[0] = 25.; in.phis[1] = 95.; in.phis[2] = 180.;
     rel_run(s, &r, &in, &o1);
     for (i = 0; i < 4; ++i) {
          c = r; map_id(&m);
          if (i < 3) { c.n_phis = 1; in.phis[0] = i == 0 ? 25. : i == 1 ? 95. : 180.; m.ph[0] = i; }
          else { in.phis[0] = 180.; in.phis[1] = 25.; in.phis[2] = 95.; m.ph[0] = 2; m.ph[1] = 0; m.ph[2] = 1; }
          rel_run(s, &c, &in, &o2);
          CHECK("phis", mcmp(&r, &o1, &c, &o2, &m, 1.e-3), 1.e-9, "azimuths asked for together and alone or in another order");
     }
     /* azimuths that differ between viewing angles */
     r = s->c; r.n_phis = 1; in = s->in;
     if (xh_nth(&r) > 1) for (i = 0; i < xh_nth(&r); ++i) {
          c = r; in.phis[0] = 25.; in.dphi = 41.; if (rel_run(s, &c, &in, &o1)) break;
          in.phis[0] = 25. + 41. * i; in.dphi = 0.; rel_run(s, &c, &in, &o2);
          map_id(&m); for (j = 0; j < MT; ++j) if (j != i) m.th[j] = -1;
          CHECK("phis-theta", mcmp(&r, &o1, &c, &o2, &m, 1.e-3), 1.e-9, "azimuths that differ between viewing angles");
     }
     /* angles */
     if (s->c.n_out_thetas > 0) {
          r = s->c; r.n_out_thetas = 3; in = s->in; in.out_thetas[1] = 51.; in.out_thetas[2] = 8.;
          if (rel_run(s, &r, &in, &o1) != -10) for (i = 0; i < 5; ++i) {
               static const int perm[5][3] = {{0, -1}, {1, -1}, {2, -1}, {2, 0, 1}, {1, 0, -1}};
               double t[3] = {s->in.out_thetas[0], 51., 8.};
               c = r; map_id(&m);
               for (n = 0; n < 3 && perm[i][n] >= 0; ++n) { in.out_thetas[n] = t[perm[i][n]]; m.th[n] = perm[i][n]; }
               c.n_out_thetas = n;
               rel_run(s, &c, &in, &o2);
               CHECK("thetas", mcmp(&r, &o1, &c, &o2, &m, 1.e-3), s->dim[D_GEOM] == 4 ? 1.e-2 : s->dim[D_GEOM] == 3 ? 3.e-5 : 1.e-5, "angles asked for together and alone or in another order");
          }
     }
     /* levels */
     if (s->c.options & RO(OUTPUT_AT_LEVELS) && ! (s->c.options & (RO(TOP_DOWN_ADDING) | RO(BOTTOM_UP_ADDING)))) {
          r = s->c; r.n_out_levels = s->c.n_layers + 1; in = s->in;
          for (i = 0; i <= s->c.n_layers; ++i) in.out_levels[i] = i;
          if (rel_run(s, &r, &in, &o1) == 0) for (i = 0; i < (1 << (s->c.n_layers + 1)) - 1; ++i) {
               if (i == 0) continue;
               c = r; map_id(&m);
               for (n = j = 0; j <= s->c.n_layers; ++j) if (i & 1 << j) { in.out_levels[n] = j; m.lev[n] = j; n++; }
               c.n_out_levels = n;
               if (rel_run(s, &c, &in, &o2) < -9 || (o2.rc && (sc_is_adding(s->solver) || s->solver & (RS(SOS) | RS(TWO_OS))))) continue;
               CHECK("levels", mcmp(&r, &o1, &c, &o2, &m, 1.e-3), 1.e-8, "levels asked for together and not");
          }
          else {
               r.n_out_levels = 2; in.out_levels[0] = 0; in.out_levels[1] = s->c.n_layers;
               if (rel_run(s, &r, &in, &o1) == 0) for (i = 0; i < 2; ++i) {
                    c = r; c.n_out_levels = 1; in.out_levels[0] = i ? c.n_layers : 0; map_id(&m); m.lev[0] = i;
                    if (rel_run(s, &c, &in, &o2) < -9) continue;
                    CHECK("levels1", mcmp(&r, &o1, &c, &o2, &m, 1.e-3), 1.e-8, "levels asked for together and not");
               }
          }
          /* the same levels as optical depths */
          r.n_out_levels = s->c.n_layers + 1; in = s->in;
          for (i = 0; i <= s->c.n_layers; ++i) in.out_levels[i] = i;
          c = r; c.options = (c.options & ~RO(OUTPUT_AT_LEVELS)) | RO(OUTPUT_AT_TAUS);
          { double t = 0.; for (i = 0; i <= c.n_layers; ++i) { in.out_taus[i] = t; if (i < c.n_layers) t += in.ltau[i]; } in.out_taus[c.n_layers] = t * (1. - 1.e-14); }
          if (rel_run(s, &r, &in, &o1) == 0 && rel_run(s, &c, &in, &o2) == 0) {
               map_id(&m);
               CHECK("taus", mcmp(&r, &o1, &c, &o2, &m, 1.e-3), 1.e-5, "levels and their optical depths");
          }
     }
     /* optical depths: subsets and, by splitting the layers at them, levels */
     if (s->c.options & RO(OUTPUT_AT_TAUS)) {
          for (i = 0; i < 3; ++i) {
               c = s->c; c.n_out_levels = 1; in = s->in; in.out_taus[0] = s->in.out_taus[i]; map_id(&m); m.lev[0] = i;
               rel_run(s, &c, &in, &o1);
               CHECK("taus1", mcmp(&s->c, &o0, &c, &o1, &m, 1.e-3), 1.e-8, "optical depths asked for together and alone");
          }
     }
     /* output angles at the quadrature points */
     if (s->c.n_out_thetas == 0 && ! sc_is_stream(s->solver)) {
          xrtm_data d; static double qx[MT];
          c = s->c; in = s->in;
          if (xh_create(&c, &d)) return;
          xrtm_qx(&d, qx);
          xrtm_destroy(&d);
          for (i = 0; i < c.n_quad; ++i) in.out_thetas[i] = acos(qx[i]) * 180. / M_PI;
          c.n_out_thetas = c.n_quad;
          for (i = 0; i < 2; ++i) {
               if (i) c.options |= RO(SFI);
               if (rel_run(s, &c, &in, &o1) == -10) continue;
               map_id(&m);
               e = mcmp(&s->c, &o0, &c, &o1, &m, 1.e-3);
               CHECK(i ? e > 1.e29 ? "quad-sfi-nan" : "quad-sfi" : "quad", e, s->solver == RS(TWO_OS) ? 1.e-4 : 1.e-5, "output at the quadrature angles and at output angles that are the same");
          }
     }
}

/* ---------------------------------------------------------------- C02 */
static const int save_opts[5] = {RO(SAVE_LEG_POLYS), RO(SAVE_PHASE_MATS), RO(SAVE_LOCAL_R_T), RO(SAVE_LAYER_R_T_S), RO(SAVE_TOTAL_R_T_S)};
static void c02(scen *s) {
     static const int changes[] = {-1, K_OMEGA, K_F_0, K_LTAU, K_COEF, K_THETA_0, K_AMPFAC, K_LEVELS_B, K_OMEGA_L, K_F_ISO_TOP, K_OUT_THETAS};
     int i, j, k, m, bad; xh_cfg c, r = s->c; static xh_in in[12]; map mp; xrtm_data d; char what[80]; xh_slot sl;
     static xh_out ref[12];
     map_id(&mp);
     r.options &= ~(save_opts[0] | save_opts[1] | save_opts[2] | save_opts[3] | save_opts[4]);
     for (i = 0; i < (int) (sizeof(changes) / sizeof(int)); ++i) {
          in[i] = i ? in[i - 1] : s->in;
          sl.kind = changes[i]; sl.a = 0; sl.b = 0;
          if (i && ! ((sl.kind == K_OMEGA_L && (! (r.options & RO(CALC_DERIVS)) || ! r.n_derivs)) || (sl.kind == K_AMPFAC && ! r.n_kernels) || (sl.kind == K_LEVELS_B && ! (r.options & RO(SOURCE_THERMAL))) ||
               ((sl.kind == K_F_0 || sl.kind == K_THETA_0) && ! (r.options & RO(SOURCE_SOLAR))) || (sl.kind == K_OUT_THETAS && ! r.n_out_thetas))) xh_alt(&r, &in[i], &sl, 1);
          if (rel_run(s, &r, &in[i], &ref[i])) { if (! i) return; }
     }
     for (m = 1; m < 32; ++m) {
          if (! mc_thorough && m != 1 && m != 2 && m != 4 && m != 8 && m != 16 && m != 31 && m != 22 && m != 13 && m != 24 && m != 12) continue;
          c = r;
          for (k = 0; k < 5; ++k) if (m & 1 << k) c.options |= save_opts[k];
          if (xh_create(&c, &d) == XRTM_INT_ERROR) continue;
          mc_states(1);
          if (xh_set_all(&c, &d, &in[0]) || xh_update(&c, &d)) { V("set", "saves %d: setters fail", m); xrtm_destroy(&d); continue; }
          for (i = 0, bad = 0; i < (int) (sizeof(changes) / sizeof(int)) && ! bad; ++i) {
               if (i) {
                    sl.kind = changes[i]; sl.a = 0; sl.b = 0;
                    if (! memcmp(&in[i], &in[i - 1], sizeof(in[i]))) continue;
                    if (xh_set(&c, &d, &in[i], &sl, 0)) continue;
                    if (sl.kind == K_OMEGA_L) xh_update(&c, &d);
               }
               for (j = 0; j < 2 && ! bad; ++j) {
                    mc_transitions(1);
                    xh_run(&c, &d, &in[i], s->solver, s->sols, 0, &o1);
                    if (mcmp(&r, &ref[i], &c, &o1, &mp, 1.e-3) > 1.e-9) {
                         sprintf(what, "saves%d", m);
                         V(what, "after a change of %s (run %d): without and with saving: %s", i ? xh_kind_name(changes[i]) : "nothing", j, wb); bad = 1;
                    }
               }
          }
          xrtm_destroy(&d);
     }
}

/* ---------------------------------------------------------------- C08 */
static void c08(scen *s) {
     xh_cfg c = s->c, r; static xh_in in; map m; double e, tol; int i, k, l, ns; char what[40];
     static const int alt[] = {RS(EIG_BVP), RS(EIG_ADD), RS(DOUB_ADD), RS(PADE_ADD), RS(MEM_BVP), 0};
     if (s->n_devs > 1 && (s->dim[D_TAU] == 4 || (s->dim[D_GEOM] == 5 && s->solver == RS(SOS)))) return;     /* rounding of a very thick layer, steps of sos along a grazing path */
     mc_states(1);
     in = s->in; in.fourier_tol = 0.; if (s->solver == RS(SOS)) in.sos_max_tau = s->dim[D_TAU] == 1 ? .05 : .006;
     if (s->solver & (RS(TWO_OS) | RS(TWO_STREAM)) || (sc_is_stream(s->solver) && c.options & RO(SFI))) in.F_iso_top = in.F_iso_bot = 0.;
     for (l = 0; l < c.n_layers; ++l) if (s->solver & RS(TWO_OS)) { if (in.n_coef[l] > 2 * c.n_quad) in.n_coef[l] = 2 * c.n_quad; }
     if (s->solver == RS(SINGLE)) {
          if (ref_single(&c, &in, &o1) == 0 && rel_run(s, &c, &in, &o0) == 0) { map_id(&m); m.no_mean = m.no_derivs = 1; m.no_pm = c.options & RO(UPWELLING_OUTPUT) ? 2 : c.options & RO(DOWNWELLING_OUTPUT) ? 1 : 0; CHECK("reference", mcmp(&c, &o1, &c, &o0, &m, 1.e-3), s->dim[D_GEOM] == 4 ? 3.e-4 : 1.e-6, "single scattering integrated independently"); }
     }
     /* orders of scattering: compare the expansion in the single scattering albedo with the complete solution's */
     if (s->solver & (RS(SINGLE) | RS(TWO_OS)) && c.options & RO(SOURCE_SOLAR) && ! s->dim[D_DIR] && ! (c.options & (RO(DELTA_M) | RO(NO_AZIMUTHAL))) && ! (c.n_kernels && (s->solver == RS(TWO_OS) || c.n_kernels > 1 || c.kernels[0] != XRTM_KERNEL_LAMBERTIAN)) && ! c.misc) {
          double eps = s->solver == RS(SINGLE) ? 1.e-6 : 3.e-4; static xh_in iz; int z;
          c.options &= ~RO(CALC_DERIVS); c.n_derivs = 0;
          if (s->dim[D_TAU] == 1 && s->solver == RS(TWO_OS)) eps = 1.e-4;
          for (l = 0; l < c.n_layers; ++l) { if (in.n_coef[l] > 2 * c.n_quad) in.n_coef[l] = 2 * c.n_quad; in.omega[l] = s->dim[D_OMEGA] == 2 ? 0. : eps * (.8 - .1 * l); }
          if (s->solver == RS(SINGLE)) in.F_iso_top = in.F_iso_bot = 0.;   /* their scattering is not part of it */
          iz = in; for (l = 0; l < c.n_layers; ++l) iz.omega[l] = 0.;
          r = c; r.solvers = RS(EIG_BVP); z = c.n_kernels && s->solver == RS(SINGLE);
          { scen s2 = *s; s2.solver = RS(EIG_BVP); s2.sols = XRTM_OUTPUT_RADIANCE; r.options &= ~(RO(TOP_DOWN_ADDING) | RO(BOTTOM_UP_ADDING));
            if (s->solver == RS(TWO_OS)) { scen s3 = *s; xh_cfg q = c; int x; s3.solver = q.solvers = RS(SINGLE); s3.sols = XRTM_OUTPUT_RADIANCE; if (rel_run(&s3, &q, &in, &o2)) return; if (rel_run(s, &c, &in, &o0)) return; for (x = 0; x < nIv(&c); ++x) if (o0.v[x] != -999. && o2.v[x] != -999.) o2.v[x] += o0.v[x]; o0 = o2; }
            else if (rel_run(s, &c, z ? &iz : &in, &o0)) return;
            if (rel_run(&s2, &r, z ? &iz : &in, &o1) == 0) {
               double big = 0., scale = 0.;
               for (i = 0; i < (s->solver == RS(TWO_OS) ? in.out_levels[0] == 0 && ! (c.options & RO(OUTPUT_AT_TAUS)) ? c.n_phis * xh_nth(&c) * c.n_stokes : 0 : nIv(&c)); ++i) if (o0.v[i] != -999. && o1.v[i] != -999.) { e = fabs(o0.v[i] - o1.v[i]); if (! (e <= big)) { big = e; sprintf(wb, "%s: %.10g and %.10g", rel_where(&c, i, (char [80]) {0}), o1.v[i], o0.v[i]); } if (fabs(o1.v[i]) > scale) scale = fabs(o1.v[i]); }
               mc_nontrivial(1);
               if (z) { CHECK("order0", big / scale, 1.e-5, "without scattering"); }
               else { CHECK("orders", big / (scale + 1.e-30), s->solver == RS(SINGLE) ? 2.e-5 : s->dim[D_TAU] == 1 ? 1.e-4 : 2.e-6, "expansion in orders of scattering"); }
            }
          }
          return;
     }
     if (s->solver & (RS(SINGLE) | RS(TWO_OS))) return;
     tol = s->solver == RS(SOS) ? s->dim[D_TAU] == 1 ? 6.e-2 : 5.e-3 : s->solver & (RS(DOUB_ADD) | RS(PADE_ADD)) ? 1.e-4 : 4.e-5;
     if (s->dim[D_GEOM] == 4 && tol < 3.e-4) tol = 3.e-4;
     if (s->c.options & RO(SOURCE_THERMAL) && s->dim[D_TAU] > 1) tol = 2.e-3;   /* doubling has thermal emission in its starting layer to first order */
     if (s->solver == RS(TWO_STREAM)) for (i = 0; i < c.n_derivs; ++i) in.F_iso_top_l[i] = in.F_iso_bot_l[i] = 0.;
     if (rel_run(s, &c, &in, &o0)) return;
     /* boundary illumination that some solvers do not handle is a check of its own */
     if (s->solver == RS(TWO_STREAM) || (sc_is_stream(s->solver) && c.options & RO(SFI))) {
          if (ref_run(&c, &s->in, &o1) == 0 && rel_run(s, &c, &s->in, &o2) == 0) { map_id(&m); m.no_derivs = m.unset_ok = 1; m.no_pm = c.options & RO(UPWELLING_OUTPUT) ? 2 : c.options & RO(DOWNWELLING_OUTPUT) ? 1 : 0; CHECK("iso", mcmp(&c, &o1, &c, &o2, &m, 1.e-3), tol, "isotropic illumination"); }
     }
     /* the independent reference */
     k = c.options & RO(CALC_DERIVS);
     if (ref_run(&c, &in, &o1) == 0) { map_id(&m); m.no_derivs = m.unset_ok = 1; m.no_pm = c.options & RO(UPWELLING_OUTPUT) ? 2 : c.options & RO(DOWNWELLING_OUTPUT) ? 1 : 0; CHECK("reference", mcmp(&c, &o1, &c, &o0, &m, 1.e-3), tol, "solution of the discrete ordinate equations by matrix exponentials"); }
     /* the other solvers, with derivatives */
     for (i = 0; alt[i]; ++i) {
          static scen s2;
          if (c.options & RO(PART_SOL_GREENS) && alt[i] == RS(EIG_BVP) && (c.options & RO(OUTPUT_AT_TAUS) || c.n_stokes > 1)) continue;   /* findings of their own */
          if (alt[i] == s->solver || (s->solver != RS(EIG_BVP) && alt[i] != RS(EIG_BVP))) continue;
          s2 = *s; s2.solver = alt[i]; r = c; r.solvers = alt[i];
          if (! sc_is_adding(alt[i])) r.options &= ~(RO(STACK_REUSE_ADDING) | RO(TOP_DOWN_ADDING) | RO(BOTTOM_UP_ADDING));
          if (rel_run(&s2, &r, &in, &o1)) continue;
          map_id(&m); if (! k || ! sc_solver_has_derivs(alt[i]) || ! sc_solver_has_derivs(s->solver)) m.no_derivs = 1;
          sprintf(what, "%s", xh_solver_name(alt[i]));
          CHECK(what, mcmp(&r, &o1, &c, &o0, &m, 1.e-2), (alt[i] & (RS(DOUB_ADD) | RS(PADE_ADD))) && tol < 1.e-4 ? 1.e-4 : tol < 1.e-4 && s->solver == RS(TWO_STREAM) ? 1.e-4 : tol, "solvers of the same equations");
     }
     (void) ns;
}

/* ---------------------------------------------------------------- C09 */
static void set_pattern(const scen *s, xh_in *in, int p, int nl, int nd) {
     int i, j, k;
     for (j = 0; j < nd; ++j) for (i = 0; i < nl; ++i) {
          int on = p >> (j * nl + i) & 1;
          in->ltau_l[i][j] = on ? .5 - .2 * j + .1 * i : 0.;
          in->omega_l[i][j] = on && ! (i & 1) ? .3 + .1 * j : 0.;
          for (k = 0; k < MC; ++k) in->coef_l[i][j][0][k] = on && i & 1 && k > 0 && k < s->in.n_coef[i] ? .1 * s->in.coef[i][0][k] : 0.;
     }
}
static void c09(scen *s) {
     int i, k, p, n, nl = s->c.n_layers, nd = s->c.n_layers > 4 && s->c.n_derivs ? 1 : s->c.n_derivs > 2 ? 2 : s->c.n_derivs, der, first; static xh_in in; xh_cfg c, r = s->c; map m; xrtm_data d; char what[60];
     static const int opts[4] = {RO(STACK_REUSE_ADDING), RO(TOP_DOWN_ADDING), RO(BOTTOM_UP_ADDING), RO(BOTTOM_UP_ADDING) | RO(STACK_REUSE_ADDING)};
     static const char *nm[4] = {"stack_reuse", "top_down", "bottom_up", "bottom_up_stack_reuse"};
     if (! sc_is_adding(s->solver)) return;
     der = (r.options & RO(CALC_DERIVS)) && nd > 0;
     if (der) r.n_derivs = nd;
     n = der ? 1 << (nl * nd) : 1;
     for (k = 0; k < 4; ++k) {
          if (k % 3 == 0 && ! (r.options & RO(CALC_DERIVS))) continue;
          c = r; c.options |= opts[k];
          map_id(&m);
          in = s->in;
          if (k) { c.n_out_levels = 1; in.out_levels[0] = k == 1 ? nl : 0; if (r.n_out_levels == 1 && s->in.out_levels[0] != in.out_levels[0]) continue; m.lev[0] = r.n_out_levels == 1 ? 0 : k == 1 ? 1 : 0; }
          if (xh_create(&c, &d) == XRTM_INT_ERROR) continue;
          first = 1;
          for (p = 0; p < n; p = p + (mc_thorough || n <= 64 ? 1 : 5)) {
               int q = (p * 29 + 17) % n;    /* an order in which neighbours differ in many layers */
               xh_in ref = s->in;
               if (der) { set_pattern(s, &ref, q, nl, nd); set_pattern(s, &in, q, nl, nd); }
               if (rel_run(s, &r, &ref, &o0)) continue;
               mc_states(1);
               if (rel_run(s, &c, &in, &o1)) { V(nm[k], "error"); break; }
               if (mcmp(&r, &o0, &c, &o1, &m, 1.e-3) > 1.e-7) { sprintf(what, "%s", nm[k]); V(what, "varied layers 0x%x: plain adding and %s: %s", q, nm[k], wb); break; }
               /* the same on one instance, through all patterns */
               if (first) { if (xh_set_all(&c, &d, &in) || xh_update(&c, &d)) { V(nm[k], "setters fail"); break; } }
               else for (i = 0; i < nl; ++i) { int j; for (j = 0; j < nd; ++j) {
                    xh_slot a = {K_LTAU_L, i, j}, b = {K_OMEGA_L, i, j}, e = {K_COEF_L, i, j};
                    xh_set(&c, &d, &in, &a, 0); xh_set(&c, &d, &in, &b, 0); xh_set(&c, &d, &in, &e, 0); } }
               if (! first && xh_update(&c, &d)) { V(nm[k], "xrtm_update_varied_layers() fails"); break; }
               first = 0;
               mc_transitions(1);
               xh_run(&c, &d, &in, s->solver, s->sols, 0, &o1);
               if (mcmp(&r, &o0, &c, &o1, &m, 1.e-3) > 1.e-7) { sprintf(what, "%s-seq", nm[k]); V(what, "varied layers 0x%x, after others: plain adding and %s: %s", q, nm[k], wb); break; }
               if (p % 3 == 2) {   /* an input of a layer changes between */
                    xh_slot a = {K_LTAU, p % nl, 0};
                    ref.ltau[a.a] *= 1.1; in.ltau[a.a] *= 1.1;
                    xh_set(&c, &d, &in, &a, 0);
                    rel_run(s, &r, &ref, &o0);
                    xh_run(&c, &d, &in, s->solver, s->sols, 0, &o1);
                    if (mcmp(&r, &o0, &c, &o1, &m, 1.e-3) > 1.e-7) { sprintf(what, "%s-seq", nm[k]); V(what, "varied layers 0x%x, after a change of ltau[%d]: plain adding and %s: %s", q, a.a, nm[k], wb); break; }
                    in.ltau[a.a] = s->in.ltau[a.a];
                    xh_set(&c, &d, &in, &a, 0);
               }
          }
          xrtm_destroy(&d);
     }
}

/* all patterns of layers varied by several derivatives, for chains of stacks: the derivative of each index is compared
   with that of an instance with this derivative alone and without reuse of stacks */
static struct { int nl, nd, solver, src, opt; } stk[] = {
     {4, 3, RS(EIG_ADD), 0, 0}, {5, 2, RS(PADE_ADD), 0, 0}, {4, 3, RS(EIG_ADD), 1, 1}, {3, 4, RS(DOUB_ADD), 0, 0}, {5, 3, RS(EIG_ADD), 0, 0}, {5, 3, RS(EIG_ADD), 1, 1}, {4, 4, RS(EIG_ADD), 0, 0},
};
#define STK_CHUNK 128
static int stk_n(int k) { return 1 << (stk[k].nl * stk[k].nd); }
static long stk_total(void) { int k; long n = 0; for (k = 0; k < (mc_thorough ? 7 : 4); ++k) n += (stk_n(k) + STK_CHUNK - 1) / STK_CHUNK; return n; }
static void stk_one(long i) {
     static scen s_, *s = &s_; static xh_in ref, in; static xh_out rf[4][32]; static char have[4][32]; static int hk = -1; xh_cfg c, r; map m; xrtm_data d; int k, j, l, p, q, nl, nd, n, first = 1;
     for (k = 0; i >= (stk_n(k) + STK_CHUNK - 1) / STK_CHUNK; ++k) i -= (stk_n(k) + STK_CHUNK - 1) / STK_CHUNK;
     nl = stk[k].nl; nd = stk[k].nd; n = stk_n(k);
     memset(s, 0, sizeof(*s)); memset(&r, 0, sizeof(r));
     r.options = RO(CALC_DERIVS) | RO(OUTPUT_AT_LEVELS) | RO(SOURCE_SOLAR) | (stk[k].src ? RO(SOURCE_THERMAL) : 0);
     r.solvers = s->solver = stk[k].solver; r.n_coef = 5; r.n_quad = 2; r.n_stokes = 1; r.n_layers = nl; r.n_kernels = 1; r.n_kernel_quad = 6; r.kernels[0] = XRTM_KERNEL_LAMBERTIAN;
     r.n_phis = 1; r.n_out_levels = stk[k].opt ? 1 : 2;
     s->sols = XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_FLUX;
     c = r; c.options |= RO(STACK_REUSE_ADDING) | (stk[k].opt ? RO(BOTTOM_UP_ADDING) : 0);
     r.n_derivs = 1; c.n_derivs = nd;
     s->c = r; xh_default_in(&c, &s->in); s->in.out_levels[0] = 0; s->in.out_levels[1] = nl;
     for (l = 0; l < nl; ++l) s->in.n_coef[l] = r.n_coef;
     memset(&s->in.F_iso_top_l, 0, sizeof(s->in.F_iso_top_l)); memset(&s->in.F_iso_bot_l, 0, sizeof(s->in.F_iso_bot_l)); memset(&s->in.surface_b_l, 0, sizeof(s->in.surface_b_l));
     memset(&s->in.levels_b_l, 0, sizeof(s->in.levels_b_l)); memset(&s->in.ampfac_l, 0, sizeof(s->in.ampfac_l)); memset(&s->in.coef_l, 0, sizeof(s->in.coef_l));
     sprintf(s->name, "stacks:%s,layers=%d,derivs=%d%s%s", xh_solver_name(s->solver), nl, nd, stk[k].src ? ",thermal" : "", stk[k].opt ? ",bottom_up" : "");
     mc_ctx("%s,patterns %ld-", s->name, i * STK_CHUNK);
     if (hk != k) { memset(have, 0, sizeof(have)); hk = k; }
     xh_quiet();
     if (xh_create(&c, &d) == XRTM_INT_ERROR) { xh_loud(); mc_viol("stacks:create", "an instance cannot be created"); return; }
     for (p = i * STK_CHUNK; p < (i + 1) * STK_CHUNK && p < n; ++p) {
          q = (int) ((p * 2731L + 17) % n);
          in = s->in; set_pattern(s, &in, q, nl, nd);
          map_id(&m);
          if (first ? xh_set_all(&c, &d, &in) : 0) { V("stacks-error", "setters fail"); break; }
          if (! first) for (l = 0; l < nl; ++l) for (j = 0; j < nd; ++j) {
               xh_slot a = {K_LTAU_L, l, j}, b = {K_OMEGA_L, l, j}, e = {K_COEF_L, l, j};
               xh_set(&c, &d, &in, &a, 0); xh_set(&c, &d, &in, &b, 0); xh_set(&c, &d, &in, &e, 0);
          }
          first = 0;
          if (xh_update(&c, &d)) { V("stacks-error", "xrtm_update_varied_layers() fails for varied layers 0x%x", q); break; }
          mc_execs(1); mc_states(1); mc_transitions(2);
          if (xh_fresh_run(&c, &in, s->solver, s->sols, 0, &o1)) { V("stacks-error", "varied layers 0x%x: error", q); break; }
          if (xh_run(&c, &d, &in, s->solver, s->sols, 0, &o2)) { V("stacks-error", "varied layers 0x%x after others: error", q); break; }
          for (j = 0; j < nd; ++j) {
               int col = q >> (j * nl) & ((1 << nl) - 1), z;
               if (! have[j][col]) {
                    set_pattern(s, &in, q, nl, nd); ref = s->in;
                    for (l = 0; l < nl; ++l) { ref.ltau_l[l][0] = in.ltau_l[l][j]; ref.omega_l[l][0] = in.omega_l[l][j]; for (z = 0; z < MC; ++z) ref.coef_l[l][0][0][z] = in.coef_l[l][j][0][z]; }
                    if (rel_run(s, &r, &ref, &rf[j][col])) { V("stacks-error", "plain adding, varied layers 0x%x: error", col); goto out; }
                    have[j][col] = 1;
               }
               map_id(&m); for (z = 0; z < MD; ++z) m.der[z] = z == j ? 0 : -1;
               if (mcmp(&r, &rf[j][col], &c, &o1, &m, 1.e-3) > 1.e-7) { V("stacks", "varied layers 0x%x, derivative %d: plain adding and reuse of stacks: %s", q, j, wb); goto out; }
               if (mcmp(&r, &rf[j][col], &c, &o2, &m, 1.e-3) > 1.e-7) { V("stacks-seq", "varied layers 0x%x after others, derivative %d: plain adding and reuse of stacks: %s", q, j, wb); goto out; }
               if (col) mc_nontrivial(1);
          }
     }
out: xrtm_destroy(&d);
     xh_loud();
}

/* ---------------------------------------------------------------- C11 */
static void cp_deriv(const xh_cfg *c, const xh_in *a, int j, xh_in *b, int k, double x, int add) {
     int i, e, q;
#define CD(F) b->F[k] = (add ? b->F[k] : 0.) + x * a->F[j]
     CD(F_iso_top_l); CD(F_iso_bot_l); CD(surface_b_l);
     for (i = 0; i <= c->n_layers; ++i) b->levels_b_l[k][i] = (add ? b->levels_b_l[k][i] : 0.) + x * a->levels_b_l[j][i];
     for (i = 0; i < c->n_layers; ++i) {
          b->omega_l[i][k] = (add ? b->omega_l[i][k] : 0.) + x * a->omega_l[i][j];
          b->ltau_l[i][k] = (add ? b->ltau_l[i][k] : 0.) + x * a->ltau_l[i][j];
          for (e = 0; e < 6; ++e) for (q = 0; q < MC; ++q) b->coef_l[i][k][e][q] = (add ? b->coef_l[i][k][e][q] : 0.) + x * a->coef_l[i][j][e][q];
     }
     for (i = 0; i < c->n_kernels; ++i) {
          b->ampfac_l[i][k] = (add ? b->ampfac_l[i][k] : 0.) + x * a->ampfac_l[i][j];
          for (q = 0; q < MX; ++q) b->params_l[i][k][q] = (add ? b->params_l[i][k][q] : 0.) + x * a->params_l[i][j][q];
     }
}
static void c11(scen *s) {
     xh_cfg c, r = s->c; static xh_in in, in0; map m; int i, j, nd = r.n_derivs; char what[60]; double tol = s->dim[D_OMEGA] ? approx_solver(s) ? 2.e-4 : 1.e-5 : 1.e-6, tol0 = s->solver == RS(MEM_BVP) ? 1.e-7 : s->dim[D_OMEGA] && (s->solver & (RS(DOUB_ADD) | RS(PADE_ADD))) ? s->dim[D_GEOM] == 5 ? 1.e-4 : 1.e-5 : 1.e-9;
     if (! (r.options & RO(CALC_DERIVS)) || nd < 1 || rel_run(s, &r, &s->in, &o0)) return;
     mc_states(1);
     /* off */
     c = r; c.options &= ~(RO(CALC_DERIVS) | RO(STACK_REUSE_ADDING)); c.n_derivs = 0;
     map_id(&m);
     if (rel_run(s, &c, &s->in, &o1)) V("off", "error without derivatives");
     else CHECK("off", mcmp(&r, &o0, &c, &o1, &m, 1.e-3), tol0, "with and without derivatives");
     /* alone */
     for (j = 0; j < nd; ++j) {
          c = r; c.n_derivs = 1; in = s->in;
          cp_deriv(&r, &s->in, j, &in, 0, 1., 0);
          map_id(&m); m.der[0] = j;
          rel_run(s, &c, &in, &o1);
          sprintf(what, "alone");
          CHECK(what, mcmp(&r, &o0, &c, &o1, &m, 1.e-3), tol, "a derivative in a set and alone");
     }
     if (nd < 2) return;
     /* another order */
     in = s->in; map_id(&m);
     for (j = 0; j < nd; ++j) { cp_deriv(&r, &s->in, j, &in, (j + 1) % nd, 1., 0); m.der[(j + 1) % nd] = j; }
     rel_run(s, &r, &in, &o1);
     CHECK("order", mcmp(&r, &o0, &r, &o1, &m, 1.e-3), tol, "derivatives in another order");
     /* one of them zero */
     for (j = 0; j < nd; ++j) {
          in = s->in; cp_deriv(&r, &s->in, j, &in, j, 0., 0);
          rel_run(s, &r, &in, &o1);
          if (o1.rc) { V("zero", "error"); continue; }
          map_id(&m); m.der[j] = -1;
          CHECK("others", mcmp(&r, &o0, &r, &o1, &m, 1.e-3), tol, "derivatives with another derivative zero");
          for (i = nIv(&r); i < o1.n; ++i) {
               int q = group(&r, i), dd;
               if (q != 2 && q != 3) continue;
               dd = q == 2 ? (i - nIv(&r)) / (r.n_stokes * r.n_phis * xh_nth(&r)) % nd : (i - nIl(&r) - 5 * r.n_out_levels) % nd;
               if (dd == j && o1.v[i] != -999. && ! (fabs(o1.v[i]) < 1.e-12)) { V("zero", "the derivative whose inputs are all zero: %s = %g", rel_where(&r, i, wb), o1.v[i]); break; }
          }
     }
     /* linear combinations: slot 0: 2 d0 - 3 d1; slot 1: d0 */
     in = s->in;
     cp_deriv(&r, &s->in, 0, &in, 0, 2., 0); cp_deriv(&r, &s->in, 1, &in, 0, -3., 1);
     cp_deriv(&r, &s->in, 0, &in, 1, 1., 0);
     rel_run(s, &r, &in, &o1);
     o2 = o0;
     if (! o1.rc) for (i = 0; i < o0.n; ++i) {
          int q = group(&r, i), dd, st;
          if (q != 2 && q != 3) continue;
          st = q == 2 ? r.n_stokes * r.n_phis * xh_nth(&r) : 1;
          dd = q == 2 ? (i - nIv(&r)) / st % nd : (i - nIl(&r) - 5 * r.n_out_levels) % nd;
          if (o0.v[i] == -999.) continue;
          if (dd == 0) o2.v[i] = 2. * o0.v[i] - 3. * o0.v[i + st];
          if (dd == 1) o2.v[i] = o0.v[i - st];
     }
     map_id(&m);
     CHECK("linear", mcmp(&r, &o2, &r, &o1, &m, 1.e-3), tol, "the combination 2 d0 - 3 d1 of derivatives");
     (void) in0;
}

/* ---------------------------------------------------------------- C13 */
static void split(const scen *s, int l, double f, xh_cfg *c, xh_in *in) {
     int i, j, n = s->c.n_layers; const xh_in *a = &s->in;
     *c = s->c; c->n_layers = n + 1; *in = *a;
     for (i = n; i > l; --i) {
          in->n_coef[i] = a->n_coef[i - 1]; memcpy(in->coef[i], a->coef[i - 1], sizeof(in->coef[i])); memcpy(in->coef_l[i], a->coef_l[i - 1], sizeof(in->coef_l[i]));
          in->omega[i] = a->omega[i - 1]; memcpy(in->omega_l[i], a->omega_l[i - 1], sizeof(in->omega_l[i]));
          in->ltau[i] = a->ltau[i - 1]; memcpy(in->ltau_l[i], a->ltau_l[i - 1], sizeof(in->ltau_l[i]));
     }
     in->ltau[l] = a->ltau[l] * f; in->ltau[l + 1] = a->ltau[l] * (1. - f);
     for (j = 0; j < MD; ++j) { in->ltau_l[l][j] = a->ltau_l[l][j] * f; in->ltau_l[l + 1][j] = a->ltau_l[l][j] * (1. - f); }
     for (i = n + 1; i > l + 1; --i) { in->levels_b[i] = a->levels_b[i - 1]; in->levels_z[i] = a->levels_z[i - 1]; for (j = 0; j < MD; ++j) in->levels_b_l[j][i] = a->levels_b_l[j][i - 1]; }
     in->levels_b[l + 1] = a->levels_b[l] + f * (a->levels_b[l + 1] - a->levels_b[l]);
     in->levels_z[l + 1] = a->levels_z[l] + f * (a->levels_z[l + 1] - a->levels_z[l]);
     for (j = 0; j < MD; ++j) in->levels_b_l[j][l + 1] = a->levels_b_l[j][l] + f * (a->levels_b_l[j][l + 1] - a->levels_b_l[j][l]);
     if (! (c->options & RO(OUTPUT_AT_TAUS))) for (i = 0; i < c->n_out_levels; ++i) if (in->out_levels[i] > l) in->out_levels[i]++;
}
static void c13(scen *s) {
     xh_cfg c; static xh_in in; map m; int l, k; char what[60]; double e, tol; static const double fr[] = {.5, .1, 1.e-3};
     if (s->c.options & RO(PSA) || s->c.n_layers + 2 > ML || (s->n_devs > 1 && (s->dim[D_TAU] == 4 || (s->dim[D_GEOM] == 5 && s->solver == RS(SOS)))) || rel_run(s, &s->c, &s->in, &o0)) return;
     mc_states(1);
     map_id(&m);
     for (l = 0; l < s->c.n_layers; ++l) for (k = 0; k < 3; ++k) {
          split(s, l, fr[k], &c, &in);
          if (s->dim[D_OUT] == 6) { int q; double t = 0.; for (q = 0; q < c.n_layers; ++q) t += in.ltau[q]; in.out_taus[c.n_out_levels - 1] = t; }     /* the sum is rounded otherwise */
          if (rel_run(s, &c, &in, &o1) == -10) continue;
          sprintf(what, "split%g", fr[k]);
          tol = s->solver == RS(SOS) ? 2.e-2 : approx_solver(s) ? s->c.options & RO(SOURCE_THERMAL) && s->dim[D_TAU] > 1 ? 5.e-3 : 1.e-4 : 1.e-6;
          if (s->dim[D_OMEGA]) tol = tol > 1.e-4 ? tol : 1.e-4;
          e = mcmp(&s->c, &o0, &c, &o1, &m, 1.e-2);
          CHECK(what, e, tol, "layer split in two");
     }
}

/* ---------------------------------------------------------------- C14 */
static void src_only(const scen *s, int which, double x, xh_in *in) {
     int i, j; const xh_in *a = &s->in;
     *in = *a;
     for (j = 0; j < MD; ++j) { in->F_iso_top_l[j] *= which == 1 ? x : 0.; in->F_iso_bot_l[j] *= which == 2 ? x : 0.; in->surface_b_l[j] *= which == 4 ? x : 0.; for (i = 0; i <= ML; ++i) in->levels_b_l[j][i] *= which == 3 ? x : 0.; }
     in->F_0 *= which == 0 ? x : 0.; in->F_iso_top *= which == 1 ? x : 0.; in->F_iso_bot *= which == 2 ? x : 0.; in->surface_b *= which == 4 ? x : 0.;
     for (i = 0; i <= ML; ++i) in->levels_b[i] *= which == 3 ? x : 0.;
}
static void c14(scen *s) {
     static const double xs[] = {1., 3., .25}; map m; static xh_in in; int i, j, k, n = 0; static xh_out sum[3]; char what[60];
     double tol = s->dim[D_OMEGA] ? 1.e-5 : s->solver == RS(SOS) && s->dim[D_TAU] ? 1.e-2 : s->dim[D_GEOM] || s->dim[D_TAU] > 1 ? 1.e-5 : 1.e-7;
     if (s->solver == RS(SOS)) {
          tol = s->dim[D_OMEGA] ? 2.e-2 : s->dim[D_TAU] ? 1.e-2 : 1.e-6;
          /* the orders of scattering end with radiances below the tolerance: a source of no strength has no derivative here */
          for (i = 0; i < s->c.n_derivs; ++i) { if (s->in.F_iso_top == 0.) s->in.F_iso_top_l[i] = 0.; if (s->in.F_iso_bot == 0.) s->in.F_iso_bot_l[i] = 0.; }
     }
     if (rel_run(s, &s->c, &s->in, &o0)) return;
     map_id(&m); if (s->solver == RS(SOS) && s->dim[D_OMEGA] == 2) m.no_derivs = 1;   /* orders are ended by the radiance alone */
     mc_states(1);
     for (k = 0; k < 3; ++k) {
          for (i = 0; i < 5; ++i) {
               src_only(s, i, xs[k], &in);
               if (rel_run(s, &s->c, &in, &o1)) { V("alone", "error with only source %d", i); return; }
               if (i == 0) sum[k] = o1;
               else for (j = 0; j < o1.n; ++j) if (o1.v[j] != -999.) sum[k].v[j] += o1.v[j];
               n++;
          }
          m.scale = m.dscale = xs[k];
          sprintf(what, "sum%g", xs[k]);
          CHECK(what, mcmp(&s->c, &o0, &s->c, &sum[k], &m, 1.e-3), tol, "all sources together and the sum of each alone, scaled");
     }
     src_only(s, 9, 1., &in);
     if (rel_run(s, &s->c, &in, &o1)) V("none", "error without sources");
     else for (j = 0; j < o1.n; ++j) if (o1.v[j] != -999. && ! (fabs(o1.v[j]) < 1.e-12)) { V("none", "%s is %g without sources", rel_where(&s->c, j, wb), o1.v[j]); break; }
}

/* ---------------------------------------------------------------- C15 */
static void c15(scen *s) {
     xh_cfg c = s->c; static xh_in in; int i, j, k, nl = c.n_layers; map m; double e, q; int eps;
     c.options &= ~RO(CALC_DERIVS); c.n_derivs = 0;
     if (s->solver & (RS(SINGLE) | RS(TWO_OS)) || c.options & (RO(UPWELLING_OUTPUT) | RO(DOWNWELLING_OUTPUT) | RO(PSA) | RO(STACK_REUSE_ADDING))) return;
     if (s->dim[D_OUT] && s->dim[D_OUT] != 4 && s->dim[D_OUT] != 1) return;
     map_id(&m); (void) m;
     mc_states(1);
     /* conservative: the net flux is the same everywhere */
     if (! s->dim[D_OMEGA] && c.n_out_levels > 1 && ! (c.misc & XM_SYM && sc_is_stream(s->solver))) for (eps = 0; eps < 2; ++eps) {
          in = s->in;
          if (eps && ! (c.n_kernels == 0 || (c.n_kernels == 1 && c.kernels[0] == XRTM_KERNEL_LAMBERTIAN))) continue;
          for (i = 0; i < nl; ++i) in.omega[i] = 1.;
          c = s->c; c.options &= ~RO(CALC_DERIVS); c.n_derivs = 0;
          if (eps) { c.n_kernels = 1; c.kernels[0] = XRTM_KERNEL_LAMBERTIAN; c.n_kernel_quad = 6; in.ampfac[0] = 1.; in.surface_b = 0.; }
          if (rel_run(s, &c, &in, &o0)) continue;
          if (in.F_iso_bot != 0. && eps) in.F_iso_bot = 0., rel_run(s, &c, &in, &o0);
          q = s->solver == RS(SOS) ? s->dim[D_TAU] == 1 ? 1. : 5.e-2 : 1.e-3 * (1. + (s->dim[D_TAU] == 1 ? 10. : s->dim[D_TAU] == 4 ? 30. : 0.));   /* the library takes 1 - 1e-5 for a single scattering albedo of one */
          for (k = 1; k < c.n_out_levels; ++k) {
               double f0 = o0.v[xh_i_M(&c, 3, 0)] - o0.v[xh_i_M(&c, 2, 0)], fk = o0.v[xh_i_M(&c, 3, k)] - o0.v[xh_i_M(&c, 2, k)];
               e = fabs(fk - f0) / (fabs(o0.v[xh_i_M(&c, 3, 0)]) + (c.options & RO(SOURCE_THERMAL) ? .1 : 1.e-3)); sprintf(wb, "net flux %.9g at output 0 and %.9g at output %d", f0, fk, k);
               mc_nontrivial(1);
               CHECK(eps ? "cons-albedo1" : "cons", e, q, "conservative atmosphere");
          }
          if (eps) for (k = 0; k < c.n_out_levels; ++k) {
               e = fabs(o0.v[xh_i_M(&c, 3, k)] - o0.v[xh_i_M(&c, 2, k)]) / (fabs(o0.v[xh_i_M(&c, 3, k)]) + (c.options & RO(SOURCE_THERMAL) ? .1 : 1.e-3));
               sprintf(wb, "flux down %.9g, up %.9g at output %d", o0.v[xh_i_M(&c, 3, k)], o0.v[xh_i_M(&c, 2, k)], k);
               CHECK("albedo1", e, q, "conservative atmosphere over a surface of albedo one");
          }
     }
     /* isothermal enclosure: levels_b = F_iso_top = surface_b = B and no sun */
     if (s->c.options & RO(SOURCE_THERMAL) && ! (c.misc & XM_SYM)) {
          c = s->c; c.options &= ~RO(CALC_DERIVS); c.n_derivs = 0; in = s->in;
          in.F_0 = 0.; in.F_iso_top = .7; in.F_iso_bot = .7; in.surface_b = .7;
          for (i = 0; i <= nl; ++i) in.levels_b[i] = .7;
          if (c.n_kernels) in.F_iso_bot = 0.;
          if (c.n_kernels == 0 || (c.n_kernels == 1 && c.kernels[0] == XRTM_KERNEL_LAMBERTIAN)) if (rel_run(s, &c, &in, &o0) == 0) {
               q = approx_solver(s) ? 1.e-4 : 1.e-6;
               for (j = 0; j < nIv(&c); ++j) if (o0.v[j] != -999.) {
                    double want = j % c.n_stokes ? 0. : .7;
                    mc_nontrivial(1);
                    if (! (fabs(o0.v[j] - want) < q)) { V("isothermal", "%s is %.9g in an isothermal enclosure of %g", rel_where(&c, j, wb), o0.v[j], .7); break; }
               }
          }
     }
     /* no scattering: Beer's law */
     if (! s->dim[D_OMEGA] && s->c.options & RO(SOURCE_SOLAR)) {
          double mu0 = cos(s->in.theta_0 * M_PI / 180.), t, f;
          c = s->c; c.options &= ~(RO(CALC_DERIVS) | RO(SOURCE_THERMAL)); c.n_derivs = 0; in = s->in;
          c.n_kernels = 0; c.n_kernel_quad = 0;
          for (i = 0; i < nl; ++i) in.omega[i] = 0.;
          in.F_iso_top = in.F_iso_bot = 0.;
          if (rel_run(s, &c, &in, &o0) == 0) for (k = 0; k < c.n_out_levels; ++k) {
               for (t = 0., i = 0; i < in.out_levels[k]; ++i) t += in.ltau[i];
               if (c.options & RO(OUTPUT_AT_TAUS)) t = in.out_taus[k];
               f = in.F_0 * mu0 * exp(-t / mu0);
               mc_nontrivial(1);
               e = fabs(o0.v[xh_i_M(&c, 3, k)] - f) + fabs(o0.v[xh_i_M(&c, 2, k)]);
               sprintf(wb, "flux down %.9g, up %.9g, Beer's law %.9g", o0.v[xh_i_M(&c, 3, k)], o0.v[xh_i_M(&c, 2, k)], f);
               CHECK("beer", e, s->dim[D_GEOM] ? 1.e-4 : approx_solver(s) ? 1.e-6 : 1.e-8, "no scattering");
               e = fabs(o0.v[xh_i_M(&c, 1, k)] - f / mu0 / 4. / M_PI);
               sprintf(wb, "mean radiance down %.9g, Beer's law %.9g", o0.v[xh_i_M(&c, 1, k)], f / mu0 / 4. / M_PI);
               CHECK("beer-mean", e, s->dim[D_GEOM] ? 1.e-4 : approx_solver(s) ? 1.e-6 : 1.e-8, "no scattering");
          }
     }
}

/* ---------------------------------------------------------------- C16 */
static void c16(scen *s) {
     xh_cfg c = s->c; static xh_in in; map m; int i, j, k, l; double e, tol;
     if (rel_run(s, &c, &s->in, &o0)) return;
     mc_states(1);
     tol = s->solver == RS(SOS) ? 1.e-6 : 1.e-8;
     if (s->dim[D_OMEGA] || approx_solver(s)) tol = s->dim[D_SURF] || s->dim[D_COEF] ? 2.e-4 : 1.e-5;
     /* phi and phi_0 together shifted, 360 degrees added */
     if (c.options & RO(SOURCE_SOLAR)) for (k = 0; k < 3; ++k) {
          in = s->in;
          if (k == 2) for (i = 0; i < c.n_phis; ++i) in.phis[i] += in.phis[i] < 0. ? 0. : 360.;
          else { in.phi_0 += k ? 77. : -5.; for (i = 0; i < c.n_phis; ++i) in.phis[i] += k ? 77. : -5.; }
          map_id(&m);
          if (rel_run(s, &c, &in, &o1) && k == 2) continue;
          CHECK("shift", mcmp(&s->c, &o0, &c, &o1, &m, 1.e-3), tol, "azimuths shifted together, or by 360 degrees");
     }
     /* mirror */
     in = s->in; for (i = 0; i < c.n_phis; ++i) { in.phis[i] = 2. * in.phi_0 - in.phis[i]; if (in.phis[i] < 0.) in.phis[i] += 360.; }
     map_id(&m); m.flip[2] = m.flip[3] = -1;
     rel_run(s, &c, &in, &o1);
     CHECK("mirror", mcmp(&s->c, &o0, &c, &o1, &m, 1.e-3), tol, "azimuth mirrored at the plane of the sun");
     /* reciprocity of reflection and transmission (reversed atmosphere, no surface) of the sun alone, at the top */
     if (c.options & RO(SOURCE_SOLAR) && c.n_out_thetas && c.n_stokes == 1 && ! (c.options & (RO(PSA) | RO(SOURCE_THERMAL) | RO(OUTPUT_AT_TAUS))) && s->solver != RS(TWO_OS) && ! s->dim[D_DM] && ! sc_is_stream(s->solver) && ! (s->solver == RS(SOS) && s->dim[D_COEF]) && s->dim[D_SURF] != 3) {
          static const double ang[] = {0., 12., 41., 63., 78.};
          xh_cfg r = c;
          r.options &= ~(RO(CALC_DERIVS) | RO(STACK_REUSE_ADDING)); r.n_derivs = 0; r.n_out_thetas = 1; in = s->in; in.F_iso_top = in.F_iso_bot = 0.;
          in.phi_0 = 0.; in.phis[0] = 35.; r.n_phis = 1;
          if (in.out_levels[0] == 0 && s->c.n_out_levels <= 2 && ! (c.options & RO(DOWNWELLING_OUTPUT))) for (j = 0; j < 5; ++j) for (k = j + 1; k < 5; ++k) {
               double x, y;
               in.theta_0 = ang[j]; in.out_thetas[0] = ang[k]; if (rel_run(s, &r, &in, &o1)) continue;
               in.theta_0 = ang[k]; in.out_thetas[0] = ang[j]; if (rel_run(s, &r, &in, &o2)) continue;
               x = o1.v[xh_i_I(&r, 0, 0, 0, 0, 0)] / cos(ang[j] * M_PI / 180.); y = o2.v[xh_i_I(&r, 0, 0, 0, 0, 0)] / cos(ang[k] * M_PI / 180.);
               e = fabs(x - y) / (fabs(x) + 1.e-4);
               mc_nontrivial(1);
               sprintf(wb, "I/mu of %g to %g: %.9g, of %g to %g: %.9g", ang[j], ang[k], x, ang[k], ang[j], y);
               CHECK("reciprocity", e, s->solver == RS(SOS) ? 2.e-2 : j == 0 || approx_solver(s) ? 2.e-4 : 1.e-6, "reflection with the sun and the view exchanged");
          }
          /* transmission: the atmosphere upside down */
          if (r.n_kernels == 0 && s->c.n_out_levels == 2 && ! (c.options & (RO(UPWELLING_OUTPUT)))) for (j = 0; j < 5; ++j) for (k = j + 1; k < 5; ++k) {
               double x, y; static xh_in in2;
               in.theta_0 = ang[j]; in.out_thetas[0] = ang[k]; if (rel_run(s, &r, &in, &o1)) continue;
               in2 = in;
               for (l = 0; l < r.n_layers; ++l) { int b = r.n_layers - 1 - l; in2.ltau[l] = in.ltau[b]; in2.omega[l] = in.omega[b]; in2.n_coef[l] = in.n_coef[b]; memcpy(in2.coef[l], in.coef[b], sizeof(in.coef[b])); }
               in2.theta_0 = ang[k]; in2.out_thetas[0] = ang[j]; if (rel_run(s, &r, &in2, &o2)) continue;
               x = o1.v[xh_i_I(&r, 1, 1, 0, 0, 0)] / cos(ang[j] * M_PI / 180.); y = o2.v[xh_i_I(&r, 1, 1, 0, 0, 0)] / cos(ang[k] * M_PI / 180.);
               e = fabs(x - y) / (fabs(x) + 1.e-4);
               sprintf(wb, "I/mu of %g to %g: %.9g, of %g to %g upside down: %.9g", ang[j], ang[k], x, ang[k], ang[j], y);
               CHECK("reciprocity-t", e, s->solver == RS(SOS) ? 2.e-2 : j == 0 || approx_solver(s) ? 3.e-5 : 1.e-6, "transmission with the sun and the view exchanged");
          }
     }
     /* at theta = 0 azimuth does not matter */
     if (c.n_out_thetas && c.n_stokes == 1) {
          in = s->in; in.out_thetas[0] = 0.; c.n_out_thetas = 1; c.n_phis = 3; in.phis[0] = 3.; in.phis[1] = 95.; in.phis[2] = 213.;
          if (rel_run(s, &c, &in, &o1) == 0) {
               xh_cfg c1 = c; c1.n_phis = 1;
               rel_run(s, &c1, &in, &o2);
               map_id(&m); m.ph[1] = m.ph[2] = 0; m.no_mean = 1;
               CHECK("nadir", mcmp(&c1, &o2, &c, &o1, &m, 1.e-3), 1.e-4, "azimuth at the nadir angle");
          }
     }
     /* upside down with isotropic illumination from above and below */
     if (s->c.n_kernels == 0 && ! (s->solver & (RS(SINGLE) | RS(TWO_OS) | RS(SOS))) && ! (s->c.options & (RO(OUTPUT_AT_TAUS) | RO(UPWELLING_OUTPUT) | RO(DOWNWELLING_OUTPUT))) && s->c.n_out_levels > 1 && ! (s->c.misc & XM_SYM)) {
          static xh_in in2; xh_cfg r = s->c; int n = r.n_layers;
          r.options &= ~(RO(CALC_DERIVS) | RO(STACK_REUSE_ADDING)); r.n_derivs = 0; in = s->in; in.F_0 = 0.; in.F_iso_top = .3; in.F_iso_bot = .8; in.surface_b = 0.;
          in2 = in; in2.F_iso_top = .8; in2.F_iso_bot = .3;
          for (l = 0; l < n; ++l) { int b = n - 1 - l; in2.ltau[l] = in.ltau[b]; in2.omega[l] = in.omega[b]; in2.n_coef[l] = in.n_coef[b]; memcpy(in2.coef[l], in.coef[b], sizeof(in.coef[b])); }
          for (l = 0; l <= n; ++l) in2.levels_b[l] = in.levels_b[n - l];
          if (rel_run(s, &r, &in, &o1) == 0 && rel_run(s, &r, &in2, &o2) == 0) {
               e = 0.;
               for (k = 0; k < r.n_out_levels; ++k) for (j = 0; j < xh_nth(&r); ++j) for (l = 0; l < r.n_stokes; ++l) {
                    double x = o1.v[xh_i_I(&r, 0, k, j, 0, l)], y = o2.v[xh_i_I(&r, 1, r.n_out_levels - 1 - k, j, 0, l)];
                    if (l == 2 || l == 3) y = -y;
                    if (fabs(x - y) > e) { e = fabs(x - y); sprintf(wb, "up at output %d angle %d stokes %d: %.9g, down when turned: %.9g", k, j, l, x, y); }
               }
               mc_nontrivial(1);
               CHECK("upside-down", e, approx_solver(s) ? 1.e-5 : 1.e-6, "isotropic illumination of the atmosphere turned upside down");
          }
     }
}

/* ---------------------------------------------------------------- C17 */
static void c17(scen *s) {
     xh_cfg c, r = s->c; static xh_in in, is; map m; int i, j, e, k, ns; double tol = s->solver == RS(SOS) ? 1.e-6 : approx_solver(s) ? 1.e-6 : 1.e-8, w; char what[40];
     tol = tol < 1.e-7 ? 1.e-7 : tol;
     if (s->dim[D_OMEGA] || s->dim[D_TAU] > 1 || s->dim[D_GEOM] || s->dim[D_SURF]) tol = 1.e-5;
     if (r.n_stokes != 1 || rel_run(s, &r, &s->in, &o0)) return;
     mc_states(1);
     is = s->in;
     for (ns = 1; ns <= 4; ++ns) {
          /* only the phase function */
          c = r; c.options |= RO(VECTOR); c.n_stokes = ns; in = is;
          for (i = 0; i < c.n_layers; ++i) for (e = 1; e < 6; ++e) { memset(in.coef[i][e], 0, sizeof(in.coef[i][e])); for (j = 0; j < MD; ++j) memset(in.coef_l[i][j][e], 0, sizeof(in.coef_l[i][j][e])); }
          if (rel_run(s, &c, &in, &o1) == -10) continue;
          map_id(&m);
          sprintf(what, "scalar%d", ns);
          CHECK(what, mcmp(&r, &o0, &c, &o1, &m, 1.e-3), tol, "scalar and vector intensity for a scalar phase matrix");
          if (! o1.rc && (r.n_kernels == 0 || r.kernels[0] != XRTM_KERNEL_COX_MUNK)) for (i = 0; i < nIl(&c); ++i) if (i % c.n_stokes && o1.v[i] != -999. && ! (fabs(o1.v[i]) < 1.e-8)) { sprintf(what, "pol%d", ns); V(what, "%s is %g for a scalar phase matrix", rel_where(&c, i, wb), o1.v[i]); break; }
     }
     /* a real phase matrix: 3 components and 4 with no coupling to the fourth; 2 and 3 where U cannot arise: degree of polarization */
     { static xh_out q[5]; int ok[5] = {0};
       for (ns = 2; ns <= 4; ++ns) {
          c = r; c.options |= RO(VECTOR); c.n_stokes = ns; in = is;
          for (i = 0; i < c.n_layers; ++i) { for (k = 0; k < 6; ++k) memset(in.coef[i][k], 0, sizeof(in.coef[i][k])); xh_rayleigh_elems(&c, .5 + .1 * (i % 5), s->dim[D_COEF] == 2 ? .8 : .4, in.n_coef[i], in.coef[i]); for (k = 0; k < MC; ++k) in.coef[i][5][k] = 0.;
               for (j = 0; j < MD; ++j) for (e = 1; e < 6; ++e) for (k = 0; k < MC; ++k) in.coef_l[i][j][e][k] = is.coef_l[i][j][0][k] != 0. && k > 1 && e < 5 ? .05 * e : 0.; }
          if (rel_run(s, &c, &in, &q[ns])) continue;
          ok[ns] = 1;
          for (i = 0; i < nIv(&c); i += ns) if (q[ns].v[i] != -999. && q[ns].v[i] != 0.) {
               for (w = 0., k = 1; k < ns; ++k) w += q[ns].v[i + k] * q[ns].v[i + k];
               if (! (sqrt(w) <= fabs(q[ns].v[i]) * (1. + 1.e-7) + 1.e-12) && s->dim[D_COEF] != 2 && s->dim[D_COEF] != 3) { V("degree", "%s: polarized %g of %g", rel_where(&c, i, wb), sqrt(w), q[ns].v[i]); break; }
          }
          mc_nontrivial(1);
       }
       if (ok[3] && ok[4]) { xh_cfg c3 = r; c3.options |= RO(VECTOR); c3.n_stokes = 3; c = c3; c.n_stokes = 4; map_id(&m); CHECK("3to4", mcmp(&c3, &q[3], &c, &q[4], &m, 1.e-3), tol, "three and four Stokes components without coupling to the fourth"); }
     }
}

/* ---------------------------------------------------------------- */
static struct { const char *id; void (*f)(scen *); unsigned dims; int solvers, kq, kt; } props[] = {
     {"C06", c06, SC_ALLDIMS, 0x7ff, 2, 3},
     {"C02", c02, SC_ALLDIMS & ~(1u << D_SAVE | 1u << D_DIR | 1u << D_PHI), 0x7ff, 1, 2},
     {"C07", c07, SC_ALLDIMS & ~(1u << D_DIR | 1u << D_PHI), 0x7ff, 2, 3},
     {"C08", c08, SC_ALLDIMS & ~(1u << D_SAVE | 1u << D_PHI), 0x7ff, 2, 3},
     {"C09", c09, SC_ALLDIMS & ~(1u << D_ADD), RS(DOUB_ADD) | RS(EIG_ADD) | RS(PADE_ADD), 2, 3},
     {"C10", c10, SC_ALLDIMS, 0x7ff, 2, 3},
     {"C11", c11, SC_ALLDIMS, 0x7ff, 2, 3},
     {"C13", c13, SC_ALLDIMS, 0x7ff, 2, 3},
     {"C14", c14, SC_ALLDIMS, 0x7ff, 2, 3},
     {"C15", c15, SC_ALLDIMS & ~(1u << D_DERIV), 0x7ff, 2, 3},
     {"C16", c16, SC_ALLDIMS, 0x7ff, 2, 3},
     {"C17", c17, SC_ALLDIMS & ~(1u << D_VEC), 0x7ff, 2, 3},
     {NULL}
};
static int P;
static void one(long i) {
     static scen s;
     const char *only = getenv("REL_ONLY");
     if (sc_get(i, &s)) return;
     if (only && strcmp(only, s.name)) return;
     m_floor = s.c.options & RO(SOURCE_THERMAL) && s.dim[D_TAU] > 1 ? 1.e-4 : 1.e-6;
     mc_ctx("%s", s.name);
     n_run = 0;
     mc_execs(1);
     xh_quiet();
     props[P].f(&s);
     if (n_run) mc_states(1);
     xh_loud();
}
int main(int argc, char **argv) {
     char nm[40];
     const char *k;
     if (! getenv("OPENBLAS_NUM_THREADS")) { setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1); execv("/proc/self/exe", argv); }
     for (P = 0; props[P].id && strcmp(props[P].id, argv[1]); ++P) ;
     if (! props[P].id) return 2;
     mc_init(argc - 1, argv + 1);
     k = getenv("REL_K");
     sc_init(k ? atoi(k) : mc_thorough ? props[P].kt : props[P].kq, props[P].dims, props[P].solvers);
     sprintf(nm, "scenarios-%d", mc_thorough);
     mc_family(nm, sc_n(), one, 60);
     if (props[P].f == c09) mc_family(mc_thorough ? "stacks-1" : "stacks-0", stk_total(), stk_one, 120);
     return mc_done();
}
