/* C12: the adjoint solution's derivatives of the radiances are those of the forward solution, and its radiances are the forward solution's. */
#include "scen.h"
#include "mc.h"
#include <math.h>
#include <unistd.h>
#define RO(x) XRTM_OPTION_##x
#define RS(x) XRTM_SOLVER_##x
static scen s; static xh_cfg c, cr; static xh_in in;
static xh_out o0, o1;
/* deviations for which the adjoint isn't there or isn't right (known findings, each shown with that deviation alone): not combined with others */
static int unsupported(const char *n) {
     static const char *u[] = {"thermal", "sfi", "rpv", "li_ross", "coxmunk", "hapke", "user", "roujean", "taus", "tau_edges", "saves", "stack_reuse", "top_down", "dark", "greens"};
     unsigned i;
     for (i = 0; i < sizeof(u) / sizeof(*u); ++i) if (strstr(n, u[i])) return 1;
     return 0;
}
static void cmp(const char *what, const xh_out *a, const xh_out *b, double tol) {
     int pm, l, t, p, st, j; double e, sc[MD + 1], w = 0.; char wb[100] = "";
     for (pm = 0; pm < 2; ++pm) { if (! (c.options & (pm ? RO(DOWNWELLING_OUTPUT) : RO(UPWELLING_OUTPUT))) && c.options & (RO(DOWNWELLING_OUTPUT) | RO(UPWELLING_OUTPUT))) continue;
          for (l = 0; l < c.n_out_levels; ++l) for (st = 0; st < c.n_stokes; ++st) for (j = -1; j < c.n_derivs; ++j) {
               if (st == 0) { sc[j + 1] = 1.e-3; for (t = 0; t < xh_nth(&c); ++t) for (p = 0; p < c.n_phis; ++p) { double x = fabs(a->v[j < 0 ? xh_i_I(&c, pm, l, t, p, st) : xh_i_Il(&c, pm, l, j, t, p, st)]); if (x > sc[j + 1]) sc[j + 1] = x; } }
               for (t = 0; t < xh_nth(&c); ++t) for (p = 0; p < c.n_phis; ++p) {
                    int i = j < 0 ? xh_i_I(&c, pm, l, t, p, st) : xh_i_Il(&c, pm, l, j, t, p, st);
                    e = fabs(a->v[i] - b->v[i]) / sc[j + 1]; if (isnan(e)) e = isnan(a->v[i]) && isnan(b->v[i]) ? 0. : 1.e30;
                    if (j >= 0 && a->v[i] != 0.) mc_nontrivial(1);
                    if (e > w) { w = e; sprintf(wb, "I_%c[%d][%d][%d][%d] derivative %d: %.10g and %.10g", "pm"[pm], l, t, p, st, j, a->v[i], b->v[i]); }
               }
          }
     }
     if (w > tol) { char b2[160]; snprintf(b2, sizeof(b2), "%s:%s", s.name, what); mc_viol(b2, "%s (error %.2g)", wb, w); }
}
static void one(long idx) {
     int i, k, j;
     if (sc_get(idx, &s)) return;
     if (! (s.c.options & RO(CALC_DERIVS)) || ! (s.sols & XRTM_OUTPUT_RADIANCE)) return;
     if (s.n_devs && ! (s.solver & (RS(EIG_ADD) | RS(EIG_BVP) | RS(SINGLE)))) return;     /* has no adjoint: the plain scenario shows that */
     if (s.n_devs > 1 && unsupported(s.name)) return;
     c = s.c; in = s.in;
     for (j = 0; j < MD; ++j) { in.F_iso_top_l[j] = in.F_iso_bot_l[j] = in.surface_b_l[j] = 0.; for (i = 0; i <= ML; ++i) in.levels_b_l[j][i] = 0.; for (i = 0; i < MK; ++i) for (k = 0; k < MX; ++k) in.params_l[i][j][k] = 0.; }
     cr = c; cr.options |= RO(REVERSE_DERIVS);
     mc_ctx("%s", s.name);
     xh_quiet();
     if (xh_fresh_run(&c, &in, s.solver, XRTM_OUTPUT_RADIANCE, 0, &o0)) { xh_loud(); return; }
     { xrtm_data d; if (xh_create(&cr, &d) == XRTM_INT_ERROR) { xh_loud(); mc_count("refused", 1); return; } xrtm_destroy(&d); }
     mc_states(1); mc_execs(2);
     k = xh_fresh_run(&cr, &in, s.solver, XRTM_OUTPUT_RADIANCE, 2, &o1);
     xh_loud();
     if (k) { char b[160]; snprintf(b, sizeof(b), "%s:fails", s.name); mc_viol(b, "%d", k); return; }
     mc_transitions(1);
     cmp("adjoint", &o0, &o1, 1.e-6);
     mc_outcome(idx);
}
int main(int argc, char **argv) {
     int k = argc > 1 && argv[1][0] >= '0' && argv[1][0] <= '9' ? atoi(argv[1]) : 1;
     if (! getenv("OPENBLAS_NUM_THREADS")) { setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1); execv("/proc/self/exe", argv); }
     mc_init(argc, argv);
     sc_init(k + (mc_thorough ? 1 : 0), SC_ALLDIMS, -1);
     mc_family("adjoint", sc_n(), one, 60);
     mc_done();
     return 0;
}
