/* C01: after any history of input changes and runs, the outputs are those of a new instance with the same inputs. */
#include "cfgs.h"
#include "mc.h"
#include <sys/mman.h>
#include <malloc.h>
#define TOL 1.e-7
#define MAXA 200
#define MAXD 4

typedef struct { xh_slot s; int v; } act;
typedef struct { int n; short a[MAXD]; int cfg; } vh;
static struct { volatile int lock; int n; vh v[4000]; } *bad;
static const xh_cfg *C;
static int ci;
static xh_slot slots[200];
static int n_slots;
static act acts[MAXA];
static int n_acts;
static int solv[12], n_solv;
static int depth_g;

static int n_alt(const xh_cfg *c, const xh_slot *s) {
     switch (s->kind) {
     case K_THETA_0: case K_OUT_THETAS: case K_COEF: case K_OMEGA: case K_OMEGA_L: case K_COEF_L: case K_LTAU_L: return 3;
     case K_OUT_LEVELS: { xh_in a, b; xh_default_in(c, &a); b = a; xh_alt(c, &b, s, 1); return memcmp(&a, &b, sizeof(a)) ? 2 : 1; }
     }
     return 2;
}
/* is this value one that an instance of this configuration takes? */
static int accepted(const xh_slot *s, int v) {
     xrtm_data d; xh_in in; int r;
     xh_default_in(C, &in);
     if (xh_create(C, &d) == XRTM_INT_ERROR) return 0;
     r = xh_set_all(C, &d, &in);
     xh_alt(C, &in, s, v);
     if (! r) r = xh_set(C, &d, &in, s, 0);
     xrtm_destroy(&d);
     return ! r;
}
static void setup(int cfg) {
     int i, j, m;
     ci = cfg; C = &all_cfgs[cfg];
     n_slots = xh_required_slots(C, slots);
     n_slots += xh_deriv_slots(C, slots + n_slots);
     for (i = n_acts = 0; i < n_slots; ++i)
          for (j = 0, m = n_alt(C, &slots[i]); j < m; ++j) {
               if (m == 1 || (j && ! accepted(&slots[i], j))) continue;
               if (n_acts >= MAXA) exit(3);
               acts[n_acts].s = slots[i]; acts[n_acts].v = j; n_acts++;
          }
     for (i = n_solv = 0; i < N_XRTM_SOLVERS; ++i) if (C->solvers & (1 << i)) solv[n_solv++] = 1 << i;
}
static int slot_of(int a) { int i; for (i = 0; i < n_slots; ++i) if (! memcmp(&slots[i], &acts[a].s, sizeof(xh_slot))) return i; return -1; }
static int is_sub(const vh *v, const short *a, int n) {
     int i, j;
     for (i = j = 0; i < n && j < v->n; ++i) if (a[i] == v->a[j]) j++;
     return j == v->n;
}
/* oracle, memoized on the input values */
#define NM 20000
static struct { uint64_t h; double *v; int n, rc; } memo[NM];
static long n_fresh, n_states;
static xh_out *oracle(const xh_in *in, int solver, int sols) {
     static xh_out o;
     uint64_t h = mc_hash(in, sizeof(*in), 0); long i;
     h = mc_hash(xh_func_alt, sizeof(xh_func_alt), h); h = mc_hash(&solver, sizeof(int), h); h = mc_hash(&sols, sizeof(int), h);
     for (i = h % NM; memo[i].h; i = (i + 1) % NM) if (memo[i].h == h) { o.rc = memo[i].rc; o.n = memo[i].n; memcpy(o.v, memo[i].v, o.n * sizeof(double)); return &o; }
     /* the two instances get memory with different old contents, so that use of memory never set shows */
     mallopt(M_PERTURB, 0x11);
     xh_fresh_run(C, in, solver, sols, 0, &o);
     mallopt(M_PERTURB, 0xee);
     n_fresh++;
     if (n_fresh < NM - 10) { memo[i].h = h; memo[i].rc = o.rc; memo[i].n = o.n; memo[i].v = malloc(o.n * sizeof(double)); memcpy(memo[i].v, o.v, o.n * sizeof(double)); }
     mc_outcome(mc_hash(o.v, o.n * sizeof(double), 0));
     n_states++;
     return &o;
}
static int sols_of(int which) {
     return (C->solvers & (S(SINGLE)|S(TWO_OS))) ? XRTM_OUTPUT_RADIANCE : which ? XRTM_OUTPUT_FLUX : (XRTM_OUTPUT_RADIANCE | XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX);
}
static void hname(char *b, const short *a, int n, int rmask) {
     int i;
     for (i = 0; i < n; ++i) { b += xh_slot_name(&acts[a[i]].s, b); b += sprintf(b, "=%d%s", acts[a[i]].v, i == n - 1 ? "" : rmask & (1 << i) ? ";run;" : ";"); }
}
/* one history: init, run, then the actions, each followed by a run if its bit is set (the last one always) */
static int history(const short *a, int n, int rmask, int solseq, int which0) {
     xrtm_data d;
     xh_in in;
     static xh_out o, ref;
     int i, at, s, r = 0;
     double e;
     char b[600], b2[400];
     mallopt(M_PERTURB, 0xee);
     xh_default_in(C, &in);
     memset(xh_func_alt, 0, sizeof(xh_func_alt));
     hname(b, a, n, rmask);
     mc_ctx("%s %s", C->name, b);
     if (xh_create(C, &d) == XRTM_INT_ERROR || xh_set_all(C, &d, &in) || xh_update(C, &d)) { snprintf(b2, 400, "%s|setup", C->name); mc_viol(b2, "instance could not be set up"); return 1; }
     s = solv[solseq % n_solv]; solseq /= n_solv;
     xh_run(C, &d, &in, s, sols_of(which0), 0, &o);
     mc_execs(1);
     for (i = 0; i < n && ! r; ++i) {
          xh_alt(C, &in, &acts[a[i]].s, acts[a[i]].v);
          if (xh_set(C, &d, &in, &acts[a[i]].s, 0)) { snprintf(b2, 400, "%s|%s|rejected", C->name, b); mc_viol(b2, "a valid input was rejected"); r = 1; break; }
          if (i < n - 1 && ! (rmask & (1 << i))) continue;
          if (xh_update(C, &d)) { snprintf(b2, 400, "%s|%s|update", C->name, b); mc_viol(b2, "update_varied_layers failed"); r = 1; break; }
          s = solv[solseq % n_solv]; solseq /= n_solv;
          xh_run(C, &d, &in, s, sols_of(0), 0, &o);
          mc_execs(1); mc_transitions(1);
          ref = *oracle(&in, s, sols_of(0));
          e = xh_diff(&o, &ref, &at);
          if (e > TOL) {
               vh v; int j;
               snprintf(b2, 239, "%s|%s|%s", C->name, b, xh_solver_name(s));
               mc_viol(b2, "relative difference %g from a new instance, at output %d (%g instead of %g), rc %d/%d", e, at, at >= 0 ? o.v[at] : 0., at >= 0 ? ref.v[at] : 0., o.rc, ref.rc);
               v.n = i + 1; v.cfg = ci; for (j = 0; j <= i; ++j) v.a[j] = a[j];
               while (__sync_lock_test_and_set(&bad->lock, 1)) ;
               if (bad->n < 4000) bad->v[bad->n++] = v;
               __sync_lock_release(&bad->lock);
               r = 1;
          }
     }
     xrtm_destroy(&d);
     return r;
}
static int usable(const short *a, int n) {
     int i, j, v[200];
     for (i = 0; i < n_slots; ++i) v[i] = 0;
     for (i = 0; i < n; ++i) { j = slot_of(a[i]); if (v[j] == acts[a[i]].v) return 0; v[j] = acts[a[i]].v; }
     for (i = 0; i < bad->n; ++i) if (bad->v[i].cfg == ci && is_sub(&bad->v[i], a, n)) return 0;
     return 1;
}
static int wsols(void) { return (C->solvers & (S(SINGLE)|S(TWO_OS))) ? 1 : 2; }
static void rec(short *a, int n) {
     int i, m, q, ns;
     if (n == depth_g) {
          if (! usable(a, n)) return;
          for (i = 0, ns = 1; i <= n; ++i) ns *= n_solv;
          for (m = (1 << (n - 1)) - 1; m >= 0; --m) {
               if (n >= 3 && ! mc_thorough && m != 3) continue;
               for (q = 0; q < ns; ++q) {
                    if (n_solv > 1 && n >= 2 && ! mc_thorough && q % 5) continue;
                    if (history(a, n, m, q, 0)) return;
                    if (n == 1 && wsols() > 1 && history(a, n, m, q, 1)) return;
                    mc_nontrivial(1);
               }
          }
          return;
     }
     for (i = 0; i < n_acts; ++i) { a[n] = i; if (n + 1 < depth_g && ! usable(a, n + 1)) continue; rec(a, n + 1); }
}
static int first_of[4000], cfg_of[4000];
static void one(long idx) {
     short a[MAXD];
     setup(cfg_of[idx]);
     a[0] = first_of[idx];
     if (! usable(a, 1)) return;
     if (idx % 37 == 0) { char b[600]; hname(b, a, 1, 0); mc_sample("%s: run; %s; run; then every continuation to depth %d, each compared with a new instance", C->name, b, depth_g); }
     rec(a, 1);
     mc_states(n_states);
}
int main(int argc, char **argv) {
     int i, j, d, n, maxd;
     char nm[40], *only = NULL;
     mc_init(argc, argv);
     xh_quiet();
     only = getenv("HIST_CFG");
     bad = mmap(NULL, sizeof(*bad), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
     maxd = mc_thorough ? 3 : 2;
     for (d = 1; d <= maxd; ++d) {
          depth_g = d;
          for (i = n = 0; i < N_CFGS; ++i) {
               if (only && strcmp(only, all_cfgs[i].name)) continue;
               setup(i);
               for (j = 0; j < n_acts; ++j) { cfg_of[n] = i; first_of[n] = j; n++; }
          }
          sprintf(nm, "depth%d", d);
          mc_family(nm, n, one, 300);
     }
     return mc_done();
}
