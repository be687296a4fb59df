/* C19, C20: memory. */
#define _GNU_SOURCE
#include "scen.h"
#include "mc.h"
#include "wrap.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <alloca.h>
static scen s;
static const char *id; static int ftier;
static xh_out o1, o2;
extern double wr_poison; extern int wr_poison_on;

/* every slot, in the form v (0: one value, 3: the array forms) */
static int set_all(xrtm_data *d, const xh_in *in, int v) {
     static xh_slot sl[600]; int i, r, n = xh_required_slots(&s.c, sl);
     n += xh_deriv_slots(&s.c, sl + n);
     for (i = 0; i < n; ++i) if ((r = xh_set(&s.c, d, in, &sl[i], v))) return r;
     return 0;
}

/* ------------------------------------------------------------------ out of bounds, freed, leaks */
static void sequence(int it) {
     xrtm_data d; static xh_in in; static xh_slot sl[600]; int i, n;
     mc_ctx("%s create", s.name);
     if (xh_create(&s.c, &d)) { if (it == 0) mc_count("creation refused", 1); return; }
     mc_ctx("%s solution of an instance that is not set", s.name);
     xh_run(&s.c, &d, &s.in, s.solver, s.sols, 0, &o1);
     for (i = 0; i < 4; ++i) {
          mc_ctx("%s setters, form %d", s.name, i);
          if (set_all(&d, &s.in, i)) mc_count("setter refused", 1);
          if (i == 0) { mc_ctx("%s solution before update", s.name); xh_run(&s.c, &d, &s.in, s.solver, s.sols, 0, &o1); }
     }
     mc_ctx("%s update", s.name);
     xh_update(&s.c, &d);
     for (i = 0; i < 2; ++i) {
          mc_ctx("%s solution, how %d", s.name, i);
          xh_run(&s.c, &d, &s.in, s.solver, s.sols, i, &o1);
          mc_execs(1); if (! o1.rc) mc_nontrivial(1);
     }
     /* other values for all inputs */
     in = s.in;
     n = xh_required_slots(&s.c, sl); n += xh_deriv_slots(&s.c, sl + n);
     for (i = 0; i < n; ++i) xh_alt(&s.c, &in, &sl[i], 1);
     mc_ctx("%s changes", s.name);
     set_all(&d, &in, 0); xh_update(&s.c, &d);
     mc_ctx("%s solution after changes", s.name);
     xh_run(&s.c, &d, &in, s.solver, s.sols, 0, &o1); mc_execs(1);
     mc_outcome(mc_hash(o1.v, o1.n * sizeof(double), 0));
     mc_ctx("%s destroy", s.name);
     xrtm_destroy(&d);
     xh_exact_free();
}
static void f_heap(long idx) {
     int it; long n; char sig[240];
     if (sc_get(idx, &s)) return;
     xh_quiet(); xh_exact = 1;
     for (it = 0; it < 2; ++it) { wr_tag = it; sequence(it); }
     wr_tag = 0;
     mc_states(1); mc_transitions(7);
     if ((n = wr_live(1))) {
          snprintf(sig, sizeof(sig), "leak %s", wr_site(1));
          mc_viol(sig, "%s: %ld blocks allocated between creation and destruction are never freed, one in %s", s.name, n, wr_site(1));
     }
}

/* ------------------------------------------------------------------ memory never set */
static __attribute__((noinline)) void paint(int b, long n) { volatile char *p = alloca(n); long i; for (i = 0; i < n; ++i) p[i] = b; __asm__ volatile("" : : "r"(p) : "memory"); }
static void one_fill(xh_out *o, int b, double p) {
     xrtm_data d; static xh_slot sl[600]; int i, n;
     wr_fill = b; wr_poison = p; wr_poison_on = 1;
     paint(b, 300000);
     o->rc = -10;
     if (xh_create(&s.c, &d)) return;
     n = xh_required_slots(&s.c, sl); n += xh_deriv_slots(&s.c, sl + n);
     for (i = 0; i < n; ++i) { paint(b, 20000); if (xh_set(&s.c, &d, &s.in, &sl[i], 0)) { o->rc = -11; return; } }
     paint(b, 20000);
     if (xh_update(&s.c, &d)) { o->rc = -12; return; }
     paint(b, 300000);
     xh_run(&s.c, &d, &s.in, s.solver, s.sols, 0, o);
     paint(b, 300000);
     if (! o->rc) { xh_run(&s.c, &d, &s.in, s.solver, s.sols, 0, o + 1); }
     xrtm_destroy(&d);
}
static void f_fill(long idx) {
     static const struct { int b; double p; } pat[4] = {{0x00, 0.}, {0xff, NAN}, {0x5a, 1.e150}, {0x3f, -.75}};
     xh_out *sh; int k, i, st; char sig[240];
     if (sc_get(idx, &s)) return;
     xh_quiet();
     sh = mmap(NULL, 8 * sizeof(xh_out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
     mc_ctx("%s", s.name);
     for (k = 0; k < 4; ++k) {
          pid_t p = fork();
          if (! p) { sh[2*k].rc = sh[2*k+1].rc = -99; one_fill(sh + 2 * k, pat[k].b, pat[k].p); _exit(0); }
          waitpid(p, &st, 0);
          if (st) { snprintf(sig, sizeof(sig), "crash with memory filled|%s", xh_solver_name(s.solver)); mc_viol(sig, "%s: crashes when new memory holds 0x%02x", s.name, pat[k].b); return; }
          mc_execs(2);
     }
     mc_states(1); mc_transitions(4);
     for (k = 1; k < 8; ++k) {
          if (sh[k].rc != sh[0].rc) { snprintf(sig, sizeof(sig), "fill rc|%s", s.name); mc_viol(sig, "%s: returns %d when new memory holds 0x%02x and %d with zeros", s.name, sh[k].rc, pat[k/2].b, sh[0].rc); return; }
          if (sh[0].rc) continue;
          mc_nontrivial(1);
          for (i = 0; i < sh[0].n; ++i) if (memcmp(&sh[k].v[i], &sh[0].v[i], sizeof(double)) && ! (isnan(sh[k].v[i]) && isnan(sh[0].v[i]))) {
               snprintf(sig, sizeof(sig), "fill|%s", s.name);
               mc_viol(sig, "%s: output %d is %.17g when new memory holds 0x%02x (solution %d) and %.17g with zeros", s.name, i, sh[k].v[i], pat[k/2].b, k % 2 + 1, sh[0].v[i]);
               return;
          }
     }
     mc_outcome(mc_hash(sh[0].v, sh[0].n * sizeof(double), 0));
     munmap(sh, 8 * sizeof(xh_out));
}

/* ------------------------------------------------------------------ allocation failures */
static void f_alloc(long idx) {
     xrtm_data d, d2; long n, k; int r, i, v, nn; char sig[240]; static xh_slot sl[600];
     if (sc_get(idx, &s)) return;
     xh_quiet();
     /* creation */
     wr_count = 0; mc_ctx("%s create", s.name);
     if (xh_create(&s.c, &d)) return;
     n = wr_count;
     nn = xh_required_slots(&s.c, sl); nn += xh_deriv_slots(&s.c, sl + nn);
     if (xh_set_all(&s.c, &d, &s.in) || xh_update(&s.c, &d)) return;
     xh_run(&s.c, &d, &s.in, s.solver, s.sols, 0, &o1);
     xrtm_destroy(&d);
     mc_states(1);
     for (k = 1; k <= n; ++k) {
          memset(&d2, 0xa5, sizeof(d2));
          mc_ctx("%s creation with allocation failure", s.name);
          wr_forget(); wr_tag = 1; wr_count = 0; wr_fail_at = k;
          r = xh_create(&s.c, &d2);
          wr_fail_at = 0; wr_tag = 0;
          mc_execs(1); mc_transitions(1); mc_nontrivial(1);
          if (r != XRTM_INT_ERROR) { mc_viol("create accepted", "%s: creation returns %d when allocation %ld of %ld fails", s.name, r, k, n); if (! r) xrtm_destroy(&d2); continue; }
          if (wr_live(1)) { snprintf(sig, sizeof(sig), "create leak %s", wr_site(1)); mc_viol(sig, "%s: creation leaks %ld blocks when allocation %ld of %ld fails, one from %s", s.name, wr_live(1), k, n, wr_site(1)); }
          mc_outcome(k * 100000 + idx);
     }
     /* setters: each call with each of its allocations failing, then made again */
     wr_forget(); wr_tag = 2;
     if (xh_create(&s.c, &d)) { mc_viol("create after", "%s: creation fails after failures", s.name); return; }
     for (i = 0; i <= nn; ++i) {
          char b[200] = "update_varied_layers";
          if (i < nn) xh_slot_name(&sl[i], b);
          for (v = 0; v < 4; ++v) {
          if (i == nn && v) break;
          mc_ctx("%s set %s form %d with allocation failure", s.name, b, v);
          for (k = 1; ; ++k) {
               wr_count = 0; wr_fail_at = k;
               r = i < nn ? xh_set(&s.c, &d, &s.in, &sl[i], v) : xh_update(&s.c, &d);
               wr_fail_at = 0;
               mc_transitions(1);
               if (wr_count < k) { if (r) mc_viol("set fails", "%s: %s form %d returns %d", s.name, b, v, r); break; }
               mc_count("allocation failures in setters", 1);
               if (! r) { snprintf(sig, sizeof(sig), "set %s accepted", b); mc_viol(sig, "%s: %s form %d returns success when its allocation %ld fails", s.name, b, v, k); }
          }
          }
     }
     /* the layers with derivatives change, with each allocation of the update failing */
     for (v = 0; s.c.options & XRTM_OPTION_CALC_DERIVS && v < 2 * s.c.n_layers; ++v) {
          static xh_in in;
          in = s.in;
          for (i = 0; i < s.c.n_derivs && v < s.c.n_layers; ++i) { in.ltau_l[v][i] = in.omega_l[v][i] = 0.; memset(in.coef_l[v][i], 0, sizeof(in.coef_l[v][i])); }
          mc_ctx("%s layer derivatives changed", s.name);
          if (v == s.c.n_layers) v = 2 * s.c.n_layers - 1;
          for (i = 0; i < nn; ++i) if (sl[i].kind == K_LTAU_L || sl[i].kind == K_OMEGA_L || sl[i].kind == K_COEF_L) if (xh_set(&s.c, &d, &in, &sl[i], 0)) { mc_viol("set fails", "%s: setter of layer derivatives fails", s.name); return; }
          mc_ctx("%s update for changed layer derivatives with allocation failure", s.name);
          for (k = 1; ; ++k) {
               wr_count = 0; wr_fail_at = k;
               r = xh_update(&s.c, &d);
               wr_fail_at = 0;
               mc_transitions(1);
               if (wr_count < k) { if (r) mc_viol("update fails", "%s: update returns %d", s.name, r); break; }
               mc_count("allocation failures in setters", 1);
               if (! r) mc_viol("update accepted", "%s: update returns success when its allocation %ld fails", s.name, k);
          }
     }
     mc_ctx("%s after allocation failures", s.name);
     xh_run(&s.c, &d, &s.in, s.solver, s.sols, 0, &o2);
     xrtm_destroy(&d);
     wr_tag = 0;
     mc_execs(1);
     if (wr_live(2)) { snprintf(sig, sizeof(sig), "set leak %s", wr_site(2)); mc_viol(sig, "%s: %ld blocks are never freed after allocation failures in setters, one from %s", s.name, wr_live(2), wr_site(2)); }
     if (o1.rc != o2.rc || (! o1.rc && memcmp(o1.v, o2.v, o1.n * sizeof(double)))) { for (i = 0; i < o1.n; ++i) if (memcmp(&o1.v[i], &o2.v[i], 8)) break;
          mc_viol("set outputs", "%s: outputs differ after allocation failures in setters: %g, %g at %d", s.name, o2.v[i], o1.v[i], i); }
}

int main(int argc, char **argv) {
     int k;
     mc_init(argc, argv);
     id = argv[1];
     k = atoi(argv[2]) + (mc_thorough ? 1 : 0);
     sc_init(k, SC_ALLDIMS, argc > 3 ? strtol(argv[3], 0, 0) : 0x7ff);
     if (! strcmp(id, "heap")) mc_family("heap", sc_n(), f_heap, 60);
     if (! strcmp(id, "fill")) mc_family("fill", sc_n(), f_fill, 60);
     if (! strcmp(id, "alloc")) mc_family("alloc", sc_n(), f_alloc, 60);
     return mc_done();
}
