/* C24: names, masks and indexes. Every index in and around the range, every name (and every near miss of it), every set of
   up to three members and the complements of these, every set of the small groups, every buffer length. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "xh.h"
#include "mc.h"
#include "xrtm_fd_interface.h"
#include "xrtm_brdf.h"

#define MEMBERS_OPTION(X) X(CALC_DERIVS,calc_derivs) X(REVERSE_DERIVS,reverse_derivs) X(DELTA_M,delta_m) X(N_T_TMS,n_t_tms) X(FOUR_CONV_OLD,four_conv_old) X(FOUR_CONV_NEW,four_conv_new) X(NO_AZIMUTHAL,no_azimuthal) \
     X(OUTPUT_AT_LEVELS,output_at_levels) X(OUTPUT_AT_TAUS,output_at_taus) X(PART_SOL_CLASSICAL,part_sol_classical) X(PART_SOL_GREENS,part_sol_greens) X(PHASE_SCALAR,phase_scalar) X(PHASE_MATRIX_GC,phase_matrix_gc) X(PHASE_MATRIX_LC,phase_matrix_lc) \
     X(PSA,psa) X(QUAD_NORM_GAUS_LEG,quad_norm_gaus_leg) X(QUAD_DOUB_GAUS_LEG,quad_doub_gaus_leg) X(QUAD_LOBATTO,quad_lobatto) X(SAVE_LEG_POLYS,save_leg_polys) X(SAVE_PHASE_MATS,save_phase_mats) X(SAVE_LOCAL_R_T,save_local_r_t) \
     X(SAVE_LAYER_R_T_S,save_layer_r_t_s) X(SAVE_TOTAL_R_T_S,save_total_r_t_s) X(SFI,sfi) X(SOURCE_SOLAR,source_solar) X(SOURCE_THERMAL,source_thermal) X(STACK_REUSE_ADDING,stack_reuse_adding) X(TOP_DOWN_ADDING,top_down_adding) \
     X(BOTTOM_UP_ADDING,bottom_up_adding) X(UPWELLING_OUTPUT,upwelling_output) X(DOWNWELLING_OUTPUT,downwelling_output) X(VECTOR,vector)
#define MEMBERS_SOLVER(X) X(DOUB_ADD,doub_add) X(EIG_ADD,eig_add) X(EIG_BVP,eig_bvp) X(FOUR_STREAM,four_stream) X(MEM_BVP,mem_bvp) X(PADE_ADD,pade_add) X(SINGLE,single) X(SIX_STREAM,six_stream) X(SOS,sos) X(TWO_OS,two_os) X(TWO_STREAM,two_stream)
#define MEMBERS_OUTPUT(X) X(RADIANCE,radiance) X(RADIANCE_MEAN,radiance_mean) X(FLUX,flux) X(FLUX_DIVERGENCE,flux_divergence)
#define MEMBERS_KERNEL(X) X(LAMBERTIAN,lambertian) X(DIRECT_AND_DIFFUSE,direct_and_diffuse) X(ROUJEAN,roujean) X(LI_SPARSE,li_sparse) X(LI_DENSE,li_dense) X(ROSS_THIN,ross_thin) X(ROSS_THICK,ross_thick) X(HAPKE,hapke) X(RAHMAN,rahman) X(COX_MUNK,cox_munk) X(USER_DEFINED,user_defined)
#define MEMBERS_FD(X) X(FORWARD,forward) X(BACKWARD,backward) X(CENTRAL,central)

typedef struct { const char *name; unsigned long v; } mem;
#define M1(A, B) {#B, (unsigned int) XRTM_OPTION_##A},
#define M2(A, B) {#B, (unsigned int) XRTM_SOLVER_##A},
#define M3(A, B) {#B, (unsigned int) XRTM_OUTPUT_##A},
#define M4(A, B) {#B, (unsigned int) XRTM_KERNEL_##A},
#define M5(A, B) {#B, (unsigned int) XRTM_FD_METHOD_##A},
static mem m_option[] = {MEMBERS_OPTION(M1)}, m_solver[] = {MEMBERS_SOLVER(M2)}, m_output[] = {MEMBERS_OUTPUT(M3)}, m_kernel[] = {MEMBERS_KERNEL(M4)}, m_fd[] = {MEMBERS_FD(M5)};

#define WRAP(N, T) \
     static const char *N##_i2n(int i) { return xrtm_##N##_index_to_name(i); } \
     static int N##_n2i(const char *s) { return xrtm_##N##_name_to_index(s); }
#define WRAPM(N) WRAP(N, mask) \
     static long N##_i2v(int i) { return xrtm_##N##_index_to_mask(i); } \
     static int N##_v2i(long v) { return xrtm_##N##_mask_to_index((enum xrtm_##N##_mask) v); } \
     static long N##_n2v(const char *s) { return xrtm_##N##_name_to_mask(s); } \
     static const char *N##_v2n(long v) { return xrtm_##N##_mask_to_name((enum xrtm_##N##_mask) v); } \
     static int N##_m2il(long v, int *x, int n) { return xrtm_##N##_mask_to_index_list((enum xrtm_##N##_mask) v, x, n); } \
     static int N##_m2vl(long v, long *x, int n) { return xrtm_##N##_mask_to_value_list((enum xrtm_##N##_mask) v, x, n); } \
     static char *N##_m2nl(long v, char *s, int n) { return xrtm_##N##_mask_to_name_list((enum xrtm_##N##_mask) v, s, n); } \
     static long N##_nl2m(char *s) { return xrtm_##N##_name_list_to_mask(s); } \
     static long N##_vl2m(long *x, int n) { return xrtm_##N##_value_list_to_mask(x, n); }
#define WRAPV(N) WRAP(N, type) \
     static long N##_i2v(int i) { return xrtm_##N##_index_to_value(i); } \
     static int N##_v2i(long v) { return xrtm_##N##_value_to_index((enum xrtm_##N##_type) v); } \
     static long N##_n2v(const char *s) { return xrtm_##N##_name_to_value(s); } \
     static const char *N##_v2n(long v) { return xrtm_##N##_value_to_name((enum xrtm_##N##_type) v); }
WRAPM(option) WRAPM(solver) WRAPM(output) WRAPV(kernel) WRAPV(fd_method)

typedef struct {
     const char *name; mem *m; int n, mask; int (*cnt)(void), (*maxl)(void);
     const char *(*i2n)(int); int (*n2i)(const char *); long (*i2v)(int); int (*v2i)(long); long (*n2v)(const char *); const char *(*v2n)(long);
     int (*m2il)(long, int *, int), (*m2vl)(long, long *, int); char *(*m2nl)(long, char *, int); long (*nl2m)(char *), (*vl2m)(long *, int);
} grp;
#define N(A) ((int) (sizeof(A) / sizeof(A[0])))
#define GM(S, G) {S, m_##G, N(m_##G), 1, (int (*)(void)) xrtm_##G##_n, (int (*)(void)) xrtm_##G##_max_name_length, G##_i2n, G##_n2i, G##_i2v, G##_v2i, G##_n2v, G##_v2n, G##_m2il, G##_m2vl, G##_m2nl, G##_nl2m, G##_vl2m}
#define GV(S, G, A) {S, A, N(A), 0, (int (*)(void)) xrtm_##G##_n, (int (*)(void)) xrtm_##G##_max_name_length, G##_i2n, G##_n2i, G##_i2v, G##_v2i, G##_n2v, G##_v2n}
static grp G[] = {GM("option", option), GM("solver", solver), GM("output", output), GV("kernel", kernel, m_kernel), GV("fd_method", fd_method, m_fd)};
#define SAME(A, B) ((unsigned int) (A) == (unsigned int) (B))

static grp *g; static char sg[100];
#define V(what, ...) do { snprintf(sg, sizeof(sg), "%s:%s", g->name, what); mc_viol(sg, __VA_ARGS__); } while (0)

static void bad_name(const char *s) {
     int i;
     for (i = 0; i < g->n; ++i) if (! strcmp(s, g->m[i].name)) return;
     mc_transitions(2); mc_nontrivial(1);
     if (g->n2i(s) != -1) V("name_to_index-bad", "\"%s\" is not a name, but gives the index %d", s, g->n2i(s));
     if (! SAME(g->n2v(s), -1)) V("name_to_value-bad", "\"%s\" is not a name, but gives the value %ld", s, g->n2v(s));
}
static void singles(long gi) {
     int i, j, k, max = 0; char b[200]; const char *p;
     g = &G[gi];
     mc_ctx("%s", g->name); mc_execs(1); mc_states(g->n);
     xh_quiet();
     if (g->cnt() != g->n) V("n", "%d members, %d expected", g->cnt(), g->n);
     for (i = 0; i < g->n; ++i) {
          mem *m = &g->m[i]; int l = strlen(m->name);
          if (l > max) max = l;
          mc_transitions(6); mc_nontrivial(6);
          if (! (p = g->i2n(i)) || strcmp(p, m->name)) V("index_to_name", "index %d: \"%s\", expected \"%s\"", i, p ? p : "(null)", m->name);
          if (g->n2i(m->name) != i) V("name_to_index", "\"%s\": %d, expected %d", m->name, g->n2i(m->name), i);
          if (! SAME(g->i2v(i), m->v)) V("index_to_value", "index %d (%s): %lx, expected %lx", i, m->name, g->i2v(i), m->v);
          if (g->v2i(m->v) != i) V("value_to_index", "value %lx (%s): %d, expected %d", m->v, m->name, g->v2i(m->v), i);
          if (! SAME(g->n2v(m->name), m->v)) V("name_to_value", "\"%s\": %lx, expected %lx", m->name, g->n2v(m->name), m->v);
          if (! (p = g->v2n(m->v)) || strcmp(p, m->name)) V("value_to_name", "value %lx: \"%s\", expected \"%s\"", m->v, p ? p : "(null)", m->name);
          /* near misses: every prefix, every character changed, removed or added, other case */
          for (k = 0; k < l; ++k) {
               snprintf(b, k + 1, "%s", m->name); bad_name(b);
               strcpy(b, m->name); b[k] ^= 32; bad_name(b);
               strcpy(b, m->name); b[k] = b[k] == 'z' ? 'y' : 'z'; bad_name(b);
               strcpy(b, m->name); memmove(b + k, b + k + 1, l - k); bad_name(b);
               sprintf(b, "%.*s_%s", k, m->name, m->name + k); bad_name(b);
          }
          sprintf(b, "%s ", m->name); bad_name(b); sprintf(b, " %s", m->name); bad_name(b); sprintf(b, "%s_", m->name); bad_name(b);
     }
     bad_name(""); bad_name(","); bad_name("(null)");
     if (g->maxl() != max) V("max_name_length", "%d, expected %d", g->maxl(), max);
     for (i = -300; i <= g->n + 300; ++i) {
          if (i >= 0 && i < g->n) continue;
          mc_transitions(2); mc_nontrivial(1);
          if (g->i2n(i)) V("index_to_name-bad", "index %d gives a name", i);
          if (! SAME(g->i2v(i), -1)) V("index_to_value-bad", "index %d gives the value %lx", i, g->i2v(i));
     }
     for (i = -40; i <= 70; ++i) for (j = -2; j <= 2; ++j) {
          long v = g->mask ? (i >= 0 && i < 62 ? (1L << i) + j : i * 5 + j) : i;
          for (k = 0; k < g->n; ++k) if (SAME(v, g->m[k].v)) break;
          if (k < g->n) continue;
          mc_transitions(2); mc_nontrivial(1);
          if (g->v2i(v) != -1) V("value_to_index-bad", "value %lx is none of a member, but gives the index %d", v, g->v2i(v));
          if (g->v2n(v)) V("value_to_name-bad", "value %lx is none of a member, but gives a name", v);
     }
     mc_outcome(mc_hash(g->name, strlen(g->name), 1));
     xh_loud();
}

/* one set of members */
static void set(unsigned long mask) {
     char s[1200], want[1200], b[1200], *big; int x[80], wx[40], n = 0, i, j, k, l = 0; long v[80], wv[40], r; static const char *sep[] = {",", ", ", " ", "\t", " ,\t"};
     for (i = 0; i < g->n; ++i) if (mask & g->m[i].v) { wx[n] = i; wv[n] = g->m[i].v; l += sprintf(want + l, "%s%s", n ? "," : "", g->m[i].name); n++; }
     want[l] = 0;
     mc_states(1); mc_execs(1); mc_transitions(6 + l); mc_nontrivial(1);
     for (k = 0; k <= n + 1; ++k) {
          for (i = 0; i < 80; ++i) { x[i] = -77; v[i] = -77; }
          r = g->m2il(mask, x, k);
          for (i = 0; i < r && i < n; ++i) if (x[i] != wx[i]) V("mask_to_index_list", "mask %lx, index %d is %d", mask, i, x[i]);
          if (r != (k < n ? k : n)) V("mask_to_index_list", "mask %lx: %ld indexes for a list of %d, %d members", mask, r, k, n);
          for (i = k; i < 80; ++i) if (x[i] != -77) V("mask_to_index_list-bound", "mask %lx, list of length %d: element %d written", mask, k, i);
          r = g->m2vl(mask, v, k);
          for (i = 0; i < r && i < n; ++i) if (! SAME(v[i], wv[i])) V("mask_to_value_list", "mask %lx, value %d is %lx", mask, i, v[i]);
          if (r != (k < n ? k : n)) V("mask_to_value_list", "mask %lx: %ld values for a list of %d, %d members", mask, r, k, n);
          for (i = k; i < 80; ++i) if (v[i] != -77) V("mask_to_value_list-bound", "mask %lx, list of length %d: element %d written", mask, k, i);
     }
     r = g->vl2m(wv, n);
     if (! SAME(r, mask)) V("value_list_to_mask", "mask %lx gives %lx", mask, r);
     /* every length of the buffer */
     for (k = 0; k <= l + 2; ++k) {
          if (mc_thorough == 0 && n > 3 && k > 3 && k < l - 3 && k % 7) continue;
          big = malloc(k ? k : 1); memset(big, '#', k ? k : 1);
          memset(b, '#', sizeof(b));
          g->m2nl(mask, b, k);
          for (j = k; j < (int) sizeof(b); ++j) if (b[j] != '#') { V("mask_to_name_list-bound", "mask %lx, buffer of %d: byte %d written", mask, k, j); break; }
          if (k > l && strcmp(b, want)) V("mask_to_name_list", "mask %lx: \"%.200s\", expected \"%.200s\"", mask, b, want);
          if (k > 0 && k <= l && ! (memchr(b, 0, k) && strlen(b) <= (size_t) l && ! strncmp(b, want, strlen(b)))) V("mask_to_name_list-short", "mask %lx, buffer of %d: not the beginning of the list", mask, k);
          free(big);
     }
     for (i = 0; i < (n > 1 ? N(sep) : 1); ++i) {
          for (l = j = 0; j < n; ++j) l += sprintf(s + l, "%s%s", j ? sep[i] : "", g->m[wx[j]].name);
          s[l] = 0; strcpy(b, s);
          r = g->nl2m(s);
          if (! SAME(r, mask)) V("name_list_to_mask", "\"%.200s\": %lx, expected %lx", b, r, mask);
     }
     /* reversed, doubled, and with a bad member in each place */
     for (l = 0, j = n - 1; j >= 0; --j) l += sprintf(s + l, "%s,%s,", g->m[wx[j]].name, g->m[wx[j]].name);
     s[l] = 0; r = g->nl2m(s);
     if (! SAME(r, mask)) V("name_list_to_mask-order", "mask %lx in another order and each twice: %lx", mask, r);
     if (n <= 3) for (k = 0; k <= n; ++k) {
          for (l = j = 0; j < n; ++j) l += sprintf(s + l, "%s%s,", j == k ? "bad_name," : "", g->m[wx[j]].name);
          if (k == n) l += sprintf(s + l, "bad_name");
          s[l] = 0; strcpy(b, s); r = g->nl2m(s);
          if (! SAME(r, -1)) V("name_list_to_mask-bad", "\"%.200s\": %lx, expected an error", b, r);
     }
}
static void sets(long i) {
     int gi = i % 3, a = i / 3 % 33, b, c; unsigned long m, all = 0; int k;
     g = &G[gi];
     for (k = 0; k < g->n; ++k) all |= g->m[k].v;
     xh_quiet();
     mc_ctx("%s,%d", g->name, a);
     if (gi == 2) { if (a == 0) for (m = 0; m < 16; ++m) set(m); }
     else if (gi == 1) { for (m = a; m < 1ul << g->n; m += 33) set(m); }
     else if (a == 32) { set(0); set(all); }
     else for (b = a; b < g->n; ++b) for (c = b; c < g->n; ++c) { m = g->m[a].v | g->m[b].v | g->m[c].v; if (! mc_thorough && c > b && (a + b + c) % 4) continue; set(m); set(all & ~m); }
     xh_loud();
}

/* the names in messages: each required input missing is named in the error message */
static const char *input_name(int kind) { return kind == K_FUNC ? "kernel_func" : xh_kind_name(kind); }
static void messages(long i) {
     xh_cfg c; xh_in in; static xh_out o; xrtm_data d; xh_slot s[200]; int n, k, m, e, p[2], fd; char buf[4000]; const char *nm; ssize_t r;
     static grp gg = {"input"}; g = &gg;
     memset(&c, 0, sizeof(c));
     c.options = XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_SOURCE_SOLAR | (i == 1 ? XRTM_OPTION_SOURCE_THERMAL | XRTM_OPTION_PSA : 0);
     if (i == 2) c.options = XRTM_OPTION_OUTPUT_AT_TAUS | XRTM_OPTION_SOURCE_SOLAR;
     c.solvers = i == 0 ? XRTM_SOLVER_DOUB_ADD | XRTM_SOLVER_PADE_ADD | XRTM_SOLVER_SOS : XRTM_SOLVER_EIG_BVP;
     c.n_coef = 5; c.n_quad = 2; c.n_stokes = 1; c.n_layers = 2; c.n_kernels = i == 2 ? 3 : 1; c.n_kernel_quad = 4; c.kernels[0] = XRTM_KERNEL_LI_SPARSE; c.kernels[1] = XRTM_KERNEL_USER_DEFINED; c.kernels[2] = XRTM_KERNEL_LAMBERTIAN;
     c.n_out_levels = 2; c.n_phis = 1; c.n_out_thetas = i == 1 ? 0 : 1;
     xh_default_in(&c, &in);
     n = xh_required_slots(&c, s);
     for (k = 0; k < n; ++k) {
          mc_execs(1); mc_states(1);
          mc_ctx("input:%ld,%s", i, xh_kind_name(s[k].kind));
          xh_quiet();
          e = xh_create(&c, &d);
          xh_loud();
          if (e == XRTM_INT_ERROR) { V("create", "configuration %ld", i); return; }
          xh_quiet(); for (m = 0; m < n; ++m) if (m != k) xh_set(&c, &d, &in, &s[m], 0); xh_loud();
          if (pipe(p)) return;
          fflush(stderr); fd = dup(2); dup2(p[1], 2); close(p[1]);
          e = xh_run(&c, &d, &in, c.solvers & -c.solvers, XRTM_OUTPUT_RADIANCE, 0, &o);
          fflush(stderr); dup2(fd, 2); close(fd);
          r = read(p[0], buf, sizeof(buf) - 1); close(p[0]); buf[r > 0 ? r : 0] = 0;
          nm = input_name(s[k].kind);
          mc_transitions(n + 2);
          if (! o.rc) V("accepted", "a solution without %s", nm);
          else if (! strstr(buf, nm)) V("message", "the message for missing %s does not name it: %.120s", nm, buf);
          else mc_nontrivial(1);
          xrtm_destroy(&d);
     }
}

int main(int argc, char **argv) {
     mc_init(argc, argv);
     mc_family("members", N(G), singles, 60);
     mc_family("sets", 99, sets, 60);
     mc_family("messages", 3, messages, 60);
     return mc_done();
}
