/* C18: instances do not influence one another: interleavings of their calls, and no memory that they share is written. */
#define _GNU_SOURCE
#include "scen.h"
#include "mc.h"
#include <unistd.h>
#include <signal.h>
#include <link.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/mman.h>
#include <ucontext.h>

/* ------------------------------------------------------------------ the library's writable memory */
#define NR 16
static struct { char *p; size_t n; } rg[NR]; static int n_rg;
static volatile sig_atomic_t n_hit; static char hit_data[200], hit_code[200];
static int cb(struct dl_phdr_info *di, size_t sz, void *x) {
     int i; size_t relro0 = 0, relro1 = 0, pg = sysconf(_SC_PAGESIZE);
     if (! strstr(di->dlpi_name, "libcore")) return 0;
     for (i = 0; i < di->dlpi_phnum; ++i) if (di->dlpi_phdr[i].p_type == PT_GNU_RELRO) { relro0 = di->dlpi_phdr[i].p_vaddr; relro1 = relro0 + di->dlpi_phdr[i].p_memsz; }
     for (i = 0; i < di->dlpi_phnum; ++i) {
          const ElfW(Phdr) *h = &di->dlpi_phdr[i]; size_t a, b;
          if (h->p_type != PT_LOAD || ! (h->p_flags & PF_W)) continue;
          a = h->p_vaddr; b = a + h->p_memsz;
          if (relro0 >= a && relro0 < b) a = relro1;
          a = (di->dlpi_addr + a) & ~(pg - 1); b = (di->dlpi_addr + b + pg - 1) & ~(pg - 1);
          if (b > a && n_rg < NR) { rg[n_rg].p = (char *) a; rg[n_rg].n = b - a; n_rg++; }
     }
     return 0;
}
static void prot(int on) { int i; for (i = 0; i < n_rg; ++i) mprotect(rg[i].p, rg[i].n, on ? PROT_READ : PROT_READ | PROT_WRITE); }
static void name_of(void *a, char *b) {
     Dl_info di;
     if (dladdr(a, &di) && di.dli_sname) sprintf(b, "%.100s+%ld", di.dli_sname, (long) ((char *) a - (char *) di.dli_saddr));
     else if (di.dli_fbase) sprintf(b, "offset 0x%lx", (long) ((char *) a - (char *) di.dli_fbase));
     else strcpy(b, "?");
}
static void on_segv(int sg, siginfo_t *si, void *uc) {
     int i;
     for (i = 0; i < n_rg; ++i) if ((char *) si->si_addr >= rg[i].p && (char *) si->si_addr < rg[i].p + rg[i].n) {
          if (! n_hit) { name_of(si->si_addr, hit_data); name_of((void *) ((ucontext_t *) uc)->uc_mcontext.gregs[REG_RIP], hit_code); }
          n_hit++;
          prot(0);
          return;
     }
     signal(SIGSEGV, SIG_DFL);
}
static void guard_init(void) {
     struct sigaction sa; static char st[65536]; stack_t ss = {st, 0, sizeof(st)};
     dl_iterate_phdr(cb, NULL);
     if (! n_rg) { fprintf(stdout, "MCERROR library not found\n"); exit(3); }
     sigaltstack(&ss, NULL);
     memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
     sigaction(SIGSEGV, &sa, NULL);
}
static void guard(const char *what, const char *nm) {
     char sig[240]; char *p;
     if (! n_hit) return;
     if ((p = strchr(hit_code, '+'))) *p = 0;
     snprintf(sig, sizeof(sig), "shared write|%s", hit_code);
     mc_viol(sig, "%s: %s writes memory shared by all instances: %s, in %s", nm, what, hit_data, hit_code);
     n_hit = 0;
}
#define G(what, call) do { n_hit = 0; prot(1); call; prot(0); guard(what, s->name); mc_transitions(1); } while (0)

/* ------------------------------------------------------------------ an instance and its operations */
typedef struct { scen *s; xrtm_data d; xh_in in; xh_out o[2]; int live; } inst;
#define N_OPS 5
static void op_alt(inst *x) {
     static __thread xh_slot sl[600]; int i, n = xh_required_slots(&x->s->c, sl);
     n += xh_deriv_slots(&x->s->c, sl + n);
     x->in = x->s->in;
     for (i = 0; i < n; ++i) { xh_alt(&x->s->c, &x->in, &sl[i], 1); if (! xh_set(&x->s->c, &x->d, &x->in, &sl[i], 0)) continue; }
     xh_update(&x->s->c, &x->d);
}
static void op(inst *x, int k) {
     if (k && ! x->live) return;
     switch (k) {
     case 0: x->live = ! xh_create(&x->s->c, &x->d); x->o[0].rc = x->o[1].rc = -50; x->o[0].n = x->o[1].n = 0; break;
     case 1: memset(xh_func_alt, 0, sizeof(xh_func_alt)); xh_set_all(&x->s->c, &x->d, &x->s->in); xh_update(&x->s->c, &x->d); break;
     case 2: xh_run(&x->s->c, &x->d, &x->s->in, x->s->solver, x->s->sols, 0, &x->o[0]); break;
     case 3: op_alt(x); xh_run(&x->s->c, &x->d, &x->in, x->s->solver, x->s->sols, 1, &x->o[1]); break;
     case 4: xrtm_destroy(&x->d); x->live = 0; break;
     }
}
static const char *opn[] = {"create", "set", "solve", "change and solve", "destroy"};
static int same(const xh_out *a, const xh_out *b) { int i; if (a->rc != b->rc || a->n != b->n) return 0; if (a->rc) return 1;
     for (i = 0; i < a->n; ++i) if (memcmp(&a->v[i], &b->v[i], 8) && ! (isnan(a->v[i]) && isnan(b->v[i]))) return 0; return 1; }

/* ------------------------------------------------------------------ all interleavings of two instances */
static scen sc[2]; static inst A, B, A0, B0;
static long *ok_idx; static long n_ok;
static void f_inter(long idx) {
     long i = idx / n_ok, j = idx % n_ok; int m, k, n, a, b; char w[24];
     if (j < i) return;
     xh_quiet();
     if (sc_get(ok_idx[i], &sc[0]) || sc_get(ok_idx[j], &sc[1])) return;
     memset(&A0, 0, sizeof(A0)); A0.s = &sc[0]; memset(&B0, 0, sizeof(B0)); B0.s = &sc[1];
     mc_ctx("%s alone", sc[0].name);
     for (k = 0; k < N_OPS; ++k) op(&A0, k);
     mc_ctx("%s alone", sc[1].name);
     for (k = 0; k < N_OPS; ++k) op(&B0, k);
     A = A0; B = B0;
     for (m = 0; m < 1 << (2 * N_OPS); ++m) {
          if (__builtin_popcount(m) != N_OPS) continue;
          A.live = B.live = 0; memset(&A.d, 0x77, sizeof(A.d)); memset(&B.d, 0x77, sizeof(B.d));
          for (n = a = b = 0; n < 2 * N_OPS; ++n) { w[n] = m >> n & 1 ? 'A' : 'B'; }
          w[n] = 0;
          mc_ctx("%s with %s, %s", sc[0].name, sc[1].name, w);
          for (n = 0; n < 2 * N_OPS; ++n) if (m >> n & 1) op(&A, a++); else op(&B, b++);
          mc_execs(1); mc_transitions(2 * N_OPS);
          for (k = 0; k < 2; ++k) {
               if (! same(&A.o[k], &A0.o[k]) || ! same(&B.o[k], &B0.o[k])) {
                    char sig[240]; snprintf(sig, sizeof(sig), "interleaving|%s|%s", sc[0].name, sc[1].name);
                    mc_viol(sig, "%s (A) and %s (B), calls in the order %s: solution %d of %s differs from that of the instance alone", sc[0].name, sc[1].name, w, k + 1, same(&A.o[k], &A0.o[k]) ? "B" : "A");
                    return;
               }
               if (! A.o[k].rc && ! B.o[k].rc) mc_nontrivial(1);
          }
     }
     mc_states(1);
     mc_outcome(mc_hash(A0.o[1].v, A0.o[1].n * 8, mc_hash(B0.o[1].v, B0.o[1].n * 8, 0)));
}

/* ------------------------------------------------------------------ no call writes shared memory */
static void f_shared(long idx) {
     scen *s = &sc[0]; inst *x = &A; static xh_slot sl[600]; int i, v, n;
     if (sc_get(idx, s)) return;
     xh_quiet(); guard_init();
     memset(x, 0, sizeof(*x)); x->s = s;
     mc_ctx("%s", s->name);
     G("xrtm_create", op(x, 0));
     if (! x->live) return;
     G("a solution that fails", xh_run(&s->c, &x->d, &s->in, s->solver, s->sols, 0, &x->o[0]));
     n = xh_required_slots(&s->c, sl); n += xh_deriv_slots(&s->c, sl + n);
     for (v = 0; v < 4; ++v) for (i = 0; i < n; ++i) { char b[100]; xh_slot_name(&sl[i], b); G(b, xh_set(&s->c, &x->d, &s->in, &sl[i], v)); }
     G("update_varied_layers", xh_update(&s->c, &x->d));
     G("solution", op(x, 2));
     if (! x->o[0].rc) mc_nontrivial(1);
     G("changes and solution", op(x, 3));
     G("names", { xrtm_solver_mask_to_name(s->solver); xrtm_option_mask_to_name(XRTM_OPTION_CALC_DERIVS); xrtm_solver_name_to_mask("eig_bvp"); xrtm_option_name_to_mask("sfi"); xrtm_kernel_index_to_name(0); });
     G("xrtm_destroy", op(x, 4));
     mc_execs(3); mc_states(1);
     mc_outcome(mc_hash(x->o[1].v, x->o[1].n * 8, 0));
}

/* ------------------------------------------------------------------ threads */
static void *thr(void *v) { inst *x = v; int k; for (k = 0; k < N_OPS; ++k) op(x, k); return NULL; }
static void f_thr(long idx) {
     pthread_t t[4]; static inst T[4]; pthread_attr_t at; int i, k; scen *s = &sc[0];
     if (sc_get(idx, s)) return;
     xh_quiet();
     mc_ctx("%s alone", s->name);
     A0.s = s; for (k = 0; k < N_OPS; ++k) op(&A0, k);
     mc_ctx("%s in four threads", s->name);
     pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16 << 20);
     for (i = 0; i < 4; ++i) { memset(&T[i], 0, sizeof(inst)); T[i].s = s; if (pthread_create(&t[i], &at, thr, &T[i])) exit(3); }
     for (i = 0; i < 4; ++i) pthread_join(t[i], NULL);
     mc_execs(4); mc_transitions(20);
     for (i = 0; i < 4; ++i) for (k = 0; k < 2; ++k) {
          if (! same(&T[i].o[k], &A0.o[k])) { char sig[240]; snprintf(sig, sizeof(sig), "threads|%s", s->name); mc_viol(sig, "%s: solution %d in one of four threads differs from that alone", s->name, k + 1); return; }
          if (! A0.o[k].rc) mc_nontrivial(1);
     }
}

int main(int argc, char **argv) {
     long i;
     mc_init(argc, argv);
     sc_init(0, SC_ALLDIMS, 0x7ff);
     /* pairs: the base scenarios, and for each solver (thorough) each deviation of it */
     sc_init(mc_thorough ? 1 : 0, SC_ALLDIMS, 0x7ff);
     ok_idx = malloc(sc_n() * sizeof(long));
     for (i = 0; i < sc_n(); ++i) { static scen s; if (! sc_get(i, &s) && (! mc_thorough || i < 11 || i % 13 == 0)) ok_idx[n_ok++] = i; }
     mc_family("interleavings", n_ok * n_ok, f_inter, 120);
     sc_init(mc_thorough ? 3 : 2, SC_ALLDIMS, 0x7ff);
     mc_family("shared", sc_n(), f_shared, 60);
     sc_init(mc_thorough ? 2 : 1, SC_ALLDIMS, 0x7ff);
     mc_family("threads", sc_n(), f_thr, 60);
     return mc_done();
}
