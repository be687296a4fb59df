/* C22: the input language. What a text says is what the instance holds and computes, in every form of every statement and style; what is printed reads back;
   texts with a token changed, left out, added or cut anywhere are refused; callxrtm prints what the library computes. */
#define _GNU_SOURCE
#include <stdint.h>
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include <ctype.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "inputs.h"
#include "xrtm_support.h"
#include "input_util.h"
#define V(what, ...) mc_viol(what, __VA_ARGS__)
#define ONE() do { mc_execs(1); mc_transitions(1); } while (0)
int yylex_destroy(void);

/* ---------------------------------------------------------------- exit() of the code under test comes back here */
static jmp_buf jb; static int armed;
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int s) { if (armed) { armed = 0; longjmp(jb, 1 + (s & 255)); } __real_exit(s); }

static char dir[64]; static pid_t main_pid;
static char err[20000]; static int err_fd = -1, old2 = -1;
static void cap_on(void) {
     if (err_fd < 0) err_fd = memfd_create("err", 0);
     fflush(stderr); ftruncate(err_fd, 0); lseek(err_fd, 0, SEEK_SET);
     old2 = dup(2); dup2(err_fd, 2);
}
static void cap_off(void) { int n; fflush(stderr); dup2(old2, 2); close(old2); lseek(err_fd, 0, SEEK_SET); n = read(err_fd, err, sizeof(err) - 1); err[n < 0 ? 0 : n] = 0; }

/* ---------------------------------------------------------------- writing statements */
typedef struct { int arr2, equal, dash; } sty;
static const sty stys[] = {{0, 1, 0}, {1, 0, 1}, {0, 0, 0}, {1, 1, 0}};
#define NSTY ((int) (sizeof(stys) / sizeof(stys[0])))
#define NTEXT 400000
static char text[NTEXT + 100]; static int E;
static const sty *Y;
static void out(const char *f, ...) { va_list ap; va_start(ap, f); E += vsnprintf(text + E, NTEXT - E, f, ap); va_end(ap); if (E >= NTEXT) { fprintf(stderr, "text too long\n"); __real_exit(3); } }
static void lhs(const char *f, ...) { va_list ap; if (Y->dash) out("-"); va_start(ap, f); E += vsnprintf(text + E, NTEXT - E, f, ap); va_end(ap); out(Y->equal ? " = " : " "); }
static void end(void) { out(Y->dash ? " " : "\n"); }
static void num(double x) { out("%.17e", x); }
static double vals[20000]; static int nv, as_int;
static void arr_(int n, const int *dims, int i, int *k) {
     int j;
     if (! Y->arr2) out("{");
     for (j = 0; j < dims[i]; ++j) {
          if (i == n - 1) { if (as_int) out("%d", (int) vals[(*k)++]); else num(vals[(*k)++]); }
          else arr_(n, dims, i + 1, k);
          if (j < dims[i] - 1) out(i == n - 1 || ! Y->arr2 ? ", " : "; ");
     }
     if (! Y->arr2) out("}");
}
static void arr(int n, int a, int b, int c, int d) { int dims[4] = {a, b, c, d}, k = 0; arr_(n, dims, 0, &k); nv = as_int = 0; }
static void add(double x) { vals[nv++] = x; }
static void list(int n, const char *(*name)(int), int quote) { int i; if (! Y->arr2) out("("); for (i = 0; i < n; ++i) out(quote ? "%s'%s'" : "%s%s", i ? ", " : "", name(i)); if (! Y->arr2) out(")"); }
static const char *opt_names[40]; static const char *opt_name(int i) { return opt_names[i]; }
static int N_ND = -1;     /* the number of derivatives in the text when it is not that of the instance */
static int fd_method = -1;
/* creation statements, in the given order */
#define NCRE 12
static void creation(int rev, int quote) {
     int k, i, n;
     for (k = 0; k < NCRE; ++k) switch (rev ? NCRE - 1 - k : k) {
     case 0: for (i = n = 0; i < xrtm_option_n(); ++i) if ((long) C->options & xrtm_option_index_to_mask(i)) opt_names[n++] = xrtm_option_index_to_name(i);
          lhs("options"); list(n, opt_name, quote); end(); break;
     case 1: for (i = n = 0; i < xrtm_solver_n(); ++i) if (C->solvers & xrtm_solver_index_to_mask(i)) opt_names[n++] = xrtm_solver_index_to_name(i);
          lhs("solvers"); list(n, opt_name, quote); end(); break;
     case 2: lhs("max_coef"); out("%d", C->n_coef); end(); break;
     case 3: lhs("n_quad"); out("%d", C->n_quad); end(); break;
     case 4: lhs("n_stokes"); out("%d", C->n_stokes); end(); break;
     case 5: lhs("n_derivs"); out("%d", N_ND >= 0 ? N_ND : ND); end(); break;
     case 6: lhs("n_layers"); out("%d", C->n_layers); end(); break;
     case 7: lhs("n_kernels"); out("%d", C->n_kernels); end(); break;
     case 8: lhs("n_kernel_quad"); out("%d", C->n_kernel_quad); end(); break;
     case 9: if (! C->n_kernels) break;
          for (i = 0; i < C->n_kernels; ++i) opt_names[i] = xrtm_kernel_value_to_name((enum xrtm_kernel_type) C->kernels[i]);
          lhs("kernels"); list(C->n_kernels, opt_name, quote); end(); break;
     case 10: lhs("n_out_levels"); out("%d", C->n_out_levels); end(); break;
     case 11: lhs("n_out_thetas"); out("%d", C->n_out_thetas); end(); if (fd_method >= 0) { lhs("fd"); out("%d", fd_method); end(); } break;
     }
}
/* one statement; alt: another spelling of its indexes. 0: there is no such statement */
static int emit(const op *o, const xh_in *t, int alt) {
     int i, j, k, l, a = o->a, b = o->b, e0 = E; char ix[64]; const char *nm = "", *co = ":";
     switch (o->kind) {
#define SC(K, NM, F) case K: if (alt) return 0; lhs(NM); num(t->F); break;
     SC(K_DOUB_D_TAU, "doub_d_tau", doub_d_tau) SC(K_FOURIER_TOL, "fourier_tol", fourier_tol) SC(K_LAMBDA, "lambda", lambda) SC(K_PLANET_R, "planet_r", planet_r)
     SC(K_F_ISO_TOP, "F_iso_top", F_iso_top) SC(K_F_ISO_BOT, "F_iso_bot", F_iso_bot) SC(K_F_0, "F_0", F_0) SC(K_THETA_0, "theta_0", theta_0) SC(K_PHI_0, "phi_0", phi_0) SC(K_SURFACE_B, "surface_b", surface_b)
     case K_PADE: if (alt) return 0; lhs("pade_params"); out("%d, %d", t->pade_s, t->pade_r); break;
     case K_SOS: if (alt) return 0; lhs("sos_params"); out("%d, %.17e, %.17e", t->sos_max_os, t->sos_max_tau, t->sos_tol); break;
#define AR(K, NM, N, F) case K: if (alt) return 0; for (i = 0; i < (N); ++i) add(t->F[i]); lhs(NM); arr(1, N, 0, 0, 0); break;
     AR(K_LEVELS_Z, "levels_z", C->n_layers + 1, levels_z) AR(K_OUT_TAUS, "out_taus", C->n_out_levels, out_taus) AR(K_OUT_THETAS, "out_thetas", C->n_out_thetas, out_thetas) AR(K_LEVELS_B, "levels_b", C->n_layers + 1, levels_b)
     case K_OUT_LEVELS: if (alt) return 0; for (i = 0; i < C->n_out_levels; ++i) add(t->out_levels[i]); lhs("out_levels"); as_int = 1; arr(1, C->n_out_levels, 0, 0, 0); break;
#define AL(K, NM, F) case K: if (alt || ! o->var) return 0; for (i = 0; i < ND; ++i) add(t->F[i]); lhs(NM); arr(1, ND, 0, 0, 0); break;
     AL(K_F_ISO_TOP_L, "F_iso_top_l", F_iso_top_l) AL(K_F_ISO_BOT_L, "F_iso_bot_l", F_iso_bot_l) AL(K_SURFACE_B_L, "surface_b_l", surface_b_l)
     case K_LEVELS_B_L: if (alt || ! o->var) return 0; for (i = 0; i <= C->n_layers; ++i) for (j = 0; j < ND; ++j) add(t->levels_b_l[j][i]); lhs("levels_b_l"); arr(2, C->n_layers + 1, ND, 0, 0); break;
     case K_OMEGA: case K_LTAU:
          nm = o->kind == K_OMEGA ? "omega" : "ltau";
          if (! o->var) { if (alt) return 0; lhs("%s[%d]", nm, a); num(o->kind == K_OMEGA ? t->omega[a] : t->ltau[a]); break; }
          if (alt > 1) return 0;
          for (i = 0; i < C->n_layers; ++i) add(o->kind == K_OMEGA ? t->omega[i] : t->ltau[i]);
          lhs("%s%s", nm, alt ? "[:]" : ""); arr(1, C->n_layers, 0, 0, 0); break;
     case K_COEF:
          if (alt > o->var) return 0;
          if (! o->var) { lhs("coef[%d]", a); out("%d, ", t->n_coef[a]); for (l = 0; l < t->n_coef[a]; ++l) for (k = 0; k < NEL; ++k) add(t->coef[a][k][l]); arr(2, t->n_coef[a], NEL, 0, 0); break; }
          for (i = 0; i < C->n_layers; ++i) for (l = 0; l < C->n_coef; ++l) for (k = 0; k < NEL; ++k) add(t->coef[i][k][l]);
          lhs("coef%s", alt ? "[:]" : ""); arr(3, C->n_layers, C->n_coef, NEL, 0); break;
     case K_OMEGA_L: case K_LTAU_L: case K_COEF_L: {
          int i0 = 0, i1 = C->n_layers, j0 = 0, j1 = ND;
          nm = o->kind == K_OMEGA_L ? "omega_l" : o->kind == K_LTAU_L ? "ltau_l" : "coef_l";
          switch (o->var) {
          case 0: if (alt) return 0; sprintf(ix, "[%d][%d]", a, b); i0 = a; i1 = a + 1; j0 = b; j1 = b + 1; break;
          case 1: if (alt) return 0; sprintf(ix, "[%s][%d]", co, b); j0 = b; j1 = b + 1; break;
          case 2: if (alt > 1) return 0; sprintf(ix, alt ? "[%d][:]" : "[%d]", a); i0 = a; i1 = a + 1; break;
          default: if (alt > 2) return 0; strcpy(ix, alt == 2 ? "[:][:]" : alt ? "[:]" : ""); }
          lhs("%s%s", nm, ix);
          for (i = i0; i < i1; ++i) for (j = j0; j < j1; ++j) {
               if (o->kind == K_OMEGA_L) add(t->omega_l[i][j]);
               else if (o->kind == K_LTAU_L) add(t->ltau_l[i][j]);
               else for (l = 0; l < (o->var & 1 ? C->n_coef : t->n_coef[i]); ++l) for (k = 0; k < NEL; ++k) add(t->coef_l[i][j][k][l]);
          }
          if (o->kind != K_COEF_L) switch (o->var) {
               case 0: num(vals[0]); nv = 0; break;
               case 1: arr(1, C->n_layers, 0, 0, 0); break;
               case 2: arr(1, ND, 0, 0, 0); break;
               default: arr(2, C->n_layers, ND, 0, 0); }
          else switch (o->var) {
               case 0: arr(2, t->n_coef[a], NEL, 0, 0); break;
               case 1: arr(3, C->n_layers, C->n_coef, NEL, 0); break;
               case 2: arr(3, ND, t->n_coef[a], NEL, 0); break;
               default: arr(4, C->n_layers, ND, C->n_coef, NEL); }
          break; }
     case K_AMPFAC: if (alt) return 0; lhs("kernel_ampfac[%d]", a); num(t->ampfac[a]); break;
     case K_AMPFAC_L:
          if (alt > o->var) return 0;
          if (! o->var) { lhs("kernel_ampfac_l[%d][%d]", a, b); num(t->ampfac_l[a][b]); break; }
          for (j = 0; j < ND; ++j) add(t->ampfac_l[a][j]);
          lhs("kernel_ampfac_l[%d]%s", a, alt ? "[:]" : ""); arr(1, ND, 0, 0, 0); break;
     case K_PARAMS:
          if (alt > o->var) return 0;
          if (! o->var) { lhs("kernel_params[%d][%d]", a, o->p); num(t->params[a][o->p]); break; }
          for (i = 0; i < NPAR(a); ++i) add(t->params[a][i]);
          lhs("kernel_params[%d]%s", a, alt ? "[:]" : ""); arr(1, NPAR(a), 0, 0, 0); break;
     case K_PARAMS_L:
          switch (o->var) {
          case 0: if (alt) return 0; lhs("kernel_params_l[%d][%d][%d]", a, b, o->p); num(t->params_l[a][b][o->p]); break;
          case 1: if (alt > 1) return 0; lhs(alt ? "kernel_params_l[%d][%d][:]" : "kernel_params_l[%d][%d]", a, b); for (i = 0; i < NPAR(a); ++i) add(t->params_l[a][b][i]); arr(1, NPAR(a), 0, 0, 0); break;
          case 2: if (alt) return 0; lhs("kernel_params_l[%d][:][%d]", a, o->p); for (j = 0; j < ND; ++j) add(t->params_l[a][j][o->p]); arr(1, ND, 0, 0, 0); break;
          default: if (alt > 2) return 0; lhs("kernel_params_l[%d]%s", a, alt == 2 ? "[:][:]" : alt ? "[:]" : ""); for (j = 0; j < ND; ++j) for (i = 0; i < NPAR(a); ++i) add(t->params_l[a][j][i]); arr(2, ND, NPAR(a), 0, 0); }
          break;
     default: return 0;
     }
     end();
     return E > e0;
}

/* ---------------------------------------------------------------- reading */
static xrtm_data D; static xrtm_fd_data F; static misc_data M;
static int how_file;
static char fname[100];
static void put_file(const char *f, const char *s, int n) { int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0 || write(fd, s, n) != n) __real_exit(3); close(fd); }
/* 0: read; 1: refused */
static int rd(const char *s) {
     static char b[NTEXT + 100]; volatile int r;
     ONE();
     if (how_file) { snprintf(fname, sizeof(fname), "%s/i.%ld", dir, (long) getpid()); put_file(fname, s, strlen(s)); }
     else strcpy(b, s);
     cap_on();
     if ((r = setjmp(jb))) { cap_off(); yylex_destroy(); return 1; }
     armed = 1;
     r = how_file ? xrtm_fread_input(&D, &F, &M, fname, ! Y->arr2, Y->arr2, Y->dash, Y->equal) : xrtm_sread_input(&D, &F, &M, b, ! Y->arr2, Y->arr2, Y->dash, Y->equal);
     armed = 0;
     cap_off();
     return r != 0;
}
static void gone(void) { misc_free(&M); if (M.fd_method >= 0) xrtm_fd_destroy(&F); xrtm_destroy(&D); }
static const char *first_err(void) { int i; static char b[120]; for (i = 0; i < 110 && err[i] && err[i] != '\n'; ++i) b[i] = err[i]; b[i] = 0; return b; }
static int compare(const char *fam, const char *what, const model *m) {
     int i; static snap a, b; char sig[200];
     take(&D, NULL, &a); take(NULL, m, &b);
     if ((i = cmp(&a, &b, 1e-12)) < 0) return 0;
     snprintf(sig, sizeof(sig), "%s|%s|%s|%s", fam, C->name, what, a.nm[i]);
     V(sig, "getter of %s (entry %d) returns %.17g, the text says %.17g", a.nm[i], i, a.v[i], b.v[i]);
     return 1;
}
static int good(const char *fam, const char *what) {
     char sig[200];
     if (! rd(text)) return 1;
     snprintf(sig, sizeof(sig), "%s|%s|%s|refused", fam, C->name, what);
     V(sig, "a right text was refused: %s", first_err());
     return 0;
}
static int needs_coef(const op *o, const model *m) { int i; if (o->kind != K_COEF_L || o->var & 1) return 0; for (i = 0; i < C->n_layers; ++i) if (i == o->a && ! m->set[K_COEF][i][0]) return 1; return 0; }
/* the values a statement can say: the forms for all layers have max_coef coefficients */
static void vals_for(xh_in *t, const op *o, const model *m) {
     int i; fill(t, o->v);
     if (o->kind == K_COEF && o->var) for (i = 0; i < C->n_layers; ++i) t->n_coef[i] = C->n_coef;
     if (o->kind == K_COEF_L) for (i = 0; i < C->n_layers; ++i) t->n_coef[i] = m->in.n_coef[i];
}

/* every statement in every form, alone after the creation statements and with each other one */
static int cfg_of[40000], op_of[40000], n_items;
static void forms(long idx) {
     int j, alt, alt2, s = idx % NSTY; static model m0, m, m2; xh_in t, u; char nm[120], nm2[300]; const op *o, *q;
     use_cfg(cfg_of[idx / NSTY]); o = &ops[op_of[idx / NSTY]]; Y = &stys[s]; how_file = ! Y->arr2;
     model_init(&m0);
     if (needs_coef(o, &m0)) {   /* refused, and otherwise nothing */
          vals_for(&t, o, &m0);
          E = 0; creation(0, 0); emit(o, &t, 0);
          opname(o, nm);
          if (! rd(text)) { V("forms|early", "%s: %s was taken before its coefficients", C->name, nm); gone(); } else if (! err[0]) V("forms|silent", "%s: %s was refused without a message", C->name, nm);
          return;
     }
     mc_states(1);
     for (alt = 0; ; ++alt) {
          vals_for(&t, o, &m0);
          E = 0; creation(idx & 1, idx / 2 & 1);
          if (! emit(o, &t, alt)) break;
          sprintf(nm, "st%d.%d.", s, alt); opname(o, nm + strlen(nm));
          m = m0; model_op(&m, o, &t);
          if (good("forms", nm)) { mc_nontrivial(1); compare("forms", nm, &m); gone(); }
          for (j = 0; j < n_ops; ++j) {
               int e0;
               q = &ops[j];
               if (needs_coef(q, &m)) continue;
               if (! mc_thorough && (j + op_of[idx / NSTY] + s) % 3) continue;
               vals_for(&u, q, &m);
               for (alt2 = 0; alt2 < 3; ++alt2) {
                    E = 0; creation(0, 0); emit(o, &t, alt); e0 = E;
                    if (! emit(q, &u, alt2)) break;
                    sprintf(nm2, "%s.%d.", nm, alt2); opname(q, nm2 + strlen(nm2));
                    m2 = m; model_op(&m2, q, &u);
                    if (good("forms", nm2)) { mc_nontrivial(1); compare("forms", nm2, &m2); gone(); }
                    (void) e0;
               }
          }
     }
}

/* the whole input: statements of each form in each order; its outputs; spaces, comments; what is printed reads back */
static void whole(const xh_in *t, int order, int pick, int alt, model *m) {
     int i, j, k, pass; uchar done[800] = {0};
     model_init(m);
     for (pass = 0; pass < 3; ++pass)
     for (k = 0; k < n_ops; ++k) {
          j = order ? n_ops - 1 - k : k;
          if (ops[j].v != 1 || done[j]) continue;
          if (needs_coef(&ops[j], m)) continue;
          /* one of the forms that give the same thing */
          if (ops[j].kind == K_OMEGA || ops[j].kind == K_LTAU || ops[j].kind == K_COEF || ops[j].kind == K_AMPFAC_L || ops[j].kind == K_PARAMS) { if (ops[j].var != (pick & 1)) continue; }
          else if (ops[j].kind == K_OMEGA_L || ops[j].kind == K_LTAU_L || ops[j].kind == K_COEF_L || ops[j].kind == K_PARAMS_L) { if (ops[j].var != pick) continue; }
          xh_in u = *t;
          if (ops[j].kind == K_COEF_L) for (i = 0; i < C->n_layers; ++i) u.n_coef[i] = m->in.n_coef[i];
          if (ops[j].kind == K_COEF && ops[j].var) for (i = 0; i < C->n_layers; ++i) u.n_coef[i] = C->n_coef;
          if (! emit(&ops[j], &u, alt) && ! emit(&ops[j], &u, 0)) continue;
          done[j] = 1;
          model_op(m, &ops[j], &u);
     }
}
static int all_set(const xh_in *t, const model *m) { return 1; }
static double r6(double x) { char b[64]; sprintf(b, "%e", x); return strtod(b, NULL); }
static void round_model(model *m) {
     double *p = (double *) &m->in; size_t i;
     /* the structure is doubles except for a few counts, which are kept */
     xh_in k = m->in;
     (void) p; (void) i;
#define R1(F) m->in.F = r6(k.F)
#define RA(F) do { double *z = (double *) m->in.F; size_t q; for (q = 0; q < sizeof(m->in.F) / sizeof(double); ++q) z[q] = r6(z[q]); } while (0)
     R1(doub_d_tau); R1(sos_max_tau); R1(sos_tol); R1(fourier_tol); R1(lambda); R1(planet_r); R1(F_iso_top); R1(F_iso_bot); R1(F_0); R1(theta_0); R1(phi_0); R1(surface_b);
     RA(levels_z); RA(out_taus); RA(out_thetas); RA(F_iso_top_l); RA(F_iso_bot_l); RA(levels_b); RA(levels_b_l); RA(surface_b_l); RA(coef); RA(coef_l); RA(omega); RA(omega_l); RA(ltau); RA(ltau_l); RA(ampfac); RA(ampfac_l); RA(params); RA(params_l);
}
static char *printed(int al, const sty *y, char nl) {
     static char *p; static size_t sz; FILE *fp; int r;
     free(p); p = NULL;
     fp = open_memstream(&p, &sz);
     cap_on();
     if (setjmp(jb)) { cap_off(); fclose(fp); return NULL; }
     armed = 1; r = xrtm_fwrite_input_fp(&D, &F, &M, fp, nl, al, y->arr2, y->dash, y->equal); armed = 0;
     cap_off();
     fclose(fp);
     return r ? NULL : p;
}
static void full(long idx) {
     int pick = idx % 4, order = idx / 4 % 2, s = idx / 8 % NSTY, alt, i, v; xh_in t; static model m, mr; char nm[100]; static xh_out o1, o2;
     use_cfg(idx / 8 / NSTY); Y = &stys[s]; how_file = ! Y->arr2;
     mc_states(1);
     for (v = 0; v < 2; ++v) for (alt = 0; alt < 3; ++alt) {
          if (v) fill(&t, 2); else xh_default_in(C, &t);
          if (pick & 1) for (i = 0; i < C->n_layers; ++i) t.n_coef[i] = C->n_coef;
          E = 0; creation(order, alt & 1);
          whole(&t, order, pick, alt, &m);
          sprintf(nm, "st%d.pick%d.order%d.alt%d.v%d", s, pick, order, alt, v);
          if (! good("full", nm)) continue;
          mc_nontrivial(1);
          compare("full", nm, &m);
          if (! v) {   /* same outputs as through the calls */
               kfuncs(&D);
               if (xh_update(C, &D) || xh_run(C, &D, &t, solv[0], sols(), 0, &o1)) V("full|run", "%s: %s: no solution from an instance read from a text", C->name, nm);
               else if (! xh_fresh_run(C, &t, solv[0], sols(), 0, &o2)) { if (o1.n != o2.n || memcmp(o1.v, o2.v, o1.n * sizeof(double))) V("full|output", "%s: %s: another solution than through the calls", C->name, nm); }
          }
          if (alt == 0 && order == 0) {   /* print in every style and read back */
               int q, al, nlc; static char first[NTEXT + 100];
               mr = m; round_model(&mr);
               for (q = 0; q < NSTY; ++q) for (al = 0; al < 2; ++al) for (nlc = 0; nlc < 2; ++nlc) {
                    const sty *y = &stys[q], *y0 = Y; char *p, *c; xrtm_data d0; misc_data m0;
                    ONE();
                    sprintf(nm, "st%d.al%d.nl%d.pick%d.v%d", q, al, nlc, pick, v);
                    p = printed(al, y, nlc ? ' ' : '\n');
                    if (! p) { char sig[200]; snprintf(sig, sizeof(sig), "print|%s|%s|refused", C->name, nm); V(sig, "a set instance could not be printed: %s", first_err()); continue; }
                    if (strlen(p) >= NTEXT) { V("print|long", "too long"); continue; }
                    strcpy(first, p);
                    if (y->dash && (c = strstr(first, "::"))) c[0] = c[1] = ' ';     /* what callxrtm takes out */
                    d0 = D; m0 = M; memset(&D, 0x5a, sizeof(D)); memset(&M, 0x5a, sizeof(M));
                    Y = y; how_file = ! y->arr2;
                    if (rd(first)) { char sig[200]; snprintf(sig, sizeof(sig), "print|%s|%s|reread", C->name, nm); V(sig, "what was printed was refused: %s", first_err()); }
                    else {
                         if (! compare("print", nm, &mr)) { char *p2 = strdup(p); p = printed(al, y, nlc ? ' ' : '\n'); if (! p || strcmp(p, p2)) V("print|again", "%s: %s: printing what was read back gives another text", C->name, nm); free(p2); }
                         gone();
                    }
                    D = d0; M = m0; Y = y0; how_file = ! Y->arr2;
               }
          }
          gone();
     }
     /* blanks and comments anywhere between tokens */
     if (! pick) { static char b[NTEXT + 100]; int k, n, c;
          xh_default_in(C, &t); E = 0; creation(0, 0); whole(&t, order, 0, 0, &m);
          strcpy(b, text);
          for (k = 0; k < 4; ++k) {
               static const char *ins[] = {" ", "\n", " /* a \n * b */ ", " // , c\n"};
               for (n = E = 0; b[n]; ++n) { c = b[n]; if (strchr("{},;=()", c) || (c == ' ' && b[n + 1] != '=')) { out("%s%c%s", ins[k], c, ins[k]); } else out("%c", c); }
               sprintf(nm, "blanks%d.st%d", k, s);
               if (good("full", nm)) { compare("full", nm, &m); gone(); }
          }
     }
}

/* ---------------------------------------------------------------- broken texts */
typedef struct { int p, n; char k; int last, cre; } tok;    /* k: P punctuation, I integer, D number, S name in a list, K keyword */
static tok tk[6000]; static int ntk;
static void lex(const char *s, int n_cre) {
     int i = 0, st = 1, in = 0, j;
     ntk = 0;
     while (s[i]) {
          tok *t;
          if (isspace((uchar) s[i])) { ++i; continue; }
          t = &tk[ntk++]; t->p = i; t->last = 0; t->cre = i < n_cre;
          if (isalpha((uchar) s[i]) || (s[i] == '-' && isalpha((uchar) s[i + 1]))) { ++i; while (isalnum((uchar) s[i]) || s[i] == '_') ++i; t->k = 'W'; }
          else if (isdigit((uchar) s[i]) || (s[i] == '-' && isdigit((uchar) s[i + 1]))) { j = i; while (isalnum((uchar) s[i]) || s[i] == '.' || ((s[i] == '-' || s[i] == '+') && (i == j || s[i - 1] == 'e'))) ++i; t->k = 'I'; for (; j < i; ++j) if (s[j] == '.') t->k = 'D'; }
          else { ++i; t->k = 'P'; }
          t->n = i - t->p;
     }
     /* a word is a keyword unless it follows '(', ',' or the keyword (and '=') of a list */
     for (i = 0; i < ntk; ++i) if (tk[i].k == 'W') {
          st = i == 0 || ! (tk[i - 1].k == 'P' && strchr("(,", s[tk[i - 1].p]));
          if (i && st && tk[i - 1].k == 'K') st = 0;
          if (i > 1 && st && s[tk[i - 1].p] == '=') st = 0;
          tk[i].k = st ? 'K' : 'S';
     }
     for (i = 0; i < ntk; ++i) tk[i].last = i == ntk - 1 || tk[i + 1].k == 'K';
     (void) in;
}
static const int bro_cfgs[] = {0, 1, 4};     /* of bcfgs */
static const xh_cfg bcfgs[] = {
{ "b-lev",   KD|LV|SO|TH,                           S(EIG_ADD)|S(PADE_ADD)|S(DOUB_ADD), 3, 1, 1, 2, 2, 2, 4, {K_RPV, K_LAMB},   2, 2, 1 },
{ "b-vec",   KD|LV|SO|O(VECTOR),                    S(EIG_BVP),               2, 1, 3, 1, 2, 0, 0, {0},              2, 1, 1 },
{ "b-psa",   LV|SO|O(PSA),                          S(SOS)|S(EIG_BVP),        3, 1, 1, 0, 2, 1, 4, {K_LAMB},         2, 0, 1 },
};
#define NB ((int) (sizeof(bcfgs) / sizeof(bcfgs[0])))
static const char *repl[] = {"", "x", "7", "-1", "99999999999", "1.5", "1.", "1e9", "{", "}", "(", ")", ",", ";", "[", "]", ":", "=", "'x'", "'", "\"", "/*", "[0]", "[0][0][0][0][0][0][0][0][0][0]", "$", "{}", "()", "omega"};
#define NREPL ((int) (sizeof(repl) / sizeof(repl[0])))
static int btot[NB][NSTY], boff[NB][NSTY], bn;
static int e_cre;
static void btext(int c, int s) {
     static model m; xh_in t;
     C = &bcfgs[c]; alt_levels = 0; build_ops();
     Y = &stys[s]; how_file = ! Y->arr2;
     fill(&t, 2); E = 0; creation(0, 0); e_cre = E; whole(&t, 0, s % 4, 0, &m);
     lex(text, e_cre);
}
static int kind_of(const char *r) {   /* what a replacement is */
     if (! r[0]) return 'E';
     if (! strcmp(r, "7") || ! strcmp(r, "-1") || ! strcmp(r, "99999999999")) return 'I';
     if (! strcmp(r, "1.5") || ! strcmp(r, "1.")) return 'D';
     if (! strcmp(r, "omega")) return 'K';
     return 'X';
}
static void try1(const char *b, const char *what, int j, int must, const char *r) {
     char sig[200], piece[60]; int k, n;
     if (! rd(b)) {
          if (must) {
               n = tk[j].n > 20 ? 20 : tk[j].n; for (k = 0; k < n; ++k) piece[k] = text[tk[j].p + k]; piece[n] = 0;
               for (k = j; k > 0 && tk[k].k != 'K'; --k) ;
               snprintf(sig, sizeof(sig), "broken|%s|%.*s|%c|%s", what, tk[k].n, text + tk[k].p, tk[j].k, r);
               V(sig, "style %d: token %d (%s) of a %s text, %s '%s': taken", (int) (Y - stys), j, piece, C->name, what, r);
          }
          gone();
     }
     else { mc_nontrivial(1); if (! err[0]) V("broken|silent", "%s %s at token %d refused without a message", what, r, j); }
}
static void broken(long idx) {
     int c, s, j, k, must, n; static char b[NTEXT + 200]; static char base[NTEXT + 100];
     for (c = 0; c < NB; ++c) for (s = 0; s < NSTY; ++s) if (idx >= boff[c][s] && idx < boff[c][s] + btot[c][s]) goto found;
     return;
found: btext(c, s); j = idx - boff[c][s];
#ifndef __SANITIZE_ADDRESS__
     { struct rlimit l = {1500000000u, 1500000000u}; setrlimit(RLIMIT_AS, &l); }
#endif
     strcpy(base, text);
     mc_states(1);
     if (j == 0 && ! good("broken", "base")) return; else if (j == 0) gone();
     for (k = 0; k < NREPL; ++k) {
          const char *r = repl[k]; int rk = kind_of(r), tkk = tk[j].k, same = (int) strlen(r) == tk[j].n && ! strncmp(r, base + tk[j].p, tk[j].n);
          if (same) continue;
          /* instead of the token */
          must = 1;
          if (tkk == 'D' && (rk == 'I' || rk == 'D')) must = 0;
          if (tkk == 'I' && rk == 'I') must = 0;
          if (tkk == 'K' && rk == 'K') must = 0;
          if (tkk == 'I' && r[0] == ':' && j && base[tk[j - 1].p] == '[') must = 0;
          snprintf(b, sizeof(b), "%.*s %s %s", tk[j].p, base, r, base + tk[j].p + tk[j].n);
          try1(b, "replaced by", j, must, r);
          /* before the token */
          if (rk == 'E') continue;
          must = 1;
          snprintf(b, sizeof(b), "%.*s %s %s", tk[j].p, base, r, base + tk[j].p);
          try1(b, "preceded by", j, must, r);
     }
     /* cut in and after it */
     for (n = 1; n <= tk[j].n; ++n) {
          must = 1;
          if (tk[j].last && (n == tk[j].n || tk[j].k == 'D' || tk[j].k == 'I')) must = 0;
          if (tk[j].cre) must = 1;
          if (tk[j].cre && j + 1 < ntk && ! tk[j + 1].cre) must = 0;
          if (tk[j].k == 'K' && n == 1 && base[tk[j].p] == '-') must = 1;
          snprintf(b, sizeof(b), "%.*s", tk[j].p + n, base);
          try1(b, "cut at", j, must, "");
          if (n == tk[j].n && tk[j].last && ! tk[j].cre) { if (rd(b)) V("broken|cut", "a text that ends after a statement was refused: %s", first_err()); else gone(); }
     }
}
/* ---------------------------------------------------------------- finite differences: statements of the perturbations */
static const xh_cfg fcfgs[] = {
{ "f-lev",   LV|SO|TH,          S(EIG_BVP)|S(EIG_ADD), 4, 2, 1, 0, 2, 2, 4, {K_RPV, K_LAMB},   2, 2, 1 },
{ "f-vec",   LV|SO|O(VECTOR),   S(EIG_BVP),            3, 1, 3, 0, 2, 0, 0, {0},              2, 1, 1 },
};
#define NFC ((int) (sizeof(fcfgs) / sizeof(fcfgs[0])))
#define FD 3     /* perturbations */
enum { P_DELTA, P_FT, P_FB, P_LB, P_SB, P_OM, P_LT, P_CO, P_AF, P_PA, N_PS };
static const struct { const char *nm, *dim; } ps[N_PS] = {{"delta", "D"}, {"F_iso_top_p", "D"}, {"F_iso_bot_p", "D"}, {"levels_b_p", "VD"}, {"surface_b_p", "D"}, {"omega_p", "LD"}, {"ltau_p", "LD"}, {"coef_p", "LDCE"}, {"kernel_ampfac_p", "KD"}, {"kernel_params_p", "KDP"}};
typedef struct { int p, n, ix[3], alt, v; } pop;     /* n leading indexes, -1: all */
static pop pops[2000]; static int n_pops;
typedef struct { double v[N_PS][4][4][8][6]; } pref;
static int psize(int p, int d, int i0) { switch (ps[p].dim[d]) { case 'D': return FD; case 'L': return C->n_layers; case 'V': return C->n_layers + 1; case 'K': return C->n_kernels; case 'C': return C->n_coef; case 'E': return NEL; case 'P': return NPAR(i0); } return 1; }
static double pval(int v, int p, int i, int j, int k, int l) { return fr(p + 3, i * 5 + j, k, l, v) * .01; }
static int ncl[ML];
static void padd(int p, int n, int a, int b, int c, int alt, int v) { pop *o = &pops[n_pops++]; o->p = p; o->n = n; o->ix[0] = a; o->ix[1] = b; o->ix[2] = c; o->alt = alt; o->v = v; }
static void build_pops(void) {
     int p, i, j, k, v; n_pops = 0;
     for (v = 1; v < 3; ++v) for (p = 0; p < N_PS; ++p) {
          if ((p == P_LB || p == P_SB) && ! HAS(SOURCE_THERMAL)) continue;
          if (ps[p].dim[0] == 'D' || ps[p].dim[0] == 'V') { padd(p, 0, 0, 0, 0, 0, v); continue; }
          if (ps[p].dim[0] == 'L') {
               padd(p, 0, 0, 0, 0, 0, v); padd(p, 1, -1, 0, 0, 0, v); padd(p, 2, -1, -1, 0, 0, v);
               for (i = 0; i < C->n_layers; ++i) { padd(p, 1, i, 0, 0, 0, v); padd(p, 2, i, -1, 0, 0, v); }
               for (j = 0; j < FD; ++j) { padd(p, 2, -1, j, 0, 0, v); for (i = 0; i < C->n_layers; ++i) padd(p, 2, i, j, 0, 0, v); }
          }
          if (ps[p].dim[0] == 'K') for (i = 0; i < C->n_kernels; ++i) {
               if (p == P_PA && ! NPAR(i)) continue;
               padd(p, 1, i, 0, 0, 0, v); padd(p, 2, i, -1, 0, 0, v);
               if (p == P_PA) padd(p, 3, i, -1, -1, 0, v);
               for (j = 0; j < FD; ++j) { padd(p, 2, i, j, 0, 0, v); if (p == P_PA) { padd(p, 3, i, j, -1, 0, v); for (k = 0; k < NPAR(i); ++k) padd(p, 3, i, j, k, 0, v); } }
               if (p == P_PA) for (k = 0; k < NPAR(i); ++k) padd(p, 3, i, -1, k, 0, v);
          }
     }
}
static void pname(const pop *o, char *b) { int i; b += sprintf(b, "%s", ps[o->p].nm); for (i = 0; i < o->n; ++i) b += o->ix[i] < 0 ? sprintf(b, "[:]") : sprintf(b, "[%d]", o->ix[i]); }
static void pemit(const pop *o, pref *r) {
     char nm[60]; int d, nd = strlen(ps[o->p].dim), lo[4] = {0}, hi[4] = {1, 1, 1, 1}, dims[4], m = 0, i, j, k, l, q = 0;
     pname(o, nm); lhs("%s", nm);
     for (d = 0; d < nd; ++d) {
          if (d < o->n && o->ix[d] >= 0) { lo[d] = o->ix[d]; hi[d] = lo[d] + 1; }
          else { lo[d] = 0; hi[d] = psize(o->p, d, lo[0]); if (o->p == P_CO && d == 2 && o->n && o->ix[0] >= 0) hi[d] = ncl[lo[0]]; dims[m++] = hi[d]; }
     }
     for (i = lo[0]; i < hi[0]; ++i) for (j = lo[1]; j < hi[1]; ++j) for (k = lo[2]; k < hi[2]; ++k) for (l = lo[3]; l < hi[3]; ++l) { add(pval(o->v, o->p, i, j, k, l)); r->v[o->p][i][j][k][l] = vals[nv - 1]; }
     if (! m) { num(vals[0]); nv = 0; } else arr_(m, dims, 0, &q), nv = 0;
     end();
}
static void pget(pref *r) {
     int i, j, k, l; double t[ML + 1];
     memset(r, 0, sizeof(*r));
     xrtm_fd_get_delta(&F, t);
     for (j = 0; j < FD; ++j) {
          r->v[P_DELTA][j][0][0][0] = t[j];
          r->v[P_FT][j][0][0][0] = xrtm_fd_get_F_iso_top_p(&F, j);
          r->v[P_FB][j][0][0][0] = xrtm_fd_get_F_iso_bot_p(&F, j);
          if (HAS(SOURCE_THERMAL)) r->v[P_SB][j][0][0][0] = xrtm_fd_get_surface_b_p(&F, j);
          for (i = 0; i < C->n_layers; ++i) {
               r->v[P_OM][i][j][0][0] = xrtm_fd_get_omega_p(&F, i, j);
               r->v[P_LT][i][j][0][0] = xrtm_fd_get_ltau_p(&F, i, j);
               for (k = 0; k < ncl[i]; ++k) for (l = 0; l < NEL; ++l) r->v[P_CO][i][j][k][l] = xrtm_fd_get_coef_p(&F, i, j, l, k);
          }
          for (i = 0; i < C->n_kernels; ++i) { r->v[P_AF][i][j][0][0] = xrtm_fd_get_kernel_ampfac_p(&F, i, j); for (k = 0; k < NPAR(i); ++k) r->v[P_PA][i][j][k][0] = xrtm_fd_get_kernel_params_p(&F, i, j, k); }
     }
     if (HAS(SOURCE_THERMAL)) for (j = 0; j < FD; ++j) { double t2[ML + 1]; xrtm_fd_get_levels_b_p(&F, j, t2); for (i = 0; i <= C->n_layers; ++i) r->v[P_LB][i][j][0][0] = t2[i]; }
}
static void pcmp(const char *what, const pref *want, int delta) {
     static pref g; int p, i, j, k, l; char sig[300];
     pget(&g);
     for (p = 0; p < N_PS; ++p) for (i = 0; i < 4; ++i) for (j = 0; j < 4; ++j) for (k = 0; k < 8; ++k) for (l = 0; l < 6; ++l) {
          if ((p == P_DELTA && ! delta) || (p == P_CO && k >= ncl[i < C->n_layers ? i : 0])) continue;
          if (fabs(g.v[p][i][j][k][l] - want->v[p][i][j][k][l]) > 1e-14) {
               snprintf(sig, sizeof(sig), "fd|%s|%s|%s", C->name, what, ps[p].nm);
               V(sig, "getter of %s (%d %d %d %d) returns %.17g, the text says %.17g", ps[p].nm, i, j, k, l, g.v[p][i][j][k][l], want->v[p][i][j][k][l]); return;
          }
     }
}
static void use_fcfg(int c) { int j; C = &fcfgs[c]; alt_levels = 0; build_ops(); build_pops(); for (j = n_solv = 0; j < N_XRTM_SOLVERS; ++j) if (C->solvers & (1 << j)) solv[n_solv++] = 1 << j; }
static void fbase(xh_in *t, int s, model *m) {
     int i;
     Y = &stys[s]; how_file = ! Y->arr2; N_ND = FD;
     xh_default_in(C, t); if (C->n_coef > 1) t->n_coef[1] = C->n_coef - 1;
     E = 0; creation(0, 0); whole(t, 0, 0, 0, m);
     for (i = 0; i < C->n_layers; ++i) ncl[i] = m->in.n_coef[i];
}
static int fof[4000], fop[4000], nf;
static void fdp(long idx) {
     static model m; xh_in t; int s = idx % NSTY, j, e0; pop *o; static pref r, z; char a[80], b[200]; long it = idx / NSTY;
     memset(&z, 0, sizeof(z));
     use_fcfg(fof[it]); o = &pops[fop[it]];
     fd_method = it % 3; fbase(&t, s, &m); e0 = E;
     mc_states(1);
     if (fop[it] == 0) {     /* no perturbation; values of fd */
          static const int bad[] = {3, 99999};
          if (good("fd", "none")) { pcmp("none", &z, 0); if (M.fd_method != it % 3) V("fd|method", "method %d, the text says %d", M.fd_method, (int) (it % 3)); if (xrtm_fd_get_n_derivs(&F) != FD || xrtm_get_n_derivs(&D)) V("fd|n_derivs", "number of perturbations"); gone(); }
          for (j = 0; j < 2; ++j) { fd_method = bad[j]; fbase(&t, s, &m); if (! rd(text)) { V("fd|bad method", "fd = %d was taken", bad[j]); gone(); } }
          fd_method = it % 3; fbase(&t, s, &m); e0 = E;
     }
     pname(o, a);
     /* alone, last or before all others */
     r = z; pemit(o, &r);
     if (good("fd", a)) { mc_nontrivial(1); pcmp(a, &r, o->p == P_DELTA); gone(); }
     if (o->p != P_CO || o->n == 0 || o->ix[0] < 0) { E = 0; creation(0, 0); r = z; pemit(o, &r); whole(&t, 0, 0, 0, &m); if (good("fd", "first")) { pcmp("first", &r, o->p == P_DELTA); gone(); } }
     fbase(&t, s, &m);
     for (j = 0; j < n_pops; ++j) {
          E = e0; text[E] = 0; r = z; pemit(o, &r); pemit(&pops[j], &r);
          sprintf(b, "%s,", a); pname(&pops[j], b + strlen(b));
          if (good("fd", b)) { pcmp(b, &r, o->p == P_DELTA || pops[j].p == P_DELTA); gone(); }
     }
     /* refused without fd; and with an index beyond the end */
     { int f = fd_method; fd_method = -1; N_ND = 0; E = 0; creation(0, 0); whole(&t, 0, 0, 0, &m); pemit(o, &r); if (! rd(text)) { V("fd|without", "%s was taken without fd", a); gone(); } else if (! err[0]) V("fd|silent", "%s: refused without a message", a); fd_method = f; }
     for (j = 0; j < o->n; ++j) if (o->ix[j] >= 0) {
          pop q = *o; q.ix[j] = psize(o->p, j, o->ix[0]);
          if (o->p == P_PA && j == 0) continue;
          fbase(&t, s, &m); E = e0;
          if (o->p == P_CO && j == 0) ncl[q.ix[0]] = C->n_coef;
          { static pref junk; pemit(&q, &junk); } if (! rd(text)) { pname(&q, a); V("fd|range", "%s was taken", a); gone(); }
     }
     fd_method = -1; N_ND = -1;
}
/* statements that are refused: of inputs that this instance has not */
static void misfits(long idx) {
     static const char *st[] = {"g[0]", "g", "g_l[0][0]", "g_p[0][0]", "levels_b_l", "F_iso_top_l", "omega_l", "coef_l[0][0]", "kernel_ampfac[9]", "kernel_ampfac[0]", "kernel_params_l[0][0][0]", "omega[9]", "omega_p[0][0]", "delta"};
     static model m; xh_in t; int j, c = idx / 2; char sig[100];
     fd_method = idx & 1 ? 0 : -1;
     use_fcfg(c); if (fd_method < 0) N_ND = 0;
     for (j = 0; j < (int) (sizeof(st) / sizeof(st[0])); ++j) {
          if (! strcmp(st[j], "kernel_ampfac[0]") && C->n_kernels) continue;
          if (fd_method >= 0 && (! strcmp(st[j], "omega_p[0][0]") || ! strcmp(st[j], "delta"))) continue;
          fbase(&t, 0, &m); if (fd_method < 0) { N_ND = 0; E = 0; creation(0, 0); whole(&t, 0, 0, 0, &m); }
          lhs("%s", st[j]); out(strchr(st[j], '[') ? ".5" : ! strcmp(st[j], "levels_b_l") || ! strcmp(st[j], "omega_l") ? "{{.5, .5, .5}, {.5, .5, .5}}" : ! strcmp(st[j], "g") ? "{.5, .5}" : "{.5, .5, .5}"); end();
          mc_nontrivial(1);
          if (! rd(text)) { snprintf(sig, sizeof(sig), "misfit|%s|%d|%s", C->name, fd_method, st[j]); V(sig, "%s was taken", st[j]); gone(); }
          else if (! err[0]) V("misfit|silent", "%s: no message", st[j]);
     }
     mc_states(1);
     fd_method = -1; N_ND = -1;
}

/* ---------------------------------------------------------------- coefficients from files, and inline */
static void files(long idx) {
     /* each way to say it, against the same coefficients written out */
     static const char *hg[2] = {"hg:.5", "hg:-.3"}; static const double g[2] = {.5, -.3};
     static const xh_cfg fc = { "files", KD|LV|SO, S(EIG_BVP), 5, 2, 1, 2, 2, 0, 0, {0}, 2, 0, 1 };
     int way = idx % 5, s = idx / 5 % NSTY, i, j, l, mask = idx / 5 / NSTY, e; static model m; xh_in t; char nm[60]; static char p1[NTEXT];
     int j2;
     C = &fc; alt_levels = 0; build_ops(); solv[0] = S(EIG_BVP); n_solv = 1;
     Y = &stys[s]; how_file = ! Y->arr2;
     xh_default_in(C, &t);
     mc_states(1);
     (void) j2;
     for (i = 0; i < 2; ++i) { t.n_coef[i] = 5; memset(t.coef[i], 0, sizeof(t.coef[i])); for (l = 0; l < 5; ++l) t.coef[i][0][l] = (2 * l + 1) * pow(g[i], l); for (j = 0; j < 2; ++j) { memset(t.coef_l[i][j], 0, sizeof(t.coef_l[i][j])); } }
     E = 0; creation(0, 0); whole(&t, 0, 3, 0, &m);
     sprintf(nm, "way%d.st%d.mask%d", way, s, mask);
     /* mask: of each layer and of each (layer, deriv) whether the file statement is given after the numbers */
     if (mask & 1) { lhs("coef_files[0]"); out("'%s'", hg[0]); end(); }
     if (mask & 2) { lhs("coef_files"); if (! Y->arr2) out("{'%s', '%s'}", hg[0], hg[1]); else out("'%s', '%s'", hg[0], hg[1]); end(); }
     e = E; (void) e;
     { int a0 = 0, a1 = 2, b0 = 0, b1 = 2, a, b; const char *o = Y->arr2 ? "" : "{", *c = Y->arr2 ? "" : "}";
     switch (way) {
     case 1: lhs("coef_files_l[1][0]"); out("'%s'", hg[1]); end(); a0 = 1; b1 = 1; break;
     case 2: lhs("coef_files_l[:][1]"); out("%s'%s', '%s'%s", o, hg[0], hg[1], c); end(); b0 = 1; break;
     case 3: lhs("coef_files_l[0]"); out("%s'%s', '%s'%s", o, hg[0], hg[0], c); end(); a1 = 1; break;
     case 4: lhs("coef_files_l"); if (! Y->arr2) out("{{'%s', '%s'}, {'%s', '%s'}}", hg[0], hg[0], hg[1], hg[1]); else out("'%s', '%s'; '%s', '%s'", hg[0], hg[0], hg[1], hg[1]); end(); break; }
     if (way) for (a = a0; a < a1; ++a) for (b = b0; b < b1; ++b) for (l = 0; l < 5; ++l) m.in.coef_l[a][b][0][l] = t.coef[a][0][l]; }
     ONE();
     if (! good("files", nm)) return;
     mc_nontrivial(1);
     compare("files", nm, &m);
     for (i = 0; i < NSTY; ++i) {   /* printed and read back */
          char *p = printed(i & 1, &stys[i], '\n'), *c; const sty *y0 = Y; xrtm_data d0 = D; misc_data m0 = M; char n2[80]; static model mr;
          sprintf(n2, "%s.p%d", nm, i);
          if (! p) { V("files|print", "%s: could not be printed: %s", n2, first_err()); continue; }
          strcpy(p1, p); if (stys[i].dash && (c = strstr(p1, "::"))) c[0] = c[1] = ' ';
          for (j = 0; j < 2; ++j) if ((mask & (2 | (j == 0))) && ! strstr(p1, hg[j])) V("files|name", "%s: the name is not printed", n2);
          mr = m; round_model(&mr);
          Y = &stys[i]; how_file = ! Y->arr2;
          if (rd(p1)) V("files|reread", "%s: refused: %s", n2, first_err());
          else { compare("files", n2, &mr); gone(); }
          D = d0; M = m0; Y = y0; how_file = ! Y->arr2;
     }
     gone();
}

/* ---------------------------------------------------------------- callxrtm */
static char prog[300];
static char pout[4000000]; static int pst;
static void call(const char *in, char **av) {     /* standard input, arguments */
     int p[2], n = 0, r; pid_t pid; char fi[100];
     snprintf(fi, sizeof(fi), "%s/s.%ld", dir, (long) getpid()); put_file(fi, in ? in : "", in ? strlen(in) : 0);
     fflush(NULL);
     if (pipe(p)) __real_exit(3);
     if (! (pid = fork())) { int f = open(fi, O_RDONLY), q = open("/dev/null", O_WRONLY); dup2(f, 0); dup2(p[1], 1); dup2(q, 2); close(p[0]); setenv("ASAN_OPTIONS", "detect_leaks=1:exitcode=99", 1); execv(prog, av); _exit(127); }
     close(p[1]);
     while (n < (int) sizeof(pout) - 1 && (r = read(p[0], pout + n, sizeof(pout) - 1 - n)) > 0) n += r;
     pout[n] = 0; close(p[0]);
     waitpid(pid, &pst, 0);
     pst = WIFSIGNALED(pst) ? 1000 + WTERMSIG(pst) : WEXITSTATUS(pst);
     unlink(fi); ONE();
}
/* what is to be printed: rows of numbers */
static double want[400000]; static int nwant, wrow[20000], nwrow;
static void w(double x) { want[nwant++] = x; }
static void wend(void) { wrow[nwrow++] = nwant; }
static void expected(int solver, int solutions, int np, double *ph) {
     int o = D.options, st = C->n_stokes, nl = C->n_out_levels, nt = C->n_out_thetas ? C->n_out_thetas : C->n_quad, nd = o & XRTM_OPTION_CALC_DERIVS ? C->n_derivs : M.fd_method >= 0 ? FD : 0, i, j, k, l, q, r, up, dn;
     double ****ip = alloc_array4_d(nl, nt, np, st), ****im = alloc_array4_d(nl, nt, np, st), *****ipl = NULL, *****iml = NULL, **a1[4] = {0}, *a[4], **phs = malloc(nt * sizeof(double *)), *qx = alloc_array1_d(C->n_quad + C->n_out_thetas), taus[MO]; int lev[MO];
     nwant = nwrow = 0;
     for (i = 0; i < nt; ++i) phs[i] = ph;
     for (i = 0; i < 4; ++i) { a[i] = alloc_array1_d(nl); if (nd) a1[i] = alloc_array2_d(nl, nd); }
     if (nd) { ipl = alloc_array5_d(nl, nd, nt, np, st); iml = alloc_array5_d(nl, nd, nt, np, st); }
     up = ! (o & (XRTM_OPTION_UPWELLING_OUTPUT | XRTM_OPTION_DOWNWELLING_OUTPUT)) || o & XRTM_OPTION_UPWELLING_OUTPUT;
     dn = ! (o & (XRTM_OPTION_UPWELLING_OUTPUT | XRTM_OPTION_DOWNWELLING_OUTPUT)) || o & XRTM_OPTION_DOWNWELLING_OUTPUT;
     xrtm_qx(&D, qx);
     cap_on();
     if (o & XRTM_OPTION_CALC_DERIVS) xrtm_update_varied_layers(&D);
     if (M.fd_method < 0) r = (o & XRTM_OPTION_REVERSE_DERIVS ? xrtm_solution_2 : xrtm_solution) (&D, solver, solutions, np, phs, ip, im, ipl, iml, a[0], a[1], a1[0], a1[1], a[2], a[3], a1[2], a1[3], NULL, NULL);
     else r = xrtm_fd_solution(&F, solver, solutions, M.fd_method, np, phs, ip, im, ipl, iml, a[0], a[1], a1[0], a1[1], a[2], a[3], a1[2], a1[3], NULL, NULL);
     cap_off();
     if (r) { nwrow = -1; goto L; }
     if (o & XRTM_OPTION_OUTPUT_AT_LEVELS) xrtm_get_out_levels(&D, lev); else xrtm_get_out_taus(&D, taus);
     if (solutions & XRTM_OUTPUT_RADIANCE) for (i = 0; i < nl; ++i) for (j = 0; j < nt; ++j) for (k = 0; k < np; ++k) for (l = 0; l < st; ++l) {
          w(o & XRTM_OPTION_OUTPUT_AT_LEVELS ? lev[i] : taus[i]); w(acos(qx[(C->n_out_thetas ? C->n_quad : 0) + j]) * 180. / M_PI); w(ph[k]); w(l);
          if (up) w(ip[i][j][k][l]); if (dn) w(im[i][j][k][l]);
          for (q = 0; q < nd; ++q) { if (up) w(ipl[i][q][j][k][l]); if (dn) w(iml[i][q][j][k][l]); }
          wend(); }
     for (k = 0; k < 2; ++k) if (solutions & (k ? XRTM_OUTPUT_FLUX : XRTM_OUTPUT_RADIANCE_MEAN)) for (i = 0; i < nl; ++i) {
          w(o & XRTM_OPTION_OUTPUT_AT_LEVELS ? lev[i] : taus[i]);
          if (up) w(a[2 * k][i]); if (dn) w(a[2 * k + 1][i]);
          for (q = 0; q < nd; ++q) { if (up) w(a1[2 * k][i][q]); if (dn) w(a1[2 * k + 1][i][q]); }
          wend(); }
L:   free_array4_d(ip); free_array4_d(im); if (nd) { free_array5_d(ipl); free_array5_d(iml); }
     for (i = 0; i < 4; ++i) { free_array1_d(a[i]); if (nd) free_array2_d(a1[i]); }
     free(phs); free_array1_d(qx);
}
static void check_rows(const char *nm, int rows) {
     char *q = pout, sig[200], b[20]; int r = 0, c, i, wd; double x;
     snprintf(sig, sizeof(sig), "program|%s|%s", C->name, nm);
     if (nwrow < 0) { if (pst == 0 || pst > 1 || strstr(pout, "e-0") || strstr(pout, "e+0")) V(sig, "the solution fails, the program exits with %d", pst); return; }
     if (pst) { V(sig, "exit %d", pst); return; }
     while (*q) {
          char *e = strchr(q, '\n'); int len = e ? e - q : (int) strlen(q), p0 = 0;
          for (i = 0; i < len && q[i] == ' '; ++i) ;
          if (i < len && (isdigit((uchar) q[i]) || q[i] == '-')) {
               int nc;
               if (r >= nwrow) { V(sig, "more rows than values asked for"); return; }
               c = r ? wrow[r - 1] : 0; nc = wrow[r] - c;
               for (i = 0; i < nc; ++i) {
                    wd = r < rows && i == 3 ? 10 : 14;
                    if (p0 + wd > len) { V(sig, "row %d has too few columns", r); return; }
                    memcpy(b, q + p0, wd); b[wd] = 0; p0 += wd;
                    x = strtod(b, NULL);
                    if (! (fabs(x - want[c + i]) <= 2e-6 * fabs(want[c + i]) + 1e-11) && ! (isnan(x) && isnan(want[c + i]))) { V(sig, "row %d, column %d: printed %s, the library gives %.9g", r, i, b, want[c + i]); return; }
               }
               while (p0 < len && q[p0] == ' ') ++p0;
               if (p0 < len) { V(sig, "row %d has too many columns", r); return; }
               ++r;
          }
          if (! e) break;
          q = e + 1;
     }
     if (r != nwrow) V(sig, "%d rows of %d", r, nwrow);
}
static void drop(char *s, const char *st) { char *p, *e, b[60]; sprintf(b, "-%s ", st); if (! (p = strstr(s, b))) return; for (e = p + 1; *e && ! (e[0] == ' ' && e[1] == '-' && isalpha((uchar) e[2])) && strncmp(e, " ::", 3); ++e) ; memmove(p, e, strlen(e) + 1); }
static void program(long idx) {
     int c = idx % (NC + NFC), mode = idx / (NC + NFC) % 4, i, k, sel, pick = idx % 4, e1; static model m; xh_in t; static char b[NTEXT + 100]; char nm[100], av_[3][40]; char *av[20];
     static const char *phs[] = {NULL, "30.", "0.,75.,190."}; static double ph[3][3] = {{0.}, {30.}, {0., 75., 190.}}; static const int nph[] = {1, 1, 3};
     static const char *mode_nm[] = {"file", "stdin", "string", "short"};
     (void) av_;
     if (c < NC) { use_cfg(c); N_ND = fd_method = -1; } else { use_fcfg(c - NC); fd_method = mode % 3; N_ND = FD; }
     for (i = 0; i < C->n_kernels; ++i) if (C->kernels[i] == XRTM_KERNEL_USER_DEFINED) return;
     Y = &stys[mode >= 2]; how_file = ! Y->arr2;
     xh_default_in(C, &t);
     if (c >= NC && C->n_coef > 1) t.n_coef[1] = C->n_coef - 1;
     if (mode == 3) { t.phi_0 = t.F_iso_top = t.F_iso_bot = t.fourier_tol = 0.; t.doub_d_tau = 1e-9; t.pade_s = 4; t.pade_r = 5; t.sos_max_os = 128; t.sos_max_tau = .005; t.sos_tol = 1e-9; }
     if (pick & 1) for (i = 0; i < C->n_layers; ++i) t.n_coef[i] = C->n_coef;
     E = 0; creation(0, 0); e1 = E; whole(&t, 0, pick, 0, &m);
     if (c >= NC) { int j; static pref junk; for (i = 0; i < C->n_layers; ++i) ncl[i] = m.in.n_coef[i]; for (j = 0; j < n_pops; ++j) if (pops[j].v == 1 && pops[j].n < 1 && pops[j].p != P_CO) pemit(&pops[j], &junk); }
     if (E > 100000) return;
     mc_states(1);
     if (! good("program", "text")) return;
     if (mode < 2) strcpy(b, text);
     else { memcpy(b, text, e1); strcpy(b + e1, mode == 3 && E > e1 && text[e1 - 1] == ' ' ? ":: " : " :: "); strcat(b, text + e1); }
     if (mode == 3) {
          if (C->n_stokes == 1) drop(b, "n_stokes"); if (ND == 0 && fd_method < 0) drop(b, "n_derivs"); if (C->n_layers == 1) drop(b, "n_layers"); if (! C->n_kernels) drop(b, "n_kernels"); if (C->n_out_levels == 1) drop(b, "n_out_levels"); if (! C->n_out_thetas) drop(b, "n_out_thetas");
          drop(b, "doub_d_tau"); drop(b, "pade_params"); drop(b, "sos_params"); drop(b, "fourier_tol"); drop(b, "F_iso_top"); drop(b, "F_iso_bot"); drop(b, "phi_0");
     }
     for (k = 0; k <= n_solv; ++k) for (sel = 0; sel < 8; ++sel) for (i = 0; i < 3; ++i) {
          int sl = (sel & 1 ? 0 : XRTM_OUTPUT_RADIANCE) | (sel & 2 ? XRTM_OUTPUT_RADIANCE_MEAN : 0) | (sel & 4 ? XRTM_OUTPUT_FLUX : 0), n = 0, rows;
          if (! sl || (i && (sel & 1)) || (! mc_thorough && (k == n_solv || k == 0) && (sel + i + mode) % 2)) continue;
          av[n++] = prog;
          snprintf(fname, sizeof(fname), "%s/c.%ld", dir, (long) getpid());
          if (mode == 0) { put_file(fname, b, strlen(b)); av[n++] = "-input_file"; av[n++] = fname; }
          if (mode >= 2) { av[n++] = "-input_string"; av[n++] = b; }
          if (k < n_solv) { av[n++] = "-solver"; av[n++] = (char *) xrtm_solver_mask_to_name(solv[k]); }
          if (sel & 1) av[n++] = "-no_radiance"; if (sel & 2) av[n++] = "-radiance_mean"; if (sel & 4) av[n++] = "-flux";
          if (phs[i]) { av[n++] = "-out_phis"; av[n++] = (char *) phs[i]; }
          av[n] = NULL;
          gone(); if (! good("program", "text")) return;
          expected(solv[k < n_solv ? k : 0], sl, nph[i], ph[i]);
          rows = nwrow; if (sl & XRTM_OUTPUT_RADIANCE) { rows = C->n_out_levels * (C->n_out_thetas ? C->n_out_thetas : C->n_quad) * nph[i] * C->n_stokes; }
          else rows = 0;
          sprintf(nm, "%s|%s|sel%d|phis%d", mode_nm[mode], k < n_solv ? xrtm_solver_mask_to_name(solv[k]) : "", sel, i);
          call(mode == 1 ? b : NULL, av);
          mc_nontrivial(nwrow > 0);
          check_rows(nm, rows);
     }
     gone();
     fd_method = N_ND = -1;
}
/* command lines that are refused, or that print no results */
static void args(long idx) {
     static const struct { int ok; const char *a[4]; } t[] = {{1, {"-help"}}, {1, {"-version"}}, {0, {"-nonsense"}}, {0, {"x"}}, {0, {"-input_file"}}, {0, {"-input_string"}}, {0, {"-solver"}}, {0, {"-out_phis"}}, {0, {"-timing"}},
          {0, {"-solver", "nonsense"}}, {0, {"-out_phis", "x"}}, {0, {"-timing", "x"}}, {0, {"-input_file", "/nonexistent"}}, {0, {"-input_string", "-options source_solar"}}, {0, {"-input_string", "::"}}};
     char *av[10]; int n = 0, i;
     if (idx >= (int) (sizeof(t) / sizeof(t[0]))) return;
     C = &fcfgs[0]; av[n++] = prog; for (i = 0; i < 4 && t[idx].a[i]; ++i) av[n++] = strdup(t[idx].a[i]); av[n] = NULL;
     call("", av); mc_states(1); mc_nontrivial(1);
     if (t[idx].ok ? pst != 0 : pst != 1) { char sig[100]; snprintf(sig, sizeof(sig), "args|%s|%s", t[idx].a[0], t[idx].a[1] ? t[idx].a[1] : ""); V(sig, "exit %d", pst); }
}
static void cleanup(void) { char b[100]; if (getpid() != main_pid) return; snprintf(b, sizeof(b), "rm -rf %s", dir); if (strncmp(dir, "/tmp/xin.", 9) == 0) system(b); }

int main(int argc, char **argv) {
     int c, s, i;
     strcpy(dir, "/tmp/xin.XXXXXX"); main_pid = getpid();
     if (! mkdtemp(dir)) return 3;
     atexit(cleanup);
     mc_init(argc, argv);
     for (c = 0; c < NC; ++c) { use_cfg(c); for (i = 0; i < n_ops; ++i) { cfg_of[n_items] = c; op_of[n_items++] = i; } }
     for (c = 0; c < NB; ++c) for (s = 0; s < NSTY; ++s) { btext(c, s); btot[c][s] = ntk; boff[c][s] = bn; bn += ntk; }
     C = NULL;
     for (c = 0; c < NFC; ++c) { use_fcfg(c); for (i = 0; i < n_pops; ++i) if (pops[i].v == 1) { fof[nf] = c; fop[nf++] = i; } }
     C = NULL; { char b[250]; int n = readlink("/proc/self/exe", b, 200); b[n < 0 ? 0 : n] = 0; snprintf(prog, sizeof(prog), "%s.callxrtm", b); }
     if (! getenv("FAM") || strstr(getenv("FAM"), "fdp")) mc_family("fd", (long) nf * NSTY, fdp, 120);
     if (! getenv("FAM") || strstr(getenv("FAM"), "misf")) mc_family("misfits", 2 * NFC, misfits, 60);
     if (! getenv("FAM") || strstr(getenv("FAM"), "files")) mc_family("files", 5 * NSTY * 4, files, 60);
     if (! getenv("FAM") || strstr(getenv("FAM"), "args")) mc_family("args", 15, args, 60);
     if (! getenv("FAM") || strstr(getenv("FAM"), "prog")) mc_family("program", 4 * (NC + NFC), program, 300);
     if (! getenv("FAM") || strstr(getenv("FAM"), "full")) mc_family("full", 8L * NSTY * NC, full, 60);
     if (! getenv("FAM") || strstr(getenv("FAM"), "broken")) mc_family("broken", bn, broken, 120);
     if (! getenv("FAM") || strstr(getenv("FAM"), "forms")) mc_family("forms", (long) n_items * NSTY, forms, 120);
     return mc_done();
}
