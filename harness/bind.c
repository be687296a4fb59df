/* Bindings (C23).  Every call of the C++, Fortran 77 and Fortran 90 interfaces is made against a
   recording stand-in for the C interface: over every function, every combination of the dimensions its
   arguments depend on, in and out of range indices, and every outcome of the C function, the binding must
   make that one call with those arguments, hand back what it returned, report its failure as the language
   does, and leave no memory behind. */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <gutil.h>
#include "mc.h"
#include "bind.h"

extern xrtm_data bind_inner;

extern long bind_live;
#define live bind_live

enum { L_CPP, L_F77, L_F90, L_F90S, N_LANG };
static const char *lang_name[] = {"C++", "F77", "F90", "F90 sections"};

static long count_of(const bargs *a, int k, int rank)
{
     long n = 1; int j;
     for (j = 0; j < rank; ++j) n *= a->dim[k][j];
     return n;
}

/* nested pointers over a block, the last level pointing at the block itself */
static void *nest(char *block, int rank, const int *dim, size_t size, void **made, int *n_made)
{
     if (rank == 1) return block;
     long n = 1, i; int j;
     for (j = 1; j < rank; ++j) n *= dim[j];
     void **up = malloc(dim[0] * sizeof(void *));
     made[(*n_made)++] = up;
     for (i = 0; i < dim[0]; ++i) up[i] = nest(block + i * n * size, rank - 1, dim + 1, size, made, n_made);
     return up;
}

static const char *V(const char *fn, const char *what, int lang)
{
     static char s[200];
     snprintf(s, sizeof(s), "%s %s: %s", lang_name[lang], fn, what);
     return s;
}

static void one(int lang, int fi, int neg, int i_layer, int i_kernel, int i_phi, int n_coef, int nk, int fail, int rv)
{
     static const int    ris[] = {0, 1, 7, -5};
     static const double rds[] = {0., 1., 3.14159, -1.5};
     const bfn *f = &bfns[fi];
     bargs a;
     int k, bad = 0, n_made = 0;
     void *made[1000];
     xrtm_data    *dx  = malloc(sizeof(*dx));
     xrtm_fd_data *dfd = malloc(sizeof(*dfd));
     void *d, *model;
     xrtm_data *inner;

     memset(&a, 0, sizeof(a));
     memset(dx, 0, sizeof(*dx)); memset(dfd, 0, sizeof(*dfd));
     bind_fill_xrtm(dx);
     bind_fill_xrtm_fd(dfd);
     inner = f->fd ? &bind_inner : dx;
     if (f->fd) d = dfd; else { bind_fill_xrtm(dx); d = dx; }
     model = d;

     B.fail = 0;
     bargs c;
     memset(&c, 0, sizeof(c));
     if (lang == L_CPP && f->kind != 'i') {
          /* an object of the class; the stand-in for create fills it */
          int ci;
          for (ci = 0; ci < n_bfns; ++ci) if (bfns[ci].fd == f->fd && bfns[ci].kind == 'i') break;
          int kk[1] = {0};
          if (f->fd) { c.p[0] = &bind_inner; c.iv[1] = B.n_derivs; }
          else { for (k = 0; k < bfns[ci].n_args; ++k) { c.p[k] = kk; c.pp[k] = kk; } }
          bfns[ci].cpp(0, &c);
          d = model = c.obj;
          if (! f->fd) inner = d;
     }

     for (k = 0; k < f->n_args; ++k) {
          const barg *g = &f->args[k];
          if (g->rank == 0 && ! g->out) {
               if (g->type == 'd') a.dv[k] = neg ? -ind(k, 0) : ind(k, 0);
               else {
                    a.iv[k] = neg ? -ini(k, 0) : ini(k, 0);
                    if (! strcmp(g->name, "i_layer")) { a.iv[k] = i_layer; }
                    else if (! strcmp(g->name, "i_kernel")) { a.iv[k] = i_kernel; }
                    else if (! strcmp(g->name, "n_out_phis")) a.iv[k] = i_phi;
                    else if (! strcmp(g->name, "n_coef_layer")) a.iv[k] = n_coef;
                    else if (! strcmp(g->name, "n_kernels")) a.iv[k] = nk;
                    else if (! strcmp(g->name, "solver")) a.iv[k] = neg ? 1024 : 1 << (k + 2);
                    else if (! strcmp(g->name, "method")) a.iv[k] = neg ? 2 : 1;
                    if (! strcmp(g->name, "i_layer")  && (a.iv[k] < 0 || a.iv[k] >= inner->n_layers))  bad = 1;
                    if (! strcmp(g->name, "i_kernel") && (a.iv[k] < 0 || a.iv[k] >= inner->n_kernels)) bad = 1;
               }
          }
     }
     f->dims(model, &a);
     for (k = 0; k < f->n_args; ++k) {
          const barg *g = &f->args[k];
          if (g->type == 'x') { a.p[k] = &bind_inner; continue; }
          if (g->rank || g->out) {
               long n = count_of(&a, k, g->rank), i;
               if (g->type == 'd') {
                    a.p[k] = malloc(n * sizeof(double));
                    for (i = 0; i < n; ++i) ((double *) a.p[k])[i] = g->out ? 777. + k : ind(k, i);
               }
               else {
                    a.p[k] = malloc(n * sizeof(int));
                    for (i = 0; i < n; ++i) ((int *) a.p[k])[i] = g->out ? 777 + k : (g->rank && ! strcmp(g->name, "kernels") ? (int) ((i + k) % 11) : ini(k, i));
               }
               a.pp[k] = g->rank > 1 ? nest(a.p[k], g->rank, a.dim[k], g->type == 'd' ? sizeof(double) : sizeof(int), made, &n_made) : a.p[k];
          }
     }

     /* the dimensions the Julia module makes its arrays with */
     if (lang == L_CPP && ! f->fd && f->kind == 'g' && ! bad)
          for (k = 0; k < f->n_args; ++k) {
               size_t dims[8]; int j;
               if (! f->args[k].rank) continue;
               for (j = 0; j < 8; ++j) dims[j] = 99;
               if (f->jl(model, &a, k, dims)) mc_viol(V(f->name, "Julia dimensions", lang), "%s", f->args[k].name);
               for (j = 0; j < f->args[k].rank; ++j)
                    if (dims[j] != (size_t) a.dim[k][j]) mc_viol(V(f->name, "Julia dimensions", lang), "%s dimension %d is %zu, not %d", f->args[k].name, j, dims[j], a.dim[k][j]);
               if (dims[j] != 99) mc_viol(V(f->name, "Julia dimensions", lang), "%s: too many", f->args[k].name);
               mc_execs(1);
          }

     B.fail    = fail || bad;
     B.badidx  = bad;
     B.ri      = ris[rv];
     B.rd      = rds[rv];
     B.n_calls = 0;
     B.fn      = -1;
     a.strided = lang == L_F90S;
     a.err     = 12345;
     a.ri      = 54321;
     a.rd      = 54321.;

     long live0 = live;
     if (lang == L_CPP) f->cpp(d, &a); else if (lang == L_F77) f->f77(d, &a); else f->f90(d, &a);
     long live1 = live;
     mc_execs(1); mc_transitions(1);

     if (live1 != live0 && ! (f->kind == 'i' && lang == L_CPP))
          mc_viol(V(f->name, "leaves memory behind", lang), "%ld blocks, failing %d", live1 - live0, B.fail);

     if (bad && B.n_calls == 0) {
          /* the binding may reject the index itself */
     }
     else if (B.n_calls != 1 || B.fn != fi)
          mc_viol(V(f->name, "not the one call", lang), "%d calls, last %s", B.n_calls, B.fn >= 0 ? bfns[B.fn].name : "none");
     else {
          if (f->kind == 'i' && lang == L_CPP) d = a.obj ? a.obj : B.d;
          if (B.d != d) mc_viol(V(f->name, "another instance", lang), " ");
          for (k = 0; k < f->n_args; ++k) {
               const barg *g = &f->args[k];
               if (g->out) continue;
               if (g->type == 'x') { if (B.q[k] != a.p[k]) mc_viol(V(f->name, "argument changed", lang), "%s", g->name); continue; }
               if (g->rank == 0) {
                    double w = g->type == 'd' ? a.dv[k] : a.iv[k];
                    if (B.ni[k] != 1 || B.v[k][0] != w) mc_viol(V(f->name, "argument changed", lang), "%s is %g, not %g", g->name, B.v[k][0], w);
               }
               else if (! bad) {
                    long n = count_of(&a, k, g->rank), i;
                    if (B.ni[k] != n) mc_viol(V(f->name, "argument changed", lang), "%s has %d elements", g->name, B.ni[k]);
                    else for (i = 0; i < n && i < BN; ++i) {
                         double w = g->type == 'd' ? ind(k, i) : ! strcmp(g->name, "kernels") ? (i + k) % 11 : ini(k, i);
                         if (B.v[k][i] != w) { mc_viol(V(f->name, "argument changed", lang), "%s element %ld", g->name, i); break; }
                    }
               }
          }
     }
     for (k = 0; k < f->n_args; ++k) {
          const barg *g = &f->args[k];
          if (g->type == 'x' || ! (g->rank || g->out)) continue;
          long n = count_of(&a, k, g->rank), i;
          for (i = 0; i < n && i < BN; ++i) {
               double w, v = g->type == 'd' ? ((double *) a.p[k])[i] : ((int *) a.p[k])[i];
               if (! g->out) w = g->type == 'd' ? ind(k, i) : ! strcmp(g->name, "kernels") ? (i + k) % 11 : ini(k, i);
               else if (B.fail) break;
               else w = g->type == 'd' ? outd(k, i) : outi(k, i);
               if (v != w) { mc_viol(V(f->name, g->out ? "result not returned" : "argument written", lang), "%s element %ld is %.10g, not %.10g", g->name, i, v, w); break; }
          }
     }

     /* the outcome */
     int isfun = f->ret == 'd' || f->val;
     if (lang == L_CPP) {
          if (! a.err != ! B.fail && f->kind != 'f') mc_viol(V(f->name, B.fail ? "failure not thrown" : "throws", lang), " ");
          if (! B.fail && f->val) {
               if (f->ret == 'd' ? a.rd != B.rd : a.ri != B.ri) mc_viol(V(f->name, "value not returned", lang), "%d %g, not %d %g", a.ri, a.rd, B.ri, B.rd);
          }
     }
     else if (! isfun) {
          if (a.err == 12345 || (! a.err) != (! B.fail)) mc_viol(V(f->name, B.fail ? "failure not reported" : "reports failure", lang), "error %d", a.err);
     }
     else if (f->ret == 'd') {
          double w = B.fail ? XRTM_DBL_ERROR : f->val ? B.rd : 0.;
          if (a.rd != w) mc_viol(V(f->name, B.fail ? "failure not reported" : "value not returned", lang), "%g, not %g", a.rd, w);
     }
     else {
          int w = B.fail ? XRTM_INT_ERROR : B.ri;
          if (a.ri != w) mc_viol(V(f->name, B.fail ? "failure not reported" : "value not returned", lang), "%d, not %d", a.ri, w);
     }

     if (lang == L_CPP && f->kind == 'i' && a.obj) {
          int ci;
          bargs e;
          memset(&e, 0, sizeof(e));
          B.fail = 0;
          for (ci = 0; ci < n_bfns; ++ci) if (bfns[ci].fd == f->fd && bfns[ci].kind == 'f') break;
          B.n_calls = 0;
          bfns[ci].cpp(a.obj, &e);
          if (B.n_calls != 1 || B.fn != ci) mc_viol(V(f->name, "object not destroyed", lang), " ");
     }
     if (c.obj && f->kind != 'f') {
          int ci;
          bargs e;
          memset(&e, 0, sizeof(e));
          B.fail = 0;
          for (ci = 0; ci < n_bfns; ++ci) if (bfns[ci].fd == f->fd && bfns[ci].kind == 'f') break;
          bfns[ci].cpp(c.obj, &e);
     }
     for (k = 0; k < f->n_args; ++k)
          if ((f->args[k].rank || f->args[k].out) && f->args[k].type != 'x') free(a.p[k]);
     for (k = 0; k < n_made; ++k) free(made[k]);
     free(dx); free(dfd);
}


enum { D_layers, D_derivs, D_elem, D_coef_layer, D_coef, D_quad, D_kquad, D_stokes, D_levels, D_thetas, D_phis, D_kernel, D_thetas2, D_nk, N_D };
static int vals[N_D][12] = {
     [D_layers] = {1, 2, 3, -1}, [D_derivs] = {0, 1, 2, -1}, [D_elem] = {1, 6, -1}, [D_coef_layer] = {1, 3, -1},
     [D_coef] = {1, 2, 4, -1}, [D_quad] = {1, 2, -1}, [D_kquad] = {1, 3, -1}, [D_stokes] = {1, 3, -1}, [D_levels] = {1, 2, -1},
     [D_thetas] = {0, 1, 2, -1}, [D_phis] = {1, 2, -1}, [D_kernel] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, -1}, [D_thetas2] = {0, -1}, [D_nk] = {0, 1, 3, -1}
};
static const int deflt[N_D] = {3, 2, 6, 2, 4, 2, 3, 3, 2, 3, 2, 8, 0, 2};

static void case_calls(long idx)
{
     int lang = idx / n_bfns, fi = idx % n_bfns, k, m = 0, has_l = 0, has_k = 0, il, ik, fail, rv, neg;
     const bfn *f = &bfns[fi];
     int p[N_D] = {0}, v[N_D];
     for (k = 0; k < f->n_args; ++k) {
          m |= f->args[k].dims;
          if (! strcmp(f->args[k].name, "i_layer")) has_l = 1;
          if (! strcmp(f->args[k].name, "i_kernel")) has_k = 1;
     }
     if (has_l) m |= 1 << D_layers;
     if (has_k) m |= 1 << D_kernel;
     if (m & (1 << D_thetas2)) m |= (1 << D_thetas) | (1 << D_quad);
     mc_ctx("%s %s", lang_name[lang], f->name);
     mc_nontrivial(1);
     for (;;) {
          for (k = 0; k < N_D; ++k) v[k] = (m & (1 << k)) ? vals[k][p[k]] : deflt[k];
          B.n_layers = v[D_layers]; B.n_derivs = v[D_derivs]; B.n_elem = v[D_elem]; B.n_coef = v[D_coef]; B.n_quad = v[D_quad];
          B.n_kernel_quad = v[D_kquad]; B.n_stokes = v[D_stokes]; B.n_out_levels = v[D_levels]; B.n_out_thetas = v[D_thetas];
          B.n_kernels = 2; B.kernel = v[D_kernel];
          mc_states(1);
          for (neg = 0; neg < 2; ++neg)
          for (il = has_l ? -1 : 0; il <= (has_l ? B.n_layers : 0); ++il)
          for (ik = has_k ? -1 : 0; ik <= (has_k ? B.n_kernels : 0); ++ik)
          for (fail = 0; fail < (lang == L_CPP && f->kind == 'f' ? 1 : 2); ++fail)
          for (rv = 0; rv < (f->val ? 4 : 1); ++rv)
               one(lang, fi, neg, il, ik, v[D_phis], v[D_coef_layer], v[D_nk], fail, rv);
          for (k = 0; k < N_D; ++k) {
               if (! (m & (1 << k))) continue;
               if (vals[k][++p[k]] != -1) break;
               p[k] = 0;
          }
          if (k == N_D) break;
     }
     mc_outcome(idx);
}


/* The constants each language offers are those of the C interface. */
extern const struct bconst { const char *name; long v; } bconsts[];
extern const int n_bconsts;
void f77const_(int *i, int *v);
void f90const_(int *i, int *v);
long cppconst(int i);
void bf90_sizes(int *);
void f77sizes_(int *);
long cppsizes(int i);

static void case_consts(long idx)
{
     int i = idx + 1, v;
     const char *n = bconsts[idx].name;
     mc_ctx("constant %s", n);
     v = 0; f77const_(&i, &v); if (v != (int) bconsts[idx].v) mc_viol("constant F77", "%s is %d, not %ld", n, v, bconsts[idx].v);
     v = 0; f90const_(&i, &v); if (v != (int) bconsts[idx].v) mc_viol("constant F90", "%s is %d, not %ld", n, v, bconsts[idx].v);
     if ((int) cppconst(idx) != (int) bconsts[idx].v) mc_viol("constant C++", "%s is %ld, not %ld", n, cppconst(idx), bconsts[idx].v);
     if (idx == 0) {
          int s[2];
          bf90_sizes(s);
          if (s[0] < (int) sizeof(xrtm_data))    mc_viol("F90 type too small", "xrtm_type %d, %zu", s[0], sizeof(xrtm_data));
          if (s[1] < (int) sizeof(xrtm_fd_data)) mc_viol("F90 type too small", "xrtm_fd_type %d, %zu", s[1], sizeof(xrtm_fd_data));
          f77sizes_(s);
          if (s[0] < (int) sizeof(xrtm_data))    mc_viol("F77 type too small", "N_BYTES_XRTM_TYPE %d, %zu", s[0], sizeof(xrtm_data));
          if (s[1] < (int) sizeof(xrtm_fd_data)) mc_viol("F77 type too small", "N_BYTES_XRTM_FD_TYPE %d, %zu", s[1], sizeof(xrtm_fd_data));
          mc_execs(4);
     }
     mc_execs(3); mc_states(1); mc_transitions(3); mc_nontrivial(1);
     mc_outcome(10000 + idx);
}

int main(int argc, char **argv)
{
     mc_init(argc, argv);
     if (mc_thorough) {
          static const int more[N_D][12] = {
               [D_layers] = {1, 2, 3, 5, -1}, [D_derivs] = {0, 1, 2, 4, -1}, [D_elem] = {1, 6, -1}, [D_coef_layer] = {1, 2, 3, 4, -1},
               [D_coef] = {1, 2, 4, 7, -1}, [D_quad] = {1, 2, 4, -1}, [D_kquad] = {1, 3, 5, -1}, [D_stokes] = {1, 2, 3, 4, -1}, [D_levels] = {1, 2, 4, -1},
               [D_thetas] = {0, 1, 2, 4, -1}, [D_phis] = {1, 2, 4, -1}, [D_kernel] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, -1}, [D_thetas2] = {0, -1}, [D_nk] = {0, 1, 3, -1}
          };
          memcpy(vals, more, sizeof(vals));
     }
     mc_family("calls", (long) N_LANG * n_bfns, case_calls, 600);
     mc_family("constants", n_bconsts, case_consts, 60);
     return mc_done();
}
