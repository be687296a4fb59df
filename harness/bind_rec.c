/* The recorder behind the stand-in (see bind.h). */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <gutil.h>
#include "bind.h"

bstate B;

/* blocks of memory held */
long bind_live;
void *__real_malloc(size_t n); void *__real_calloc(size_t n, size_t m); void *__real_realloc(void *p, size_t n); void __real_free(void *p);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) bind_live++; return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); if (p) bind_live++; return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (! q && p) bind_live++; return p; }
void __wrap_free(void *p) { if (p) bind_live--; __real_free(p); }

static int     *ncl;          /* exactly as long as there are layers */
static int     *kern;
xrtm_data       bind_inner;   /* the instance behind a finite difference instance */


/* Values that identify argument and element. */
double ind(int k, long i) { return 1.  + k * 64. + i / 64. + i * 1e-7; }
int    ini(int k, long i) { return 1000 + k * 4096 + (int) i; }
double outd(int k, long i) { return -(5. + k * 64. + i / 64. + i * 1e-7); }
int    outi(int k, long i) { return -(500 + k * 4096 + (int) i); }


void rec_begin(int fn, void *d)
{
     int k;
     B.n_calls++;
     B.fn = fn;
     B.d  = d;
     for (k = 0; k < BA; ++k) B.ni[k] = -1;
}

void rec_i(int k, int v)    { B.ni[k] = 1; B.v[k][0] = v; }
void rec_d(int k, double v) { B.ni[k] = 1; B.v[k][0] = v; }
void rec_p(int k, void *p)  { B.ni[k] = 0; B.q[k] = p; }

static void walk(int k, void *p, int rank, long *D, int isd, int out, int *n)
{
     long i;
     for (i = 0; i < D[0]; ++i) {
          if (rank > 1)
               walk(k, ((void **) p)[i], rank - 1, D + 1, isd, out, n);
          else if (*n < BN) {
               if (out) {
                    if (isd) ((double *) p)[i] = outd(k, *n); else ((int *) p)[i] = outi(k, *n);
               }
               else
                    B.v[k][*n] = isd ? ((double *) p)[i] : ((int *) p)[i];
               ++*n;
          }
     }
}

void rec_ai(int k, void *p, int rank, long *D) { B.ni[k] = 0; walk(k, p, rank, D, 0, 0, &B.ni[k]); }
void rec_ad(int k, void *p, int rank, long *D) { B.ni[k] = 0; walk(k, p, rank, D, 1, 0, &B.ni[k]); }
void out_ai(int k, void *p, int rank, long *D) { int n = 0; walk(k, p, rank, D, 0, 1, &n); }
void out_ad(int k, void *p, int rank, long *D) { int n = 0; walk(k, p, rank, D, 1, 1, &n); }


void bind_fill_xrtm(xrtm_data *d)
{
     int i;
     memset(d, 0, sizeof(*d));
     free(ncl); free(kern);
     ncl  = malloc(sizeof(int) * (B.n_layers  ? B.n_layers  : 1));
     kern = malloc(sizeof(int) * (B.n_kernels ? B.n_kernels : 1));
     for (i = 0; i < B.n_layers;  ++i) ncl [i] = 1 + (i + B.n_coef) % 3;
     for (i = 0; i < B.n_kernels; ++i) kern[i] = (B.kernel + i) % 10;
     d->n_layers       = B.n_layers;
     d->n_derivs       = B.n_derivs;
     d->n_elem         = B.n_elem;
     d->n_coef         = B.n_coef;
     d->n_quad         = B.n_quad;
     d->n_kernel_quad  = B.n_kernel_quad;
     d->n_stokes       = B.n_stokes;
     d->n_out_levels   = B.n_out_levels;
     d->n_out_thetas   = B.n_out_thetas;
     d->n_out_thetas_2 = B.n_out_thetas ? B.n_out_thetas : B.n_quad;
     d->n_kernels      = B.n_kernels;
     d->n_coef_layer   = ncl;
     d->kernels        = (void *) kern;
}

void bind_fill_xrtm_fd(xrtm_fd_data *d)
{
     memset(d, 0, sizeof(*d));
     bind_fill_xrtm(&bind_inner);
     d->d        = &bind_inner;
     d->n_derivs = B.n_derivs;
}
