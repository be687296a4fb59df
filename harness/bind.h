/* The bindings check (C23): a recording stand-in for the C interface behind each binding. */
#ifndef BIND_H
#define BIND_H

#include <stdint.h>
#include <xrtm_interface.h>
#include <xrtm_fd_interface.h>

#ifdef __cplusplus
extern "C" {
#endif

#define BA 24          /* arguments */
#define BN 4096        /* elements of an argument */

typedef struct {
     int    iv[BA];    /* scalar arguments */
     double dv[BA];
     void  *p [BA];    /* arrays and returned scalars: one block, last index fastest */
     void  *pp[BA];    /* the same as nested pointers */
     int    dim[BA][6];
     int    strided;   /* Fortran 90: pass array sections that are not contiguous */
     int    err, ri;
     double rd;
     void  *obj;
} bargs;

typedef struct { const char *name; char type; int rank, out, dims; } barg;

typedef struct {
     const char *name; int fd; char kind; int val; char ret; int n_args; const barg *args;
     void (*dims)(void *, bargs *);
     void (*f77)(void *, bargs *);
     void (*f90)(void *, bargs *);
     void (*cpp)(void *, bargs *);
     int  (*jl )(void *, bargs *, int k, size_t *dims);
} bfn;

extern const bfn bfns[];
extern const int n_bfns;

/* what the stand-in is told and what it saw */
typedef struct {
     int    fail, badidx;
     int    ri;
     double rd;
     int    n_calls, fn;
     void  *d;
     int    ni[BA];
     double v [BA][BN];
     void  *q [BA];
     /* the configuration of the instance */
     int    n_layers, n_derivs, n_elem, n_coef, n_quad, n_kernel_quad, n_stokes, n_out_levels, n_out_thetas, n_kernels, kernel;
} bstate;

extern bstate B;

void   rec_begin(int fn, void *d);
void   rec_i(int k, int v);
void   rec_d(int k, double v);
void   rec_p(int k, void *p);
void   rec_ai(int k, void *p, int rank, long *D);
void   rec_ad(int k, void *p, int rank, long *D);
void   out_ai(int k, void *p, int rank, long *D);
void   out_ad(int k, void *p, int rank, long *D);
double outd(int k, long i);
int    outi(int k, long i);
double ind(int k, long i);
int    ini(int k, long i);
void   bind_fill_xrtm(xrtm_data *d);
void   bind_fill_xrtm_fd(xrtm_fd_data *d);

#ifdef __cplusplus
}
#endif
#endif
