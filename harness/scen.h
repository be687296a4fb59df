/* Scenarios: for each solver, a base configuration and all sets of up to k deviations from it. */
#ifndef SCEN_H
#define SCEN_H
#include "xh.h"
typedef struct {
     xh_cfg c; xh_in in;
     int solver, sols;            /* sols: the outputs this solver gives */
     char name[120];
     int devs[4], n_devs;
     int dim[64];                 /* value taken in each dimension, 0: base */
} scen;
/* dimensions */
enum { D_SRC, D_VEC, D_OTH, D_DM, D_PSA, D_QUAD, D_NQ, D_LAY, D_SURF, D_OUT, D_OMEGA, D_TAU, D_COEF, D_GEOM, D_CONV, D_PART, D_ISO,
       D_MISC, D_NOAZ, D_DERIV, D_DIR, D_SAVE, D_PHI, D_ADD, N_DIMS };
/* deviations of the dimensions in `mask' only */
void sc_init(int k, unsigned mask, int solvers);
long sc_n(void);
/* 0: usable; 1: this combination does not exist or is refused at creation */
int  sc_get(long i, scen *s);
int  sc_solver_has_derivs(int solver);
int  sc_is_adding(int solver);
int  sc_is_bvp(int solver);
int  sc_is_stream(int solver);
/* if not 0, number of quadrature points of the base, with as many coefficients as they have terms, and one more */
extern int sc_nq;
#define SC_ALLDIMS 0xffffffffu
#endif
