/* Relations between runs, checked in every scenario of the lattice. */
#ifndef REL_H
#define REL_H
#include "scen.h"
#include "mc.h"
#define RO(x) XRTM_OPTION_ ## x
#define RS(x) XRTM_SOLVER_ ## x
/* run, counted; a crash is attributed to the scenario */
int rel_run(const scen *s, const xh_cfg *c, const xh_in *in, xh_out *o);
/* largest difference of the values, by group: 0 radiances 1 mean/flux values 2 radiance derivatives 3 mean/flux derivatives.
   tol: relative to |b| + frac * (largest of the group) + abs_. Reports through mc_viol as C-specific signature */
double rel_cmp(const xh_cfg *c, const xh_out *a, const xh_out *b, int groups, double frac, double abs_, int *at);
const char *rel_where(const xh_cfg *c, int at, char *b);
int rel_fd(const scen *s);
#endif
