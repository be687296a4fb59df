/* An independent scalar discrete ordinate reference: matrix exponentials and multiple shooting, numerical azimuth integration. */
#ifndef REF_H
#define REF_H
#include "xh.h"
/* 0: done; 1: outside of what the reference covers */
int ref_run(const xh_cfg *c, const xh_in *in, xh_out *o);
/* single scattering alone */
int ref_single(const xh_cfg *c, const xh_in *in, xh_out *o);
#endif
