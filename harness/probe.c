#include "xh.h"
#define O(x) XRTM_OPTION_ ## x
#define S(x) XRTM_SOLVER_ ## x
int main(int argc, char **argv) {
     int i, s;
     static xh_out o, o2;
     static xh_in in;
     int opts[] = {0, O(VECTOR)};
     for (s = 0; s < N_XRTM_SOLVERS; ++s) for (i = 0; i < 2; ++i) {
          int sol = 1 << s;
          xh_cfg c = {"probe", O(CALC_DERIVS) | O(OUTPUT_AT_LEVELS) | O(SOURCE_SOLAR) | opts[i], sol, 9, 4, opts[i] ? 3 : 1, 2, 3, 1, 4, {0}, 2, 2, 2};
          if (sol == S(TWO_STREAM)) c.n_quad = 1;
          if (sol == S(FOUR_STREAM)) c.n_quad = 2;
          if (sol == S(SIX_STREAM)) c.n_quad = 3;
          if (sol & (S(TWO_STREAM) | S(FOUR_STREAM) | S(SIX_STREAM))) { c.options |= O(SFI); c.options &= ~O(CALC_DERIVS); c.n_derivs = 0; }
          xh_default_in(&c, &in);
          int r = xh_fresh_run(&c, &in, sol, 7, 0, &o);
          printf("%s v=%d rc=%d", xh_solver_name(sol), i, r);
          if (! r) { int l, t; for (l = 0; l < 2; ++l) for (t = 0; t < 2; ++t) printf("  %.6f %.6f |", o.v[xh_i_I(&c, 0, l, t, 0, 0)], o.v[xh_i_I(&c, 1, l, t, 0, 0)]);
               printf(" M %.5f %.5f F %.5f %.5f %.5f %.5f", o.v[xh_i_M(&c,0,0)], o.v[xh_i_M(&c,1,0)], o.v[xh_i_M(&c,2,0)], o.v[xh_i_M(&c,3,0)],o.v[xh_i_M(&c,2,1)], o.v[xh_i_M(&c,3,1)]);
               if (c.n_derivs) printf(" d %.6f %.6f", o.v[xh_i_Il(&c, 0, 0, 0, 0, 0, 0)], o.v[xh_i_Il(&c, 0, 0, 1, 0, 0, 0)]); }
          printf("\n");
     }
     return 0;
}
