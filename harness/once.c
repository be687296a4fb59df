#include "cfgs.h"
int main(int argc, char **argv) {
     int i, k; static xh_in in; static xh_out o, p; double s = 0.;
     for (i = 0; i < N_CFGS; ++i) if (argc < 2 || ! strcmp(all_cfgs[i].name, argv[1])) {
          const xh_cfg *c = &all_cfgs[i]; xrtm_data d;
          xh_default_in(c, &in);
          if (xh_create(c, &d) == XRTM_INT_ERROR || xh_set_all(c, &d, &in) || xh_update(c, &d)) { printf("%s setup failed\n", c->name); continue; }
          for (k = 0; k < N_XRTM_SOLVERS; ++k) if (c->solvers & (1 << k)) {
               int sol = (c->solvers & (S(SINGLE)|S(TWO_OS))) ? 1 : 7, at; double e;
               xh_run(c, &d, &in, 1 << k, sol, 0, &o); { int q; for (q = 0; q < o.n; ++q) if (o.v[q] > 1e-3) s += 1.; }
               xh_run(c, &d, &in, 1 << k, sol, 0, &p); e = xh_diff(&p, &o, &at);
               printf("%s rc %d rerun diff %g at %d\n", c->name, o.rc, e, at); if (argc > 2) { int q; for (q = 0; q < o.n; ++q) printf(" %d:%.6g", q, o.v[q]); printf("\n"); } }
          xrtm_destroy(&d);
     }
     printf("%g\n", s); return 0;
}
