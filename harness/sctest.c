#include "scen.h"
#include <unistd.h>
#include <sys/wait.h>
int main(int argc, char **argv) {
     long i, ok = 0, bad = 0, nan = 0; static scen s; static xh_out o; int j;
     const char *want = argc > 3 ? argv[3] : NULL;
     setvbuf(stdout, NULL, _IOLBF, 0);
     sc_init(atoi(argv[1]), SC_ALLDIMS, argc > 2 ? strtol(argv[2], 0, 0) : 0x7ff);
     if (! want) xh_quiet();
     for (i = 0; i < sc_n(); ++i) {
          int st; pid_t p;
          if (sc_get(i, &s)) continue;
          if (want && strcmp(want, s.name)) continue;
          ok++;
          fflush(stdout);
          if (! (p = fork())) {
          xh_fresh_run(&s.c, &s.in, s.solver, s.sols, 0, &o);
          if (o.rc) { bad++; printf("%s rc %d\n", s.name, o.rc); _exit(0); }
          for (j = 0; j < o.n; ++j) if (! isfinite(o.v[j]) || fabs(o.v[j]) > 1e4) break;
          if (want) { char b[4000]; xh_cfg_str(&s.c, b); printf("%s\n", b); for (j = 0; j < o.n; ++j) printf("%d %g\n", j, o.v[j]); }
          if (j < o.n) { nan++; printf("%s value %g at %d of %d\n", s.name, o.v[j], j, o.n); }
          _exit(0);
          }
          waitpid(p, &st, 0);
          if (st) printf("%s status %x\n", s.name, st);
     }
     printf("n %ld ok %ld\n", sc_n(), ok);
     return 0;
}
