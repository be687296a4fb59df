/* C30: failures of the linear algebra routines. Each call of a solution to one of them fails in turn. */
#define _GNU_SOURCE
#include "scen.h"
#include "mc.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
static scen s;
static long calls, fail_at; static int *last;      /* last: the routine that failed, shared */
static const char *rn[] = {"gbtrf", "gbtrs", "getrf", "getri", "getrs", "gttrf", "gttrs", "potrf", "potri", "potrs", "geev", "syev", "gecon", "pocon"};
static int hit(int r, int v, int *info) { if (calls++ != fail_at) return 0; *last = r + 1; *info = v; return 1; }
typedef int *I; typedef const char *S; typedef void *D;
#define R_(p, r, id, v, decl, args) extern void __real_##p##r##_ decl; void __wrap_##p##r##_ decl; void __wrap_##p##r##_ decl { __real_##p##r##_ args; hit(id, v, info); }
#define R(r, id, v, decl, args) R_(d, r, id, v, decl, args) R_(z, r, id, v, decl, args)
R(gbtrf, 0, 1, (I m, I n, I kl, I ku, D a, I lda, I p, I info), (m, n, kl, ku, a, lda, p, info))
R(gbtrs, 1, -1, (S t, I n, I kl, I ku, I nrhs, D a, I lda, I p, D b, I ldb, I info), (t, n, kl, ku, nrhs, a, lda, p, b, ldb, info))
R(getrf, 2, 1, (I m, I n, D a, I lda, I p, I info), (m, n, a, lda, p, info))
R(getrs, 4, -1, (S t, I n, I nrhs, D a, I lda, I p, D b, I ldb, I info), (t, n, nrhs, a, lda, p, b, ldb, info))
R(gttrf, 5, 1, (I n, D dl, D d, D du, D du2, I p, I info), (n, dl, d, du, du2, p, info))
R(gttrs, 6, -1, (S t, I n, I nrhs, D dl, D d, D du, D du2, I p, D b, I ldb, I info), (t, n, nrhs, dl, d, du, du2, p, b, ldb, info))
R(potrf, 7, 1, (S u, I n, D a, I lda, I info), (u, n, a, lda, info))
R(potri, 8, 1, (S u, I n, D a, I lda, I info), (u, n, a, lda, info))
R(potrs, 9, -1, (S u, I n, I nrhs, D a, I lda, D b, I ldb, I info), (u, n, nrhs, a, lda, b, ldb, info))
R_(d, syev, 11, 1, (S j, S u, I n, D a, I lda, D w, D wk, I lw, I info), (j, u, n, a, lda, w, wk, lw, info))
R_(d, geev, 10, 1, (S jl, S jr, I n, D a, I lda, D wr, D wi, D vl, I ldl, D vr, I ldr, D wk, I lw, I info), (jl, jr, n, a, lda, wr, wi, vl, ldl, vr, ldr, wk, lw, info))
#define RI(p) extern void __real_##p##getri_(I n, D a, I lda, I q, D wk, I lw, I info); void __wrap_##p##getri_(I n, D a, I lda, I q, D wk, I lw, I info); \
     void __wrap_##p##getri_(I n, D a, I lda, I q, D wk, I lw, I info) { int query = *lw == -1; __real_##p##getri_(n, a, lda, q, wk, lw, info); if (! query) hit(3, 1, info); }
RI(d) RI(z)
static xh_out base, o;
static void f_lapack(long idx) {
     xrtm_data d; int st, p[2]; long n; char buf[400], sig[200]; ssize_t k, t; pid_t pid;
     if (sc_get(idx, &s)) return;
     xh_quiet();
     mc_ctx("%s", s.name);
     if (! last) last = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
     fail_at = -1; calls = 0;
     if (xh_create(&s.c, &d) == XRTM_INT_ERROR || xh_set_all(&s.c, &d, &s.in) || xh_update(&s.c, &d)) return;
     if (xh_run(&s.c, &d, &s.in, s.solver, s.sols & 7, 0, &base)) return;
     xrtm_destroy(&d);
     mc_states(1); n = calls; mc_count("calls that failed", n);
     for (fail_at = 0; fail_at < n; ++fail_at) {
          *last = 0;
          if (pipe(p)) return;
          fflush(stdout);
          if (! (pid = fork())) {
               int r; dup2(p[1], 2); close(p[0]);
               calls = 0;
               if (xh_create(&s.c, &d) == XRTM_INT_ERROR || xh_set_all(&s.c, &d, &s.in) || xh_update(&s.c, &d)) _exit(60);
               r = xh_run(&s.c, &d, &s.in, s.solver, s.sols & 7, 0, &o);
               if (! *last) _exit(61);
               if (! r) _exit(0);
               /* an error: the same instance is as good as before */
               if (xh_run(&s.c, &d, &s.in, s.solver, s.sols & 7, 0, &o) || o.n != base.n || memcmp(o.v, base.v, o.n * sizeof(double))) _exit(62);
               xrtm_destroy(&d); _exit(63);
          }
          close(p[1]); t = 0; { char c[400]; while ((k = read(p[0], c, 400)) > 0) { if (t == 0) memcpy(buf, c, k); t += k; } } close(p[0]);
          waitpid(pid, &st, 0); mc_execs(1); mc_transitions(1);
#define W (*last ? rn[*last - 1] : "none")
          snprintf(sig, sizeof(sig), "numerical|%s|%s|%s", W, WIFEXITED(st) ? (WEXITSTATUS(st) == 0 ? "success" : WEXITSTATUS(st) == 62 ? "instance" : "other") : "signal", xh_solver_name(s.solver));
          if (! WIFEXITED(st)) mc_viol(sig, "%s: call %ld, to %s, fails: ended by signal %d", s.name, fail_at, W, WTERMSIG(st));
          else switch (WEXITSTATUS(st)) {
          case 0: mc_viol(sig, "%s: call %ld, to %s, fails: results are returned", s.name, fail_at, W); break;
          case 60: case 61: mc_viol(sig, "%s: call %ld: not repeated", s.name, fail_at); break;
          case 62: mc_viol(sig, "%s: call %ld, to %s, fails: the next solution of the instance differs", s.name, fail_at, W); break;
          default: if (! t) mc_viol(sig, "%s: call %ld, to %s, fails: ends without a message", s.name, fail_at, W); else mc_nontrivial(1);
          }
     }
     fail_at = -1;
}
int main(int argc, char **argv) {
     int k = argc > 1 && argv[1][0] >= '0' && argv[1][0] <= '9' ? atoi(argv[1]) : 1;
     mc_init(argc, argv);
     sc_init(k + (mc_thorough ? 1 : 0), SC_ALLDIMS, -1);
     mc_family("lapack", sc_n(), f_lapack, 200);
     mc_done();
     return 0;
}
