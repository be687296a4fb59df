/* Exhaustive enumeration driver: every index of a family of cases is run, each in its own forked process. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
extern int mc_thorough;          /* tier */
extern int mc_replaying;
void mc_init(int argc, char **argv);
/* Runs f(0) .. f(n - 1), all of them, on all cores. cpu_s: CPU limit of one case (a hang beyond). */
void mc_family(const char *name, long n, void (*f)(long idx), int cpu_s);
/* In a case: */
void mc_viol(const char *sig, const char *fmt, ...);   /* sig identifies what failed, independent of the index */
void mc_ctx(const char *fmt, ...);                     /* what is being run now; named if the process dies */
void mc_count(const char *name, long n);               /* adds to a named counter */
void mc_states(long n); void mc_transitions(long n); void mc_execs(long n); void mc_nontrivial(long n);
void mc_outcome(uint64_t h);                           /* an observed outcome; distinct ones are counted */
void mc_sample(const char *fmt, ...);                  /* a few are kept */
uint64_t mc_hash(const void *p, long n, uint64_t h);
int mc_done(void);                                     /* prints the JSON summary */
#endif
