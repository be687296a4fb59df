#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include "mc.h"

#define NV 1500
#define NC 64
#define NS 24
#define NH (1 << 21)
#define NW 64
typedef struct { char sig[240], msg[1000], fam[48]; long idx, count; } viol_t;
typedef struct {
     volatile int lock;
     long next, cases, states, transitions, execs, nontrivial, distinct, skipped_viol;
     int n_viol, n_count, n_sample;
     viol_t v[NV];
     struct { char name[64]; long n; } c[NC];
     char s[NS][400];
     char ctx[NW][600];
     uint64_t h[NH];
} shm_t;
static shm_t *sh;
int mc_thorough, mc_replaying;
static int jobs = 8, me = 0;
static const char *fam = "";
static long cur = -1;
static char rfam[64]; static long ridx = -1;
static char errdir[200];

static void lock(void) { while (__sync_lock_test_and_set(&sh->lock, 1)) usleep(50); }
static void unlock(void) { __sync_lock_release(&sh->lock); }

void mc_init(int argc, char **argv) {
     int i;
     char *p;
     if (! getenv("OPENBLAS_NUM_THREADS")) {
          setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1);
          execv("/proc/self/exe", argv);
     }
     sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
     if (sh == MAP_FAILED) exit(3);
     jobs = sysconf(_SC_NPROCESSORS_ONLN); if (jobs > 32) jobs = 32; if (jobs < 1) jobs = 1;
     for (i = 1; i < argc; ++i) {
          if (! strcmp(argv[i], "--thorough")) mc_thorough = 1;
          else if (! strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
          else if (! strcmp(argv[i], "--replay")) {
               mc_replaying = 1; strncpy(rfam, argv[++i], 60);
               if (! (p = strrchr(rfam, ':'))) exit(3);
               *p = 0; ridx = atol(p + 1);
          }
     }
     strcpy(errdir, "/tmp/mcerr.XXXXXX");
     if (! mkdtemp(errdir)) exit(3);
     setvbuf(stdout, NULL, _IOLBF, 0);
}

uint64_t mc_hash(const void *p, long n, uint64_t h) {
     const unsigned char *c = p; long i;
     if (! h) h = 1469598103934665603ULL;
     for (i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
     return h;
}

void mc_viol(const char *sig, const char *fmt, ...) {
     int i;
     char b[1000];
     va_list va;
     va_start(va, fmt); vsnprintf(b, sizeof(b), fmt, va); va_end(va);
     lock();
     for (i = 0; i < sh->n_viol; ++i) if (! strncmp(sh->v[i].sig, sig, 239)) {
          sh->v[i].count++;
          if (! strcmp(sh->v[i].fam, fam) && sh->v[i].idx > cur) { sh->v[i].idx = cur; strcpy(sh->v[i].msg, b); }
          break; }
     if (i == sh->n_viol) {
          if (i < NV) {
               strncpy(sh->v[i].sig, sig, 239); strcpy(sh->v[i].msg, b); strncpy(sh->v[i].fam, fam, 47); sh->v[i].idx = cur; sh->v[i].count = 1; sh->n_viol++;
          } else sh->skipped_viol++;
     }
     unlock();
}
void mc_ctx(const char *fmt, ...) { va_list va; va_start(va, fmt); vsnprintf(sh->ctx[me], sizeof(sh->ctx[me]), fmt, va); va_end(va); }
void mc_count(const char *name, long n) {
     int i;
     lock();
     for (i = 0; i < sh->n_count; ++i) if (! strcmp(sh->c[i].name, name)) break;
     if (i == sh->n_count && i < NC) { strncpy(sh->c[i].name, name, 63); sh->n_count++; }
     if (i < NC) sh->c[i].n += n;
     unlock();
}
void mc_states(long n) { __sync_fetch_and_add(&sh->states, n); }
void mc_transitions(long n) { __sync_fetch_and_add(&sh->transitions, n); }
void mc_execs(long n) { __sync_fetch_and_add(&sh->execs, n); }
void mc_nontrivial(long n) { __sync_fetch_and_add(&sh->nontrivial, n); }
void mc_outcome(uint64_t h) {
     long i, k;
     if (! h) h = 1;
     for (k = 0, i = h % NH; k < 1000; ++k, i = (i + 1) % NH) {
          uint64_t o = __sync_val_compare_and_swap(&sh->h[i], 0, h);
          if (o == h) return;
          if (o == 0) { __sync_fetch_and_add(&sh->distinct, 1); return; }
     }
}
void mc_sample(const char *fmt, ...) {
     int n;
     va_list va;
     if (sh->n_sample >= NS) return;
     n = __sync_fetch_and_add(&sh->n_sample, 1);
     if (n >= NS) { sh->n_sample = NS; return; }
     va_start(va, fmt); vsnprintf(sh->s[n], 400, fmt, va); va_end(va);
}

static void sanitizer_note(int pid, char *b, int n) {
     char f[300], l[1000]; FILE *fp; int ns = 0, len;
     b[0] = 0;
     snprintf(f, sizeof(f), "%s/san.%d", errdir, pid);
     if (! (fp = fopen(f, "r"))) return;
     len = 0;
     while (fgets(l, sizeof(l), fp) && len < n - 300) {
          l[strcspn(l, "\n")] = 0;
          if (strstr(l, "ERROR:") || strstr(l, "runtime error")) { char *p = strstr(l, "ERROR:"); len += snprintf(b + len, 160, "%.150s; ", p ? p : l); }
          else if (strstr(l, "#") && strstr(l, " in ") && ns < 5) { len += snprintf(b + len, 100, "%.90s; ", strstr(l, " in ") + 4); ns++; }
     }
     fclose(fp);
     unlink(f);
}

static void run_case(void (*f)(long), long idx, int cpu_s) {
     int st = 0;
     pid_t p;
     char sig[240], note[800], opt[300];
     cur = idx;
     sh->ctx[me][0] = 0;
     p = fork();
     if (p < 0) { usleep(20000); p = fork(); if (p < 0) exit(3); }
     if (p == 0) {
          struct itimerval it = {{0, 0}, {cpu_s * (mc_replaying ? 3 : 1), 0}};
          char fn[300]; int fd;
          signal(SIGPROF, SIG_DFL);
          setitimer(ITIMER_PROF, &it, NULL);
          snprintf(fn, sizeof(fn), "%s/san.%d", errdir, getpid());
          (void) opt;
          fd = open(fn, O_WRONLY | O_CREAT | O_TRUNC, 0600);
          if (fd >= 0) { dup2(fd, 2); close(fd); }
          f(idx);
          _exit(0);
     }
     while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
     __sync_fetch_and_add(&sh->cases, 1);
     sanitizer_note(p, note, sizeof(note));
     { char fn[300]; snprintf(fn, sizeof(fn), "%s/san.%d", errdir, p); unlink(fn); }
     if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) {
          char k[40];
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stdout, "MCERROR a case was killed (memory?) %s:%ld\n", fam, idx); _exit(3); }
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) strcpy(k, "hang");
          else if (WIFSIGNALED(st)) sprintf(k, "signal-%d", WTERMSIG(st)); else sprintf(k, "exit-%d", WEXITSTATUS(st));
          snprintf(sig, sizeof(sig), "crash|%s|%s|%s", fam, k, sh->ctx[me]);
          mc_viol(sig, "process ended with %s while running: %s %s", k, sh->ctx[me], note);
     }
}

void mc_family(const char *name, long n, void (*f)(long), int cpu_s) {
     int i, st;
     pid_t p[NW];
     fam = name;
     if (mc_replaying) {
          if (strcmp(name, rfam)) return;
          if (ridx < 0 || ridx >= n) { fprintf(stdout, "MCERROR replay index out of range\n"); exit(3); }
          run_case(f, ridx, cpu_s);
          return;
     }
     sh->next = 0;
     fflush(stdout);
     for (i = 0; i < jobs; ++i) {
          if ((p[i] = fork()) == 0) {
               long k;
               me = i;
               prctl(PR_SET_PDEATHSIG, SIGKILL);
               while ((k = __sync_fetch_and_add(&sh->next, 1)) < n) run_case(f, k, cpu_s);
               _exit(0);
          }
     }
     for (i = 0; i < jobs; ++i) { waitpid(p[i], &st, 0); if (! WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stdout, "MCERROR worker failed in %s\n", name); exit(3); } }
}

static void js(const char *s) {
     putchar('"');
     for (; *s; ++s) {
          if (*s == '"' || *s == '\\') { putchar('\\'); putchar(*s); }
          else if ((unsigned char) *s < 32) printf("\\u%04x", *s);
          else if ((unsigned char) *s > 126) printf("?");
          else putchar(*s);
     }
     putchar('"');
}

int mc_done(void) {
     int i;
     rmdir(errdir);
     setvbuf(stdout, NULL, _IOFBF, 1 << 16);
     printf("MCRESULT {\"cases\": %ld, \"executions\": %ld, \"states\": %ld, \"transitions\": %ld, \"nontrivial\": %ld, \"distinct_outcomes\": %ld, \"skipped_violations\": %ld, \"counters\": {",
            sh->cases, sh->execs, sh->states, sh->transitions, sh->nontrivial, sh->distinct, sh->skipped_viol);
     for (i = 0; i < sh->n_count; ++i) { printf("%s", i ? ", " : ""); js(sh->c[i].name); printf(": %ld", sh->c[i].n); }
     printf("}, \"samples\": [");
     for (i = 0; i < sh->n_sample && i < NS; ++i) { printf("%s", i ? ", " : ""); js(sh->s[i]); }
     printf("], \"violations\": [");
     for (i = 0; i < sh->n_viol; ++i) {
          printf("%s{\"sig\": ", i ? ", " : ""); js(sh->v[i].sig); printf(", \"msg\": "); js(sh->v[i].msg);
          printf(", \"family\": "); js(sh->v[i].fam); printf(", \"idx\": %ld, \"count\": %ld}", sh->v[i].idx, sh->v[i].count);
     }
     printf("]}\n");
     fflush(stdout);
     return 0;
}
#if defined(__SANITIZE_ADDRESS__)
const char *__asan_default_options(void) { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
#endif
