#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <malloc.h>
#include "wrap.h"
int wr_fill = -1, wr_tag = 0; long wr_count = 0, wr_fail_at = 0;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
#define NT (1 << 18)
typedef struct { void *p; int tag, n; void *bt[8]; } blk;
static blk *tab; static long n_tab; static int in = 0;
static long slot(void *p) { unsigned long h = (unsigned long) p >> 4; h ^= h >> 17; h *= 0x9E3779B97F4A7C15UL; return (h >> 20) & (NT - 1); }
static void rec(void *p) {
     long i;
     if (! wr_tag || ! p || in) return;
     in = 1;
     if (! tab) tab = __real_calloc(NT, sizeof(blk));
     for (i = slot(p); tab[i].p && tab[i].p != (void *) 1; i = (i + 1) & (NT - 1)) ;
     tab[i].p = p; tab[i].tag = wr_tag; tab[i].n = backtrace(tab[i].bt, 8);
     if (++n_tab > NT / 2) { fprintf(stdout, "wrap: table full\n"); exit(3); }
     in = 0;
}
static void unrec(void *p) {
     long i;
     if (! tab || ! p || in) return;
     for (i = slot(p); tab[i].p; i = (i + 1) & (NT - 1)) if (tab[i].p == p) { tab[i].p = (void *) 1; n_tab--; return; }
}
static int fails(void) { ++wr_count; if (wr_fail_at && wr_count == wr_fail_at) { errno = ENOMEM; return 1; } return 0; }
void *__wrap_malloc(size_t n) {
     void *p;
     if (fails()) return NULL;
     p = __real_malloc(n);
     if (p && wr_fill >= 0) memset(p, wr_fill, n);
     rec(p);
     return p;
}
void *__wrap_calloc(size_t m, size_t n) { void *p; if (fails()) return NULL; p = __real_calloc(m, n); rec(p); return p; }
void *__wrap_realloc(void *q, size_t n) {
     void *p; size_t o = 0;
     if (fails()) return NULL;
     if (wr_fill >= 0) o = q ? malloc_usable_size(q) : 0;
     p = __real_realloc(q, n);
     if (! p) return p;
     if (wr_fill >= 0 && n > o) memset((char *) p + o, wr_fill, n - o);
     unrec(q); rec(p);
     return p;
}
void __wrap_free(void *p) { unrec(p); __real_free(p); }
long wr_live(int tag) { long i, n = 0; if (! tab) return 0; for (i = 0; i < NT; ++i) if (tab[i].p && tab[i].p != (void *) 1 && (! tag || tab[i].tag == tag)) ++n; return n; }
const char *wr_site(int tag) {
     static char b[300]; long i; int j, k = 0;
     b[0] = 0;
     if (tab) for (i = 0; i < NT; ++i) if (tab[i].p && tab[i].p != (void *) 1 && (! tag || tab[i].tag == tag)) {
          for (j = 1; j < tab[i].n && k < 3; ++j) {
               Dl_info di;
               if (! dladdr(tab[i].bt[j], &di) || ! di.dli_sname) continue;
               if (strstr(di.dli_sname, "alloc")) continue;
               if (! strcmp(di.dli_sname, "main")) break;
               if (strlen(b) < 200) { strcat(b, k++ ? " < " : ""); strncat(b, di.dli_sname, 60); }
          }
          break;
     }
     return b;
}
void wr_forget(void) { if (tab) memset(tab, 0, NT * sizeof(blk)); n_tab = 0; }
/* poison of the work arrays */
double wr_poison = 0.; int wr_poison_on = 0;
#include <complex.h>
#include <float.h>
#include <limits.h>
void __real_init_array1_d(double *, long, double); void __real_init_array2_d(double **, long, long, double);
void __wrap_init_array1_d(double *a, long n, double v) { __real_init_array1_d(a, n, wr_poison_on && v == DBL_MAX ? wr_poison : v); }
void __wrap_init_array2_d(double **a, long m, long n, double v) { __real_init_array2_d(a, m, n, wr_poison_on && v == DBL_MAX ? wr_poison : v); }
void __real_init_array1_dc(double _Complex *, long, double _Complex); void __real_init_array2_dc(double _Complex **, long, long, double _Complex);
void __wrap_init_array1_dc(double _Complex *a, long n, double _Complex v) { __real_init_array1_dc(a, n, wr_poison_on && creal(v) == DBL_MAX ? wr_poison + wr_poison * I : v); }
void __wrap_init_array2_dc(double _Complex **a, long m, long n, double _Complex v) { __real_init_array2_dc(a, m, n, wr_poison_on && creal(v) == DBL_MAX ? wr_poison + wr_poison * I : v); }
