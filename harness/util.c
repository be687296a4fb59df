/* C26: sorting, comparison, string, parse, allocation and matrix helpers, on every input of a bounded set.
   Strings and arrays are in heap blocks of their exact size (built with the address sanitizer), so a byte read or written outside an argument is seen. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <limits.h>
#include <math.h>
#include "gutil.h"
#include "gmath.h"
#include "gmath_matrix.h"
#include "xrtm_matrix.h"
#include "mc.h"
#undef I
#define V(what, ...) mc_viol(what, __VA_ARGS__)
#define N(A) ((int) (sizeof(A) / sizeof(A[0])))
#define ONE(n) do { mc_states(n); mc_nontrivial(n); mc_execs(n); mc_transitions(n); } while (0)
static long ipow(long b, int e) { long r = 1; while (e-- > 0) r *= b; return r; }

/* ------------------------------------------------------------------ sorting */
typedef struct { unsigned char key, id, pad; } rec;   /* 3 bytes: strides that are not a power of two */
static long ncmp;
static int rcmp(const void *a, const void *b) { ncmp++; return (int) ((const rec *) a)->key - ((const rec *) b)->key; }
static int icmp(const void *a, const void *b) { ncmp++; return *(const int *) a < *(const int *) b ? -1 : *(const int *) a > *(const int *) b; }
static void sort_one(const unsigned char *k, int n, int (*alg[2])(int)) {
     rec *a = malloc(n * sizeof(rec) + !n), **p = malloc(n * sizeof(rec *) + !n), *q = malloc(n * sizeof(rec) + !n); int *x = malloc(n * sizeof(int) + !n), *v = malloc(n * sizeof(int) + !n), i, m, z; char seen[64];
     static const char *nm[2][4] = {{"insertion_sort_data", "insertion_sort_index", "insertion_sort_pointer", "insertion_sort_data int"}, {"quick_sort_data", "quick_sort_index", "quick_sort_pointer", "quick_sort_data int"}};
     for (m = 0; m < 2; ++m) {
          for (i = 0; i < n; ++i) { a[i].key = q[i].key = k[i]; a[i].id = q[i].id = i; a[i].pad = q[i].pad = 200 + i; p[i] = q + i; x[i] = i; v[i] = k[i] - 1; }
          if (m == 0) { insertion_sort_data(a, n, sizeof(rec), rcmp); insertion_sort_index(q, x, n, sizeof(rec), rcmp); insertion_sort_pointer((void **) p, n, sizeof(rec), rcmp); insertion_sort_data(v, n, sizeof(int), icmp); }
          else { quick_sort_data(a, n, sizeof(rec), rcmp); quick_sort_index(q, x, n, sizeof(rec), rcmp); quick_sort_pointer((void **) p, n, sizeof(rec), rcmp); quick_sort_data(v, n, sizeof(int), icmp); }
          ONE(4);
          for (z = 0; z < 4; ++z) {
               memset(seen, 0, sizeof(seen));
               for (i = 0; i < n; ++i) {
                    int id = z == 0 ? a[i].id : z == 1 ? x[i] : z == 2 ? (int) (p[i] - q) : 0, key, prev;
                    if (z < 3) {
                         if (id < 0 || id >= n || seen[id]++) { V(nm[m][z], "n = %d: element %d of the result is no permutation of the input", n, i); break; }
                         if (z == 0 && (a[i].key != k[id] || a[i].pad != 200 + id)) { V(nm[m][z], "n = %d: element %d was altered", n, i); break; }
                    }
                    key = z == 3 ? v[i] : k[id];
                    prev = ! i ? key : z == 0 ? a[i - 1].key : z == 1 ? k[x[i - 1]] : z == 2 ? k[p[i - 1] - q] : v[i - 1];
                    if (prev > key) { V(nm[m][z], "n = %d: elements %d and %d are out of order", n, i - 1, i); break; }
               }
               if (z == 3 && n) { int s = 0, t = 0; for (i = 0; i < n; ++i) { s += v[i]; t += k[i] - 1; } if (s != t) V(nm[m][z], "n = %d: elements lost", n); }
          }
          for (i = 0; i < n; ++i) if (q[i].key != k[i] || q[i].id != i) { V(nm[m][1], "n = %d: the data were moved", n); break; }
     }
     free(a); free(p); free(q); free(x); free(v);
}
static void sorting(long c) {   /* first letter of the case: its length; every sequence over the letters 0..2 (all permutations beyond) */
     int n = c, i, L = mc_thorough ? 10 : 8; unsigned char k[16]; long z, e;
     if (n <= L) {
          mc_ctx("all sequences of length %d over 3 values", n);
          for (z = 0, e = ipow(3, n); z < e; ++z) { long y = z; for (i = 0; i < n; ++i, y /= 3) k[i] = y % 3; sort_one(k, n, NULL); }
     } else {   /* all permutations of 1..7 (8), as sequences of distinct values, followed by a fixed tail so that the quick sort splits */
          int m = mc_thorough ? 8 : 7, w = n - L - 1, used; long f = 1;
          for (i = 2; i <= m; ++i) f *= i;
          mc_ctx("all permutations of %d values with a tail of %d", m, w);
          for (z = 0; z < f; ++z) {
               long y = z; int j; used = 0;
               for (i = 0; i < m; ++i) { int r = y % (m - i); y /= m - i; for (j = 0; ; ++j) if (! (used >> j & 1) && r-- == 0) break; used |= 1 << j; k[i] = 2 * j; }
               for (i = 0; i < w; ++i) k[m + i] = (7 * i + 3) % 13;
               sort_one(k, m + w, NULL);
          }
     }
     mc_count("comparisons", ncmp); mc_sample("length %d sorted by 8 routines", n);
}

/* ------------------------------------------------------------------ comparison */
#define CMP(pf, T, ...) do { static const T v[] = {__VA_ARGS__}; int m = N(v), i, j, l, z; \
     for (i = 0; i < m; ++i) for (j = 0; j < m; ++j) { T a = v[i], b = v[j]; int w = a < b ? -1 : a > b; ONE(4); \
          if (cmp_##pf(a, b) != w) V("cmp_" #pf, "(%g, %g) gives %d", (double) a, (double) b, cmp_##pf(a, b)); \
          if (cmp_p_##pf(&a, &b) != w) V("cmp_p_" #pf, "(%g, %g) gives %d", (double) a, (double) b, cmp_p_##pf(&a, &b)); \
          if (cmp_dec_##pf(a, b) != -w) V("cmp_dec_" #pf, "(%g, %g) gives %d", (double) a, (double) b, cmp_dec_##pf(a, b)); \
          if (cmp_dec_p_##pf(&a, &b) != -w) V("cmp_dec_p_" #pf, "(%g, %g) gives %d", (double) a, (double) b, cmp_dec_p_##pf(&a, &b)); } \
     for (l = 0; l <= 3; ++l) { T *a = malloc(l * sizeof(T) + ! l), *b = malloc(l * sizeof(T) + ! l); long x, y, e = ipow(3, l); \
          for (x = 0; x < e; ++x) for (y = 0; y < e; ++y) { long p = x, q = y; int w = 0; \
               for (z = 0; z < l; ++z, p /= 3, q /= 3) { a[z] = v[p % 3]; b[z] = v[q % 3]; if (! w) w = a[z] < b[z] ? -1 : a[z] > b[z]; } ONE(2); \
               if (cmp_n_##pf(a, b, l) != w) { V("cmp_n_" #pf, "of %d elements, sequences %ld and %ld over 3 values: %d", l, x, y, cmp_n_##pf(a, b, l)); l = 9; break; } \
               if (cmp_dec_n_##pf(a, b, l) != -w) { V("cmp_dec_n_" #pf, "of %d elements, sequences %ld and %ld over 3 values: %d", l, x, y, cmp_dec_n_##pf(a, b, l)); l = 9; break; } } \
          free(a); free(b); } } while (0)
static void compare(long c) {
     switch (c) {
     case 0: CMP(uc, uchar, 0, 1, 255, 127, 128); break;      case 1: CMP(c, char, -128, 0, 127, 1, -1); break;
     case 2: CMP(us, ushort, 0, 65535, 32768, 1); break;      case 3: CMP(s, short, -32768, 32767, 0, -1, 1); break;
     case 4: CMP(ui, uint, 0, UINT_MAX, 0x80000000u, 1); break; case 5: CMP(i, int, INT_MIN, INT_MAX, 0, -1, 1); break;
     case 6: CMP(ul, ulong, 0, ULONG_MAX, LONG_MAX, 1, 1ul << 32); break; case 7: CMP(l, long, LONG_MIN, LONG_MAX, 0, -1, 1, 1l << 32, -(1l << 32)); break;
     case 8: CMP(ull, uint64_t, 0, UINT64_MAX, INT64_MAX, 1, 1ul << 32); break; case 9: CMP(ll, int64_t, INT64_MIN, INT64_MAX, 0, -1, 1, 1l << 32, -(1l << 32)); break;
     case 10: CMP(f, float, -1.f, .25f, .5f, 0.f, 3e38f, -3e38f, 1e-38f); break; case 11: CMP(d, double, -.5, .25, .5, 0., 1e308, -1e308, 1e-300, 1e-301); break;
     }
}

/* ------------------------------------------------------------------ strings */
static char *dup0(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
static int nextstr(char *s, int *len, int L, const char *A) {   /* all strings over A by length; s starts empty */
     int i, m = strlen(A);
     for (i = *len - 1; i >= 0; --i) { int d = strchr(A, s[i]) - A; if (d + 1 < m) { s[i] = A[d + 1]; return 1; } s[i] = A[0]; }
     if (*len >= L) return 0;
     s[(*len)++] = A[0]; s[*len] = 0; return 1;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void edits(long c) {
     char s[16] = "", w[16]; int len = 0, i, n; char *p, *q, *r;
     do {
          ONE(1);
          switch (c) {
          case 0:   /* replacement */
               p = dup0(s); strcpy(w, s); for (i = 0; w[i]; ++i) if (w[i] == 'a') w[i] = 'z';
               mc_ctx("str_replace_char(\"%s\")", s); str_replace_char(p, 'a', 'z');
               if (strcmp(p, w)) { V("str_replace_char", "of a by z in \"%s\": \"%s\"", s, p); free(p); return; }
               free(p); break;
          case 1: case 2: case 3:   /* blanks off the ends */
               for (i = 0; s[i] == ' ' && (c == 1 || c == 3); ++i) ;
               strcpy(w, s + i); n = strlen(w); while (n && w[n - 1] == ' ' && c >= 2) w[--n] = 0;
               p = dup0(s); mc_ctx("remove_pad(\"%s\", %ld)", s, c == 1 ? 0 : c == 2 ? 1 : 2); q = remove_pad(p, c == 1 ? 0 : c == 2 ? 1 : 2);
               if (strcmp(q, w)) { V("remove_pad", "of \"%s\", side %ld: \"%s\"", s, c - 1, q); free(p); return; }
               free(p); break;
          case 4:
               for (i = 0; s[i] == ' ' || s[i] == '\t'; ++i) ;
               strcpy(w, s + i); n = strlen(w); while (n && (w[n - 1] == ' ' || w[n - 1] == '\t')) w[--n] = 0;
               p = dup0(s); mc_ctx("trimm_string(\"%s\")", s); trimm_string(p);
               if (strcmp(p, w)) { V("trimm_string", "of \"%s\": \"%s\"", s, p); free(p); return; }
               free(p); break;
          case 5:
               p = dup0(s); q = dup0(s); r = dup0(s); mc_ctx("strtolower/strtoupper(\"%s\")", s); strtolower(p, q); strtoupper(p, r);
               for (i = 0; s[i]; ++i) if (q[i] != tolower(s[i]) || r[i] != toupper(s[i])) { V("strtolower, strtoupper", "of \"%s\": \"%s\", \"%s\"", s, q, r); return; }
               if (strlen(q) != strlen(s) || strlen(r) != strlen(s)) { V("strtolower, strtoupper", "of \"%s\": \"%s\", \"%s\"", s, q, r); return; }
               free(p); free(q); free(r); break;
          }
     } while (nextstr(s, &len, mc_thorough ? 8 : 6, c == 0 ? "abz" : c == 4 ? " \ta" : c == 5 ? "aZ1z" : " ab"));
}
static void pairs(long c) {   /* string comparisons over pairs */
     char s[8] = "", t[8]; int l1 = 0, l2, i, w, n, L = mc_thorough ? 4 : 3;
     do { l2 = 0; t[0] = 0;
          do {
               char *p = dup0(s), *q = dup0(t); int r; mc_ctx("\"%s\", \"%s\"", s, t); ONE(1);
               if (c == 0) {
                    if (sgn(strcmp2(p, &q)) != sgn(strcmp(s, t)) || sgn(strcmp3(&p, &q)) != sgn(strcmp(s, t))) { V("strcmp2, strcmp3", "of \"%s\", \"%s\"", s, t); return; }
               } else if (c == 1) {
                    w = 0; for (i = 0; ! w && s[i] && t[i]; ++i) w = sgn(s[i] - t[i]);
                    if (sgn(mincmp(p, q)) != w) { V("mincmp", "of \"%s\", \"%s\": %d", s, t, mincmp(p, q)); return; }
                    for (n = 0; n <= 4; ++n) { w = 0; for (i = 0; i < n && ! w && s[i] && t[i]; ++i) w = sgn(s[i] - t[i]); if (sgn(r = minncmp(p, q, n)) != w) { V("minncmp", "of \"%s\", \"%s\", %d: %d", s, t, n, r); return; } }
               } else {
                    w = 0; for (i = 0; ! w; ++i) { w = sgn(tolower(s[i]) - tolower(t[i])); if (! s[i]) break; }
                    if (sgn(ncscmp(p, q)) != w) { V("ncscmp", "of \"%s\", \"%s\": %d", s, t, ncscmp(p, q)); return; }
                    for (n = 0; n <= 4; ++n) { w = 0; for (i = 0; i < n && ! w; ++i) { w = sgn(tolower(s[i]) - tolower(t[i])); if (! s[i]) break; } if (sgn(r = ncsncmp(p, q, n)) != w) { V("ncsncmp", "of \"%s\", \"%s\", %d: %d", s, t, n, r); return; } }
               }
               free(p); free(q);
          } while (nextstr(t, &l2, L, "aAbB"));
     } while (nextstr(s, &l1, L, "aAbB"));
}
/* tokens: the maximal runs of characters that are no delimiter; a quote at the start of a token makes the token end at the next such quote only */
static int ref_tok(const char *s, const char *d, char out[][16]) {
     int n = 0, i = 0, k; 
     for (;;) {
          const char *e = d;
          while (s[i] && s[i] != '\'' && s[i] != '"' && strchr(d, s[i])) i++;
          if (s[i] == '\'') { e = "'"; i++; } else if (s[i] == '"') { e = "\""; i++; }
          if (! s[i]) return n;
          for (k = 0; s[i] && ! strchr(e, s[i]); ++i) out[n][k++] = s[i];
          out[n++][k] = 0;
          if (! s[i]) return n;
          i++;
     }
}
static void tokens(long c) {
     static const char *del[] = {",", ", ", "\t ,"}; const char *d = del[c % 3], *A = c < 3 ? "a, b" : "a,' \""; char s[16] = "", out[16][16], *tok[16], *last; int len = 0, i, n, m;
     do {
          char *p = dup0(s), *q; n = ref_tok(s, d, out); mc_ctx("tokens of [%s] by [%s]", s, d); ONE(1);
          for (i = 0; i < 16; ++i) tok[i] = NULL;
          m = tokenize(p, tok, (char *) d);
          for (i = 0; i < n && i < m && tok[i] && ! strcmp(tok[i], out[i]); ++i) ;
          if (m != n || i < n) { V("tokenize", "of [%s] by [%s]: %d tokens instead of %d, or token %d is [%s] instead of [%s]", s, d, m, n, i, i < m && tok[i] ? tok[i] : "", i < n ? out[i] : ""); return; }
          free(p);
          for (m = 1; m <= n + 1; ++m) {
               p = dup0(s); q = get_token_init(p, m, (char *) d, &last);
               if (m <= n ? ! q || strcmp(q, out[m - 1]) : q != NULL) { V("get_token_init", "token %d of [%s] by [%s]: [%s]", m, s, d, q ? q : "NULL"); return; }
               if (m < n) { q = get_token(n - m, (char *) d, &last); if (! q || strcmp(q, out[n - 1])) { V("get_token", "token %d of [%s] by [%s]: [%s]", n - m, s, d, q ? q : "NULL"); return; } }
               free(p);
          }
          if (c < 3) { int k = 0, in = 0; for (i = 0; s[i]; ++i) { if (strchr(d, s[i])) in = 0; else if (! in) { in = 1; k++; } } p = dup0(s); if (count_tokens(p, (char *) d) != k) { V("count_tokens", "of [%s] by [%s]: %d", s, d, count_tokens(p, (char *) d)); return; } free(p); }
     } while (nextstr(s, &len, mc_thorough ? 8 : 6, A));
}

/* ------------------------------------------------------------------ conversion of text to numbers and booleans */
static void boolean(long c) {
     static const char *ok[] = {"0", "1", "f", "F", "t", "T"}; char s[16] = "", w[16]; int len = 0, i, x, r;
     const char *A = c == 0 ? "01ft " : "atru"; int L = c == 0 ? 4 : 5;
     if (c == 2) {   /* the words in every combination of case, and with one character more, less or different */
          static const char *wd[] = {"true", "false"}; int k, m, e;
          for (k = 0; k < 2; ++k) { int n = strlen(wd[k]); for (m = 0; m < 1 << n; ++m) for (e = -1; e < 3 * n + 2; ++e) {
               char *p; strcpy(s, wd[k]); for (i = 0; i < n; ++i) if (m >> i & 1) s[i] = toupper(s[i]);
               if (e >= 3 * n) strcat(s, e == 3 * n ? "x" : "e "); else if (e >= 0) { if (e % 3 == 0) s[e / 3] = 'x'; else if (e % 3 == 1) s[e / 3] = 0; else memmove(s + e / 3, s + e / 3 + 1, n - e / 3); }
               strtolower(s, w); p = dup0(s); x = 7; mc_ctx("gstrtob(\"%s\")", s); ONE(1); r = gstrtob(p, &x); free(p);
               i = ! strcmp(w, "true") || ! strcmp(w, "t") ? 1 : ! strcmp(w, "false") || ! strcmp(w, "f") ? 0 : -1;
               if (r != (i < 0 ? -1 : 0) || (i >= 0 && x != i)) { V("gstrtob", "of \"%s\": %d, value %d", s, r, x); return; }
          } }
          if (strcmp(gbtostr(0), "false") || strcmp(gbtostr(1), "true") || strcmp(gbtostr(-3), "true")) V("gbtostr", "wrong");
          return;
     }
     do {
          char *p = dup0(s); int w0 = -1, k; const char *q = s; while (isspace((unsigned char) *q)) q++;
          for (k = 0; k < N(ok); ++k) if (! strcmp(q, ok[k])) w0 = k % 2 == 1 && k < 2 ? 1 : k >= 4;
          if (! strcmp(q, "true")) w0 = 1;
          x = 7; mc_ctx("gstrtob(\"%s\")", s); ONE(1); r = gstrtob(p, &x); free(p);
          if (r != (w0 < 0 ? -1 : 0) || (w0 >= 0 && x != w0)) { V("gstrtob", "of \"%s\": %d, value %d", s, r, x); return; }
     } while (nextstr(s, &len, L, A));
}
/* decimal text: optional blanks, an optional sign, digits only; the value or an error when it is no such text or does not fit */
static int ref_int(const char *s, __int128 *v) {
     int neg = 0; __int128 x = 0; while (isspace((unsigned char) *s)) s++;
     if (*s == '-' || *s == '+') neg = *s++ == '-';
     if (! isdigit((unsigned char) *s)) return -1;
     for (; isdigit((unsigned char) *s); ++s) if (x < (__int128) 1 << 100) x = 10 * x + (*s - '0');
     *v = neg ? -x : x; return *s ? -1 : 0;
}
#define TI(pf, T, lo, hi) do { T x = 77; int r, w, k; __int128 v = 0; char *p = dup0(s); mc_ctx("gstrto" #pf "(\"%s\")", s); ONE(1); r = gstrto##pf(p, &x); free(p); k = ref_int(s, &v); \
     w = k == 0 && v >= (__int128) (lo) && v <= (__int128) (hi) ? 0 : -1; \
     if (strchr(s, '-') && (lo) == 0) w = r ? -1 : w;   /* a minus sign for an unsigned type: either reading as an error or as zero */ \
     if (r != w || (r == 0 && (__int128) x != v)) { V("gstrto" #pf, "of \"%s\": returns %d, value %.17g", s, r, (double) x); return; } } while (0)
static void integer1(long c, const char *s) {
     switch (c) { case 0: TI(us, ushort, 0, USHRT_MAX); break; case 1: TI(s, short, SHRT_MIN, SHRT_MAX); break; case 2: TI(ui, uint, 0, UINT_MAX); break; case 3: TI(i, int, INT_MIN, INT_MAX); break;
     case 4: TI(ul, ulong, 0, ULONG_MAX); break; case 5: TI(l, long, LONG_MIN, LONG_MAX); break; case 6: TI(ull, uint64_t, 0, UINT64_MAX); break; case 7: TI(ll, int64_t, INT64_MIN, INT64_MAX); break; }
}
static void integer(long c) {
     char s[64] = ""; int len = 0, i, d, g; static const __int128 b[] = {0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, INT64_MAX, (__int128) INT64_MAX + 1, UINT64_MAX, (__int128) UINT64_MAX + 1, (__int128) 10 * UINT64_MAX};
     do integer1(c, s); while (nextstr(s, &len, mc_thorough ? 6 : 5, "09-+ x"));
     for (i = 0; i < N(b); ++i) for (d = -2; d <= 2; ++d) for (g = 0; g < 3; ++g) {   /* around every limit */
          __int128 v = b[i] + d; char t[64]; int k = 63; if (v < 0) continue;
          t[k] = 0; do t[--k] = '0' + (int) (v % 10); while (v /= 10);
          snprintf(s, sizeof(s), "%s%s", g == 1 ? "-" : g == 2 ? " +" : "", t + k); integer1(c, s);
     }
     { int r; char x[16]; memset(x, 0, 16); r = c == 0 ? gstrtous(NULL, (ushort *) x) : c == 1 ? gstrtos(NULL, (short *) x) : c == 2 ? gstrtoui(NULL, (uint *) x) : c == 3 ? gstrtoi(NULL, (int *) x) : c == 4 ? gstrtoul(NULL, (ulong *) x) : c == 5 ? gstrtol(NULL, (long *) x) : c == 6 ? gstrtoull(NULL, (uint64_t *) x) : gstrtoll(NULL, (int64_t *) x);
       if (r != -1) V("gstrto NULL", "accepted"); }
}
static void real1(long c, const char *s) {
     char *p = dup0(s), *e; double x = 77, v = strtod(s, &e); float f = 77; int r, w = *s && ! *e ? 0 : -1; mc_ctx("gstrto%c(\"%s\")", c ? 'f' : 'd', s); ONE(1);
     if (c == 0) { r = gstrtod(p, &x); if (w == 0 && isinf(v)) w = -1; if (w == 0 && v && fabs(v) < 2.3e-308) w = r; if (r != w || (r == 0 && x != v)) V("gstrtod", "of \"%s\": returns %d, value %.17g", s, r, x); }
     else { r = gstrtof(p, &f); if (w == 0 && isinf((float) v)) w = -1; if (w == 0 && v && fabs(v) < 1.2e-38) w = r; if (r != w || (r == 0 && f != (float) v)) V("gstrtof", "of \"%s\": returns %d, value %.17g", s, r, f); }
     free(p);
}
static void real(long c) {
     char s[64] = ""; int len = 0, i; static const char *m[] = {"1", "-2.5", ".5", "3.", "9.99"};
     do { if (*s == 0 || strspn(s, " ") < strlen(s)) real1(c, s); } while (nextstr(s, &len, mc_thorough ? 6 : 5, "19.-e x"));
     for (i = -320; i <= 320; ++i) { int k; for (k = 0; k < N(m); ++k) { snprintf(s, sizeof(s), "%se%d", m[k], i); real1(c, s); } }
}

/* ------------------------------------------------------------------ fixed width fields */
static void fields(long c) {
     int size = c % 4 + 1, n = c / 4 % 4, start = c / 16 % 3, i, l, tot = start + size * n + 2; uchar *s = malloc(tot), *t = malloc(tot), *o = malloc(size * n + 1); void **v = malloc(n * sizeof(void *) + 1); char **r = (char **) v;
     mc_ctx("%d fields of width %d at %d", n, size, start); ONE(12);
#define FILL for (i = 0; i < tot; ++i) s[i] = t[i] = 'A' + i % 50; memset(o, '?', size * n + 1); for (i = 0; i < n; ++i) { free(i < 0 ? NULL : NULL); memset(v[i], '?', size); }
#define SAME1(name) for (i = 0; i < size * n; ++i) if (o[i] != t[start + i]) { V(name, "%d of width %d at %d: byte %d", n, size, start, i); break; } if (memcmp(s, t, tot)) V(name, "the source is changed");
#define SAME2(name) for (i = 0; i < n; ++i) for (l = 0; l < size; ++l) if ((uchar) r[i][l] != t[start + i * size + l]) { V(name, "%d of width %d at %d: byte %d of %d", n, size, start, l, i); break; }
     for (i = 0; i < n; ++i) v[i] = malloc(size);
     FILL extract_array_1d(s, o, start, size, n); SAME1("extract_array_1d")
     FILL extract_c_array_1d(s, (char *) o, start, size, n); SAME1("extract_c_array_1d")
     FILL extract_uc_array_1d(s, o, start, size, n); SAME1("extract_uc_array_1d")
     FILL extract_array_2d(s, v, start, size, n); SAME2("extract_array_2d")
     FILL extract_c_array_2d(s, (char **) v, start, size, n); SAME2("extract_c_array_2d")
     FILL extract_uc_array_2d(s, (uchar **) v, start, size, n); SAME2("extract_uc_array_2d")
#define INS(name, call) FILL for (i = 0; i < size * n; ++i) { o[i] = 'a' + i; r[i / size][i % size] = 'a' + i; } call; \
     for (i = 0; i < tot; ++i) if (s[i] != (i >= start && i < start + size * n ? 'a' + (i - start) : t[i])) { V(name, "%d of width %d at %d: byte %d", n, size, start, i); break; }
     INS("insert_array_1d", insert_array_1d(s, o, start, size, n)) INS("insert_c_array_1d", insert_c_array_1d(s, (char *) o, start, size, n)) INS("insert_uc_array_1d", insert_uc_array_1d(s, o, start, size, n))
     INS("insert_array_2d", insert_array_2d(s, v, start, size, n)) INS("insert_c_array_2d", insert_c_array_2d(s, (char **) v, start, size, n)) INS("insert_uc_array_2d", insert_uc_array_2d(s, (uchar **) v, start, size, n))
     for (i = 0; i < n; ++i) free(v[i]); free(v); free(o); free(s); free(t);
     if (size < 2) return;
     /* numbers: written and read back */
     { int w = 4 * size, b[4], b2[4]; long q[4], q2[4]; float f[4], f2[4]; double d[4], d2[4]; char e[64]; s = malloc(start + w * n + 1); t = malloc(start + w * n + 1);
       for (i = 0; i < n; ++i) { b[i] = i == 0 ? -7 : 100 * i; q[i] = i == 1 ? -99999 : 3 * i; f[i] = -1.25f * i; d[i] = i == 2 ? -12.5 : .25 * i; }
#define NUM(name, put, get, fmt, arr, arr2, ...) memset(s, '#', start + w * n + 1); put; for (i = 0; i < n; ++i) { snprintf(e, sizeof(e), fmt, __VA_ARGS__); if (memcmp(s + start + i * w, e, w)) { V(name, "field %d of width %d is not [%s]", i, w, e); break; } } \
       for (i = 0; i < start; ++i) if (s[i] != '#') V(name, "byte %d before the fields written", i); if (s[start + w * n] != '#') V(name, "byte behind the fields written"); \
       get; for (i = 0; i < n; ++i) if (arr[i] != arr2[i]) { V(name, "field %d read back as %g", i, (double) arr2[i]); break; }
       NUM("insert_int, extract_int", insert_int(s, b, start, w, n), extract_int(s, b2, start, w, n), "%*d", b, b2, w, b[i])
       NUM("insert_long, extract_long", insert_long(s, q, start, w, n), extract_long(s, q2, start, w, n), "%*ld", q, q2, w, q[i])
       NUM("insert_float, extract_float", insert_float(s, f, start, w, 2, n), extract_float(s, f2, start, w, n), "%*.*f", f, f2, w, 2, f[i])
       NUM("insert_double, extract_double", insert_double(s, d, start, w, 2, n), extract_double(s, d2, start, w, n), "%*.*f", d, d2, w, 2, d[i])
       if (w >= 12) { NUM("insert_scientific_e", insert_scientific_e(s, d, start, w, 3, n), extract_double(s, d2, start, w, n), "%*.*e", d, d2, w, 3, d[i])
       NUM("insert_scientific_E", insert_scientific_E(s, d, start, w, 3, n), extract_double(s, d2, start, w, n), "%*.*E", d, d2, w, 3, d[i]) }
       free(s); free(t); }
}

/* ------------------------------------------------------------------ reading of files */
static void files(long c) {
     char s[16] = "", *b; int len = 0, i, n, k; FILE *fp = NULL; (void) c;
     do {
          b = dup0(s); n = strlen(s); if (! n) { free(b); continue; }
          mc_ctx("file [%s]", s); ONE(1); fp = fmemopen(b, n, "r");
          for (k = 0, i = 0; i < n; ++i) k += s[i] == '\n';
          if (c == 0) {   /* lines */
               int p = 0, j;
               while (1) {
                    for (i = p, j = 0; i < n; ++i) j += s[i] == '\n';
                    if ((i = gcount_lines(fp)) != j) { V("gcount_lines", "at %d of [%s]: %d", p, s, i); return; }
                    if (ftell(fp) != p) { V("gcount_lines", "moves from %d to %ld in [%s]", p, ftell(fp), s); return; }
                    for (i = p; i < n && s[i] != '\n'; ++i) ;
                    j = gpass_newline(fp);
                    if (j != (i < n ? 0 : 1)) { V("gpass_newline", "at %d of [%s]: %d", p, s, j); return; }
                    if (i >= n) break;
                    p = i + 1;
               }
          } else if (c == 1) {   /* comment lines, and empty lines, are passed */
               int p = 0, r;
               while (p < n && (s[p] == '#' || s[p] == '\n')) { while (p < n && s[p] != '\n') p++; if (p < n) p++; }
               gparse_comments(fp, '#'); r = fgetc(fp);
               if (r != (p < n ? s[p] : EOF)) { V("gparse_comments", "of [%s] stops before [%c]", s, r); return; }
          } else {   /* fields: separated by commas, lines by newlines; comments and empty lines are passed over */
               gparse_data d; char t[8], out[16][16]; int m = 0, j = 0, q, at, first = 1;
               /* reference: the fields in order; a line that ends or starts with a delimiter, and adjacent delimiters, are left out */
               for (i = 0; i < n; ) { at = 0; while (i < n && s[i] != '\n' && s[i] != '#') { if (s[i] == ',') { at = 0; i++; continue; } if (! at) { out[m][0] = 0; m++; at = 1; } q = strlen(out[m - 1]); out[m - 1][q] = s[i]; out[m - 1][q + 1] = 0; i++; } while (i < n && s[i] != '\n') i++; i++; }
               (void) first;
               if (! strstr(s, ",\n") && ! strstr(s, ",#") && s[n - 1] != ',') {
                    gparse_init(&d, '#');
                    for (j = 0; j < m; ++j) { memset(t, '?', 8); gparse_string(&d, fp, 8, t, ","); if (strcmp(t, out[j])) { V("gparse_string", "field %d of [%s] is [%.8s] instead of [%s]", j, s, t, out[j]); return; } }
                    if (gparse_string(&d, fp, 8, t, ",") != '\0') { V("gparse_string", "a field behind the last of [%s]: [%.8s]", s, t); return; }
               }
               rewind(fp); gparse_init(&d, '#'); for (j = 0; j < 12; ++j) { char *h = malloc(3); gparse_string(&d, fp, 3, h, ","); free(h); gparse_newline(&d, fp); }   /* memory only */
               rewind(fp); gparse_init(&d, '#'); gparse_int(&d, fp, ","); gparse_double(&d, fp, ","); gparse_char(&d, fp, ",");
          }
          fclose(fp); free(b);
     } while (nextstr(s, &len, mc_thorough ? 8 : 6, c == 2 ? "1,\n#" : "a\n#"));
}

/* ------------------------------------------------------------------ arrays of pointers to rows */
#define MAXR 7
static size_t total(int r, const size_t *d) { size_t t = 1; int i; for (i = 0; i < r; ++i) t *= d[i]; return t; }
static unsigned char *elem(void *a, int r, const size_t *d, size_t k, int size) {   /* element k in row-major order, through the pointers */
     size_t ix[MAXR]; int i; for (i = r - 1; i >= 0; --i) { ix[i] = k % d[i]; k /= d[i]; }
     for (i = 0; i < r - 1; ++i) a = ((void **) a)[ix[i]];
     return (unsigned char *) a + ix[r - 1] * size;
}
static int fillcheck(const char *what, void *a, int r, const size_t *d, int size, int put, int key) {
     size_t k, n = total(r, d); int j; unsigned char *base; if (! n) return 0; base = elem(a, r, d, 0, size);
     for (k = 0; k < n; ++k) { unsigned char *e = elem(a, r, d, k, size); if (e != base + k * size) { V(what, "rank %d: element %zu is not in row-major order", r, k); return 1; }
          for (j = 0; j < size; ++j) { if (put) e[j] = (unsigned char) (key + 31 * k + j); else if (e[j] != (unsigned char) (key + 31 * k + j)) { V(what, "rank %d: element %zu is not that stored", r, k); return 1; } } }
     return 0;
}
static void arrays(long c) {
     static const int sz[] = {1, 3, 8, 16}; int r = c / 4 + 1, size = sz[c % 4], i, m = r <= 4 ? 4 : 3; size_t d[MAXR], e[MAXR]; long z, n = ipow(m, r);
     for (z = 0; z < n; ++z) {
          long y = z; void *a, *b; char *mem; for (i = 0; i < r; ++i, y /= m) { d[i] = y % m; e[i] = d[i]; } 
          mc_ctx("rank %d, element of %d bytes, dimensions %ld", r, size, z); ONE(1);
          if (! (a = alloc_array(r, d, size))) { V("alloc_array", "fails"); return; }
          if (fillcheck("alloc_array", a, r, d, size, 1, 5) || fillcheck("alloc_array", a, r, d, size, 0, 5)) return;
          if (! (b = dup_array(a, r, d, size))) { V("dup_array", "fails"); return; }
          if (fillcheck("dup_array", b, r, d, size, 0, 5) || fillcheck("dup_array", b, r, d, size, 1, 9) || fillcheck("dup_array", a, r, d, size, 0, 5)) return;
          copy_array(a, b, r, d, size); if (fillcheck("copy_array", a, r, d, size, 0, 9)) return;
          free_array(b, r); 
          for (i = 0; i < r; ++i) e[i] = d[i] % (m - 1) + 1;   /* larger or smaller */
          if (! (a = realloc_array(a, r, e, size))) { V("realloc_array", "fails"); return; }
          if (fillcheck("realloc_array", a, r, e, size, 1, 3) || fillcheck("realloc_array", a, r, e, size, 0, 3)) return;
          free_array(a, r);
          mem = malloc(array_mem_length(r, d, size)); a = array_from_mem(mem, r, d, size, 0);
          if (fillcheck("array_from_mem", a, r, d, size, 1, 11) || fillcheck("array_from_mem", a, r, d, size, 0, 11)) return;
          free(mem);
          mem = malloc(total(r, d) * size); a = array_from_mem(mem, r, d, size, 1);
          if (fillcheck("array_from_mem, own data", a, r, d, size, 1, 13) || fillcheck("array_from_mem, own data", a, r, d, size, 0, 13)) return;
          if (total(r, d) && (char *) elem(a, r, d, 0, size) != mem) { V("array_from_mem, own data", "the data are elsewhere"); return; }
          if (a != (void *) mem) free_array(a, r);
          free(mem);
     }
}
#define DUP1(pf, a, ...) dup_array1_##pf(a, __VA_ARGS__)
#define DUP2(pf, a, ...) dup_array2_##pf(a, __VA_ARGS__)
#define DUP3(pf, a, ...) dup_array3_##pf(a, __VA_ARGS__)
#define DUP4(pf, a, ...) alloc_array4_##pf(__VA_ARGS__); copy_array4_##pf(b, a, __VA_ARGS__)
#define DUP5(pf, a, ...) alloc_array5_##pf(__VA_ARGS__); copy_array5_##pf(b, a, __VA_ARGS__)
#define DUP6(pf, a, ...) alloc_array6_##pf(__VA_ARGS__); copy_array6_##pf(b, a, __VA_ARGS__)
#define TYPED(r, pf, T, star, DIM, ...) do { T star a, star b; T *mem; size_t k, n = total(r, d); if (! (a = alloc_array##r##_##pf(__VA_ARGS__))) { V("alloc_array" #r "_" #pf, "fails"); return; } \
     init_array##r##_##pf(a, __VA_ARGS__, (T) 3); for (k = 0; k < n; ++k) if (*(T *) elem(a, r, d, k, sizeof(T)) != (T) 3) { V("init_array" #r "_" #pf, "element %zu", k); return; } \
     for (k = 0; k < n; ++k) *(T *) elem(a, r, d, k, sizeof(T)) = (T) (k + 1); \
     b = DUP##r(pf, a, __VA_ARGS__); for (k = 0; k < n; ++k) if (*(T *) elem(b, r, d, k, sizeof(T)) != (T) (k + 1)) { V("dup_array" #r "_" #pf, "element %zu", k); return; } \
     for (k = 0; k < n; ++k) *(T *) elem(b, r, d, k, sizeof(T)) = (T) (k + 2); \
     copy_array##r##_##pf(a, b, __VA_ARGS__); for (k = 0; k < n; ++k) if (*(T *) elem(a, r, d, k, sizeof(T)) != (T) (k + 2)) { V("copy_array" #r "_" #pf, "element %zu", k); return; } \
     free_array##r##_##pf(b); a = realloc_array##r##_##pf(a, __VA_ARGS__); for (k = 0; k < n; ++k) if (*(T *) elem(a, r, d, k, sizeof(T)) != (T) (k + 2)) { V("realloc_array" #r "_" #pf, "element %zu", k); return; } \
     free_array##r##_##pf(a); mem = malloc(n * sizeof(T)); for (k = 0; k < n; ++k) mem[k] = (T) (k + 4); a = array_from_mem##r##_##pf(mem, __VA_ARGS__); \
     for (k = 0; k < n; ++k) if (*(T *) elem(a, r, d, k, sizeof(T)) != (T) (k + 4)) { V("array_from_mem" #r "_" #pf, "element %zu", k); return; } \
     if (r > 1) free(a); free(mem); ONE(1); } while (0)
#define ALLR(pf, T) do { TYPED(1, pf, T, *, 1, d[0]); TYPED(2, pf, T, **, 2, d[0], d[1]); TYPED(3, pf, T, ***, 3, d[0], d[1], d[2]); TYPED(4, pf, T, ****, 4, d[0], d[1], d[2], d[3]); \
     TYPED(5, pf, T, *****, 5, d[0], d[1], d[2], d[3], d[4]); TYPED(6, pf, T, ******, 6, d[0], d[1], d[2], d[3], d[4], d[5]); } while (0)
static void typed(long c) {
     size_t d[6]; int i, m = 2; long z, n = ipow(m, 6);
     for (z = 0; z < n; ++z) { long y = z; for (i = 0; i < 6; ++i, y /= m) d[i] = y % m ? 3 : 1 + (z % 5 == i); mc_ctx("typed arrays, dimensions %ld", z);
          switch (c) { case 0: ALLR(uc, uchar); break; case 1: ALLR(c, char); break; case 2: ALLR(us, ushort); break; case 3: ALLR(s, short); break; case 4: ALLR(ui, uint); break; case 5: ALLR(i, int); break; case 6: ALLR(ul, ulong); break;
          case 7: ALLR(l, long); break; case 8: ALLR(f, float); break; case 9: ALLR(d, double); break; case 10: ALLR(fc, fcomplex); break; case 11: ALLR(dc, dcomplex); break; } }
}

/* ------------------------------------------------------------------ matrices: the routines are linear in each operand, so the unit matrices and one full matrix determine them */
typedef dcomplex Z;
static double **dm(int m, int n) { double **a = alloc_array2_d(m, n); int i, j; for (i = 0; i < m; ++i) for (j = 0; j < n; ++j) a[i][j] = 1e300; return a; }
static Z **zm(int m, int n) { Z **a = alloc_array2_dc(m, n); int i, j; for (i = 0; i < m; ++i) for (j = 0; j < n; ++j) a[i][j] = 1e300; return a; }
static double fd(int k, int i, int j, int n) { return k < 0 ? 1 + 2 * ((7 * i + 3 * j + i * j) % 5) - (i + 2 * j) * .5 : i * n + j == k ? 1 : 0; }   /* unit matrix k, or the full one */
static Z fz(int k, int i, int j, int n) { return k < 0 ? fd(k, i, j, n) + _Complex_I * fd(k, j + 1, i, n) : i * n + j == k ? (k % 2 ? 1 : _Complex_I) : 0; }
static int mm, mn, mo;
#define EQ(what, got, want) do { if (! (cabs((Z) (got) - (Z) (want)) <= 1e-12 * (1 + cabs((Z) (want))))) { V(what, "%d x %d (%d), element (%d,%d): %.15g%+.15gi instead of %.15g%+.15gi", mm, mn, mo, i, j, creal((Z) (got)), cimag((Z) (got)), creal((Z) (want)), cimag((Z) (want))); return; } } while (0)
#define ALL(m, n) for (i = 0; i < (m); ++i) for (j = 0; j < (n); ++j)
#define GENOPS(P, T, MK, F, FREE, ABS, CJ) \
static void P##elem1(int m, int n) { T **a = MK(m, n), **b = MK(m, n), **c = MK(m, n), **t = MK(n, m), *v = (T *) calloc(8, sizeof(T)), *w = calloc(8, sizeof(T)); int i, j, k, s = m == n; double x, y; \
     for (k = -1; k < m * n; ++k) { \
          ALL(m, n) { a[i][j] = F(k, i, j, n); b[i][j] = F(-1, j, i, m) + 2.; } for (i = 0; i < 8; ++i) { v[i] = i + 2; w[i] = F(-1, i, 2, 1) + 9.; } ONE(20); \
          P##mat_zero(c, m, n); ALL(m, n) EQ(#P "mat_zero", c[i][j], 0.); \
          P##mat_init(c, 2.5, m, n); ALL(m, n) EQ(#P "mat_init", c[i][j], i == j ? 2.5 : 0.); \
          P##mat_copy(c, a, m, n); ALL(m, n) EQ(#P "mat_copy", c[i][j], a[i][j]); \
          P##mat_trans(a, t, m, n); ALL(m, n) EQ(#P "mat_trans", t[j][i], a[i][j]); \
          x = 0; for (j = 0; j < n; ++j) { y = 0; for (i = 0; i < m; ++i) y += ABS(a[i][j]); if (y > x) x = y; } i = j = 0; EQ(#P "mat_p_one_norm", P##mat_p_one_norm(a, m, n), x); \
          x = 0; for (i = 0; i < m; ++i) { y = 0; for (j = 0; j < n; ++j) y += ABS(a[i][j]); if (y > x) x = y; } i = j = 0; EQ(#P "mat_p_inf_norm", P##mat_p_inf_norm(a, m, n), x); \
          x = 0; ALL(m, n) x += ABS(a[i][j]) * ABS(a[i][j]); i = j = 0; EQ(#P "mat_frob_norm", P##mat_frob_norm(a, m, n), sqrt(x)); \
          P##mat_add(a, b, c, m, n); ALL(m, n) EQ(#P "mat_add", c[i][j], a[i][j] + b[i][j]); \
          P##mat_sub(a, b, c, m, n); ALL(m, n) EQ(#P "mat_sub", c[i][j], a[i][j] - b[i][j]); \
          P##mat_scale(-1.5, a, c, m, n); ALL(m, n) EQ(#P "mat_scale", c[i][j], -1.5 * a[i][j]); \
          P##mat_mul_diag(a, v, c, m, n); ALL(m, n) EQ(#P "mat_mul_diag", c[i][j], a[i][j] * v[j]); \
          P##mat_mul_dinv(a, v, c, m, n); ALL(m, n) EQ(#P "mat_mul_dinv", c[i][j], a[i][j] / v[j]); \
          P##mat_diag_mul(v, a, c, m, n); ALL(m, n) EQ(#P "mat_diag_mul", c[i][j], a[i][j] * v[i]); \
          P##mat_dinv_mul(v, a, c, m, n); ALL(m, n) EQ(#P "mat_dinv_mul", c[i][j], a[i][j] / v[i]); \
          if (s) { \
               P##mat_add_trans(a, c, m, n); ALL(m, n) EQ(#P "mat_add_trans", c[i][j], a[i][j] + a[j][i]); \
               P##mat_sub_trans(a, c, m, n); ALL(m, n) EQ(#P "mat_sub_trans", c[i][j], a[i][j] - a[j][i]); \
               P##mat_copy(c, a, m, n); P##mat_add_trans(c, c, m, n); ALL(m, n) EQ(#P "mat_add_trans, in place", c[i][j], a[i][j] + a[j][i]); \
               P##mat_copy(c, a, m, n); P##mat_sub_trans(c, c, m, n); ALL(m, n) EQ(#P "mat_sub_trans, in place", c[i][j], a[i][j] - a[j][i]); \
               P##mat_add_diag(a, v, c, m); ALL(m, n) EQ(#P "mat_add_diag", c[i][j], a[i][j] + (i == j ? v[i] : 0)); \
               P##mat_sub_diag(a, v, c, m); ALL(m, n) EQ(#P "mat_sub_diag", c[i][j], a[i][j] - (i == j ? v[i] : 0)); \
               P##mat_diag_sub(v, a, c, m); ALL(m, n) EQ(#P "mat_diag_sub", c[i][j], (i == j ? v[i] : 0) - a[i][j]); \
               P##mat_i_sub(a, c, m); ALL(m, n) EQ(#P "mat_i_sub", c[i][j], (i == j ? 1 : 0) - a[i][j]); \
          } \
          { static const double al[] = {1, -1, 0, 2.5}; int p, q; for (p = 0; p < 4; ++p) for (q = 0; q < 4; ++q) { ONE(2); \
               P##mat_copy(c, b, m, n); P##mat_gxdxmx(0, a, v, al[p], c, al[q], m, n); ALL(m, n) EQ(#P "mat_gxdxmx", c[i][j], al[q] * b[i][j] + al[p] * a[i][j] * v[j]); \
               P##mat_trans(a, t, m, n); P##mat_copy(c, b, m, n); P##mat_gxdxmx(1, t, v, al[p], c, al[q], m, n); ALL(m, n) EQ(#P "mat_gxdxmx, transposed", c[i][j], al[q] * b[i][j] + al[p] * a[i][j] * v[j]); \
               if (k < 0) { P##mat_copy(c, b, m, n); P##mat_vxvtmx(v, w, al[p], c, al[q], m, n); ALL(m, n) EQ(#P "mat_vxvtmx", c[i][j], al[q] * b[i][j] + al[p] * v[i] * w[j]); } } } \
          { T u[8], u2[8], g; P##m_v_mul(a, v, m, n, u); j = 0; for (i = 0; i < m; ++i) { int l; g = 0; for (l = 0; l < n; ++l) g += a[i][l] * v[l]; EQ(#P "m_v_mul", u[i], g); } \
            for (i = 0; i < m; ++i) u[i] = u2[i] = w[i]; P##mat_gxvxmx(0, a, v, 2.5, u, -.5, m, n); for (i = 0; i < m; ++i) { int l; g = 0; for (l = 0; l < n; ++l) g += a[i][l] * v[l]; EQ(#P "mat_gxvxmx", u[i], 2.5 * g - .5 * u2[i]); } \
            for (i = 0; i < n; ++i) u[i] = u2[i] = w[i]; P##mat_gxvxmx(1, a, v, 2.5, u, -.5, m, n); for (i = 0; i < n; ++i) { int l; g = 0; for (l = 0; l < m; ++l) g += a[l][i] * v[l]; EQ(#P "mat_gxvxmx, transposed", u[i], 2.5 * g - .5 * u2[i]); } \
            if (s) { T **r = MK(1, m); P##v_m_mul(v, a, m, r); i = 0; for (j = 0; j < m; ++j) { int l; g = 0; for (l = 0; l < m; ++l) g += v[l] * a[l][j]; EQ(#P "v_m_mul", r[0][j], g); } FREE(r); } } \
     } \
     { T u[8]; j = 0; P##m_v_diag_mul(v, w, u, m); for (i = 0; i < m; ++i) EQ(#P "m_v_diag_mul", u[i], v[i] * w[i]); P##m_v_dinv_mul(v, w, u, m); for (i = 0; i < m; ++i) EQ(#P "m_v_dinv_mul", u[i], w[i] / v[i]); \
       P##vec_zero(u, m); for (i = 0; i < m; ++i) EQ(#P "vec_zero", u[i], 0.); P##vec_init(u, 2.5, m); for (i = 0; i < m; ++i) EQ(#P "vec_init", u[i], 2.5); P##vec_copy(u, w, m); for (i = 0; i < m; ++i) EQ(#P "vec_copy", u[i], w[i]); \
       { static const double al[] = {1, -1, 0, 2.5}; int p; for (p = 0; p < 4; ++p) { P##vec_scale(al[p], w, u, m); for (i = 0; i < m; ++i) EQ(#P "vec_scale", u[i], al[p] * w[i]); P##vec_copy(u, w, m); P##vec_scale(al[p], u, u, m); for (i = 0; i < m; ++i) EQ(#P "vec_scale, in place", u[i], al[p] * w[i]); } } \
       P##vec_add(v, w, u, m); for (i = 0; i < m; ++i) EQ(#P "vec_add", u[i], v[i] + w[i]); P##vec_sub(v, w, u, m); for (i = 0; i < m; ++i) EQ(#P "vec_sub", u[i], v[i] - w[i]); \
       P##vec_lin_cmb(v, 2, w, -3, u, m); for (i = 0; i < m; ++i) EQ(#P "vec_lin_cmb", u[i], 2 * v[i] - 3 * w[i]); P##vec_inv_elem(v, u, m); for (i = 0; i < m; ++i) EQ(#P "vec_inv_elem", u[i], 1. / v[i]); \
       P##vec_mul_elem(v, w, u, m); for (i = 0; i < m; ++i) EQ(#P "vec_mul_elem", u[i], v[i] * w[i]); P##vec_div_elem(w, v, u, m); for (i = 0; i < m; ++i) EQ(#P "vec_div_elem", u[i], w[i] / v[i]); \
       { T g = 0, h = 0; for (i = 0; i < m; ++i) { g += v[i] * w[i]; h += v[i] * v[i]; } i = 0; EQ(#P "vec_dot", P##vec_dot(v, w, m), g); EQ(#P "vec_mag", P##vec_mag(v, m) * P##vec_mag(v, m), h); P##vec_unit(v, u, m); for (i = 0; i < m; ++i) EQ(#P "vec_unit", u[i] * P##vec_mag(v, m), v[i]); } ONE(15); } \
     FREE(a); FREE(b); FREE(c); FREE(t); free(v); free(w); } \
static void P##product(int m, int n, int o) { T **a = MK(m, o), **b = MK(o, n), **at = MK(o, m), **bt = MK(n, o), **c = MK(m, n), **c0 = MK(m, n), **g = MK(m, n); int i, j, k, l, p, q, u; static const double al[] = {1, -1, 0, 2.5}; \
     ALL(m, n) c0[i][j] = F(-1, j, i, n) - 4.; \
     for (k = -1; k < m * o; ++k) for (l = -1; l < o * n; ++l) { \
          ALL(m, o) at[j][i] = a[i][j] = F(k, i, j, o); ALL(o, n) bt[j][i] = b[i][j] = F(l, i, j, n); ALL(m, n) for (u = 0, g[i][j] = 0; u < o; ++u) g[i][j] += a[i][u] * b[u][j]; ONE(1); \
          P##mat_mul(a, b, m, n, o, c); ALL(m, n) EQ(#P "mat_mul", c[i][j], g[i][j]); \
          for (p = 0; p < 4; ++p) for (q = 0; q < 4; ++q) { if (k >= 0 && l >= 0 && p != 3 && q != 3) continue; for (u = 0; u < 4; ++u) { P##mat_copy(c, c0, m, n); P##mat_gxgxmx(u & 1, u & 1 ? at : a, u >> 1, u >> 1 ? bt : b, al[p], c, al[q], m, n, o); ALL(m, n) EQ(u == 0 ? #P "mat_gxgxmx" : u == 1 ? #P "mat_gxgxmx, first transposed" : u == 2 ? #P "mat_gxgxmx, second transposed" : #P "mat_gxgxmx, both transposed", c[i][j], al[q] * c0[i][j] + al[p] * g[i][j]); } } \
     } \
     FREE(a); FREE(b); FREE(at); FREE(bt); FREE(c); FREE(c0); FREE(g); } \
static void P##solve(int n) { T **a = MK(n, n), **f = MK(n, n), **w1 = MK(n, n), **w2 = MK(n, n), **c = MK(n, n), **g = MK(n, n), **h = MK(n, n), z; int i, j, k, l, s, r, ip[8]; \
     for (k = -1; k < n * n; ++k) {   /* a dominant diagonal plus a unit matrix or the full one; the rows turned, so that pivots are exchanged */ \
          for (r = 0; r < (k < 0 ? n : 1); ++r) { ALL(n, n) a[(i + r) % n][j] = F(k, i, j, n) + (i == j ? 20. + i : 0); ONE(3); \
          P##mat_copy(f, a, n, n); P##mat_getrf(f, n, n, ip); P##mat_copy(g, f, n, n); P##mat_getri(f, n, ip); \
          ALL(n, n) { z = 0; for (l = 0; l < n; ++l) z += a[i][l] * f[l][j]; EQ(#P "mat_getrf, mat_getri", z, i == j ? 1. : 0.); } \
          for (s = 1; s <= n; ++s) { ALL(s, n) c[i][j] = h[i][j] = F(-1, i, j, n) + i; P##mat_getrs(g, c, n, s, ip); ALL(s, n) { z = 0; for (l = 0; l < n; ++l) z += a[j][l] * c[i][l]; EQ(#P "mat_getrs", z, h[i][j]); } \
               ALL(s, n) c[i][j] = h[i][j]; P##mat_getrs2('t', g, c, n, s, ip); ALL(s, n) { z = 0; for (l = 0; l < n; ++l) z += a[l][j] * c[i][l]; EQ(#P "mat_getrs2, transposed", z, h[i][j]); } } } \
     } \
     for (s = 0; s < 130; ++s) {   /* powers */ \
          ALL(n, n) a[i][j] = (i == j ? .5 + .25 * i : j == i + 1 ? .5 : 0); ONE(1); \
          P##mat_init(g, 1., n, n); for (k = 0; k < s; ++k) { P##mat_mul(g, a, n, n, n, h); P##mat_copy(g, h, n, n); } \
          P##mat_pow(a, s, c, n, n, w1, w2); ALL(n, n) EQ(#P "mat_pow", c[i][j], g[i][j]); } \
     { T dl[8], d[8], du[8], du2[8]; \
       for (k = 0; k < 4; ++k) for (s = 1; s <= 2 && n > 1; ++s) { ONE(1); ALL(n, n) a[i][j] = 0; for (i = 0; i < n; ++i) { a[i][i] = d[i] = k & 1 ? 5 + i : .1 * i; if (i < n - 1) { a[i + 1][i] = dl[i] = k & 2 ? -1. : 2. + i; a[i][i + 1] = du[i] = 1.5 - .25 * i; } } \
          if (! (k & 1) && n % 2) continue; \
          ALL(s, n) c[i][j] = h[i][j] = F(-1, i, j, n); P##mat_gttrf(dl, d, du, du2, n, ip); P##mat_gttrs(dl, d, du, du2, c, n, s, ip); ALL(s, n) { z = 0; for (l = 0; l < n; ++l) z += a[j][l] * c[i][l]; EQ(#P "mat_gttrs", z, h[i][j]); } } } \
     FREE(a); FREE(f); FREE(w1); FREE(w2); FREE(c); FREE(g); FREE(h); }
GENOPS(d, double, dm, fd, free_array2_d, fabs, )
GENOPS(z, Z, zm, fz, free_array2_dc, cabs, )
static void matrices(long c) {
     int m = c % 4 + 1, n = c / 4 % 4 + 1, z = c / 16 % 2; mm = m; mn = n; mo = 0; mc_ctx("%s matrices %d x %d", z ? "complex" : "real", m, n); if (z) zelem1(m, n); else delem1(m, n);
}
static void products(long c) {
     int M = mc_thorough ? 4 : 3, m = c % M + 1, n = c / M % M + 1, o = c / M / M % M + 1, z = c / M / M / M; mm = m; mn = n; mo = o; mc_ctx("%s product %d x %d x %d", z ? "complex" : "real", m, n, o); if (z) zproduct(m, n, o); else dproduct(m, n, o);
}
static void solves(long c) {
     int n = c / 2 + 1, i, j, l, s; mm = mn = n; mo = 0; mc_ctx("linear systems of %d", n); if (c % 2) zsolve(n); else dsolve(n);
     if (c % 2 == 0) {   /* symmetric positive definite ones */
          double **a = dm(n, n), **f = dm(n, n), **g = dm(n, n), **b = dm(n, n), **h = dm(n, n), x, w[64]; int k, ip[16];
          for (k = 0; k < 8; ++k) { ONE(3); ALL(n, n) a[i][j] = i == j ? 4 + i : k & 1 ? 1. / (1 + i + j) : k & 2 && (i - j == 1 || j - i == 1) ? -1 : k & 4 ? .3 : 0;
               dmat_copy(f, a, n, n); dmat_potrf(f, n); dmat_copy(g, f, n, n); x = dmat_pocon(g, n, dmat_p_one_norm(a, n, n), ip, w); if (! (x > 0 && x <= 1 + 1e-12)) { V("dmat_pocon", "%d: %g", n, x); return; }
               if (n == 1 || k == 0) { double lo = 1e9, hi = 0; for (i = 0; i < n; ++i) { if (a[i][i] < lo) lo = a[i][i]; if (a[i][i] > hi) hi = a[i][i]; } if (k == 0 && fabs(x - lo / hi) > 1e-12) { V("dmat_pocon", "of a diagonal matrix: %g instead of %g", x, lo / hi); return; } }
               for (s = 1; s <= n; ++s) { ALL(s, n) b[i][j] = h[i][j] = fd(-1, i, j, n); dmat_potrs(g, b, n, s); ALL(s, n) { x = 0; for (l = 0; l < n; ++l) x += a[j][l] * b[i][l]; EQ("dmat_potrs", x, h[i][j]); } }
               dmat_potri(f, n); /* one triangle */ ALL(n, n) if (j > i) f[j][i] = f[i][j]; ALL(n, n) { x = 0; for (l = 0; l < n; ++l) x += a[i][l] * f[l][j]; EQ("dmat_potri", x, i == j ? 1. : 0.); }
               dmat_copy(f, a, n, n); dmat_getrf(f, n, n, ip); x = dmat_gecon('1', f, n, dmat_p_inf_norm(a, n, n), ip, w); if (! (x > 0 && x <= 1 + 1e-12)) { V("dmat_gecon", "%d: %g", n, x); return; }
               if (positive_definite(a, n) != 1) { V("positive_definite", "%d: rejects", n); return; } a[n - 1][n - 1] = -2; if (positive_definite(a, n) != 0) { V("positive_definite", "%d: accepts", n); return; } }
          free_array2_d(a); free_array2_d(f); free_array2_d(g); free_array2_d(b); free_array2_d(h);
     }
}
/* ------------------------------------------------------------------ src/xrtm_matrix.c */
static void special(long c) {
     int n = c % 4 + 1, m = c / 4 + 1, i, j, l, k, p, q, f; static const double al[] = {1, -1, 0, 2.5}; double **a = dm(m, n), **b = dm(m, n), **t = dm(n, m), **r = dm(m, n), x, y; Z **z = zm(m, n), **z0 = zm(m, n);
     mm = m; mn = n; mo = 0; mc_ctx("%d x %d", m, n);
     for (k = -1; k < m * n; ++k) {
          ALL(m, n) { a[i][j] = fd(k, i, j, n); b[i][j] = fd(-1, j, i, n) - 3; z0[i][j] = fz(-1, i, j, n); } ONE(10);
          for (p = 0; p < 4; ++p) {
               dmat_scale_trans(a, t, al[p], m, n); ALL(m, n) EQ("dmat_scale_trans", t[j][i], al[p] * a[i][j]);
               dmat_scale_add(a, b, r, al[p], m, n); ALL(m, n) EQ("dmat_scale_add", r[i][j], a[i][j] + al[p] * b[i][j]);
               dvec_scale_add(a[0], b[0], r[0], al[p], n); i = 0; for (j = 0; j < n; ++j) EQ("dvec_scale_add", r[0][j], a[0][j] + al[p] * b[0][j]);
               for (q = 0; q < 4; ++q) { zmat_copy(z, z0, m, n); dmat_complex2(a, b, al[p], z, al[q], m, n); ALL(m, n) EQ("dmat_complex2", z[i][j], al[p] * (a[i][j] + _Complex_I * b[i][j]) + al[q] * z0[i][j]); }
          }
          dmat_complex(a, b, z, m, n); ALL(m, n) EQ("dmat_complex", z[i][j], a[i][j] + _Complex_I * b[i][j]);
          zmat_real(z, r, m, n); ALL(m, n) EQ("zmat_real", r[i][j], a[i][j]); zmat_imag(z, r, m, n); ALL(m, n) EQ("zmat_imag", r[i][j], b[i][j]);
          { double v[8]; for (i = 0; i < 8; ++i) v[i] = i - 2.5; dzmat_diag_mul(v, z0, z, m, n); ALL(m, n) EQ("dzmat_diag_mul", z[i][j], v[i] * z0[i][j]); }
          if (m == n) {
               x = 0; for (j = 0; j < n; ++j) { y = 0; for (i = 0; i < n; ++i) y += fabs(a[i][j]) + fabs(b[i][j]); if (y > x) x = y; } i = j = 0; EQ("dmat_p_one_norm_A", dmat_p_one_norm_A(a, b, n), x);
               x = 0; for (i = 0; i < n; ++i) { y = 0; for (j = 0; j < n; ++j) y += fabs(a[i][j]) + fabs(b[i][j]); if (y > x) x = y; } i = j = 0; EQ("dmat_p_inf_norm_A", dmat_p_inf_norm_A(a, b, n), x);
               x = 0; ALL(n, n) x += a[i][j] * a[i][j] + b[i][j] * b[i][j]; i = j = 0; EQ("dmat_frob_norm_A", dmat_frob_norm_A(a, b, n), sqrt(2 * x));
               dmat_copy(r, a, n, n); dmat_sym(r, n, 1.); ALL(n, n) EQ("dmat_sym", r[i][j], i <= j ? a[i][j] : a[j][i]);
               for (p = 1; p < 4; ++p) { dmat_copy(r, a, n, n); dmat_sym(r, n, al[p]); ALL(n, n) if (i != j) EQ("dmat_sym", r[i][j], i < j ? a[i][j] : al[p] * a[j][i]); }
               for (f = 0; f < 2; ++f) {   /* symmetric operands: the upper triangle, or with the flag the whole */
                    double **s = dm(n, n), **u = dm(n, n), **pr = dm(n, n), **qr = dm(n, n); ALL(n, n) { s[i][j] = a[i][j] + a[j][i]; u[i][j] = b[i][j] + b[j][i]; } ALL(n, n) for (pr[i][j] = qr[i][j] = l = 0; l < n; ++l) { pr[i][j] += s[i][l] * s[l][j]; qr[i][j] += u[i][l] * u[l][j]; }
#define SY(name, call, want) call; ALL(n, n) if (f || j >= i) EQ(name, r[i][j], want)
                    SY("dsym_add", dsym_add(s, u, r, n, f), s[i][j] + u[i][j]); SY("dsym_sub", dsym_sub(s, u, r, n, f), s[i][j] - u[i][j]); SY("dsym_mul", dsym_mul(s, s, n, n, r, f), pr[i][j]);
                    SY("dsym_mma", dsym_mma(s, s, u, u, n, n, r, f), pr[i][j] + qr[i][j]); SY("dsym_mms", dsym_mms(s, s, u, u, n, n, r, f), pr[i][j] - qr[i][j]); SY("dsym_m_a", dsym_m_a(s, s, u, n, n, r, f), pr[i][j] + u[i][j]); SY("dsym_m_s", dsym_m_s(s, s, u, n, n, r, f), pr[i][j] - u[i][j]);
                    ALL(n, n) for (pr[i][j] = l = 0; l < n; ++l) pr[i][j] += a[i][l] * b[l][j];
                    dsym_mta(a, b, n, n, r); ALL(n, n) EQ("dsym_mta", r[i][j], pr[i][j] + pr[j][i]); dsym_mts(a, b, n, n, r); ALL(n, n) EQ("dsym_mts", r[i][j], pr[i][j] - pr[j][i]); ONE(9);
                    free_array2_d(s); free_array2_d(u); free_array2_d(pr); free_array2_d(qr);
               }
          }
     }
     for (l = 1; l <= 4; ++l) for (k = -1; k < m * n; ++k) {   /* a real times a complex matrix: (m x n) (n x l) */
          Z **e = zm(n, l), **g = zm(m, l), **h = zm(m, l), **w = zm(m, l); double **o1 = dm(n, l), **m1 = dm(m, l), **m2 = dm(m, l); int u; ONE(1); mo = l;
          ALL(m, n) a[i][j] = fd(k, i, j, n); ALL(n, l) e[i][j] = fz(-1, i, j, l); ALL(m, l) { h[i][j] = fz(-1, j, i, l); for (w[i][j] = u = 0; u < n; ++u) w[i][j] += a[i][u] * e[u][j]; }
          dzmat_mul(a, e, m, l, n, g); ALL(m, l) EQ("dzmat_mul", g[i][j], w[i][j]); dzmat_mul2(a, e, m, l, n, g, o1, m1, m2); ALL(m, l) EQ("dzmat_mul2", g[i][j], w[i][j]);
          for (p = 0; p < 4; ++p) for (q = 0; q < 4; ++q) { zmat_copy(g, h, m, l); dzmat_gxgxmx(0, a, 0, e, al[p], g, al[q], m, l, n, o1, m1, m2); ALL(m, l) EQ("dzmat_gxgxmx", g[i][j], al[p] * w[i][j] + al[q] * h[i][j]); }
          free_array2_dc(e); free_array2_dc(g); free_array2_dc(h); free_array2_dc(w); free_array2_d(o1); free_array2_d(m1); free_array2_d(m2);
     }
     for (p = 0; p < 4; ++p) {   /* blocks put into a larger matrix, dense or in band storage */
          int bi, bj, kl = 3 * m - 1, ku = 3 * n - 1, w = 2 * kl + ku + 1; double **A = dm(3 * m, 3 * n), **B = dm(3 * n, w), d[8], *vv = calloc(3 * n, sizeof(double)); Z **C = zm(3 * m, 3 * n), **D = zm(3 * n, w), dz[8], **e = zm(m, n), *vz = calloc(3 * n, sizeof(Z)), az = al[p] == 2.5 ? 2.5 + _Complex_I : al[p];
          for (i = 0; i < 8; ++i) { d[i] = 1.5 + i; dz[i] = d[i] - _Complex_I * i; } ALL(m, n) { a[i][j] = fd(-1, i, j, n) + 20; e[i][j] = fz(-1, i, j, n) + 20; } mo = p;
          for (bi = 0; bi < 3; ++bi) for (bj = 0; bj < 3; ++bj) { int in; ONE(10);
#define IN (in = i / m == bi && j / n == bj)
#define BLK(name, M, put, val) ALL(3 * m, 3 * n) M[i][j] = -77; put; ALL(3 * m, 3 * n) EQ(name, M[i][j], IN ? val : -77)
               BLK("insert_matrix1_d", A, insert_matrix1_d(m, n, bi, bj, A, al[p], a), al[p] * a[i % m][j % n]);
               BLK("insert_matrix2_d", A, insert_matrix2_d(m, n, bi, bj, A, al[p], d, a), al[p] * a[i % m][j % n] * d[j % n]);
               BLK("insert_matrix1_dc", C, insert_matrix1_dc(m, n, bi, bj, C, az, e), az * e[i % m][j % n]);
               BLK("insert_matrix2_dc", C, insert_matrix2_dc(m, n, bi, bj, C, az, dz, e), az * e[i % m][j % n] * dz[j % n]);
               /* element (i,j) of the matrix is at column j, row kl + ku + i - j */
#define BND(name, M, put, val) ALL(3 * n, w) M[i][j] = -77; put; { int s, t; for (s = 0; s < 3 * n; ++s) for (t = 0; t < w; ++t) { i = t - kl - ku + s; j = s; EQ(name, M[s][t], i >= 0 && i < 3 * m && IN ? val : -77); } }
               BND("insert_matrix_band_storage1_d", B, insert_matrix_band_storage1_d(m, n, kl, ku, bi, bj, B, al[p], a), al[p] * a[i % m][j % n]);
               BND("insert_matrix_band_storage2_d", B, insert_matrix_band_storage2_d(m, n, kl, ku, bi, bj, B, al[p], d, a), al[p] * a[i % m][j % n] * d[j % n]);
               BND("insert_matrix_band_storage1_dc", D, insert_matrix_band_storage1_dc(m, n, kl, ku, bi, bj, D, az, e), az * e[i % m][j % n]);
               BND("insert_matrix_band_storage2_dc", D, insert_matrix_band_storage2_dc(m, n, kl, ku, bi, bj, D, az, dz, e), az * e[i % m][j % n] * dz[j % n]);
          }
          for (bj = 0; bj < 3; ++bj) { for (j = 0; j < 3 * n; ++j) vv[j] = -77, vz[j] = -77; insert_vector1_d(n, bj, vv, al[p], a[0]); insert_vector1_dc(n, bj, vz, az, e[0]); i = 0; for (j = 0; j < 3 * n; ++j) { EQ("insert_vector1_d", vv[j], j / n == bj ? al[p] * a[0][j % n] : -77); EQ("insert_vector1_dc", vz[j], j / n == bj ? az * e[0][j % n] : -77); } }
          free_array2_d(A); free_array2_d(B); free_array2_dc(C); free_array2_dc(D); free_array2_dc(e); free(vv); free(vz);
     }
     free_array2_d(a); free_array2_d(b); free_array2_d(t); free_array2_d(r); free_array2_dc(z); free_array2_dc(z0);
}
/* ------------------------------------------------------------------ two and three dimensions: every matrix with elements of a set */
static void small(long c) {
     static const double v[] = {-1, 0, 2, .5}; int i, j, l; mm = mn = c < 1 ? 2 : 3; mo = 0;
     if (c == 0) {
          long z, y; double a[2][2], b[2][2], r[2][2], u[2], w[2], g, an;
          for (z = 0; z < 256; ++z) for (y = 0; y < 256; ++y) { for (i = 0; i < 4; ++i) { a[i / 2][i % 2] = v[z >> 2 * i & 3]; b[i / 2][i % 2] = v[y >> 2 * i & 3]; } ONE(1);
               mat2d_add(a, b, r); ALL(2, 2) EQ("mat2d_add", r[i][j], a[i][j] + b[i][j]); mat2d_sub(a, b, r); ALL(2, 2) EQ("mat2d_sub", r[i][j], a[i][j] - b[i][j]); mat2d_mul(a, b, r); ALL(2, 2) EQ("mat2d_mul", r[i][j], a[i][0] * b[0][j] + a[i][1] * b[1][j]);
               if (y < 64) { mat2d_matvec(a, b[0], u); for (i = 0, j = 0; i < 2; ++i) EQ("mat2d_matvec", u[i], a[i][0] * b[0][0] + a[i][1] * b[0][1]);
               vec2d_add(a[0], b[0], u); vec2d_sub(a[0], b[0], w); i = 0; for (j = 0; j < 2; ++j) { EQ("vec2d_add", u[j], a[0][j] + b[0][j]); EQ("vec2d_sub", w[j], a[0][j] - b[0][j]); } EQ("vec2d_dot", vec2d_dot(a[0], b[0]), a[0][0] * b[0][0] + a[0][1] * b[0][1]);
               vec2d_lincmb(a[0], 2, b[0], -3, u); for (j = 0; j < 2; ++j) EQ("vec2d_lincmb", u[j], 2 * a[0][j] - 3 * b[0][j]); vec2d_dyadic(a[0], b[0], r); ALL(2, 2) EQ("vec2d_dyadic", r[i][j], a[0][i] * b[0][j]); }
               if (y == 0) { g = a[0][0] * a[1][1] - a[0][1] * a[1][0]; i = j = 0; EQ("mat2d_det", mat2d_det(a), g); l = mat2d_inv(a, b); if (l != (g != 0)) { V("mat2d_inv", "returns %d for a determinant of %g", l, g); return; }
                    if (l) { ALL(2, 2) EQ("mat2d_inv", a[i][0] * b[0][j] + a[i][1] * b[1][j], i == j ? 1. : 0.); }
                    mat2d_trans(a, r); ALL(2, 2) EQ("mat2d_trans", r[j][i], a[i][j]); mat2d_copy(r, a); ALL(2, 2) EQ("mat2d_copy", r[i][j], a[i][j]); mat2d_scale(-3, a, r); ALL(2, 2) EQ("mat2d_scale", r[i][j], -3 * a[i][j]); mat2d_zero(r); ALL(2, 2) EQ("mat2d_zero", r[i][j], 0.); mat2d_init(r); ALL(2, 2) EQ("mat2d_init", r[i][j], i == j ? 1. : 0.);
                    for (l = -8; l <= 8; ++l) { an = l * M_PI / 8; mat2d_copy(r, a); mat2d_rot(r, an); ALL(2, 2) EQ("mat2d_rot", r[i][j], j == 0 ? a[i][0] * cos(an) - a[i][1] * sin(an) : a[i][0] * sin(an) + a[i][1] * cos(an)); }
                    i = 0; EQ("vec2d_mag", vec2d_mag(a[0]), hypot(a[0][0], a[0][1])); vec2d_scale(-2, a[0], u); for (j = 0; j < 2; ++j) EQ("vec2d_scale", u[j], -2 * a[0][j]); if (a[0][0] || a[0][1]) { vec2d_unit(a[0], u); for (j = 0; j < 2; ++j) EQ("vec2d_unit", u[j], a[0][j] / hypot(a[0][0], a[0][1])); } vec2d_copy(u, a[0]); for (j = 0; j < 2; ++j) EQ("vec2d_copy", u[j], a[0][j]); vec2d_zero(u); for (j = 0; j < 2; ++j) EQ("vec2d_zero", u[j], 0.); }
          }
     } else {
          long z, y; double a[3][3], b[3][3], r[3][3], q[3][3], u[3], w[3], g; long n = ipow(3, 9);
          for (z = 0; z < n; ++z) { y = z; for (i = 0; i < 9; ++i, y /= 3) { a[i / 3][i % 3] = v[y % 3]; b[i / 3][i % 3] = fd(-1, i / 3, i % 3, 3); } ONE(1);
               g = 0; for (i = 0; i < 3; ++i) g += a[0][i] * (a[1][(i + 1) % 3] * a[2][(i + 2) % 3] - a[1][(i + 2) % 3] * a[2][(i + 1) % 3]); i = j = 0; EQ("mat3d_det", mat3d_det(a), g); l = mat3d_inv(a, r); if (l != (g != 0)) { V("mat3d_inv", "returns %d for a determinant of %g", l, g); return; }
               if (l) { ALL(3, 3) EQ("mat3d_inv", a[i][0] * r[0][j] + a[i][1] * r[1][j] + a[i][2] * r[2][j], i == j ? 1. : 0.); }
               mat3d_mul(a, b, r); ALL(3, 3) EQ("mat3d_mul", r[i][j], a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j]); mat3d_mul(b, a, r); ALL(3, 3) EQ("mat3d_mul", r[i][j], b[i][0] * a[0][j] + b[i][1] * a[1][j] + b[i][2] * a[2][j]);
               mat3d_add(a, b, r); ALL(3, 3) EQ("mat3d_add", r[i][j], a[i][j] + b[i][j]); mat3d_sub(a, b, r); ALL(3, 3) EQ("mat3d_sub", r[i][j], a[i][j] - b[i][j]); mat3d_matvec(a, b[1], u); for (i = 0, j = 0; i < 3; ++i) EQ("mat3d_matvec", u[i], a[i][0] * b[1][0] + a[i][1] * b[1][1] + a[i][2] * b[1][2]);
               mat3d_trans(a, r); ALL(3, 3) EQ("mat3d_trans", r[j][i], a[i][j]); mat3d_copy(r, a); ALL(3, 3) EQ("mat3d_copy", r[i][j], a[i][j]); mat3d_scale(-3, a, r); ALL(3, 3) EQ("mat3d_scale", r[i][j], -3 * a[i][j]);
               if (z < 729) { vec3d_cross(a[0], a[1], u); i = 0; for (j = 0; j < 3; ++j) EQ("vec3d_cross", u[j], a[0][(j + 1) % 3] * a[1][(j + 2) % 3] - a[0][(j + 2) % 3] * a[1][(j + 1) % 3]); vec3d_dyadic(a[0], a[1], r); ALL(3, 3) EQ("vec3d_dyadic", r[i][j], a[0][i] * a[1][j]); i = 0; EQ("vec3d_dot", vec3d_dot(a[0], a[1]), a[0][0] * a[1][0] + a[0][1] * a[1][1] + a[0][2] * a[1][2]);
                    vec3d_add(a[0], a[1], u); vec3d_sub(a[0], a[1], w); for (i = 0, j = 0; j < 3; ++j) { EQ("vec3d_add", u[j], a[0][j] + a[1][j]); EQ("vec3d_sub", w[j], a[0][j] - a[1][j]); } vec3d_lincmb(a[0], 2, a[1], -3, u); for (j = 0; j < 3; ++j) EQ("vec3d_lincmb", u[j], 2 * a[0][j] - 3 * a[1][j]);
                    g = sqrt(vec3d_dot(a[0], a[0])); EQ("vec3d_mag", vec3d_mag(a[0]), g); if (g > 0) { vec3d_unit(a[0], u); for (j = 0; j < 3; ++j) EQ("vec3d_unit", u[j], a[0][j] / g); } vec3d_scale(-2, a[0], u); for (j = 0; j < 3; ++j) EQ("vec3d_scale", u[j], -2 * a[0][j]); vec3d_copy(u, a[0]); for (j = 0; j < 3; ++j) EQ("vec3d_copy", u[j], a[0][j]); vec3d_zero(u); for (j = 0; j < 3; ++j) EQ("vec3d_zero", u[j], 0.);
                    mat3d_zero(r); ALL(3, 3) EQ("mat3d_zero", r[i][j], 0.); mat3d_init(r); ALL(3, 3) EQ("mat3d_init", r[i][j], i == j ? 1. : 0.); }
               if (z % 27 == 5 || z < 27) { double p = (z % 7 - 3) * .7, s = (z % 5 - 2) * .9, t = (z % 11 - 5) * .6;   /* rotations: about each axis, and one after the other */
                    mat3d_copy(r, a); mat3d_rot_x(r, p); ALL(3, 3) EQ("mat3d_rot_x", r[i][j], j == 0 ? a[i][0] : j == 1 ? a[i][1] * cos(p) - a[i][2] * sin(p) : a[i][1] * sin(p) + a[i][2] * cos(p));
                    mat3d_copy(q, r); mat3d_rot_y(q, s); ALL(3, 3) EQ("mat3d_rot_y", q[i][j], j == 1 ? r[i][1] : j == 0 ? r[i][0] * cos(s) + r[i][2] * sin(s) : -r[i][0] * sin(s) + r[i][2] * cos(s));
                    mat3d_copy(r, q); mat3d_rot_z(r, t); ALL(3, 3) EQ("mat3d_rot_z", r[i][j], j == 2 ? q[i][2] : j == 0 ? q[i][0] * cos(t) - q[i][1] * sin(t) : q[i][0] * sin(t) + q[i][1] * cos(t));
                    mat3d_copy(q, a); mat3d_rot(q, p, s, t); ALL(3, 3) EQ("mat3d_rot", q[i][j], r[i][j]); }
          }
     }
}
/* ------------------------------------------------------------------ numbers */
#include <errno.h>
static void number_one(const char *t) {
     char *e; long v; double d; int i, r; int xi = -77; long xl = -77; double xd = -77.; char *c = strdup(t);
     ONE(3);
     errno = 0; v = strtol(c, &e, 0); r = *c && e != c && ! *e && errno != ERANGE;
     i = strtoi_errmsg(c, "name", &xi);
     if ((i == 0) != (r && v >= INT_MIN && v <= INT_MAX)) V("strtoi_errmsg|accepted", "'%s': %d", t, i); else if (i == 0 && xi != v) V("strtoi_errmsg|value", "'%s': %d", t, xi);
     i = (int) strtol_errmsg(c, "name", &xl);
     if ((i == 0) != r) V("strtol_errmsg|accepted", "'%s': %d", t, i); else if (i == 0 && xl != v) V("strtol_errmsg|value", "'%s': %ld", t, xl);
     errno = 0; d = strtod(c, &e); r = *c && e != c && ! *e && errno != ERANGE;
     i = (int) strtod_errmsg(c, "name", &xd);
     if ((i == 0) != r) V("strtod_errmsg|accepted", "'%s': %d", t, i); else if (i == 0 && memcmp(&xd, &d, sizeof(d))) V("strtod_errmsg|value", "'%s': %g", t, xd);
     free(c);
}
static void f_numbers(long idx) {
     static const char al[] = "-+019xe. f"; char t[8]; int n, i; long k, m;
     static const char *sp[] = {"", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967297", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "1e400", "-1e400", "1e-400", "1e308", "0x1p3", "inf", "nan", "1,5", "1\n"};
     if (! freopen("/dev/null", "w", stderr)) return;
     if (idx == 0) { int xi; long xl; double xd; for (i = 0; i < N(sp); ++i) number_one(sp[i]); if (! strtoi_errmsg(NULL, "name", &xi) || ! strtol_errmsg(NULL, "name", &xl) || ! strtod_errmsg(NULL, "name", &xd)) V("strto|null", "NULL accepted"); }
     for (n = 1; n <= (mc_thorough ? 6 : 5); ++n) for (m = ipow(10, n - 1), k = 0; k < m; ++k) { long q = k; t[0] = al[idx]; for (i = 1; i < n; ++i) { t[i] = al[q % 10]; q /= 10; } t[n] = 0; number_one(t); }
}
int main(int argc, char **argv) {
     mc_init(argc, argv);
     mc_family("sort", mc_thorough ? 19 : 16, sorting, 600); mc_family("compare", 12, compare, 60); mc_family("edit", 6, edits, 120); mc_family("pairs", 3, pairs, 120); mc_family("tokens", 6, tokens, 300);
     mc_family("boolean", 3, boolean, 60); mc_family("integer", 8, integer, 120); mc_family("real", 2, real, 120); mc_family("fields", 48, fields, 20); mc_family("files", 3, files, 120);
     mc_family("arrays", 28, arrays, 60); mc_family("typed", 12, typed, 60); mc_family("matrices", 32, matrices, 60); mc_family("products", mc_thorough ? 128 : 54, products, 120); mc_family("solves", 8, solves, 60); mc_family("special", 16, special, 60); mc_family("small", 2, small, 60);
     mc_family("numbers", 10, f_numbers, 60);
     return mc_done();
}
