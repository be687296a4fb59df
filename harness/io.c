/* C27: scattering files: what is written is what is read; files cut or changed anywhere, writes that fail anywhere, and the forms of phase function that are named instead of read. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <limits.h>
#include <math.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <malloc.h>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include "gutil.h"
#include "rtutil_scat_io.h"
#include "rtutil_support.h"
#include "mc.h"
#undef I
#define V(what, ...) mc_viol(what, __VA_ARGS__)
#define ONE() do { mc_states(1); mc_execs(1); mc_transitions(1); } while (0)
#define ND 22
static char dir[64], path[120]; static pid_t main_pid;
static void cleanup(void) {
     DIR *d; struct dirent *e; char b[400];
     if (getpid() != main_pid || ! (d = opendir(dir))) return;
     while ((e = readdir(d))) if (strncmp(e->d_name, "f.", 2) == 0) { snprintf(b, sizeof(b), "%s/%s", dir, e->d_name); unlink(b); }
     closedir(d); rmdir(dir);
}
static const char *file(void) { snprintf(path, sizeof(path), "%s/f.%ld", dir, (long) getpid()); return path; }
static int n_fds(void) { int i, n = 0; for (i = 0; i < 40; ++i) { struct stat st; n += fstat(i, &st) == 0; } return n; }

/* ------------------------------------------------------------------ headers */
static double *hd(scat_header_data *h, int i) {
     double *p[ND] = {&h->lambda, &h->mr, &h->mi, &h->a1, &h->a2, &h->a3, &h->a4, &h->a5, &h->r1, &h->r2, &h->accuracy, &h->norm, &h->reff, &h->veff, &h->gavg, &h->vavg, &h->ravg, &h->rvw, &h->cext, &h->csca, &h->cbak, &h->g};
     return p[i];
}
#define ACC 10
static const double vals[] = {0., 1., -1., .1234567891234, 1. / 3., -2.5e-7, 6.02214076e23, 1e-300, 9.9999995, 12345678.9, -0.};
#define NV ((int) (sizeof(vals) / sizeof(double)))
static double txt(double x) { char b[64]; snprintf(b, sizeof(b), "%e", x); return strtod(b, NULL); }
static void mk_header(scat_header_data *h, int type, int shift) {
     int i; memset(h, 0, sizeof(*h));
     for (i = 0; i < ND; ++i) *hd(h, i) = vals[(i + shift) % NV] * (i % 3 ? 1. : .7);
     h->dist_type = (enum size_dist_type) type; h->n_int1 = shift; h->n_int2 = 64 + type; h->n_quad = shift % 2 ? 0 : 2147483647;
}
static int cmp_header(scat_header_data *a, scat_header_data *b, int text) {
     int i;
     for (i = 0; i < ND; ++i) { double x = *hd(a, i); if (text) x = i == ACC ? 0. : txt(x); if (memcmp(&x, hd(b, i), sizeof(x))) return 1 + i; }
     return a->dist_type != b->dist_type ? 50 : a->n_int1 != b->n_int1 ? 51 : a->n_int2 != b->n_int2 ? 52 : a->n_quad != b->n_quad ? 53 : 0;
}
static long fsize(void) { struct stat st; return stat(path, &st) ? -1 : (long) st.st_size; }
static void f_header(long idx) {
     int type = idx / NV, shift = idx % NV, k, r; scat_header_data h, g, z; FILE *fp; enum size_dist_type dt; double v[ND]; int n1, n2, nq; const char *f = file();
     mk_header(&h, type, shift);
     mc_nontrivial(1);
     for (k = 0; k < 2; ++k) {
          int (*w)(const char *, scat_header_data *) = k ? scat_header_write_bin_fn : scat_header_write_fn, (*rd)(const char *, scat_header_data *) = k ? scat_header_read_bin_fn : scat_header_read_fn; const char *nm = k ? "binary" : "text";
          int fd0 = n_fds(); long sz;
          unlink(f); memset(&g, 0x55, sizeof(g));
          ONE(); if (w(f, &h)) { V("header|write", "%s: a header could not be written", nm); continue; }
          sz = fsize();
          if (k && sz != scat_header_size_bin()) V("header|size", "the binary header has %ld bytes, scat_header_size_bin() is %d", sz, scat_header_size_bin());
          if (rd(f, &g)) V("header|read", "%s: a written header could not be read", nm);
          else if ((r = cmp_header(&h, &g, ! k))) V("header|value", "%s: field %d is not what was written", nm, r);
          /* consecutive headers in a stream */
          fp = fopen(f, "w+");
          r = k ? scat_header_write_bin_fp(fp, &h) || scat_header_blank_bin(fp) || scat_header_write_bin_fp(fp, &h) : scat_header_write_fp(fp, &h) || scat_header_blank(fp) || scat_header_write_fp(fp, &h);
          if (r) V("header|write", "%s: headers could not be written to a stream", nm);
          rewind(fp); memset(&g, 0x55, sizeof(g)); scat_header_zero(&z);
          if (k ? scat_header_skip_bin(fp) : scat_header_skip(fp)) V("header|skip", "%s: skip failed", nm);
          if (k ? scat_header_read_bin_fp(fp, &g) : scat_header_read_fp(fp, &g)) V("header|read", "%s: second header not read", nm);
          else if ((r = cmp_header(&z, &g, ! k))) V("header|blank", "%s: field %d of a blank header is not zero", nm, r);
          memset(&g, 0x55, sizeof(g));
          if (k ? scat_header_read_bin_fp(fp, &g) : scat_header_read_fp(fp, &g)) V("header|read", "%s: third header not read", nm);
          else if ((r = cmp_header(&h, &g, ! k))) V("header|value", "%s: field %d of the third header is not what was written", nm, r);
          if (! (k ? scat_header_skip_bin(fp) : scat_header_skip(fp))) V("header|end", "%s: a fourth header of three was skipped", nm);
          fclose(fp);
          if (n_fds() != fd0) V("header|descriptor", "%s: %d descriptors are left open", nm, n_fds() - fd0);
     }
     unlink(f);
     /* import and export */
     scat_header_export(&h, &v[0], &v[1], &v[2], &dt, &v[3], &v[4], &v[5], &v[6], &v[7], &v[8], &v[9], &n1, &n2, &nq, &v[10], &v[11], &v[12], &v[13], &v[14], &v[15], &v[16], &v[17], &v[18], &v[19], &v[20], &v[21]);
     for (k = 0; k < ND; ++k) if (memcmp(&v[k], hd(&h, k), sizeof(double))) V("header|export", "export: field %d", k);
     if (dt != h.dist_type || n1 != h.n_int1 || n2 != h.n_int2 || nq != h.n_quad) V("header|export", "export: integers");
     memset(&g, 0x55, sizeof(g));
     scat_header_import(&g, v[0], v[1], v[2], dt, v[3], v[4], v[5], v[6], v[7], v[8], v[9], n1, n2, nq, v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21]);
     if ((r = cmp_header(&h, &g, 0))) V("header|import", "import: field %d", r);
     /* interpolation with every other header */
     for (k = 0; k < NV; ++k) {
          static const double as[] = {0., 1., .25, .5, 2.}; int a, i; scat_header_data h2;
          mk_header(&h2, type, k);
          for (a = 0; a < 5; ++a) {
               ONE(); memset(&g, 0x55, sizeof(g));
               if (scat_header_interp(as[a], &h, &h2, &g)) { V("header|interp", "interpolation failed"); continue; }
               for (i = 0; i < ND; ++i) { double x = *hd(&h, i), y = *hd(&h2, i), e = x + as[a] * (y - x); if (! (fabs(*hd(&g, i) - e) <= 1e-12 * (fabs(x) + fabs(y)))) V("header|interp", "interpolation by %g of field %d", as[a], i); }
               if (g.dist_type != h.dist_type || g.n_int1 != (h.n_int1 > h2.n_int1 ? h.n_int1 : h2.n_int1) || g.n_int2 != h.n_int2 || g.n_quad != (h.n_quad > h2.n_quad ? h.n_quad : h2.n_quad)) V("header|interp", "interpolation of the integers");
          }
          mk_header(&h2, (type + 1 + k % (N_SIZE_DIST_TYPES - 1)) % N_SIZE_DIST_TYPES, k);
          if (! scat_header_interp(.5, &h, &h2, &g)) V("header|interp", "headers of different size distributions were interpolated");
     }
}

/* ------------------------------------------------------------------ one file of each kind */
enum {F_HEAD, F_HEADB, F_COEF1, F_COEF6, F_PF1, F_PF6, F_TOTAL, F_MATS, F_BIN, NF};
static const char *fnm[NF] = {"header", "binary header", "coefficients (1)", "coefficients (6)", "phase function (1)", "phase function (6)", "totals", "phase matrices", "binary coefficients"};
typedef struct { int kind, n, n2, size, elem, type, nohead; } spec;
typedef struct { int r, n, four, quad; scat_header_data h; double x[4000]; int nx; } result;
static double val(int i, int j) { return vals[(3 * i + 5 * j + 1) % NV] + .01 * i - .003 * j; }
/* the values that a file holds, in a fixed order */
static void mk_values(const spec *s, double *x, int *nx) {
     int n = 0, i, m;
     switch (s->kind) {
     case F_COEF1: m = s->n; break;
     case F_COEF6: m = 6 * s->n; break;
     case F_PF1: m = 2 * s->n; break;
     case F_PF6: m = 7 * s->n; break;
     case F_TOTAL: m = 8 * 2 * s->n; break;
     case F_MATS: m = s->n2 * 4 * s->n * s->n * 16 + 2 * s->n * 16 + 2 * s->n * 4; break;
     case F_BIN: m = s->elem * s->n; break;
     default: m = 0;
     }
     for (i = 0; i < m; ++i) x[n++] = val(i % 7, i / 7);
     *nx = n;
}
static int wr(const spec *s, const char *f, int stream) {
     static double x[4000]; static scat_header_data h0; scat_header_data *h = s->nohead ? NULL : &h0; double *row[8], **c = row; int nx, i, j, k, l, r = -1; FILE *fp = NULL;
     mk_header(&h0, s->type, 3); mk_values(s, x, &nx);
     for (i = 0; i < 8; ++i) row[i] = x + i * s->n;
     if (stream && ! (fp = fopen(f, stream == 2 ? "a" : "w"))) return -9;
     switch (s->kind) {
     case F_HEAD: r = fp ? scat_header_write_fp(fp, &h0) : scat_header_write_fn(f, &h0); break;
     case F_HEADB: r = fp ? scat_header_write_bin_fp(fp, &h0) : scat_header_write_bin_fn(f, &h0); break;
     case F_COEF1: case F_COEF6: r = fp ? scat_coefs_write_fp(fp, s->n, h, c, s->kind == F_COEF6) : scat_coefs_write_fn(f, s->n, h, c, s->kind == F_COEF6); break;
     case F_PF1: case F_PF6: r = fp ? phase_func_write_fp(fp, h, row[0], c + 1, s->n, s->kind == F_PF6) : phase_func_write_fn(f, h, row[0], c + 1, s->n, s->kind == F_PF6); break;
     case F_TOTAL: for (i = 0; i < 8; ++i) row[i] = x + i * 2 * s->n;
          r = fp ? scat_total_write_fp(fp, h, s->n, s->n2, s->size, row[0], row[1], row[2], row[3], row[4], row[5], row[6], row[7]) : scat_total_write_fn(f, h, s->n, s->n2, s->size, row[0], row[1], row[2], row[3], row[4], row[5], row[6], row[7]); break;
     case F_MATS: {
          int m = 2 * s->n; double *****P = alloc_array5_d(s->n2, m, m, 4, 4), ***X = alloc_array3_d(m, 4, 4), **E = alloc_array2_d(m, 4), qx[8], *y = x;
          for (i = 0; i < s->n2; ++i) for (j = 0; j < m; ++j) for (k = 0; k < m; ++k) for (l = 0; l < 16; ++l) P[i][j][k][l / 4][l % 4] = *y++;
          for (i = 0; i < m; ++i) for (l = 0; l < 16; ++l) X[i][l / 4][l % 4] = *y++;
          for (i = 0; i < m; ++i) for (l = 0; l < 4; ++l) E[i][l] = *y++;
          for (i = 0; i < s->n; ++i) qx[i] = (i + 1.) / (s->n + 1.);
          r = fp ? phase_mats_write_fp(fp, h, s->n, s->n2, s->size, s->type % 2 ? NULL : qx, P, X, E) : phase_mats_write_fn(f, h, s->n, s->n2, s->size, s->type % 2 ? NULL : qx, P, X, E);
          free_array5_d(P); free_array3_d(X); free_array2_d(E); break; }
     case F_BIN: r = fp ? scat_coefs_write_bin_fp(fp, s->n, h, c, s->size, s->elem) : scat_coefs_write_bin_fn(f, s->n, h, c, s->size, s->elem); break;
     }
     if (fp && fclose(fp)) r = -8;
     return r;
}
/* want: n_coef, elements (or allsix) and size wanted; stream: read from fp if given */
static void rdf(const spec *s, const char *f, FILE *fp, int n_coef, int elem, int size, int skip_h, result *o) {
     scat_header_data *h = skip_h ? NULL : &o->h; int i, j, k, l; double **c = NULL, *th = NULL, *y = o->x;
     memset(o, 0x33, sizeof(*o)); o->nx = 0;
     switch (s->kind) {
     case F_HEAD: o->r = fp ? scat_header_read_fp(fp, &o->h) : scat_header_read_fn(f, &o->h); break;
     case F_HEADB: o->r = fp ? scat_header_read_bin_fp(fp, &o->h) : scat_header_read_bin_fn(f, &o->h); break;
     case F_COEF1: case F_COEF6: o->r = fp ? scat_coefs_read_fp(fp, n_coef, h, &c, elem == 6) : scat_coefs_read_fn(f, n_coef, h, &c, elem == 6);
          if (o->r > 0 && o->r <= 400) { for (i = 0; i < elem; ++i) for (j = 0; j < o->r; ++j) *y++ = c[i][j]; }
          if (o->r >= 0) free_array2_d(c);
          break;
     case F_PF1: case F_PF6: o->r = fp ? phase_func_read_fp(fp, h, &th, &c, elem == 6) : phase_func_read_fn(f, h, &th, &c, elem == 6);
          if (o->r > 0 && o->r <= 400) { for (j = 0; j < o->r; ++j) *y++ = th[j]; for (i = 0; i < 6; ++i) for (j = 0; j < o->r; ++j) if (i < elem) *y++ = c[i][j]; else if (c[i][j] != 0.) V("values|zero", "element %d of a phase function of one element is %g", i, c[i][j]); }
          if (o->r >= 0) { free_array1_d(th); free_array2_d(c); }
          break;
     case F_TOTAL: { static double t[8][64];
          o->r = fp ? scat_total_read_fp(fp, h, &o->n, &o->four, &o->quad, t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7]) : scat_total_read_fn(f, h, &o->n, &o->four, &o->quad, t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7]);
          if (o->r == 0) for (i = 0; i < 8; ++i) for (j = 0; j < 2 * o->n; ++j) *y++ = t[i][j];
          break; }
     case F_MATS: { double *****P, ***X, **E; int m;
          o->r = fp ? phase_mats_read_fp(fp, h, &o->n, &o->four, &o->quad, &P, &X, &E) : phase_mats_read_fn(f, h, &o->n, &o->four, &o->quad, &P, &X, &E);
          if (o->r) break;
          m = 2 * o->n;
          for (i = 0; i < o->four; ++i) for (j = 0; j < m; ++j) for (k = 0; k < m; ++k) for (l = 0; l < 16; ++l) *y++ = P[i][j][k][l / 4][l % 4];
          for (i = 0; i < m; ++i) for (l = 0; l < 16; ++l) *y++ = X[i][l / 4][l % 4];
          for (i = 0; i < m; ++i) for (l = 0; l < 4; ++l) *y++ = E[i][l];
          free_array5_d(P); free_array3_d(X); free_array2_d(E); break; }
     case F_BIN: { void **v;
          o->r = fp ? scat_coefs_read_bin_fp(fp, n_coef, h, &v, size, elem) : scat_coefs_read_bin_fn(f, n_coef, h, &v, size, elem);
          if (o->r < 0) break;
          for (i = 0; i < elem; ++i) for (j = 0; j < o->r; ++j) *y++ = size == 4 ? ((float **) v)[i][j] : ((double **) v)[i][j];
          if (size == 4) free_array2_f((float **) v); else free_array2_d((double **) v);
          break; }
     }
     o->nx = (int) (y - o->x);
}
/* what reading an intact file must give */
static int expect(const spec *s, int n_coef, int elem, int size, double *e, int *r) {
     static double x[4000]; int nx, i, j, n = 0, m, we = s->kind == F_COEF6 || s->kind == F_PF6 ? 6 : s->kind == F_BIN ? s->elem : 1;
     mk_values(s, x, &nx);
     *r = 0;
     switch (s->kind) {
     case F_COEF1: case F_COEF6: case F_BIN:
          if (elem > we) { *r = -1; return 0; }
          m = n_coef <= 0 || n_coef > s->n ? s->n : n_coef; *r = m;
          for (i = 0; i < elem; ++i) for (j = 0; j < m; ++j) { double y = x[i * s->n + j]; e[n++] = s->kind != F_BIN ? txt(y) : s->size == 4 || size == 4 ? (double) (float) y : y; }
          break;
     case F_PF1: case F_PF6:
          if (elem > we) { *r = -1; return 0; }
          *r = s->n; for (i = 0; i < 1 + elem; ++i) for (j = 0; j < s->n; ++j) e[n++] = txt(x[i * s->n + j]);
          break;
     case F_TOTAL: case F_MATS: for (i = 0; i < nx; ++i) e[n++] = txt(x[i]); break;
     }
     return n;
}
static int same(const spec *s, const result *o, int n_coef, int elem, int size, int skip_h, int n_skip_last, char *why) {
     static double e[4000]; int r, n = expect(s, n_coef, elem, size, e, &r), i; scat_header_data h;
     if (o->r != r) { sprintf(why, "returned %d, not %d", o->r, r); return 0; }
     if (r < 0) return 1;
     if (n != o->nx) { sprintf(why, "%d values, not %d", o->nx, n); return 0; }
     for (i = 0; i < n; ++i) if (e[i] != o->x[i] && ! (n_skip_last && i >= n - n_skip_last)) { sprintf(why, "value %d is %.17g, not %.17g", i, o->x[i], e[i]); return 0; }
     if ((s->kind == F_TOTAL || s->kind == F_MATS) && (o->n != s->n || o->four != s->n2 || o->quad != s->size)) { sprintf(why, "dimensions %d %d %d, not %d %d %d", o->n, o->four, o->quad, s->n, s->n2, s->size); return 0; }
     if (! skip_h || s->kind == F_HEAD || s->kind == F_HEADB) { int hr; mk_header(&h, s->type, 3); if (s->nohead) scat_header_zero(&h); if ((hr = cmp_header(&h, (scat_header_data *) &o->h, s->kind != F_BIN && s->kind != F_HEADB)) && ! (n_skip_last && hr == ND)) { sprintf(why, "header field %d", hr); return 0; } }
     return 1;
}

/* ------------------------------------------------------------------ the lattice of files */
static spec sp[4000]; static int nsp;
static void mk_specs(void) {
     int k, n, m, q, e, t; int nn = mc_thorough ? 8 : 5;
     for (k = F_COEF1; k <= F_PF6; ++k) for (n = 1; n <= nn; ++n) for (t = 0; t < 2; ++t) sp[nsp++] = (spec) {k, n, 0, 0, 0, n % N_SIZE_DIST_TYPES, t};
     for (k = F_TOTAL; k <= F_MATS; ++k) for (n = 1; n <= (k == F_MATS ? 2 : 4); ++n) for (m = 1; m <= 3; ++m) for (q = 0; q < N_QUADRATURE_TYPES; ++q) for (t = 0; t < 2; ++t) sp[nsp++] = (spec) {k, n, m, q, 0, (n + m) % N_SIZE_DIST_TYPES, t};
     for (n = 1; n <= nn; ++n) for (e = 1; e <= 6; ++e) for (q = 4; q <= 8; q += 4) for (t = 0; t < 2; ++t) sp[nsp++] = (spec) {F_BIN, n, 0, q, e, n % N_SIZE_DIST_TYPES, t};
}
static void f_values(long idx) {
     const spec *s = &sp[idx]; const char *f = file(); static result o; char why[300]; int n_coef, elem, size, skip_h, stream, fd0, bin = s->kind == F_BIN, coef = bin || s->kind == F_COEF1 || s->kind == F_COEF6, pf = s->kind == F_PF1 || s->kind == F_PF6; FILE *fp; size_t m0;
     int we = s->kind == F_COEF6 || s->kind == F_PF6 ? 6 : bin ? s->elem : 1;
     unlink(f); mc_ctx("%s n=%d n2=%d size=%d elem=%d", fnm[s->kind], s->n, s->n2, s->size, s->elem);
     for (stream = 0; stream < 2; ++stream) {
          if (wr(s, f, stream)) { V("values|write", "%s: writing failed", fnm[s->kind]); unlink(f); return; }
          if (bin && fsize() != scat_coefs_size_bin(s->n, s->size, s->elem)) V("values|size", "a binary file has %ld bytes, scat_coefs_size_bin() is %d", fsize(), scat_coefs_size_bin(s->n, s->size, s->elem));
          for (n_coef = coef ? -1 : 0; n_coef <= (coef ? s->n + 1 : 0); ++n_coef) for (elem = 1; elem <= (coef || pf ? 6 : 1); elem += bin ? 1 : 5) for (size = 4; size <= (bin ? 8 : 4); size += 4) for (skip_h = 0; skip_h < 2; ++skip_h) {
               if (elem == 1 && s->kind == F_PF6) continue;   /* the number of columns of a phase function is the caller's to know */
               fd0 = n_fds(); m0 = mallinfo2().uordblks;
               ONE(); mc_nontrivial(1); rdf(s, f, NULL, n_coef, elem, size, skip_h, &o);
               mc_ctx("%s n=%d n2=%d size=%d elem=%d: read n_coef=%d elem=%d size=%d", fnm[s->kind], s->n, s->n2, s->size, s->elem, n_coef, elem, size);
               if (elem > we && ! bin) { if (o.r >= 0) V("values|elements", "%s: six elements were read from a file of one", fnm[s->kind]); }
               else if (! same(s, &o, n_coef, elem, size, skip_h, 0, why)) V("values|value", "%s n=%d n2=%d size=%d elem=%d, read n_coef=%d elem=%d size=%d: %s", fnm[s->kind], s->n, s->n2, s->size, s->elem, n_coef, elem, size, why);
               if (n_fds() != fd0) V("values|descriptor", "%s: %d descriptors are left open", fnm[s->kind], n_fds() - fd0);
               if (n_coef > 0 && mallinfo2().uordblks > m0) V("values|leak", "%s: %ld bytes are still allocated", fnm[s->kind], (long) (mallinfo2().uordblks - m0));
               mc_outcome(mc_hash(o.x, o.nx * sizeof(double), o.r));
          }
     }
     /* two records one after the other: reading the first whole leaves the second */
     if (wr(s, f, 1) || wr(s, f, 2)) V("values|write", "%s: writing two records failed", fnm[s->kind]);
     for (n_coef = 0; n_coef <= (bin ? s->n + 1 : 0); ++n_coef) for (elem = 1; elem <= we; elem += bin ? 1 : 5) {
          if (elem == 1 && s->kind == F_PF6) continue;
          fp = fopen(f, "r");
          for (stream = 0; stream < 2; ++stream) { ONE(); rdf(s, NULL, fp, n_coef, elem, 8, stream, &o); if (! same(s, &o, n_coef, elem, 8, stream, 0, why)) V("values|second record", "%s, record %d, read n_coef=%d elem=%d: %s", fnm[s->kind], stream, n_coef, elem, why); }
          rdf(s, NULL, fp, n_coef, elem, 8, 0, &o); if (o.r >= 0) V("values|end", "%s: a third record of two was read", fnm[s->kind]);
          fclose(fp);
     }
     unlink(f);
}

/* ------------------------------------------------------------------ broken files */
static spec bs[40]; static int nbs;
static void mk_broken(void) {
     bs[nbs++] = (spec) {F_HEAD, 0, 0, 0, 0, 2, 0}; bs[nbs++] = (spec) {F_HEADB, 0, 0, 0, 0, 2, 0};
     bs[nbs++] = (spec) {F_COEF1, 4, 0, 0, 0, 2, 0}; bs[nbs++] = (spec) {F_COEF6, 3, 0, 0, 0, 2, 0}; bs[nbs++] = (spec) {F_PF1, 3, 0, 0, 0, 2, 0}; bs[nbs++] = (spec) {F_PF6, 3, 0, 0, 0, 2, 0};
     bs[nbs++] = (spec) {F_TOTAL, 2, 2, 0, 0, 2, 0}; bs[nbs++] = (spec) {F_MATS, 1, 2, 1, 0, 2, 0}; bs[nbs++] = (spec) {F_MATS, 2, 1, 1, 0, 3, 0};
     bs[nbs++] = (spec) {F_BIN, 3, 0, 4, 2, 2, 0}; bs[nbs++] = (spec) {F_BIN, 3, 0, 8, 6, 2, 0}; bs[nbs++] = (spec) {F_BIN, 2, 0, 8, 1, 2, 0};
}
static char img[200000]; static long nimg;
static void slurp(const char *f) { FILE *fp = fopen(f, "r"); nimg = fread(img, 1, sizeof(img) - 1, fp); img[nimg] = 0; fclose(fp); }
static void spew(const char *f, const char *a, long na, const char *b, long nb, const char *c, long nc) { FILE *fp = fopen(f, "w"); fwrite(a, 1, na, fp); fwrite(b, 1, nb, fp); fwrite(c, 1, nc, fp); fclose(fp); }
static void must_fail(const spec *s, const char *f, int n_coef, int elem, int size, int ok_last, const char *what, const char *how, long where) {
     static result o; int fd0 = n_fds(); size_t m0 = mallinfo2().uordblks, m1; char why[300], sig[120];
     ONE(); mc_nontrivial(1);
     mc_ctx("%s: %s at %ld", fnm[s->kind], how, where);
     rdf(s, f, NULL, n_coef, elem, size, 0, &o);
     if (ok_last) { if (o.r >= 0 && ! same(s, &o, n_coef, elem, size, 0, 1, why)) { sprintf(sig, "broken|%s|wrong values", what); V(sig, "%s, %s at %ld: %s", fnm[s->kind], how, where, why); } }
     else if (o.r >= 0) { sprintf(sig, "broken|%s|accepted", what); V(sig, "%s, %s at %ld: read without an error", fnm[s->kind], how, where); }
     if (n_fds() != fd0) { sprintf(sig, "broken|%s|descriptor", what); V(sig, "%s, %s at %ld: %d descriptors are left open", fnm[s->kind], how, where, n_fds() - fd0); }
     if ((m1 = mallinfo2().uordblks) > m0) { sprintf(sig, "broken|%s|leak", what); V(sig, "%s, %s at %ld: %ld bytes are left allocated", fnm[s->kind], how, where, (long) (m1 - m0)); }
}
static void f_broken(long idx) {
     const spec *s = &bs[idx / 5]; int mode = idx % 5; const char *f = file(); long i, k, j; int text = s->kind != F_BIN && s->kind != F_HEADB, head = s->kind == F_HEAD || s->kind == F_HEADB, we = s->kind == F_COEF6 || s->kind == F_PF6 ? 6 : s->kind == F_BIN ? s->elem : 1; char why[300]; static result o;
     unlink(f); if (wr(s, f, 0)) { V("broken|write", "%s: not written", fnm[s->kind]); return; }
     slurp(f);
     rdf(s, f, NULL, 0, we, 8, 0, &o); rdf(s, f, NULL, 0, we, 8, 0, &o); if (! same(s, &o, 0, we, 8, 0, 0, why)) { V("broken|intact", "%s: %s", fnm[s->kind], why); return; }
     { rdf(s, "/nonexistent/file", NULL, 0, we, 8, 0, &o); if (o.r >= 0) V("broken|missing|accepted", "%s: a file that does not exist was read", fnm[s->kind]); }
     if (mode == 0) {
          /* cut at every byte */
          long last = nimg; if (text) { while (last > 0 && isspace(img[last - 1])) last--; while (last > 0 && ! isspace(img[last - 1])) last--; }
          for (i = 0; i < nimg; ++i) {
               int ne = s->kind == F_BIN ? we : 1, e, n_coef, size;
               for (e = ne == 1 ? we : 1; e <= we; ++e) for (n_coef = 0; n_coef <= (s->kind == F_BIN ? s->n : 0); ++n_coef) for (size = s->kind == F_BIN ? 4 : 8; size <= 8; size += 4) { spew(f, img, i, "", 0, "", 0); must_fail(s, f, n_coef, e, size, text && i > last, "cut", "cut", i); }
          }
     }
     else if (text && mode == 1) {
          /* every line left out, or twice (twice the last lines is not seen by a reader of a number of values) */
          for (i = 0; i < nimg; i = j) { for (j = i; j < nimg && img[j] != '\n'; ++j) ; ++j; spew(f, img, i, "", 0, img + j, nimg - j); must_fail(s, f, 0, we, 8, 0, "line", "line left out", i); }
     }
     else if (text && mode == 2) {
          /* every word replaced */
          static const char *rep[] = {"x", "", "=", "1.5", "-1", "2000000000", "1000000000", "99999999999999", "1x", "a_word_that_is_far_longer_than_any_name_that_could_be_expected_here_so_that_a_buffer_would_overflow_if_it_was_copied"};
          long title = -1;
          for (i = 0; i < nimg; i = j) {
               int isint, isnum, r; long w;
               if (img[i] == '\n') title = -1;
               if (isspace(img[i])) { j = i + 1; continue; }
               for (j = i; j < nimg && ! isspace(img[j]); ++j) ;
               w = j - i;
               if (title >= 0) continue;                        /* the rest of a title is free */
               if (img[i] == 'C' && w == 1) title = i;
               isnum = isdigit(img[i]) || img[i] == '-'; isint = isnum && ! memchr(img + i, '.', w);
               for (r = 0; r < 10; ++r) {
                    int hdr_int = 0;
                    if (strlen(rep[r]) == w && strncmp(rep[r], img + i, w) == 0) continue;
                    if (isnum && ! isint && r >= 3 && r <= 7) continue;    /* another number */
                    if (isint && r >= 4 && r <= 7) { long b = i; while (b > 0 && img[b - 1] != '\n') --b; hdr_int = strncmp(img + b, "n_", 2) == 0; }
                    if (hdr_int || (s->kind == F_TOTAL && isint && r >= 4 && r <= 7 && img[i - 1] == ' ' && rep[r][0] != '-')) continue;                              /* another number */
                    if (r == 8 && nimg - j < 2) { }
                    spew(f, img, i, rep[r], strlen(rep[r]), img + j, nimg - j); must_fail(s, f, 0, we, 8, 0, "word", rep[r][0] ? rep[r] : "word left out", i);
               }
               /* counts one too large */
               if (isint) { long b = i; char t[32]; while (b > 0 && img[b - 1] != '\n') --b; if (strncmp(img + b, "n_", 2) && ! (s->kind == F_TOTAL && i > b)) { sprintf(t, "%ld", atol(img + i) + 1); spew(f, img, i, t, strlen(t), img + j, nimg - j); must_fail(s, f, 0, we, 8, 0, "count", "count one larger", i); if (! (i > b)) { spew(f, img, i, "0", 1, img + j, nimg - j); must_fail(s, f, 0, we, 8, 0, "count", "zero count", i); } } }
          }
     }
     else if (! text && mode == 3) {
          /* every 4-byte word of the header's and the file's integers replaced */
          static const int rep[] = {-1, 0, INT_MIN, INT_MAX, 3, 16, 1000000000}; int at[4], n = 0, hs = scat_header_size_bin(), r;
          at[n++] = 24; if (! head) { at[n++] = hs; at[n++] = hs + 4; at[n++] = hs + 8; }
          for (i = 0; i < n; ++i) for (r = 0; r < 7; ++r) {
               int old; memcpy(&old, img + at[i], 4);
               if (old == rep[r] || (i == 0 && rep[r] >= 0 && rep[r] < N_SIZE_DIST_TYPES)) continue;
               if (i == 2 && rep[r] > 0 && rep[r] < old && rep[r] >= 1) continue;   /* fewer elements */
               spew(f, img, at[i], (const char *) &rep[r], 4, img + at[i] + 4, nimg - at[i] - 4);
               must_fail(s, f, 0, we, 8, 0, "number", "number replaced", at[i]); must_fail(s, f, 0, we, 4, 0, "number", "number replaced", at[i]);
          }
     }
     else if (mode == 4) {
          /* the write fails after every number of bytes */
          struct rlimit rl, l0; signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &l0);
          for (k = 0; k < 2; ++k) for (i = 0; i < nimg; i += k ? nimg : 1) {
               int r, fd0; size_t m0, m1; spec t = *s;
               unlink(f); if (! k) { rl = l0; rl.rlim_cur = i; setrlimit(RLIMIT_FSIZE, &rl); }
               fd0 = n_fds(); m0 = mallinfo2().uordblks; ONE(); mc_nontrivial(1); mc_ctx("%s: write stops after %ld bytes", fnm[s->kind], i);
               r = wr(&t, k ? "/dev/full" : f, 0);
               m1 = mallinfo2().uordblks; setrlimit(RLIMIT_FSIZE, &l0);
               if (! r) V("broken|write error|missed", "%s: the write stopped after %ld bytes of %ld and no error was returned", fnm[s->kind], i, nimg);
               if (n_fds() != fd0) V("broken|write error|descriptor", "%s: %d descriptors are left open", fnm[s->kind], n_fds() - fd0);
               if (m1 > m0) V("broken|write error|leak", "%s: %ld bytes are left allocated", fnm[s->kind], (long) (m1 - m0));
          }
          for (k = 0; k < 1; ++k) if (! wr(s, "/nonexistent/file", 0)) V("broken|write error|missed", "%s: written to a directory that does not exist", fnm[s->kind]);
     }
     unlink(f);
}

/* ------------------------------------------------------------------ named phase functions */
typedef struct { const char *form; int np, lin; } form;
static const form fm[] = {{"hg", 1, 0}, {"hg_l", 2, 1}, {"dhg", 3, 0}, {"dhg_l", 6, 3}, {"ray", 1, 0}, {"ray_l", 2, 1}, {"none", 0, 0}};
static const double gs[] = {0., .5, -.7, .98}, fs[] = {0., .3, 1.}, rs[] = {0., .0279, .4}, ls[] = {0., 1., -.35};
static double hgc(int l, double g) { return (2 * l + 1) * (l ? pow(g, l) : 1.); }
static double hgc_l(int l, double g, double gl) { return l ? (2 * l + 1) * l * (l > 1 ? pow(g, l - 1) : 1.) * gl : 0.; }
/* depolarised Rayleigh scattering: De Rooij and Van der Stap's expansion with c = 2 (1 - rho) / (2 + rho), d = 2 (1 - 2 rho) / (2 + rho) */
static double ray(int i, int j, double rho) { double c = 2. * (1. - rho) / (2. + rho), d = 2. * (1. - 2. * rho) / (2. + rho); return i == 0 && j == 0 ? 1. : i == 0 && j == 2 ? c / 2. : i == 1 && j == 2 ? 3. * c : i == 3 && j == 1 ? 1.5 * d : i == 4 && j == 2 ? sqrt(6.) / 2. * c : 0.; }
static void check_form(int k, const double *p, int n_coef) {
     char b[300]; int i, j, n, flag = -9, r; double **c = NULL; size_t m0;
     n = sprintf(b, "%s", fm[k].form); for (i = 0; i < fm[k].np; ++i) n += sprintf(b + n, ":%.17g", p[i]);
     for (r = 0; r < 2; ++r) {
          int two = r, isray = k == 4 || k == 5, nc, want;
          m0 = mallinfo2().uordblks; ONE(); mc_nontrivial(1); mc_ctx("%s n_coef=%d", b, n_coef);
          nc = two ? load_scat_coefs2(b, n_coef, 7, &c, &flag) : load_scat_coefs(b, n_coef, &c, &flag);
          want = isray ? 3 : n_coef <= 0 ? -1 : n_coef;
          if (nc != want) { V("load|count", "%s with n_coef=%d returned %d, not %d", b, n_coef, nc, want); continue; }
          if (nc < 0) { if (mallinfo2().uordblks > m0) V("load|leak", "%s with n_coef=%d: %ld bytes left", b, n_coef, (long) (mallinfo2().uordblks - m0)); continue; }
          if (flag != (k == 6 ? SCAT_COEF_NONE : SCAT_COEF_GC)) V("load|flag", "%s: flag %d", b, flag);
          for (i = 0; i < 6; ++i) for (j = 0; j < nc; ++j) {
               double e = 0., tol = 1e-13;
               if (isray) { if (! fm[k].lin) e = ray(i, j, p[0]); else { double h = 1e-4; e = p[1] * ((ray(i, j, p[0] + h) - ray(i, j, p[0] - h)) * 8. - (ray(i, j, p[0] + 2. * h) - ray(i, j, p[0] - 2. * h))) / (12. * h); tol = 1e-9; } }
               else if (i == 0) e = k == 0 ? hgc(j, p[0]) : k == 1 ? hgc_l(j, p[0], p[1]) : k == 2 ? p[2] * hgc(j, p[0]) + (1. - p[2]) * hgc(j, p[1])
                    : k == 3 ? p[5] * (hgc(j, p[0]) - hgc(j, p[1])) + p[2] * hgc_l(j, p[0], p[3]) + (1. - p[2]) * hgc_l(j, p[1], p[4]) : 0.;
               if (! (fabs(c[i][j] - e) <= tol * (1. + fabs(e)) * (j + 1))) V("load|value", "%s: coefficient %d of element %d is %.15g, not %.15g", b, j, i, c[i][j], e);
          }
          free_array2_d(c);
          if (mallinfo2().uordblks > m0 && ! mc_replaying && n_coef > 1) V("load|leak", "%s: %ld bytes left", b, (long) (mallinfo2().uordblks - m0));
     }
     /* each parameter left out, empty, no number, or followed by another */
     if (n_coef == 3) {
          char d[300]; int at[10], na = 0; for (i = 0; b[i]; ++i) if (b[i] == ':') at[na++] = i; at[na] = (int) strlen(b);
          for (i = 0; i < na; ++i) for (r = 0; r < 4; ++r) {
               int e = i + 1 < na ? at[i + 1] : (int) strlen(b);
               if (r == 0) sprintf(d, "%.*s", at[i], b); else if (r == 1) sprintf(d, "%.*s:%s", at[i], b, b + e); else if (r == 2) sprintf(d, "%.*s:x%s", at[i], b, b + e); else sprintf(d, "%.*s:.1y%s", at[i], b, b + e);
               m0 = mallinfo2().uordblks; ONE(); mc_ctx("%s", d);
               if (load_scat_coefs(d, n_coef, &c, &flag) >= 0) { V("load|malformed", "accepted: %s", d); free_array2_d(c); }
               else if (mallinfo2().uordblks > m0) V("load|leak", "%s: %ld bytes left", d, (long) (mallinfo2().uordblks - m0));
          }
          if (na) { sprintf(d, "%s:.1", b); mc_ctx("%s", d); if (load_scat_coefs(d, n_coef, &c, &flag) >= 0) { V("load|malformed", "accepted: %s", d); free_array2_d(c); } }
     }
}
static void f_load(long idx) {
     int k = idx / 6, n_coef = (int[]) {0, 1, 2, 3, 8, 40}[idx % 6], i, a, b, d, e, g; double p[6], **c; int flag;
     static const char *bad[] = {"", ":", "hgx:.5", "HG:.5", "gc", "gc6", "lc:", "gc:/nonexistent", "foo", "foo:", ":hg:.5", "gc7:x"};
     load_scat_coefs("hg:.1", 2, &c, &flag); free_array2_d(c); load_scat_coefs("hg:x", 2, &c, &flag);
     if (k == 0) for (i = 0; i < 12; ++i) { size_t m0 = mallinfo2().uordblks; mc_ctx("%s", bad[i]); ONE(); if (strcmp(bad[i], ":hg:.5") == 0) continue; if (load_scat_coefs(bad[i], n_coef, &c, &flag) >= 0) V("load|malformed", "accepted: '%s'", bad[i]); else if (mallinfo2().uordblks > m0) V("load|leak", "'%s': %ld bytes left", bad[i], (long) (mallinfo2().uordblks - m0)); }
     switch (k) {
     case 0: for (a = 0; a < 4; ++a) { p[0] = gs[a]; check_form(k, p, n_coef); } break;
     case 1: for (a = 0; a < 4; ++a) for (b = 0; b < 3; ++b) { p[0] = gs[a]; p[1] = ls[b]; check_form(k, p, n_coef); } break;
     case 2: for (a = 0; a < 4; ++a) for (b = 0; b < 4; ++b) for (d = 0; d < 3; ++d) { p[0] = gs[a]; p[1] = gs[b]; p[2] = fs[d]; check_form(k, p, n_coef); } break;
     case 3: for (a = 0; a < 4; ++a) for (b = 0; b < 4; ++b) for (d = 0; d < 3; ++d) for (e = 0; e < 3; ++e) for (g = 0; g < 9; ++g) { p[0] = gs[a]; p[1] = gs[b]; p[2] = fs[d]; p[3] = ls[e]; p[4] = ls[g / 3]; p[5] = ls[g % 3]; check_form(k, p, n_coef); } break;
     case 4: for (a = 0; a < 3; ++a) { p[0] = rs[a]; check_form(k, p, n_coef); } break;
     case 5: for (a = 0; a < 3; ++a) for (b = 0; b < 3; ++b) { p[0] = rs[a]; p[1] = ls[b]; check_form(k, p, n_coef); } break;
     case 6: check_form(k, p, n_coef); break;
     }
}
/* files through the same function: of one or six columns, normalised or not */
static void f_load_file(long idx) {
     const char *f = file(); int six = idx % 2, norm = (idx / 2) % 4, n = 1 + (idx / 8) % 4, want6, lc, n_coef, i, j, flag, r; double x[6][8], *row[6], **c; char b[300]; size_t m0;
     static const double first[] = {1., 0., 2., .5};
     for (i = 0; i < 6; ++i) { row[i] = x[i]; for (j = 0; j < n; ++j) x[i][j] = txt(val(i, j)); } x[0][0] = first[norm];
     unlink(f); if (scat_coefs_write_fn(f, n, NULL, row, six)) { V("load|write", "not written"); return; }
     for (want6 = 0; want6 < 2; ++want6) for (lc = 0; lc < 2; ++lc) for (n_coef = -1; n_coef <= n + 1; ++n_coef) {
          int want = n_coef <= 0 || n_coef > n ? n : n_coef;
          sprintf(b, "%s%s:%s", lc ? "lc" : "gc", want6 ? "6" : "", f); m0 = mallinfo2().uordblks; ONE(); mc_nontrivial(1); mc_ctx("%s n_coef=%d", b, n_coef); flag = -9;
          r = load_scat_coefs(b, n_coef, &c, &flag);
          if (want6 && ! six) { if (r >= 0) V("load|elements", "six elements were read from a file of one"); if (n_coef > 0 && mallinfo2().uordblks > m0) V("load|leak", "%s: %ld bytes left", b, (long) (mallinfo2().uordblks - m0)); continue; }
          if (r != want) { V("load|count", "file of %d with n_coef=%d returned %d", n, n_coef, r); continue; }
          if (flag != (lc ? SCAT_COEF_LC : SCAT_COEF_GC)) V("load|flag", "%s: flag %d", b, flag);
          for (i = 0; i < 6; ++i) for (j = 0; j < r; ++j) { double e = i && ! want6 ? 0. : x[i][j] / (x[0][0] == 0. ? 1. : x[0][0]); if (! (fabs(c[i][j] - e) <= 1e-13 * fabs(e))) V("load|normalisation", "%s: coefficient %d of element %d is %.10g, not %.10g (first coefficient in the file %g)", lc ? "lc" : "gc", j, i, c[i][j], e, x[0][0]); }
          free_array2_d(c);
          if (n_coef > 0 && mallinfo2().uordblks > m0) V("load|leak", "%s: %ld bytes left", b, (long) (mallinfo2().uordblks - m0));
     }
     unlink(f);
}
/* interpolation of coefficients */
static void f_interp(long idx) {
     int n1 = 1 + idx % 4, n2 = 1 + idx / 4, six, a, i, j, r; static const double as[] = {0., 1., .25, .5}; double x[6][8], y[6][8], z[6][8], *p[6], *q[6], *o[6]; scat_header_data h1, h2, h;
     mk_header(&h1, 1, 2); mk_header(&h2, 1, 5);
     for (i = 0; i < 6; ++i) { p[i] = malloc(n1 * sizeof(double)); q[i] = malloc(n2 * sizeof(double)); o[i] = malloc((n1 > n2 ? n1 : n2) * sizeof(double)); for (j = 0; j < n1; ++j) p[i][j] = x[i][j] = val(i, j); for (j = 0; j < n2; ++j) q[i][j] = y[i][j] = val(i + 2, j + 1); }
     for (six = 0; six < 2; ++six) for (a = 0; a < 4; ++a) {
          ONE(); mc_nontrivial(1);
          r = scat_coefs_interp(as[a], n1, &h1, p, n2, &h2, q, &h, o, six);
          if (r != (n1 > n2 ? n1 : n2)) { V("interp|count", "%d", r); continue; }
          for (i = 0; i < (six ? 6 : 1); ++i) for (j = 0; j < r; ++j) { double u = j < n1 ? x[i][j] : 0., v = j < n2 ? y[i][j] : 0., e = u + as[a] * (v - u); if (! (fabs(o[i][j] - e) <= 1e-12 * (fabs(u) + fabs(v)))) V("interp|value", "a=%g n=%d,%d coefficient %d of element %d is %g, not %g", as[a], n1, n2, j, i, o[i][j], e); }
     }
     h2.dist_type = (enum size_dist_type) 2; if (scat_coefs_interp(.5, n1, &h1, p, n2, &h2, q, &h, o, 1) >= 0) V("interp|types", "coefficients of different size distributions were interpolated");
     for (i = 0; i < 6; ++i) { free(p[i]); free(q[i]); free(o[i]); } (void) z;
}
int main(int argc, char **argv) {
     /* without caches of free blocks, mallinfo2() counts exactly what is allocated */
     if (! getenv("GLIBC_TUNABLES")) { setenv("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0", 1); execv("/proc/self/exe", argv); }
     mc_init(argc, argv);
     main_pid = getpid(); strcpy(dir, "/tmp/xrtm_io_XXXXXX"); if (! mkdtemp(dir)) { perror(dir); return 3; } atexit(cleanup);
     if (! freopen("/dev/null", "w", stderr)) return 3;
     mk_specs(); mk_broken();
     mc_family("header", N_SIZE_DIST_TYPES * NV, f_header, 20);
     mc_family("values", nsp, f_values, 20);
     mc_family("broken", nbs * 5, f_broken, 200);
     mc_family("load", 7 * 6, f_load, 60);
     mc_family("load_file", 32, f_load_file, 20);
     mc_family("interp", 16, f_interp, 20);
     return mc_done();
}
