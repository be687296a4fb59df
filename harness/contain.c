/* C25: containers. Every reachable list of up to NL elements and every reachable tree over NT keys, every operation on each of these,
   and every sequence of operations of a bounded length from the empty container; compared with an array. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "mc.h"
#include "gutil.h"
#include "glist.h"
#include "gstruct.h"

#define VAL(k) ((void *) (uintptr_t) (16 * (k)))
#define KEY(v) ((int) ((uintptr_t) (v) / 16))
static char sg[100];
#define V(what, ...) do { snprintf(sg, sizeof(sg), "%s", what); mc_viol(sg, __VA_ARGS__); } while (0)

static int n_freed, freed[64];
static void free_value(void *v) { if (n_freed < 64) freed[n_freed] = KEY(v); n_freed++; }
static int comp(const void *a, const void *b) { return KEY(a) < KEY(b) ? -1 : KEY(a) > KEY(b); }
static int print_value(FILE *fp, const void *v) { return fprintf(fp, "%d,", KEY(v)); }

/*----------------------------------------------------------------------------- doubly linked circular lists */
#define LMAX 12
enum { INS, INS_END, INS_FRONT, INS_SORT_T, INS_SORT_C, ADD, ADD_END, ADD_FRONT, ADD_SORT_T, ADD_SORT_C, SORT_T, SORT_C, DEL, DEL_T, DEL_C, REM, REM_T, REM_C, EMPTY, N_DOP };
static const char *dname[] = {"insert", "insert_end", "insert_front", "insert_sort_type", "insert_sort_comp", "add", "add_end", "add_front", "add_sort_type", "add_sort_comp", "sort_type", "sort_comp", "delete", "delete_type", "delete_comp", "remove", "remove_type", "remove_comp", "empty"};
typedef struct { gdclist *l; int n; gdcelem *e[LMAX]; int v[LMAX]; } dm;

static int sorted(dm *m) { int i; for (i = 1; i < m->n; ++i) if (m->v[i - 1] > m->v[i]) return 0; return 1; }
static int d_check(dm *m, const char *op) {
     int i, n = m->n, k; gdcelem *p; char *s = NULL, want[200]; size_t sz; FILE *fp;
     char w[60]; snprintf(w, sizeof(w), "dclist_%s", op);
#define BAD(...) do { V(w, __VA_ARGS__); return 1; } while (0)
     if (! gdclist_is_empty(m->l) != (n > 0)) BAD("is_empty() with %d elements", n);
     p = gdclist_first(m->l);
     if (n == 0) { if (p || gdclist_last(m->l)) BAD("an empty list with a first or last element"); }
     else {
          for (i = 0; i < n; ++i, p = gdcelem_advance(p)) {
               if (p != m->e[i]) BAD("element %d of %d is not the one expected going forward", i, n);
               if (KEY(gdcelem_value(p)) != m->v[i] || KEY(*gdcelem_pointer(p)) != m->v[i]) BAD("element %d of %d has value %d, expected %d", i, n, KEY(gdcelem_value(p)), m->v[i]);
          }
          if (p != m->e[0]) BAD("the list of %d is not closed going forward", n);
          p = gdclist_last(m->l);
          for (i = n - 1; i >= 0; --i, p = gdcelem_retreat(p)) if (p != m->e[i]) BAD("element %d of %d is not the one expected going backward", i, n);
          if (p != m->e[n - 1]) BAD("the list of %d is not closed going backward", n);
     }
     if (gdclist_count(m->l) != n) BAD("count() is %d, expected %d", gdclist_count(m->l), n);
     for (k = 1; k <= 4; ++k) {
          for (i = 0; i < n && m->v[i] != k; ++i) ;
          p = i < n ? m->e[i] : NULL;
          if (gdclist_find_type(m->l, VAL(k)) != p) BAD("find_type(%d) is not the first element with that value", k);
          if (gdclist_find_comp(m->l, VAL(k)) != p) BAD("find_comp(%d) is not the first element with that value", k);
     }
     fp = open_memstream(&s, &sz);
     k = gdclist_print(m->l, fp); fclose(fp);
     for (want[0] = 0, i = 0; i < n; ++i) sprintf(want + strlen(want), "%d,", m->v[i]);
     if (k != n || strcmp(s, want)) { free(s); BAD("print() gives %d elements", k); }
     free(s);
     return 0;
}
static void m_ins(dm *m, int at, gdcelem *e, int v) { memmove(m->e + at + 1, m->e + at, (m->n - at) * sizeof(m->e[0])); memmove(m->v + at + 1, m->v + at, (m->n - at) * sizeof(int)); m->e[at] = e; m->v[at] = v; m->n++; }
static void m_del(dm *m, int at) { memmove(m->e + at, m->e + at + 1, (m->n - at - 1) * sizeof(m->e[0])); memmove(m->v + at, m->v + at + 1, (m->n - at - 1) * sizeof(int)); m->n--; }
/* a new order of the same elements, sorted: taken from the list, if it is one */
static int m_resort(dm *m, const char *op) {
     int i, j, c[LMAX] = {0}; gdcelem *p = gdclist_first(m->l), *e[LMAX]; int v[LMAX]; char w[60]; snprintf(w, sizeof(w), "dclist_%s", op);
     for (i = 0; i < m->n; ++i) {
          if (! p) BAD("%d of %d elements are left", i, m->n);
          for (j = 0; j < m->n && (c[j] || m->e[j] != p); ++j) ;
          if (j == m->n) BAD("an element which was not in the list, or twice");
          c[j] = 1; e[i] = p; v[i] = m->v[j];
          if (i && v[i] < v[i - 1]) BAD("not sorted");
          p = gdcelem_advance(p);
     }
     memcpy(m->e, e, sizeof(e)); memcpy(m->v, v, sizeof(v));
     return 0;
}
/* one operation; 0: done, 1: failed, -1: does not apply */
static int d_op(dm *m, int op, int pos, int v) {
     gdcelem *e = NULL, *r = NULL; int i, k, at = -1, ex = -1, sort = 0; static char w[60]; snprintf(w, sizeof(w), "dclist_%s", dname[op]);
     n_freed = 0;
     if (op == INS || op == ADD) { if (m->n == 0 ? pos != -1 : pos < 0 || pos >= m->n) return -1; }
     else if (op == DEL || op == REM) { if (pos < 0 || pos >= m->n) return -1; }
     else if (pos != -1) return -1;
     if ((op == SORT_T || op == SORT_C || op == DEL || op == REM || op == EMPTY) != (v == 0)) return -1;
     if ((op == INS_SORT_T || op == INS_SORT_C || op == ADD_SORT_T || op == ADD_SORT_C)) { if (! sorted(m)) return -1; sort = 1; }
     if (op >= ADD && op <= ADD_SORT_C) { e = malloc(sizeof(gdcelem)); memset(e, 0x5a, sizeof(*e)); e->value = VAL(v); }
     for (i = 0; i < m->n && m->v[i] != v; ++i) ;
     k = i < m->n ? i : -1;
     switch (op) {
          case INS:        e = gdclist_insert(m->l, m->n ? m->e[pos] : NULL, VAL(v)); at = pos + 1; break;
          case INS_END:    e = gdclist_insert_end(m->l, VAL(v)); at = m->n; break;
          case INS_FRONT:  e = gdclist_insert_front(m->l, VAL(v)); at = 0; break;
          case INS_SORT_T: e = gdclist_insert_sort_type(m->l, VAL(v)); break;
          case INS_SORT_C: e = gdclist_insert_sort_comp(m->l, VAL(v)); break;
          case ADD:        gdclist_add(m->l, m->n ? m->e[pos] : NULL, e); at = pos + 1; break;
          case ADD_END:    gdclist_add_end(m->l, e); at = m->n; break;
          case ADD_FRONT:  gdclist_add_front(m->l, e); at = 0; break;
          case ADD_SORT_T: gdclist_add_sort_type(m->l, e); break;
          case ADD_SORT_C: gdclist_add_sort_comp(m->l, e); break;
          case SORT_T:     gdclist_sort_type(m->l); break;
          case SORT_C:     gdclist_sort_comp(m->l); break;
          case DEL:        gdclist_delete(m->l, m->e[pos]); ex = pos; break;
          case DEL_T:      gdclist_delete_type(m->l, VAL(v)); ex = k; break;
          case DEL_C:      gdclist_delete_comp(m->l, VAL(v)); ex = k; break;
          case REM:        r = gdclist_remove(m->l, m->e[pos]); ex = pos; break;
          case REM_T:      r = gdclist_remove_type(m->l, VAL(v)); ex = k; break;
          case REM_C:      r = gdclist_remove_comp(m->l, VAL(v)); ex = k; break;
          case EMPTY:      gdclist_empty(m->l); break;
     }
     mc_transitions(1); mc_nontrivial(1);
     if (op <= ADD_SORT_C) {
          if (! e) BAD("no element returned");
          if (sort) { for (at = 0; at < m->n && m->v[at] <= v; ++at) ; }
          /* among equal ones any place will do */
          m_ins(m, at, e, v);
          if (sort && m_resort(m, dname[op])) return 1;
     }
     else if (op == SORT_T || op == SORT_C) { if (m_resort(m, dname[op])) return 1; }
     else if (op == EMPTY) { if (n_freed != m->n) BAD("%d of %d values freed", n_freed, m->n); for (i = 0; i < m->n; ++i) if (freed[i] != m->v[i]) BAD("not the values of the list freed"); m->n = 0; }
     else {
          int del = op == DEL || op == DEL_T || op == DEL_C;
          if (! del && r != (ex >= 0 ? m->e[ex] : NULL)) BAD("not the element to be removed returned");
          if (n_freed != (del && ex >= 0)) BAD("%d values freed", n_freed);
          if (n_freed && freed[0] != m->v[ex]) BAD("another value freed");
          if (! del && r) free(r);
          if (ex >= 0) m_del(m, ex);
     }
     if (op != DEL && op != DEL_T && op != DEL_C && op != EMPTY && n_freed) BAD("a value freed");
     return d_check(m, dname[op]);
}
static void d_new(dm *m) { m->l = gdclist_create(); m->n = 0; gdclist_set_comp(m->l, comp); gdclist_set_free(m->l, free_value); gdclist_set_print(m->l, print_value); }
static void d_end(dm *m) { n_freed = 0; gdclist_free(m->l); if (n_freed != m->n) V("dclist_free", "%d of %d values freed", n_freed, m->n); }
static void d_build(dm *m, const int *v, int n, int how) { int i; d_new(m); for (i = 0; i < n; ++i) m_ins(m, how ? 0 : m->n, how ? NULL : gdclist_insert_end(m->l, VAL(v[i])), v[i]);
     if (how) { m->n = 0; for (i = n - 1; i >= 0; --i) { gdcelem *e = gdclist_insert_front(m->l, VAL(v[i])); m_ins(m, 0, e, v[i]); } } }

#define NV 3
/* every list of length 0..n over NV values; every operation on it */
static void d_states(long code) {
     int n = 0, v[LMAX], i, op, pos, val, how; long c = code, p = 1; dm m;
     while (c >= p) { c -= p; p *= NV; n++; }
     for (i = 0; i < n; ++i) { v[i] = c % NV + 1; c /= NV; }
     mc_ctx("dclist,%ld", code); mc_states(1);
     for (how = 0; how < 2; ++how) {
          d_build(&m, v, n, how); if (d_check(&m, how ? "insert_front" : "insert_end")) return; d_end(&m);
          for (op = 0; op < N_DOP; ++op) for (pos = -1; pos < n; ++pos) for (val = 0; val <= NV + 1; ++val) {
               d_build(&m, v, n, how);
               i = d_op(&m, op, pos, val);
               if (i == 1) return;
               mc_execs(i == 0);
               /* and one more after it, which a broken link that the walk does not see would upset */
               if (i == 0 && d_op(&m, INS_FRONT, -1, 1) == 1) return;
               if (i == 0 && d_op(&m, DEL, m.n - 1, 0) == 1) return;
               d_end(&m);
          }
     }
}
/* every sequence of operations */
static void d_rec(const int *path, int n, int depth, int max) {
     dm m; int i, op, pos, val, p2[8 * 3];
     memcpy(p2, path, n * 3 * sizeof(int));
     for (op = 0; op < N_DOP; ++op) for (pos = -1; pos < 3; ++pos) for (val = 0; val <= 2; ++val) {
          if (n > 0 && op == EMPTY && path[3 * n - 3] == EMPTY) continue;
          d_new(&m);
          for (i = 0; i < n; ++i) if (d_op(&m, path[3 * i], path[3 * i + 1], path[3 * i + 2])) return;
          i = d_op(&m, op, pos, val);
          if (i == 1) return;
          d_end(&m);
          if (i < 0) continue;
          mc_execs(1); mc_states(1);
          p2[3 * n] = op; p2[3 * n + 1] = pos; p2[3 * n + 2] = val;
          if (n + 1 < max) d_rec(p2, n + 1, depth, max);
     }
}
static void d_seqs(long code) {
     int p[8 * 3]; dm m; int i;
     p[0] = code % N_DOP; code /= N_DOP; p[1] = -1; p[2] = code % 3;
     mc_ctx("dclist sequences,%s,%d", dname[p[0]], p[2]);
     d_new(&m); i = d_op(&m, p[0], p[1], p[2]); if (i) { if (i < 0) d_end(&m); return; } d_end(&m);
     mc_execs(1);
     d_rec(p, 1, 1, mc_thorough ? 4 : 3);
}

/*----------------------------------------------------------------------------- trees */
#define NTMAX 16
typedef struct { gaatree *t; unsigned set; gaatpos *nul; } tm_;
static int t_walk(tm_ *m, gaatpos *p, gaatpos *parent, int lo, int hi, int *bad, char *why, unsigned *set) {
     int k, n, l, r;
     if (p == m->nul) return 0;
     if (p->parent != parent) { *bad = 1; strcpy(why, "a parent pointer is wrong"); return 0; }
     k = KEY(p->value);
     if (k <= lo || k >= hi) { *bad = 1; sprintf(why, "%d is out of order", k); return 0; }
     if (*set & 1u << k) { *bad = 1; sprintf(why, "%d is there twice", k); return 0; }
     *set |= 1u << k;
     l = p->left == m->nul ? 0 : p->left->level; r = p->right == m->nul ? 0 : p->right->level;
     if (l != p->level - 1 || (r != p->level && r != p->level - 1)) { *bad = 1; sprintf(why, "the levels are unbalanced at %d: %d with %d and %d", k, p->level, l, r); }
     if (p->right != m->nul && p->right->right != m->nul && p->right->right->level >= p->level) { *bad = 1; sprintf(why, "the levels are unbalanced at %d", k); }
     n = t_walk(m, p->left, p, lo, k, bad, why, set); if (*bad) return 0;
     return 1 + n + t_walk(m, p->right, p, k, hi, bad, why, set);
}
static unsigned long t_hash(tm_ *m, gaatpos *p, unsigned long h) { int a[2]; if (p == m->nul) return mc_hash("-", 1, h); a[0] = KEY(p->value); a[1] = p->level; h = mc_hash(a, sizeof(a), h); h = t_hash(m, p->left, h); return t_hash(m, p->right, h); }
static int t_check(tm_ *m, int nt, const char *op, int level) {
     int bad = 0, k, n = __builtin_popcount(m->set), prev = 0, next, j; char why[200] = ""; unsigned set = 0; gaatpos *p; char w[60], *s = NULL, want[200]; size_t sz; FILE *fp;
     snprintf(w, sizeof(w), "aatree_%s", op);
     if (m->nul->level != 0 || m->nul->left != m->nul || m->nul->right != m->nul || m->nul->value) BAD("the null node has changed");
     j = t_walk(m, m->t->base, m->nul, 0, 1000, &bad, why, &set);
     if (bad) BAD("%s", why);
     if (set != m->set || j != n) BAD("holds %x, expected %x", set, m->set);
     if (gaatree_count(m->t) != n || ! gaatree_is_empty(m->t) != (n > 0)) BAD("count() is %d of %d", gaatree_count(m->t), n);
     if (level == 0) return 0;
     for (k = 0; k <= nt + 1; ++k) {
          int in = m->set >> k & 1;
          p = gaatree_find_type(m->t, VAL(k));
          if (p != gaatree_find_comp(m->t, VAL(k)) || (in ? ! p || KEY(gaatpos_retrieve(p)) != k || KEY(*gaatpos_pointer(p)) != k : p != NULL)) BAD("find(%d) with %x", k, m->set);
          if (! in) continue;
          for (next = k + 1; next <= nt && ! (m->set >> next & 1); ++next) ;
          if (next > nt) next = 0;
          { gaatpos *a = gaatpos_advance_type(p), *b = gaatpos_advance_comp(p, comp);
            if (a != b || (a ? KEY(a->value) : 0) != next) BAD("advance from %d with %x: %d, expected %d", k, m->set, a ? KEY(a->value) : 0, next); }
          { gaatpos *a = gaatpos_retreat_type(p), *b = gaatpos_retreat_comp(p, comp);
            if (a != b || (a ? KEY(a->value) : 0) != prev) BAD("retreat from %d with %x: %d, expected %d", k, m->set, a ? KEY(a->value) : 0, prev); }
          if (! prev && gaatree_find_min(m->t) != p) BAD("find_min() with %x", m->set);
          if (! next && gaatree_find_max(m->t) != p) BAD("find_max() with %x", m->set);
          prev = k;
     }
     if (n == 0 && (gaatree_find_min(m->t) || gaatree_find_max(m->t))) BAD("find_min() or find_max() of an empty tree");
     fp = open_memstream(&s, &sz); k = gaatree_print(m->t, fp); fclose(fp);
     for (want[0] = 0, j = 1; j <= nt; ++j) if (m->set >> j & 1) sprintf(want + strlen(want), "%d,", j);
     if (k != n || strcmp(s, want)) { free(s); BAD("print() gives %d elements", k); }
     free(s);
     return 0;
}
static const char *tname[] = {"insert_type", "insert_comp", "delete_type", "delete_comp"};
static int t_op(tm_ *m, int nt, int op, int k, int level) {
     char w[60]; gaatpos *p; int r, in = m->set >> k & 1;
     snprintf(w, sizeof(w), "aatree_%s", tname[op]); n_freed = 0;
     mc_transitions(1); mc_nontrivial(1);
     if (op < 2) {
          p = op ? gaatree_insert_comp(m->t, VAL(k)) : gaatree_insert_type(m->t, VAL(k));
          if (in ? p != NULL : ! p || KEY(p->value) != k) BAD("insert(%d) with %x: %s", k, m->set, p ? "an element" : "no element");
          if (n_freed) BAD("a value freed");
          m->set |= 1u << k;
     }
     else {
          r = op == 3 ? gaatree_delete_comp(m->t, VAL(k)) : gaatree_delete_type(m->t, VAL(k));
          if (! r == in) BAD("delete(%d) with %x gives %d", k, m->set, r);
          if (n_freed != in || (in && freed[0] != k)) BAD("delete(%d) with %x: %d values freed", k, m->set, n_freed);
          m->set &= ~(1u << k);
     }
     return t_check(m, nt, tname[op], level);
}
static void t_new(tm_ *m) { m->t = gaatree_create(); m->set = 0; m->nul = m->t->base; gaatree_set_comp(m->t, comp); gaatree_set_free(m->t, free_value); gaatree_set_print(m->t, print_value); }
static void t_end(tm_ *m) { n_freed = 0; gaatree_empty(m->t); if (n_freed != __builtin_popcount(m->set)) V("aatree_empty", "%d values freed", n_freed); m->set = 0; t_check(m, 3, "empty", 1); gaatree_free(m->t); }

/* all trees reachable: breadth first, by comp or type functions */
typedef struct { unsigned long h; int parent; signed char op; unsigned char k; short depth; } node;
static void t_states(long variant) {
     static node *q; static int *table; int nq = 0, head, k, op, nt = variant < 2 ? (mc_thorough ? 11 : 8) : mc_thorough ? 8 : 6, size = 1 << 20, i, d, mixed = variant == 2; tm_ m; int path[4096];
     q = malloc(size * sizeof(node)); table = malloc(2 * size * sizeof(int)); memset(table, -1, 2 * size * sizeof(int));
     mc_ctx("aatree,%ld", variant);
     t_new(&m); q[0].h = t_hash(&m, m.t->base, 1); q[0].parent = -1; q[0].depth = 0; nq = 1; t_end(&m);
     table[q[0].h % (2 * size)] = 0;
     for (head = 0; head < nq && nq < size; ++head) {
          mc_states(1);
          for (op = 0; op < 4; ++op) {
               if (! mixed && (op & 1) != variant) continue;
               for (k = 1; k <= nt; ++k) {
                    unsigned long h; long s;
                    t_new(&m);
                    for (d = 0, i = head; i > 0; i = q[i].parent) path[d++] = i;
                    while (d--) { node *x = &q[path[d]]; if (t_op(&m, nt, x->op, x->k, 0)) { t_end(&m); goto out; } }
                    mc_execs(1);
                    if (t_op(&m, nt, op, k, 1)) { gaatree_free(m.t); goto out; }
                    h = t_hash(&m, m.t->base, 1);
                    t_end(&m);
                    for (s = h % (2 * size); table[s] >= 0 && q[table[s]].h != h; s = (s + 1) % (2 * size)) ;
                    if (table[s] < 0) { table[s] = nq; q[nq].h = h; q[nq].parent = head; q[nq].op = op; q[nq].k = k; q[nq].depth = q[head].depth + 1; nq++; if (nq == size) break; }
               }
          }
     }
     mc_count("trees", nq);
out:
     free(q); free(table);
}
/* every sequence of operations: what is left of earlier ones must not matter */
static void t_rec(int *path, int n, int max, int nt) {
     tm_ m; int i, op, k;
     for (op = 0; op < 4; op += 2) for (k = 1; k <= nt; ++k) {
          path[2 * n] = op; path[2 * n + 1] = k;
          if (n + 1 == max) {
               t_new(&m);
               for (i = 0; i <= n; ++i) if (t_op(&m, nt, path[2 * i] + (i & 1), path[2 * i + 1], 1)) return;
               t_end(&m); mc_execs(1); mc_states(n + 1);
          }
          else t_rec(path, n + 1, max, nt);
     }
}
static void t_seqs(long code) { int path[40]; int nt = 4; path[0] = code & 1 ? 2 : 0; path[1] = code / 2 % nt + 1; path[2] = code / 8 & 1 ? 2 : 0; path[3] = code / 16 + 1; mc_ctx("aatree sequences,%ld", code); t_rec(path, 2, mc_thorough ? 7 : 5, nt); }

/*----------------------------------------------------------------------------- named lists */
typedef struct { char *name; void *prev, *next; int id; } el;
typedef struct { struct list_data h; int n, next; el *e[LMAX]; } gm;
static int g_check(gm *m, const char *w) {
     int i, n = m->n; el *p, *q; char nm[4]; struct list_data *h = &m->h;
     if (! list_is_empty(h) != (n > 0)) BAD("is_empty() with %d", n);
     if (list_count(h) != n) BAD("count() is %d, expected %d", list_count(h), n);
     i = 0;
     list_for_each(h, p) { if (i >= n || p != m->e[i]) BAD("element %d of %d is not the one expected", i, n); i++; }
     if (i != n) BAD("%d elements of %d", i, n);
     for (i = n - 1, p = (el *) h->prev; i >= 0; --i, p = p->prev) if (p != m->e[i]) BAD("element %d of %d is not the one expected going backward", i, n);
     if ((void *) p != (void *) h) BAD("the list of %d is not closed going backward", n);
     if (list_last_elem(h) != (n ? (void *) m->e[n - 1] : (void *) h)) BAD("last_elem()");
     for (i = 0; i < n; ++i) if (! list_is_first_elem(h, m->e[i]) != (i != 0) || ! list_is_last_elem(h, m->e[i]) != (i != n - 1)) BAD("is_first_elem() or is_last_elem() of element %d of %d", i, n);
     for (nm[1] = 0, nm[0] = 'a'; nm[0] <= 'd'; ++nm[0]) { for (i = 0; i < n && strcmp(m->e[i]->name, nm); ++i) ; q = list_find(h, nm); if (q != (i < n ? m->e[i] : NULL)) BAD("find(%s) of %d", nm, n); }
     if (list_find(h, "") || list_find(h, "aa")) BAD("find() of a name which is not there");
     return 0;
}
static int g_op(gm *m, int op, int pos, int nm) {
     static char *names[] = {"a", "b", "c"}; el *e, *r; int i, at; const char *w = op == 2 ? "list_insert" : "list_append";
     if (op < 2 && pos != -1) return -1;
     if (pos >= m->n) return -1;
     e = malloc(sizeof(*e)); memset(e, 0x5a, sizeof(*e)); e->name = names[nm];
     mc_transitions(1); mc_nontrivial(1);
     at = m->n;
     if (op < 2) {
          r = list_append(&m->h, e, op);
          for (i = 0; i < m->n && strcmp(m->e[i]->name, names[nm]); ++i) ;
          if (op == 1 && i < m->n) { free(e); if (r) BAD("append() of a name which is there already"); return g_check(m, w); }
          if (r != e) BAD("append() does not return the element");
     }
     else { list_insert(pos < 0 ? (void *) &m->h : (void *) m->e[pos], e); at = pos + 1; }
     memmove(m->e + at + 1, m->e + at, (m->n - at) * sizeof(m->e[0])); m->e[at] = e; m->n++;
     return g_check(m, w);
}
static void g_rec(int *path, int n, int max) {
     gm m; int i, op, pos, nm;
     for (op = 0; op < 3; ++op) for (pos = -1; pos < n; ++pos) for (nm = 0; nm < 3; ++nm) {
          list_init(&m.h); m.n = 0;
          if (n == 0 && g_check(&m, "list_init")) return;
          for (i = 0; i < n; ++i) if (g_op(&m, path[3 * i], path[3 * i + 1], path[3 * i + 2])) return;
          i = g_op(&m, op, pos, nm);
          list_free(&m.h);
          if (i == 1) return;
          if (i < 0) continue;
          mc_execs(1); mc_states(1);
          path[3 * n] = op; path[3 * n + 1] = pos; path[3 * n + 2] = nm;
          if (n + 1 < max) g_rec(path, n + 1, max);
     }
}
static void g_seqs(long i) { int path[40]; (void) i; mc_ctx("list"); g_rec(path, 0, mc_thorough ? 5 : 4); }

int main(int argc, char **argv) {
     long n = 0, p = 1; int i;
     mc_init(argc, argv);
     for (i = 0; i <= (mc_thorough ? 6 : 4); ++i) { n += p; p *= NV; }
     mc_family("named", 1, g_seqs, 120);
     mc_family("lists", n, d_states, 60);
     mc_family("list-sequences", N_DOP * 3, d_seqs, 120);
     mc_family("tree-sequences", 64, t_seqs, 120);
     mc_family("trees", 3, t_states, 300);
     return mc_done();
}
