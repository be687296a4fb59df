/* C03, C04, C05: the inputs of an instance as a state machine; model = the values (and which are set), compared through the getters. */
#include "inputs.h"
/* ------------------------------------------------ C03 */
static int cfg_of[40000], op_of[40000], n_items;
static int g_st;
static snap sa, sb;
static int step(xrtm_data *d, model *m, const op *o, const char *seq) {
     xh_in t; int i; char b[300];
     fill(&t, o->v);
     if (do_op(d, o, &t)) { snprintf(b, 239, "%s|%s|rejected", C->name, seq); mc_viol(b, "a valid call was rejected"); return -1; }
     model_op(m, o, &t);
     take(d, NULL, &sa); take(d, m, &sb);
     mc_transitions(1);
     if ((i = cmp(&sa, &sb, 1.e-9)) >= 0) { report("values", seq, &sa, &sb, i); return -1; }
     return 0;
}
static void c03_seq(long idx) {
     int i, j, o1 = op_of[idx], st, depth; xrtm_data d; model m; char seq[400], n1[100], n2[100], n3[100];
     use_cfg(cfg_of[idx]);
     opname(&ops[o1], n1);
     for (st = 0; st < 3; ++st) {
          sprintf(seq, "start%d;%s", st, n1); mc_ctx("%s %s", C->name, seq);
          if (start(&d, &m, st)) { mc_viol(seq, "%s: the starting state was refused", C->name); return; }
          if (o1 == 0) { take(&d, NULL, &sa); take(&d, &m, &sb); if ((i = cmp(&sa, &sb, 1.e-9)) >= 0) { report("start", st == 0 ? "created" : st == 1 ? "all set" : "solved", &sa, &sb, i); } }
          i = step(&d, &m, &ops[o1], seq);
          xrtm_destroy(&d);
          mc_execs(1); mc_states(1);
          if (i) continue;
          depth = st == 2 ? 1 : 2;
          if (depth == 1) continue;
          for (i = 0; i < n_ops; ++i) {
               opname(&ops[i], n2);
               sprintf(seq, "start%d;%s;%s", st, n1, n2); mc_ctx("%s %s", C->name, seq);
               start(&d, &m, st);
               if (! step(&d, &m, &ops[o1], n1) && ! step(&d, &m, &ops[i], seq)) mc_nontrivial(1);
               mc_states(1); mc_execs(1);
               /* third operations of another kind continue from here */
               if (mc_thorough) for (j = (o1 * 7 + i) % 5; j < n_ops; j += 5) {
                    opname(&ops[j], n3); sprintf(seq, "start%d;%s;%s;...;%s", st, n1, n2, n3);
                    if (step(&d, &m, &ops[j], seq)) break;
               }
               xrtm_destroy(&d);
          }
     }
}
/* outputs are the same whichever forms and order of setters are used */
static void c03_out(long idx) {
     static xh_out ref, o; int i, j, k, n, at, var, ord, nv; xrtm_data d; xh_in in; xh_slot s[400], q; char b[300], nb[100]; double e;
     use_cfg(idx);
     xh_default_in(C, &in);
     n = xh_required_slots(C, s); n += xh_deriv_slots(C, s + n);
     memset(xh_func_alt, 0, sizeof(xh_func_alt));
     for (k = 0; k < n_solv; ++k) {
          if (xh_fresh_run(C, &in, solv[k], sols(), 0, &ref)) { mc_viol("reference", "%s: failed", C->name); return; }
          mc_outcome(mc_hash(ref.v, ref.n * sizeof(double), 0));
          /* orders: 0 reversed, 1.. slot i first, n+1.. slot i last; forms: all slots form var, then one slot another form */
          for (ord = 0; ord < 2 * n + 1; ++ord) for (var = 0; var < 4; ++var) {
               if (ord > 0 && var > (mc_thorough ? 3 : 0)) continue;
               sprintf(b, "order%d;form%d", ord, var); mc_ctx("%s %s", C->name, b);
               if (xh_create(C, &d)) return;
               for (i = 0; i < n; ++i) {
                    if (ord == 0) j = n - 1 - i;
                    else if (ord <= n) j = i == 0 ? ord - 1 : i <= ord - 1 ? i - 1 : i;
                    else j = i == n - 1 ? ord - n - 1 : i >= ord - n - 1 ? i + 1 : i;
                    if (xh_set(C, &d, &in, &s[j], var)) { snprintf(nb, 99, "%s|%s|rejected", C->name, b); mc_viol(nb, "slot %s", xh_kind_name(s[j].kind)); break; }
               }
               if (i == n && ! xh_update(C, &d)) {
                    xh_run(C, &d, &in, solv[k], sols(), 0, &o);
                    mc_execs(1); mc_nontrivial(1);
                    if ((e = xh_diff(&o, &ref, &at)) > 1.e-10) { char sg[300]; q = s[ord == 0 ? 0 : (ord - 1) % n]; snprintf(sg, 239, "%s|outputs|%s|%s", C->name, b, xh_kind_name(q.kind)); mc_viol(sg, "relative difference %g at %d, rc %d", e, at, o.rc); }
               }
               xrtm_destroy(&d);
          }
          for (i = 0; i < n; ++i) for (nv = 1; nv < 4; ++nv) {
               xh_slot_name(&s[i], nb);
               sprintf(b, "%s;form%d", nb, nv); mc_ctx("%s %s", C->name, b);
               if (xh_create(C, &d)) return;
               for (j = 0; j < n; ++j) if (xh_set(C, &d, &in, &s[j], j == i ? nv : 0)) break;
               if (j == n && ! xh_update(C, &d)) {
                    xh_run(C, &d, &in, solv[k], sols(), 0, &o);
                    mc_execs(1); mc_nontrivial(1);
                    if ((e = xh_diff(&o, &ref, &at)) > 1.e-10) { char sg[300]; snprintf(sg, 239, "%s|outputs|%s", C->name, b); mc_viol(sg, "relative difference %g at %d, rc %d", e, at, o.rc); }
               } else { char sg[300]; snprintf(sg, 239, "%s|outputs|%s|rejected", C->name, b); mc_viol(sg, "rejected"); }
               xrtm_destroy(&d);
          }
     }
}
#include "state2.h"
int main(int argc, char **argv) {
     int i, j;
     if (! getenv("OPENBLAS_NUM_THREADS")) { setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1); execv("/proc/self/exe", argv); }
     mc_init(argc - 1, argv + 1);
     xh_quiet();
     for (i = 0; i < NC; ++i) { use_cfg(i); for (j = 0; j < n_ops; ++j) { cfg_of[n_items] = i; op_of[n_items++] = j; } }
     if (! strcmp(argv[1], "C03")) {
          mc_family("sequences", n_items, c03_seq, 600);
          mc_family("outputs", NC, c03_out, 600);
     }
     else if (! strcmp(argv[1], "C04")) c04_main();
     else if (! strcmp(argv[1], "C05")) c05_main();
     else return 2;
     return mc_done();
}
