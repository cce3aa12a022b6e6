/*vp {"pc":"VP","time":120,"replays":200,"bounds":["two objects and five fields: up to five weakened in order, then every sequence of 2 (thorough: 3) steps (store, copy, clear, weaken, unweaken, replace the holder) on any field, or every order in which they stop being weak; every sequence of 3 (thorough: 4) steps on two fields including dropping an owner; both owners dropped at the end; all fields, isweak and both destructor counts compared after every step"]} */
#include "lang.h"
#define NS 5
static int sv[NS], wk[NS], own[3], dd[3];
static int refs(int o) { int n = own[o]; for (int i = 0; i < NS; i++) n += sv[i] == o && !wk[i]; return n; }
static void gone(int o) { if (o && !dd[o] && !refs(o)) { dd[o] = 1; for (int i = 0; i < NS; i++) if (sv[i] == o) sv[i] = wk[i] = 0; } }
static void put(int i, int o) { int old = sv[i]; sv[i] = o; wk[i] = 0; gone(old); }
static void one(SPV* s, const char* m, int i) { set_int(0, i); OK(CALL(s, m, 1)); }
static void cmp(SPV* s) {
  for (int i = 0; i < NS; i++) { one(s, "which", i); vp_assert(get_int() == sv[i], "a field refers to the live object it was given, or is undef"); one(s, "isw", i); vp_assert(!!get_int() == wk[i], "isweak"); }
  OK(CALL(s, "DA", 0)); vp_assert(get_int() == dd[1], "the first object is destroyed exactly when its last strong reference is gone"); OK(CALL(s, "DB", 0)); vp_assert(get_int() == dd[2], "the second object is destroyed exactly when its last strong reference is gone"); }
static void init(SPV* s) { OK(CALL(s, "setup", 0)); OK(CALL(s, "reset", 0)); for (int i = 0; i < NS; i++) sv[i] = wk[i] = 0; own[1] = own[2] = 1; dd[1] = dd[2] = 0; }
static void step(SPV* s, int op, int i) {
  switch (op) {
    case 0: one(s, "weak", i); if (sv[i] && !wk[i]) { int o = sv[i]; if (refs(o) == 1) put(i, 0); else wk[i] = 1; } break;
    case 1: one(s, "unweak", i); wk[i] = 0; break;
    case 2: one(s, "clear", i); put(i, 0); break;
    case 3: if (own[1]) { one(s, "set_a", i); put(i, 1); } break;
    case 4: if (own[2]) { one(s, "set_b", i); put(i, 2); } break;
    case 5: one(s, "drop_slot", i); put(i, 0); break;
    case 6: { int j = (i + 1) % NS; set_int(0, i); set_int(1, j); OK(CALL(s, "copy", 2)); if (i != j) { int o = sv[j]; int old = sv[i]; sv[i] = o; wk[i] = 0; if (old != o) gone(old); } break; }
    case 7: OK(CALL(s, "drop_a", 0)); own[1] = 0; gone(1); break;
    case 8: OK(CALL(s, "drop_b", 0)); own[2] = 0; gone(2); break; } }
static void finish(SPV* s) { step(s, 7, 0); cmp(s); step(s, 8, 0); cmp(s); for (int i = 0; i < NS; i++) { step(s, 2, i); } cmp(s); vp_assert(dd[1] && dd[2], "model"); OK(CALL(s, "cleanup", 0)); }
JOB2(many) { init(s); int k = 2 + vp_choice(NS - 1, "weak fields"); for (int i = 0; i < k; i++) { step(s, 3, i); step(s, 0, i); } cmp(s);
  int n = vp_thorough() ? 3 : 2; for (int t = 0; t < n; t++) { int op = vp_choice(7, "op"), i = vp_choice(k, "field"); step(s, op, i); cmp(s); } finish(s); vp_reach("many"); }
JOB2(order) { init(s); int k = 3 + vp_choice(NS - 2, "weak fields"); for (int i = 0; i < k; i++) { step(s, 3, i); step(s, 0, i); } // the fields stop being weak in any order, one way each
  int left = k; char used[NS] = {0}; while (left) { int c = vp_choice(left, "next"), i = 0; for (;; i++) if (!used[i] && !c--) break; used[i] = 1; left--; step(s, k > 4 ? 1 : 1 + vp_choice(2, "how"), i); cmp(s); } finish(s); vp_reach("order"); }
JOB2(owners) { init(s); int n = vp_thorough() ? 4 : 3; int op, i; for (int t = 0; t < n; t++) { op = vp_choice(9, "op"); i = op < 7 ? vp_choice(2, "field") : 0; step(s, op, i); if (t == n - 1) cmp(s); } finish(s); vp_reach("owners"); }
