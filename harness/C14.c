/*vp {"pc":"VP","time":200,"bounds":["every sequence of 5 (thorough: 6) steps of entering a scope, leaving the innermost or the outermost one, creating a string, an object, a pushed object, storing or dropping a reference","1..70 temporaries in one scope, with destructors that create temporaries themselves","native methods that create 0..9 temporaries, return one of them, return none or throw, called from interpreted and precompiled code"]} */
#include <stdlib.h>
static int STEPS;
#define EXTRA_SETUP { const char* t = getenv("VP_TIER"); STEPS = t && !strcmp(t, "thorough") ? 6 : 5; }
#include "lang.h"
int32_t SPVM__Nat__many(SPVM_ENV* env, SPVM_VALUE* stack) { int n = stack[0].ival; for (int i = 0; i < n; i++) env->new_string(env, stack, "tmp", 3); return 0; }
static void* BT(SPV* s, const char* c) { return s->env->api->runtime->get_basic_type_by_name(s->rt, c); }
static SPV* CUR;
static void* mkob(SPV* s, SPVM_ENV* env, SPVM_VALUE* st, int w, int mortal) { void* o = mortal ? env->new_object(env, st, BT(s, "Ob")) : env->new_object_no_mortal(env, st, BT(s, "Ob")); vp_assert(o != 0, "an object is created"); int e = 0; env->set_field_int_by_name(env, st, o, "w", w, &e, __func__, __FILE__, __LINE__); vp_assert(!e, "the field is set"); return o; }
// plan: $n temporaries with weights 1, 2, 4..; how: 0 returns none, 1 the first, 2 the last, 3 throws, 4 leaves an inner scope half way and returns the first, 5 a call back, 6 a call back without mortal
int32_t SPVM__Nat__plan(SPVM_ENV* env, SPVM_VALUE* st) {
  int n = st[0].ival, how = st[1].ival; void* first = 0, *last = 0; int sc = 0; int32_t e = 0;
  for (int i = 0; i < n; i++) { if (how == 4 && i == 1) sc = env->enter_scope(env, st); last = mkob(CUR, env, st, 1 << i, i % 2 ? 1 : 1); if (!i) first = last; }
  if (how == 4 && n > 1) { env->leave_scope(env, st, sc); env->call_class_method_by_name(env, st, "VP", "getD", 0, &e, __func__, __FILE__, __LINE__); vp_assert(st[0].ival == (1 << n) - 2, "leaving the inner scope destroyed exactly the temporaries created in it"); last = 0; }
  if (how == 5) { st[0].ival = 512; env->call_class_method_by_name(env, st, "VP", "mk", 1, &e, __func__, __FILE__, __LINE__); vp_assert(!e, "the call back succeeds"); last = st[0].oval; }
  if (how == 3) return env->die(env, st, "planned", __func__, __FILE__, __LINE__);
  st[0].oval = how == 1 || how == 4 ? first : how == 2 || how == 5 ? last : 0;
  return 0; }
static int D(SPV* s) { OK(CALL(s, "getD", 0)); return get_int(); }
JOBV(scopes) { OK(CALL(s, "reset", 0)); int base_scope = ENV->enter_scope(ENV, ST); void* keepAlive = 0; (void)keepAlive;
  { int w = ENV->enter_scope(ENV, ST); mkob(s, ENV, ST, 0, 1); ENV->leave_scope(ENV, ST, w); } // the stack keeps the frame storage of the first destructor calls
  uint64_t live = vp_live_blocks(); 
  // model: temporaries in creation order: weight (0: string), alive flag; marks of the open scopes
  int tw[16], wt[16], n = 0, mark[16], handle[16], depth = 0; int g = -1, dead = 0; void* tp[16]; int gdead = 0;
  for (int i = 0; i < STEPS; i++) wt[i] = sym_int("weight"); char tx[4] = {0}; vp_symbolic(tx, 3, "text");
  #define W(id) ((id) ? wt[__builtin_ctz(id)] : 0)
  for (int step = 0; step < STEPS; step++) {
    int op = vp_choice(8, "op");
    if ((op == 1 || op == 2) && !depth) return;
    if (op == 6 && (!n || !tw[n - 1])) return;
    if (op == 7 && g < 0) return;
    if (op == 0) { handle[depth] = ENV->enter_scope(ENV, ST); mark[depth++] = n; }
    else if (op == 1 || op == 2) { if (op == 2) depth = 1; depth--; ENV->leave_scope(ENV, ST, handle[depth]); for (int i = mark[depth]; i < n; i++) if (!(g >= 0 && tw[i] == g)) dead += W(tw[i]); n = mark[depth]; }
    else if (op == 3) { tp[n] = ENV->new_string(ENV, ST, tx, 3); tw[n++] = 0; }
    else if (op == 4) { tp[n] = mkob(s, ENV, ST, wt[step], 1); tw[n++] = 1 << step; }
    else if (op == 5) { tp[n] = mkob(s, ENV, ST, wt[step], 0); ENV->push_mortal(ENV, ST, tp[n]); tw[n++] = 1 << step; }
    else { // 6: keep the latest temporary in the class variable, 7: drop it
      int old = g, w = op == 6 ? tw[n - 1] : -1; ST[0].oval = op == 6 ? tp[n - 1] : 0; OK(CALL(s, "keep", 1));
      g = w; if (old >= 0 && old != w) { int still = 0; for (int i = 0; i < n; i++) still |= tw[i] == old; if (!still) dead += W(old); } }
    vp_assert(D(s) == dead, "exactly the temporaries of the left scopes that nothing else refers to are destroyed");
    uint64_t want = live; int gs = 0; for (int i = 0; i < n; i++) { want++; gs |= tw[i] == g; } if (g >= 0 && !gs) want++;
    vp_assert(vp_live_blocks() == want, "number of live memory blocks");
    for (int i = 0; i < n; i++) if (tw[i]) { int e = 0; vp_assert(ENV->get_field_int_by_name(ENV, ST, tp[i], "w", &e, __func__, __FILE__, __LINE__) == W(tw[i]), "a temporary keeps its value"); } else vp_assert(memcmp(ENV->get_chars(ENV, ST, tp[i]), tx, 4) == 0, "a temporary string keeps its value");
  }
  ENV->leave_scope(ENV, ST, base_scope); OK(CALL(s, "reset", 0)); vp_assert(vp_live_blocks() == live, "nothing is left"); vp_reach("scopes"); }
JOBV(grow) { OK(CALL(s, "reset", 0)); int deep = vp_choice(2, "destructor creates temporaries"); int n = 1 + vp_choice(70, "temporaries"), in = vp_choice(3, "inner"); int wa = sym_int("a"), wb = sym_int("b"); set_int(0, deep); OK(CALL(s, "setdeep", 1));
  int warm = ENV->enter_scope(ENV, ST); for (int i = 0; i < 2; i++) mkob(s, ENV, ST, 0, 1); ENV->leave_scope(ENV, ST, warm);
  uint64_t live = vp_live_blocks(); int sc = ENV->enter_scope(ENV, ST); int k = in == 0 ? n : in == 1 ? n / 2 : 1; for (int i = 0; i < k; i++) mkob(s, ENV, ST, wa, 1); int s2 = ENV->enter_scope(ENV, ST); for (int i = k; i < n; i++) mkob(s, ENV, ST, wb, 1);
  vp_assert(D(s) == 0 && vp_live_blocks() == live + n, "all temporaries survive until their scope is left"); ENV->leave_scope(ENV, ST, s2); vp_assert(D(s) == wb * (n - k), "the inner scope's temporaries are destroyed once each"); vp_assert(vp_live_blocks() == live + k, "and no others"); ENV->leave_scope(ENV, ST, sc); vp_assert(D(s) == wb * (n - k) + wa * k, "the outer ones are destroyed on leaving the outer scope"); vp_assert(vp_live_blocks() == live, "the balance is restored"); OK(CALL(s, "reset", 0)); }
JOB2(native) { CUR = s; OK(CALL(s, "reset", 0)); int n = vp_choice(10, "n"), how = vp_choice(6, "how"), c = vp_choice(2, "drop"); int all = (1 << n) - 1;
  for (int round = 0; round < 2; round++) { OK(CALL(s, "reset", 0)); uint64_t live = vp_live_blocks(); set_int(0, n); set_int(1, how); set_int(2, c); int sc = ENV->enter_scope(ENV, ST); OK(CALL(s, "outer", 3)); int r = get_int(); int kept = !n ? (how == 5 ? 512 : 0) : how == 1 || how == 4 ? 1 : how == 2 ? 1 << (n - 1) : how == 5 ? 512 : 0; int total = all + (how == 5 ? 512 : 0);
    if (how == 3) vp_assert(r == all * 8 + 1, "after an exception all temporaries are destroyed"); else vp_assert(r == (c ? (total * 64 + (total - kept)) * 8 + 2 : (total - kept) * 8 + 3), "the returned object survives, the other temporaries do not");
    vp_assert(D(s) == total, "everything is destroyed when the caller's variables are gone"); ENV->leave_scope(ENV, ST, sc); spv_clear_exc(s); if (round) vp_assert(vp_live_blocks() == live, "memory balance"); } }
JOB2(by_native) { CUR = s; OK(CALL(s, "reset", 0)); int mortal = vp_choice(2, "mortal"); void* m = spv_find(s, "VP", "mk"); int w = ENV->enter_scope(ENV, ST); set_int(0, 5); CALL(s, "mk", 1); ENV->leave_scope(ENV, ST, w); int sc = ENV->enter_scope(ENV, ST); OK(CALL(s, "reset", 0)); uint64_t live = vp_live_blocks(); int s2 = ENV->enter_scope(ENV, ST); int wv = sym_int("w"); set_int(0, wv);
  int e = mortal ? ENV->call_method(ENV, ST, m, 1) : ENV->call_method_no_mortal(ENV, ST, m, 1); OK(e); void* o = ST[0].oval; vp_assert(vp_live_blocks() == live + 1, "one object lives"); ENV->leave_scope(ENV, ST, s2);
  if (mortal) { vp_assert(D(s) == wv, "the returned object was a temporary of the scope"); } else { vp_assert(D(s) == 0, "the returned object is not a temporary"); void* hold = 0; ENV->assign_object(ENV, ST, &hold, o); ENV->assign_object(ENV, ST, &hold, 0); vp_assert(D(s) == wv, "and is destroyed with its last reference"); }
  vp_assert(vp_live_blocks() == live, "memory balance"); ENV->leave_scope(ENV, ST, sc); }
