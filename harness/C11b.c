/*vp {"pc":"VP","time":100,"replays":60,"bounds":["exceptions of 5 kinds (message, class, every 32-bit id other than 0, from a called method, failing operator) that leave scopes holding up to 4 objects whose destructors are of 7 kinds (empty, catching an exception, throwing, calling, clearing $@, releasing an object with a throwing destructor, failing operator), caught in the same method or its caller, and destructors that run after an exception was caught"]} */
#include "lang.h"
static void* keep(SPV* s, void* o) { if (o) ENV->push_mortal(ENV, ST, o); return o; }
static void run(SPV* s, const char* m, int objs, int extra3) {
  int k = vp_choice(5, "exception"), d = vp_choice(7, "destructor"), id = sym_int("id"); vp_assume(id != 0);
  for (int i = 0; i < 2; i++) { int sc = ENV->enter_scope(ENV, ST); OK(CALL(s, "clear", 0)); ST[0].ival = 0; OK(CALL(s, "SET_D", 1)); spv_clear_exc(s); uint64_t live = vp_live_blocks();
    ST[0].ival = d; ST[1].ival = k; ST[2].ival = id; OK(CALL(s, m, 3)); vp_assert(get_int() == 1, "the exception is caught");
    OK(CALL(s, "ID", 0)); int got = get_int(); if (k == 2) vp_assert(got == id, "the error id survives the destructors that run while the exception propagates"); else { OK(CALL(s, k == 1 ? "err1" : "err0", 0)); vp_assert(got == get_int(), "the error id survives the destructors that run while the exception propagates"); }
    OK(CALL(s, "MSG", 0)); void* o = keep(s, ST[0].oval); vp_assert(o != 0, "the message survives the destructors that run while the exception propagates"); const char* c = ENV->get_chars(ENV, ST, o); vp_assert(k == 4 ? c[0] != 'o' && c[0] != 'i' : !strncmp(c, "outer:", 6), "the message survives the destructors that run while the exception propagates");
    OK(CALL(s, "D", 0)); int n = get_int(); int w = objs + (extra3 && k == 3); vp_assert(n == w * (d == 5 ? 2 : 1) + (objs == 2 ? 2 + (k == 3) : 0), "every object is destroyed exactly once");
    OK(CALL(s, "clear", 0)); spv_clear_exc(s); ENV->leave_scope(ENV, ST, sc); if (i) vp_assert(vp_live_blocks() == live, "memory balance"); }
  vp_reach("done");
}
JOB2(caught) { run(s, "caught", 4, 1); }
JOB2(inlined) { run(s, "inline", 3, 0); }
JOB2(after) { run(s, "after", 2, 0); }
