/*vp {"pc":"VP","time":100,"replays":60,"bounds":["14 methods in which objects with 7 kinds of destructors (empty, catching an exception, throwing, calling, clearing $@, releasing an object with a throwing destructor, failing operator) are released while a value of each type is returned, passed, looped over or referred to: every value"]} */
#include "lang.h"
static void* keep(SPV* s, void* o) { if (o) ENV->push_mortal(ENV, ST, o); return o; }
static void begin(SPV* s) { ST[0].ival = 0; OK(CALL(s, "SET_D", 1)); }
static void ends(SPV* s, int m, int n) { OK(CALL(s, "D", 0)); vp_assert(get_int() == n * (m == 5 ? 2 : 1), "every object is destroyed exactly once"); vp_reach("done"); }
static int mode(SPV* s) { int m = vp_choice(7, "destructor"); begin(s); return m; }
#define V(name, n, code) JOB2(name) { int m = mode(s); ST[0].ival = m; code(s, m); BAL_BEGIN begin(s); ST[0].ival = m; code(s, m); BAL_END ends(s, m, n); }
static void q_int(SPV* s, int m) { int v = sym_int("v"); ST[1].ival = v; OK(CALL(s, "ret_int", 2)); vp_assert(get_int() == v, "the returned value survives the destructors"); }
V(ret_int, 1, q_int)
static void q_long(SPV* s, int m) { int64_t v = sym_long("v"); ST[1].lval = v; OK(CALL(s, "ret_long", 2)); vp_assert(get_long() == v, "the returned value survives the destructors"); }
V(ret_long, 1, q_long)
static void q_double(SPV* s, int m) { int64_t v = sym_long("v"); memcpy(&ST[1].dval, &v, 8); OK(CALL(s, "ret_double", 2)); int64_t r; memcpy(&r, &ST[0].dval, 8); vp_assert(r == v, "the returned value survives the destructors"); }
V(ret_double, 1, q_double)
static void q_str(SPV* s, int m) { int sc = ENV->enter_scope(ENV, ST); char t[2]; vp_symbolic(t, 2, "text"); void* x = spv_str(s, t, 2); ST[0].ival = m; ST[1].oval = x; OK(CALL(s, "ret_str", 2)); vp_assert(ST[0].oval == x, "the returned object survives the destructors"); ENV->leave_scope(ENV, ST, sc); }
V(ret_str, 1, q_str)
static void q_obj(SPV* s, int m) { int sc = ENV->enter_scope(ENV, ST); ST[0].ival = 0; OK(CALL(s, "mk", 1)); void* x = keep(s, ST[0].oval); ST[0].ival = m; ST[1].oval = x; OK(CALL(s, "ret_obj", 2)); vp_assert(ST[0].oval == x, "the returned object survives the destructors"); ENV->leave_scope(ENV, ST, sc); }
JOB2(ret_obj) { int m = mode(s); ST[0].ival = m; q_obj(s, m); BAL_BEGIN begin(s); ST[0].ival = m; q_obj(s, m); BAL_END OK(CALL(s, "D", 0)); vp_assert(get_int() == 2 * (m == 5 ? 2 : 1) + 1, "every object is destroyed exactly once"); vp_reach("done"); }
static void q_new(SPV* s, int m) { int sc = ENV->enter_scope(ENV, ST); OK(CALL(s, "ret_new", 1)); void* x = keep(s, ST[0].oval); vp_assert(x != 0, "the returned object survives the destructors"); ENV->leave_scope(ENV, ST, sc); }
JOB2(ret_new) { int m = mode(s); ST[0].ival = m; q_new(s, m); BAL_BEGIN begin(s); ST[0].ival = m; q_new(s, m); BAL_END OK(CALL(s, "D", 0)); vp_assert(get_int() == (m == 5 ? 2 : 1) + 1, "every object is destroyed exactly once"); vp_reach("done"); }
static void q_mul(SPV* s, int m) { double v[2]; vp_symbolic(v, 16, "v"); int k = vp_choice(2, "field"); ST[0].ival = m; ST[1].dval = v[0]; ST[2].dval = v[1]; ST[3].ival = k; OK(CALL(s, "ret_mul", 4)); int64_t r, w; memcpy(&r, &ST[0].dval, 8); memcpy(&w, &v[k], 8); vp_assert(r == w, "the returned multi-numeric value survives the destructors"); }
V(ret_mul, 1, q_mul)
#define SIMPLE(n, c, expr) static void q_##n(SPV* s, int m) { int v = sym_int("v"); ST[1].ival = v; OK(CALL(s, #n, 2)); vp_assert(get_int() == (int)(expr), "the result does not depend on the destructors"); } 
SIMPLE(arg, 1, v) V(arg, 1, q_arg)
SIMPLE(loop, 3, 2u * v) V(loop, 3, q_loop)
SIMPLE(ref, 1, v) V(ref, 1, q_ref)
SIMPLE(drop, 1, v) V(drop, 1, q_drop)
SIMPLE(reassign, 2, v + 1u) JOB2(reassign) { int m = mode(s); ST[0].ival = m; q_reassign(s, m); BAL_BEGIN begin(s); ST[0].ival = m; q_reassign(s, m); BAL_END OK(CALL(s, "D", 0)); vp_assert(get_int() == (m == 5 ? 2 : 1) + 1, "every object is destroyed exactly once"); vp_reach("done"); }
