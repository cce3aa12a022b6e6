/*vp {"pc":"VP","time":200,"replays":60,"bounds":["field and class-variable accessors by name: every accessor (byte, short, int, long, float, double, object, string, string characters) on members of every type (byte, short, int, long, float, double, string, object, int[]), on an object of the class or of a child class, every value; unknown members, classes, undef and arrays as invocant","array elements of every type, up to 3 elements, strings of up to 4 free bytes","calls by name of class, instance and overridden methods with every argument value, and the error cases","Native::MethodCall: every argument type with every value, arguments of 9 kinds of objects against 8 parameter types, reference and multi-numeric arguments, the current and another runtime stack, methods that throw"]} */
#include "lang.h"
enum { B, S, I, L, F, D, OB, STR, ARR, NM };
#define ERRB ENV->get_basic_type_id_by_name(ENV, ST, "Error", &e2, "f", "F", 1)
static const char* FN[] = { "b", "s", "i", "l", "f", "d", "obj", "str", "arr" }; static const char* VN[] = { "$B", "$S", "$I", "$L", "$F", "$D", "$OBJ", "$STR", "$ARR" };
static const char* SETF[] = { "set_b", "set_s", "set_i", "set_l", "set_f", "set_d", "set_obj", "set_str", "set_arr" }; static const char* GETF[] = { "b", "s", "i", "l", "f", "d", "obj", "str", "arr" };
static const char* SETV[] = { "SET_B", "SET_S", "SET_I", "SET_L", "SET_F", "SET_D", "SET_OBJ", "SET_STR", "SET_ARR" }; static const char* GETV[] = { "B", "S", "I", "L", "F", "D", "OBJ", "STR", "ARR" };
static void* keep(SPV* s, void* o) { if (o) ENV->push_mortal(ENV, ST, o); return o; }
typedef struct { int8_t b; int16_t s; int32_t i; int64_t l; float f; double d; void* o; } V;
static V mkval(SPV* s, int m) { V v; memset(&v, 0, sizeof v); switch (m) { case B: v.b = sym_byte("v"); break; case S: v.s = sym_short("v"); break; case I: v.i = sym_int("v"); break; case L: v.l = sym_long("v"); break; case F: v.f = sym_float("v"); break; case D: v.d = sym_double("v"); break; case ARR: v.o = vp_choice(2, "null") ? 0 : ENV->new_int_array(ENV, ST, 2); break; default: { char t[3]; if (vp_choice(2, "null")) break; vp_symbolic(t, 3, "text"); v.o = spv_str(s, t, 3); } } return v; }
#define CONV(ct, m, v) ((m) == B ? (ct)(v).b : (m) == S ? (ct)(v).s : (m) == I ? (ct)(v).i : (m) == L ? (ct)(v).l : (m) == F ? (ct)(v).f : (ct)(v).d)
static void put(SPV* s, int i, int m, V v) { switch (m) { case B: ST[i].bval = v.b; break; case S: ST[i].sval = v.s; break; case I: ST[i].ival = v.i; break; case L: ST[i].lval = v.l; break; case F: ST[i].fval = v.f; break; case D: ST[i].dval = v.d; break; default: ST[i].oval = v.o; } }
static V take(SPV* s, int m) { V v; memset(&v, 0, sizeof v); switch (m) { case B: v.b = ST[0].bval; break; case S: v.s = ST[0].sval; break; case I: v.i = ST[0].ival; break; case L: v.l = ST[0].lval; break; case F: v.f = ST[0].fval; break; case D: v.d = ST[0].dval; break; default: v.o = ST[0].oval; } return v; }
static V conv(int to, int from, V v) { V r; memset(&r, 0, sizeof r); switch (to) { case B: r.b = CONV(int8_t, from, v); break; case S: r.s = CONV(int16_t, from, v); break; case I: r.i = CONV(int32_t, from, v); break; case L: r.l = CONV(int64_t, from, v); break; case F: r.f = CONV(float, from, v); break; case D: r.d = CONV(double, from, v); break; } return r; }
static int same(int m, V a, V b) { switch (m) { case B: return a.b == b.b; case S: return a.s == b.s; case I: return a.i == b.i; case L: return a.l == b.l; case F: return (a.f == b.f) | ((a.f != a.f) & (b.f != b.f)); case D: return (a.d == b.d) | ((a.d != a.d) & (b.d != b.d)); } return a.o == b.o; }
static void failed(SPV* s, int32_t e, const char* what) { int32_t e2; vp_assert(e == ERRB, what); vp_assert(spv_exc(s) != 0, "a failed access sets an exception"); spv_clear_exc(s); }
static void* obj(SPV* s, int kid) { OK(CALLC(s, kid ? "Kid" : "Base", "new", 0)); return keep(s, ST[0].oval); }
#define AT &e, "f", "F", 1
static V get_f(SPV* s, int t, void* o, const char* n, int32_t* err) { V v; int32_t e = -1; memset(&v, 0, sizeof v); switch (t) { case B: v.b = ENV->get_field_byte_by_name(ENV, ST, o, n, AT); break; case S: v.s = ENV->get_field_short_by_name(ENV, ST, o, n, AT); break; case I: v.i = ENV->get_field_int_by_name(ENV, ST, o, n, AT); break; case L: v.l = ENV->get_field_long_by_name(ENV, ST, o, n, AT); break; case F: v.f = ENV->get_field_float_by_name(ENV, ST, o, n, AT); break; case D: v.d = ENV->get_field_double_by_name(ENV, ST, o, n, AT); break; case OB: v.o = ENV->get_field_object_by_name(ENV, ST, o, n, AT); break; case STR: v.o = ENV->get_field_string_by_name(ENV, ST, o, n, AT); break; case ARR: v.o = (void*)ENV->get_field_string_chars_by_name(ENV, ST, o, n, AT); break; } *err = e; return v; }
static int32_t set_f(SPV* s, int t, void* o, const char* n, V v) { int32_t e = -1; switch (t) { case B: ENV->set_field_byte_by_name(ENV, ST, o, n, v.b, AT); break; case S: ENV->set_field_short_by_name(ENV, ST, o, n, v.s, AT); break; case I: ENV->set_field_int_by_name(ENV, ST, o, n, v.i, AT); break; case L: ENV->set_field_long_by_name(ENV, ST, o, n, v.l, AT); break; case F: ENV->set_field_float_by_name(ENV, ST, o, n, v.f, AT); break; case D: ENV->set_field_double_by_name(ENV, ST, o, n, v.d, AT); break; case OB: ENV->set_field_object_by_name(ENV, ST, o, n, v.o, AT); break; case STR: ENV->set_field_string_by_name(ENV, ST, o, n, v.o, AT); break; } return e; }
static V get_v(SPV* s, int t, const char* c, const char* n, int32_t* err) { V v; int32_t e = -1; memset(&v, 0, sizeof v); switch (t) { case B: v.b = ENV->get_class_var_byte_by_name(ENV, ST, c, n, AT); break; case S: v.s = ENV->get_class_var_short_by_name(ENV, ST, c, n, AT); break; case I: v.i = ENV->get_class_var_int_by_name(ENV, ST, c, n, AT); break; case L: v.l = ENV->get_class_var_long_by_name(ENV, ST, c, n, AT); break; case F: v.f = ENV->get_class_var_float_by_name(ENV, ST, c, n, AT); break; case D: v.d = ENV->get_class_var_double_by_name(ENV, ST, c, n, AT); break; case OB: v.o = ENV->get_class_var_object_by_name(ENV, ST, c, n, AT); break; case STR: v.o = ENV->get_class_var_string_by_name(ENV, ST, c, n, AT); break; } *err = e; return v; }
static int32_t set_v(SPV* s, int t, const char* c, const char* n, V v) { int32_t e = -1; switch (t) { case B: ENV->set_class_var_byte_by_name(ENV, ST, c, n, v.b, AT); break; case S: ENV->set_class_var_short_by_name(ENV, ST, c, n, v.s, AT); break; case I: ENV->set_class_var_int_by_name(ENV, ST, c, n, v.i, AT); break; case L: ENV->set_class_var_long_by_name(ENV, ST, c, n, v.l, AT); break; case F: ENV->set_class_var_float_by_name(ENV, ST, c, n, v.f, AT); break; case D: ENV->set_class_var_double_by_name(ENV, ST, c, n, v.d, AT); break; case OB: ENV->set_class_var_object_by_name(ENV, ST, c, n, v.o, AT); break; case STR: ENV->set_class_var_string_by_name(ENV, ST, c, n, v.o, AT); break; } return e; }
static int getable(int m, int t) { return t >= OB ? m >= OB : m <= t; }
static int setable(int m, int t) { return t >= OB ? m >= OB : (m >= t && m <= D); }
// what program code stored, a native getter reads
JOB2(get_field) {
  int m = vp_choice(NM, "member"), t = vp_choice(NM, "accessor"), kid = vp_choice(2, "kid"); if (t == ARR && m == ARR) return; if (t == ARR && m == OB) return; void* o = obj(s, kid); V v = mkval(s, m); ST[0].oval = o; put(s, 1, m, v); OK(CALLC(s, "Base", SETF[m], 2));
  int32_t e; V r = get_f(s, t, o, FN[m], &e); if (!getable(m, t)) { failed(s, e, "an accessor of another type reports an error"); vp_reach("type"); return; }
  vp_assert(e == 0, "the access succeeds"); if (t == ARR) { vp_assert((v.o == 0) == (r.o == 0), "an undefined string has no characters"); if (v.o) { const char* c = ENV->get_chars(ENV, ST, v.o); vp_assert(memcmp(r.o, c, 4) == 0, "the characters of a field are those of the string"); } vp_reach("chars"); return; }
  if (t >= OB) vp_assert(r.o == v.o, "the object read is the object stored"); else vp_assert(same(t, r, conv(t, m, v)), "the value read is the value stored"); vp_reach("done");
}
// what native code stored, program code reads; other members keep their values
JOB2(set_field) {
  int m = vp_choice(NM, "member"), t = vp_choice(ARR, "accessor"), kid = vp_choice(2, "kid"); if (m == ARR && t >= OB) return; if (m == STR && t == OB) return; void* o = obj(s, kid);
  for (int k = B; k <= D; k++) { V w; memset(&w, 0, sizeof w); w.b = -3; w.s = -333; w.i = -70000; w.l = -5000000000L; w.f = 2.5f; w.d = -7.25; ST[0].oval = o; put(s, 1, k, w); OK(CALLC(s, "Base", SETF[k], 2)); }
  V v = mkval(s, t); int32_t e = set_f(s, t, o, FN[m], v); V w; memset(&w, 0, sizeof w); w.b = -3; w.s = -333; w.i = -70000; w.l = -5000000000L; w.f = 2.5f; w.d = -7.25;
  int ok = setable(m, t); if (ok) vp_assert(e == 0, "the access succeeds"); else failed(s, e, "an accessor of another type reports an error");
  for (int k = 0; k < NM; k++) { ST[0].oval = o; OK(CALLC(s, "Base", GETF[k], 1)); V r = take(s, k); if (k == m && ok) { if (k >= OB) vp_assert(r.o == v.o, "the object read is the object stored"); else vp_assert(same(k, r, conv(k, t, v)), "the value read is the value stored"); } else if (k >= OB) vp_assert(r.o == 0, "other members do not change"); else vp_assert(same(k, r, w), "other members do not change"); }
  vp_reach("done");
}
JOB2(get_class_var) {
  int m = vp_choice(NM, "member"), t = vp_choice(ARR, "accessor"); V v = mkval(s, m); put(s, 0, m, v); OK(CALLC(s, "Base", SETV[m], 1));
  int32_t e; V r = get_v(s, t, "Base", VN[m], &e); if (!getable(m, t)) { failed(s, e, "an accessor of another type reports an error"); vp_reach("type"); return; }
  vp_assert(e == 0, "the access succeeds"); if (t >= OB) vp_assert(r.o == v.o, "the object read is the object stored"); else vp_assert(same(t, r, conv(t, m, v)), "the value read is the value stored"); vp_reach("done");
}
JOB2(set_class_var) {
  int m = vp_choice(NM, "member"), t = vp_choice(ARR, "accessor"); if (m == ARR && t >= OB) return; if (m == STR && t == OB) return; V v = mkval(s, t); int32_t e = set_v(s, t, "Base", VN[m], v); int ok = setable(m, t); if (ok) vp_assert(e == 0, "the access succeeds"); else failed(s, e, "an accessor of another type reports an error");
  for (int k = 0; k < NM; k++) { OK(CALLC(s, "Base", GETV[k], 0)); V r = take(s, k), z; memset(&z, 0, sizeof z); if (k == m && ok) { if (k >= OB) vp_assert(r.o == v.o, "the object read is the object stored"); else vp_assert(same(k, r, conv(k, t, v)), "the value read is the value stored"); } else vp_assert(k >= OB ? r.o == 0 : same(k, r, z), "other class variables do not change"); }
  vp_reach("done");
}
JOBV(access_errors) {
  int t = vp_choice(NM, "accessor"), set = vp_choice(2, "set"), w = vp_choice(6, "case"); if (set && t == ARR) return; if (w >= 4 && t == ARR) return; V z; memset(&z, 0, sizeof z); int32_t e = 0; void* o = obj(s, 0); const char* f = t == ARR ? "str" : FN[t]; const char* v = VN[t]; void* i = o;
  switch (w) { case 0: i = 0; break; case 1: i = ENV->new_int_array(ENV, ST, 2); break; case 2: f = "nothing"; break; case 3: i = spv_str(s, "str", 3); break; }
  if (w < 4) { if (set) e = set_f(s, t, i, f, z); else get_f(s, t, i, f, &e); } else { const char* c = w == 4 ? "Nothing" : "Base"; if (w == 5) v = "$NOTHING"; if (set) e = set_v(s, t, c, v, z); else get_v(s, t, c, v, &e); }
  failed(s, e, "an unknown member, class or invocant is an error"); vp_reach("done");
}
static void* anew(SPV* s, int k, int n) { switch (k) { case B: return ENV->new_byte_array(ENV, ST, n); case S: return ENV->new_short_array(ENV, ST, n); case I: return ENV->new_int_array(ENV, ST, n); case L: return ENV->new_long_array(ENV, ST, n); case F: return ENV->new_float_array(ENV, ST, n); } return ENV->new_double_array(ENV, ST, n); }
static const char* ECHO[] = { "echo_b", "echo_s", "echo_i", "echo_l", "echo_f", "echo_d", "echo_o" }; static const char* BX[] = { "bx_b", "bx_s", "bx_i", "bx_l", "bx_f", "bx_d" }; static const char* BC[] = { "Byte", "Short", "Int", "Long", "Float", "Double" };
JOB2(call_by_name) {
  int w = vp_choice(16, "case"); int32_t e = -1; void* o = 0; int32_t x = 0;
  if (w < 6) { V v = mkval(s, w); put(s, 0, w, v); ENV->call_class_method_by_name(ENV, ST, "VP", ECHO[w], 1, AT); vp_assert(e == 0 && same(w, take(s, w), v), "a call by name passes the argument and the return value"); vp_reach("echo"); return; }
  if (w == 6) { V a = mkval(s, B), b = mkval(s, L), c = mkval(s, S); put(s, 0, B, a); put(s, 1, L, b); put(s, 2, S, c); ENV->call_class_method_by_name(ENV, ST, "VP", "second", 3, AT); vp_assert(e == 0 && ST[0].lval == (int64_t)((uint64_t)b.l + (uint64_t)(int64_t)a.b), "a call by name passes the arguments in order"); OK(CALL(s, "LAST", 0)); vp_assert(get_int() == c.s, "a call by name passes the arguments in order"); vp_reach("order"); return; }
  int kid = w & 1; o = obj(s, kid); x = sym_int("x"); int32_t y = sym_int("y"); ST[0].oval = o; ST[1].ival = y; OK(CALLC(s, "Base", "set_i", 2)); ST[0].oval = o; ST[1].ival = x;
  switch (w) {
    case 7: case 8: ENV->call_instance_method_by_name(ENV, ST, "inst", 2, AT); vp_assert(e == 0 && get_int() == (int32_t)((uint32_t)y * 3 + (uint32_t)x), "an inherited method sees the instance and the argument"); break;
    case 9: case 10: ENV->call_instance_method_by_name(ENV, ST, "over", 2, AT); vp_assert(e == 0 && get_int() == (int32_t)((kid ? 200u : 100u) + (uint32_t)x), "the method of the class of the instance is called"); break;
    case 11: ENV->call_instance_method_static_by_name(ENV, ST, "Base", "over", 2, AT); vp_assert(e == 0 && get_int() == (int32_t)(100u + (uint32_t)x), "a static call calls the method of the class"); break;
    case 12: ENV->call_instance_method_static_by_name(ENV, ST, "Kid", "over", 2, AT); failed(s, e, "an invocant of another class is an error"); break;
    case 13: ENV->call_instance_method_by_name(ENV, ST, "thrower", 2, AT); if (x < 0) { int32_t e2; vp_assert(e == ENV->get_basic_type_id_by_name(ENV, ST, "Error::System", &e2, "f", "F", 1), "the error id of the method is passed on"); vp_assert(spv_exc(s) != 0, "the exception of the method is passed on"); spv_clear_exc(s); vp_reach("throws"); } else vp_assert(e == 0 && get_int() == x, "the return value is passed on"); break;
    case 14: ST[0].bval = 5; ST[1].lval = x; ENV->call_class_method_by_name(ENV, ST, "Base", "stat", 2, AT); vp_assert(e == 0 && ST[0].lval == 5000 + (int64_t)x, "a class method is called"); break;
    case 15: ENV->call_class_method_by_name(ENV, ST, "VP", "nothing", 0, AT); OK(e); OK(CALL(s, "LAST", 0)); vp_assert(get_int() == 9, "a void method is called"); break;
  }
  vp_reach("done");
}
JOBV(call_errors) {
  int w = vp_choice(9, "case"); int32_t e = 0; void* o = obj(s, 1); ST[0].oval = o; ST[1].ival = 1;
  switch (w) {
    case 0: ENV->call_class_method_by_name(ENV, ST, "Nothing", "m", 0, AT); break; case 1: ENV->call_class_method_by_name(ENV, ST, "Base", "nothing", 0, AT); break; case 2: ENV->call_class_method_by_name(ENV, ST, "Base", "inst", 2, AT); break;
    case 3: ST[0].oval = 0; ENV->call_instance_method_by_name(ENV, ST, "inst", 2, AT); break; case 4: ST[0].oval = ENV->new_int_array(ENV, ST, 1); ENV->call_instance_method_by_name(ENV, ST, "inst", 2, AT); break; case 5: ENV->call_instance_method_by_name(ENV, ST, "nothing", 2, AT); break;
    case 6: ENV->call_instance_method_static_by_name(ENV, ST, "Nothing", "inst", 2, AT); break; case 7: ENV->call_instance_method_static_by_name(ENV, ST, "Base", "new", 2, AT); break; case 8: ST[0].oval = 0; ENV->call_instance_method_static_by_name(ENV, ST, "Base", "inst", 2, AT); break;
  }
  failed(s, e, "a call that cannot be made is an error"); vp_reach("done");
}
static void* args(SPV* s, int n) { int32_t e; return ENV->new_object_array_by_name(ENV, ST, "object", n, AT); }
static void* box(SPV* s, int k, V v) { put(s, 0, k, v); OK(CALL(s, BX[k], 1)); return keep(s, ST[0].oval); }
static int mc(SPV* s, const char* m, const char* name, void* a) { ST[0].oval = spv_str(s, name, strlen(name)); ST[1].oval = a; return CALL(s, m, 2); }
static const char* MC[] = { "mc", "mcx" };
JOBV(dynamic_values) {
  int k = vp_choice(OB + 1, "type"), x = vp_choice(2, "stack"); V v = mkval(s, k); void* a = args(s, 1); void* b = k == OB ? v.o : box(s, k, v); ENV->set_elem_object(ENV, ST, a, 0, b); vp_assert(ENV->get_elem_object(ENV, ST, a, 0) == b, "the element is the object stored");
  OK(mc(s, MC[x], ECHO[k], a)); void* r = keep(s, ST[0].oval); if (k == OB) { vp_assert(r == v.o, "a dynamic call returns the object"); vp_reach("object"); return; }
  vp_assert(r != 0 && ENV->is_type_by_name(ENV, ST, r, BC[k], 0), "a number is returned in its object"); int32_t e; V g = get_f(s, k, r, "value", &e); vp_assert(e == 0 && same(k, g, v), "a dynamic call passes the argument and the return value"); vp_reach("done");
}
JOBV(dynamic_order) {
  int n = vp_choice(5, "arguments"), x = vp_choice(2, "stack"); V a = mkval(s, B), b = mkval(s, L), c = mkval(s, S); void* p = args(s, n); if (n > 0) ENV->set_elem_object(ENV, ST, p, 0, box(s, B, a)); if (n > 1) ENV->set_elem_object(ENV, ST, p, 1, box(s, L, b)); if (n > 2) ENV->set_elem_object(ENV, ST, p, 2, box(s, S, c));
  int r = mc(s, MC[x], "second", p); if (n != 3) { vp_assert(r, "a wrong number of arguments is an error"); spv_clear_exc(s); vp_reach("number"); return; }
  OK(r); void* o = keep(s, ST[0].oval); int32_t e; V g = get_f(s, L, o, "value", &e); vp_assert(g.l == (int64_t)((uint64_t)b.l + (uint64_t)(int64_t)a.b), "a dynamic call passes the arguments in order"); OK(CALL(s, "LAST", 0)); vp_assert(get_int() == c.s, "a dynamic call passes the arguments in order"); vp_reach("done");
}
JOBV(dynamic_wrong_box) {
  int k = vp_choice(6, "parameter"), j = vp_choice(8, "argument"); V v; memset(&v, 0, sizeof v); void* a = args(s, 1); void* b = j < 6 ? box(s, j, v) : j == 6 ? 0 : spv_str(s, "a", 1); ENV->set_elem_object(ENV, ST, a, 0, b); int r = mc(s, "mc", ECHO[k], a); vp_assert((r == 0) == (j == k), "only the object of the number type is taken for a number"); if (r) spv_clear_exc(s); vp_reach("done");
}
enum { XBASE, XKID, XBASES, XINTS, XSTR, XINT, XSTRS, XUNDEF, XBASES2, NX };
static const char* TK[] = { "take_base", "take_kid", "take_bases", "take_ints", "take_str", "take_obj", "take_objs", "take_strs" };
JOBV(dynamic_objects) {
  int t = vp_choice(8, "parameter"), j = vp_choice(NX, "argument"), x = vp_choice(2, "stack"); int32_t e; V one; memset(&one, 0, sizeof one); void* o = 0;
  switch (j) { case XBASE: o = obj(s, 0); break; case XKID: o = obj(s, 1); break; case XBASES: o = ENV->new_object_array_by_name(ENV, ST, "Base", 2, AT); break; case XINTS: o = ENV->new_int_array(ENV, ST, 2); break; case XSTR: o = spv_str(s, "ab", 2); break; case XINT: o = box(s, I, one); break; case XSTRS: o = ENV->new_string_array(ENV, ST, 2); break; case XBASES2: o = ENV->new_muldim_array_by_name(ENV, ST, "Base", 2, 2, AT); break; }
  static const uint16_t T[] = { 1 << XBASE | 1 << XKID, 1 << XKID, 1 << XBASES, 1 << XINTS, 1 << XSTR, 0xFFFF, 1 << XBASES | 1 << XSTRS | 1 << XBASES2, 1 << XSTRS };
  void* a = args(s, 1); ENV->set_elem_object(ENV, ST, a, 0, o); int r = mc(s, MC[x], TK[t], a); int want = (T[t] >> j & 1) | (j == XUNDEF); vp_assert((r == 0) == want, "an object is taken exactly if it can be assigned to the type of the argument"); if (r) { spv_clear_exc(s); vp_reach("no"); return; }
  void* q = keep(s, ST[0].oval); V g = get_f(s, I, q, "value", &e); vp_assert(e == 0 && g.i == t + 1, "the method is called"); vp_reach("done");
}
JOBV(dynamic_refs) {
  int n = vp_choice(4, "length"), k = vp_choice(3, "array"); void* r = anew(s, k == 0 ? I : k == 1 ? L : B, n); int32_t x = sym_int("x"), d = sym_int("d"); V dv; dv.i = d; if (k == 0 && n) ENV->get_elems_int(ENV, ST, r)[0] = x; void* a = args(s, 2); ENV->set_elem_object(ENV, ST, a, 0, r); ENV->set_elem_object(ENV, ST, a, 1, box(s, I, dv));
  int er = mc(s, "mc", "ref_i", a); if (n != 1 || k) { vp_assert(er, "a reference takes an int[] of length 1"); spv_clear_exc(s); vp_reach("bad"); return; }
  OK(er); int32_t want = (int32_t)((uint32_t)x + (uint32_t)d), e; vp_assert(ENV->get_elems_int(ENV, ST, r)[0] == want, "the method writes through the reference"); V g = get_f(s, L, keep(s, ST[0].oval), "value", &e); vp_assert(g.l == want, "the method reads through the reference"); vp_reach("done");
}
JOBV(dynamic_mulnum) {
  int n = vp_choice(4, "length"), k = vp_choice(2, "array"), x = vp_choice(2, "stack"); void* z = anew(s, k ? F : D, n); double v[4]; for (int i = 0; i < n; i++) { v[i] = sym_double("z"); if (!k) ENV->get_elems_double(ENV, ST, z)[i] = v[i]; } V kv; kv.d = sym_double("k"); void* a = args(s, 2); ENV->set_elem_object(ENV, ST, a, 0, z); ENV->set_elem_object(ENV, ST, a, 1, box(s, D, kv));
  int er = mc(s, MC[x], "mul", a); if (n != 2 || k) { vp_assert(er, "a multi-numeric argument takes an array of its numbers"); spv_clear_exc(s); vp_reach("bad"); return; }
  OK(er); void* r = keep(s, ST[0].oval); vp_assert(r && ENV->is_type_by_name(ENV, ST, r, "double", 1) && ENV->length(ENV, ST, r) == 2, "a multi-numeric value is returned as an array of its numbers"); double* q = ENV->get_elems_double(ENV, ST, r); vp_assert(same_double(q[0], v[1]) & same_double(q[1], kv.d), "a dynamic call passes multi-numeric values"); vp_reach("done");
}
JOBV(dynamic_instance) {
  int w = vp_choice(6, "case"), kid = w & 1; void* o = obj(s, kid); V v; v.i = sym_int("x"); void* a = args(s, 2); ENV->set_elem_object(ENV, ST, a, 0, o); ENV->set_elem_object(ENV, ST, a, 1, box(s, I, v)); int er, e;
  if (w < 2) er = mc(s, "mci", "over", a); else { const char* c = w < 4 ? "Base" : "Kid"; ST[0].oval = spv_str(s, c, strlen(c)); ST[1].oval = spv_str(s, "over", 4); ST[2].oval = a; er = CALL(s, "mcs", 3); }
  if (w == 4) { vp_assert(er, "an instance of another class is an error"); spv_clear_exc(s); vp_reach("bad"); return; }
  OK(er); V g = get_f(s, I, keep(s, ST[0].oval), "value", &e); vp_assert(g.i == (int32_t)((w < 2 ? (kid ? 200u : 100u) : w < 4 ? 100u : 200u) + (uint32_t)v.i), "the method of the class is called"); vp_reach("done");
}
JOBV(dynamic_exception) {
  V v; v.i = sym_int("x"); int n = vp_choice(4, "length of error id reference"); void* id = n == 3 ? 0 : anew(s, I, n); void* a = args(s, 1); ENV->set_elem_object(ENV, ST, a, 0, box(s, I, v)); if (id && n) ENV->get_elems_int(ENV, ST, id)[0] = -5; ST[0].oval = spv_str(s, "thrower", 7); ST[1].oval = a; ST[2].oval = id; int er = CALL(s, "mce", 3), e2, e;
  if (n == 0 || n == 2) { vp_assert(er, "the error id reference has the length 1"); spv_clear_exc(s); vp_reach("bad"); return; }
  int32_t got = id ? ENV->get_elems_int(ENV, ST, id)[0] : 0;
  if (v.i < 0) { vp_assert(er == ENV->get_basic_type_id_by_name(ENV, ST, "Native::MethodCall::Error::ExceptionThrown", &e2, "f", "F", 1), "an exception of the method is reported"); vp_assert(!id || got == ENV->get_basic_type_id_by_name(ENV, ST, "Error::System", &e2, "f", "F", 1), "the error id of the method is stored"); spv_clear_exc(s); vp_reach("throws"); return; }
  OK(er); vp_assert(got == 0, "the error id is 0 without an exception"); V g = get_f(s, I, keep(s, ST[0].oval), "value", &e); vp_assert(g.i == v.i, "the value is returned"); vp_reach("done");
}
JOB2(elements) {
  int k = vp_choice(6, "type"), n = 1 + vp_choice(3, "length"), i = vp_choice(3, "index"); if (i >= n) return; static const int SZ[] = { 1, 2, 4, 8, 4, 8 }; void* x = anew(s, k, n); V v = mkval(s, k); void* p = ENV->get_elems_byte(ENV, ST, x); vp_assert(ENV->length(ENV, ST, x) == n, "the length is the length given");
  switch (k) { case B: ENV->get_elems_byte(ENV, ST, x)[i] = v.b; break; case S: ENV->get_elems_short(ENV, ST, x)[i] = v.s; break; case I: ENV->get_elems_int(ENV, ST, x)[i] = v.i; break; case L: ENV->get_elems_long(ENV, ST, x)[i] = v.l; break; case F: ENV->get_elems_float(ENV, ST, x)[i] = v.f; break; case D: ENV->get_elems_double(ENV, ST, x)[i] = v.d; break; }
  static const char* G[] = { "el_b", "el_s", "el_i", "el_l", "el_f", "el_d" }; static const char* P[] = { "st_b", "st_s", "st_i", "st_l", "st_f", "st_d" }; V z; memset(&z, 0, sizeof z);
  for (int j = 0; j < n; j++) { ST[0].oval = x; ST[1].ival = j; OK(CALL(s, G[k], 2)); vp_assert(same(k, take(s, k), j == i ? v : z), "program code reads the elements native code stored"); }
  V w = mkval(s, k); ST[0].oval = x; ST[1].ival = n - 1 - i; put(s, 2, k, w); OK(CALL(s, P[k], 3)); V r; memset(&r, 0, sizeof r); char* q = (char*)p + (n - 1 - i) * SZ[k]; switch (k) { case B: memcpy(&r.b, q, 1); break; case S: memcpy(&r.s, q, 2); break; case I: memcpy(&r.i, q, 4); break; case L: memcpy(&r.l, q, 8); break; case F: memcpy(&r.f, q, 4); break; case D: memcpy(&r.d, q, 8); break; } vp_assert(same(k, r, w), "native code reads the elements program code stored"); vp_reach("done");
}
JOB2(strings) {
  int n = vp_choice(5, "length"); char t[5]; if (n) vp_symbolic(t, n, "text"); void* x = spv_str(s, t, n); vp_assert(ENV->length(ENV, ST, x) == n && ENV->get_chars(ENV, ST, x)[n] == 0, "a native string has its length and a terminator"); ST[0].oval = x; OK(CALL(s, "len", 1)); vp_assert(get_int() == n, "program code sees the length");
  for (int i = 0; i < n; i++) { ST[0].oval = x; ST[1].ival = i; OK(CALL(s, "ch", 2)); vp_assert(get_int() == (int8_t)t[i], "program code sees the characters"); }
  void* y = ENV->new_string_array(ENV, ST, 2); ENV->set_elem_string(ENV, ST, y, 1, x); ST[0].oval = y; OK(CALL(s, "el1", 1)); vp_assert(ST[0].oval == x && ENV->get_elem_string(ENV, ST, y, 1) == x && !ENV->get_elem_string(ENV, ST, y, 0), "the string element is the string stored"); vp_reach("done");
}
