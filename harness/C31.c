/*vp {"pc":"","time":240,"replays":60,"bounds":["arrays of up to 3 elements of every numeric, string, object and multi-numeric type, every element value, every range that fits; every 32-bit offset, length, count that does not fit","equality: every pair of arrays of up to 2 elements (thorough: 3) with every element value (also NaN and -0.0), strings of up to 2 bytes, every answer of a checker","repeat up to 3 times, shuffle of 3 elements with 12 free seed bits (thorough: 20)"]} */
#include "lang.h"
#define THROWS(e, what) do { vp_assert((e) != 0, what); vp_assert(spv_exc(s) != 0, what); spv_clear_exc(s); } while (0)
enum { B, S, I, L, F, D, STR, OBJ, MUL, NK };
static const char* KN[] = { "byte", "short", "int", "long", "float", "double", "string", "object", "Complex_2d" };
static const char* MN[] = { "byte", "short", "int", "long", "float", "double", "string_address", "object_address" };
static void* keep(SPV* s, void* o) { if (o) ENV->push_mortal(ENV, ST, o); return o; }
static void* anew(SPV* s, int k, int n) { switch (k) { case B: return ENV->new_byte_array(ENV, ST, n); case S: return ENV->new_short_array(ENV, ST, n); case I: return ENV->new_int_array(ENV, ST, n); case L: return ENV->new_long_array(ENV, ST, n); case F: return ENV->new_float_array(ENV, ST, n); case D: return ENV->new_double_array(ENV, ST, n); case STR: return ENV->new_string_array(ENV, ST, n); case MUL: ST[0].ival = n; OK(CALL(s, "mul", 1)); return keep(s, ST[0].oval); default: return ENV->new_object_array(ENV, ST, ENV->get_basic_type(ENV, ST, "object"), n); } }
// the bits of element i (of field j of a multi-numeric element)
static int64_t aget2(SPV* s, int k, void* a, int i, int j) { switch (k) { case B: return ENV->get_elems_byte(ENV, ST, a)[i]; case S: return ENV->get_elems_short(ENV, ST, a)[i]; case I: return ENV->get_elems_int(ENV, ST, a)[i]; case L: return ENV->get_elems_long(ENV, ST, a)[i]; case F: return ((int32_t*)ENV->get_elems_float(ENV, ST, a))[i]; case D: return ((int64_t*)ENV->get_elems_double(ENV, ST, a))[i]; case MUL: return ((int64_t*)ENV->get_elems_double(ENV, ST, a))[2 * i + j]; default: return (int64_t)ENV->get_elem_object(ENV, ST, a, i); } }
static void aset2(SPV* s, int k, void* a, int i, int j, int64_t v) { switch (k) { case B: ENV->get_elems_byte(ENV, ST, a)[i] = v; break; case S: ENV->get_elems_short(ENV, ST, a)[i] = v; break; case I: ENV->get_elems_int(ENV, ST, a)[i] = v; break; case L: ENV->get_elems_long(ENV, ST, a)[i] = v; break; case F: ((int32_t*)ENV->get_elems_float(ENV, ST, a))[i] = v; break; case D: ((int64_t*)ENV->get_elems_double(ENV, ST, a))[i] = v; break; case MUL: ((int64_t*)ENV->get_elems_double(ENV, ST, a))[2 * i + j] = v; break; default: ENV->set_elem_object(ENV, ST, a, i, (void*)v); } }
typedef struct { void* a; int k, n; int64_t v[8][2]; } A;
static A mk(SPV* s, int k, int n) { A x; x.k = k; x.n = n; x.a = anew(s, k, n); for (int i = 0; i < n; i++) for (int j = 0; j < (k == MUL ? 2 : 1); j++) { int64_t v; if (k == STR || k == OBJ) { if (i == 1) v = 0; else { char c; vp_symbolic(&c, 1, "byte"); v = (int64_t)spv_str(s, &c, 1); } } else v = sym_long("element"); aset2(s, k, x.a, i, j, v); x.v[i][j] = aget2(s, k, x.a, i, j); } return x; }
// the array is the one described
static void is(SPV* s, A* x, const char* what) { vp_assert(ENV->length(ENV, ST, x->a) == x->n, what); vp_assert(ENV->is_type_by_name(ENV, ST, x->a, KN[x->k], 1), what); int ok = 1; for (int i = 0; i < x->n; i++) for (int j = 0; j < (x->k == MUL ? 2 : 1); j++) ok &= aget2(s, x->k, x->a, i, j) == x->v[i][j]; vp_assert(ok, what); }
static void cut(A* r, A* x, int off, int len) { r->k = x->k; r->n = len; for (int i = 0; i < len; i++) { r->v[i][0] = x->v[off + i][0]; r->v[i][1] = x->v[off + i][1]; } }
static char* name(char* m, const char* a, const char* b) { strcpy(m, a); strcat(m, b); return m; }
static void copying(SPV* s, int any) { int k = any ? vp_choice(7, "type") : vp_choice(8, "type"); if (any && k == 6) k = MUL; char m[40]; name(m, "copy_", any ? "any_numeric" : MN[k]); int n = vp_choice(4, "length"); A x = mk(s, k, n), r; int off = vp_choice(n + 1, "offset"), len = vp_choice(n - off + 2, "range length"); r.k = k; if (len > n - off) { len = n - off; ST[2].ival = sym_int("negative length"); vp_assume(ST[2].ival < 0); } else ST[2].ival = len; ST[0].oval = x.a; ST[1].ival = off; OK(CALLC(s, "Array", m, 3)); cut(&r, &x, off, len); r.a = keep(s, ST[0].oval); vp_assert(r.a != x.a, "the copy is a new array"); is(s, &r, "the copy has the elements of the range"); is(s, &x, "copying does not change the source"); if (n) { for (int i = 0; i < n; i++) aset2(s, k, x.a, i, 0, k == STR || k == OBJ ? 0 : 1); is(s, &r, "a change of the source does not change the copy"); } ST[0].oval = x.a; vp_reach("done"); }
JOBV(copy) { copying(s, 0); } JOBV(copy_any) { copying(s, 1); }
JOBV(copy_bad) { int any = vp_choice(2, "any"), k = any ? vp_choice(7, "type") : vp_choice(8, "type"); if (any && k == 6) k = MUL; char m[40]; name(m, "copy_", any ? "any_numeric" : MN[k]); int n = vp_choice(3, "length"), no = vp_choice(2, "no array"); A x; if (!no) x = mk(s, k, n); int off = sym_int("offset"), len = sym_int("range length"); vp_assume((off < 0) | (off > n) | ((len >= 0) & ((int64_t)off + len > n))); if (no) vp_assume(off == 0); ST[0].oval = no ? 0 : x.a; ST[1].ival = off; ST[2].ival = len; THROWS(CALLC(s, "Array", m, 3), "a range outside the array or no array throws"); if (!no) is(s, &x, "a failing copy changes nothing"); vp_reach("thrown"); }
// memcpy and memmove, between two arrays or within one
static void moving(SPV* s, int move) { int k = vp_choice(8, "type"); char m[40]; name(m, move ? "memmove_" : "memcpy_", MN[k]); int n = vp_choice(4, "length"), same = vp_choice(2, "same"), n2 = same ? n : vp_choice(4, "source length"); A x = mk(s, k, n), y = same ? x : mk(s, k, n2); int min = n < n2 ? n : n2, len = vp_choice(min + 1, "range length"), d = vp_choice(n - len + 1, "destination offset"), o = vp_choice(n2 - len + 1, "source offset"); if (same && !move && len && d < o + len && o < d + len) return; ST[0].oval = x.a; ST[1].ival = d; ST[2].oval = y.a; ST[3].ival = o; ST[4].ival = len; OK(CALLC(s, "Array", m, 5)); A w = x; for (int i = 0; i < len; i++) w.v[d + i][0] = y.v[o + i][0]; is(s, &w, "exactly the range of the destination gets the elements of the source"); if (!same) is(s, &y, "the source does not change"); vp_reach("done"); }
JOBV(memcpy) { moving(s, 0); } JOBV(memmove) { moving(s, 1); }
JOBV(mem_bad) { int k = vp_choice(8, "type"), move = vp_choice(2, "move"); char m[40]; name(m, move ? "memmove_" : "memcpy_", MN[k]); int n = vp_choice(2, "length") * 2, n2 = vp_choice(2, "source length") * 2, no = vp_choice(3, "no array"); A x = mk(s, k, n), y = mk(s, k, n2); int d = sym_int("destination offset"), o = sym_int("source offset"), len = sym_int("range length"); if (no) vp_assume((d == 0) & (o == 0) & (len == 0)); else vp_assume((d < 0) | (o < 0) | (len < 0) | ((int64_t)d + len > n) | ((int64_t)o + len > n2)); ST[0].oval = no == 1 ? 0 : x.a; ST[1].ival = d; ST[2].oval = no == 2 ? 0 : y.a; ST[3].ival = o; ST[4].ival = len; THROWS(CALLC(s, "Array", m, 5), "a range outside the array or no array throws"); is(s, &x, "a failing call changes nothing"); is(s, &y, "a failing call changes nothing"); vp_reach("thrown"); }
JOBV(memset) { int k = vp_choice(8, "type"), bad = vp_choice(2, "bad"); char m[40]; name(m, "memset_", KN[k]); int n = vp_choice(4, "length"); A x = mk(s, k, n), w = x; int off, len; int64_t v = k < F ? sym_long("value") : sym_long("bits"); if (k >= STR) v = vp_choice(2, "undef") ? 0 : (int64_t)spv_str(s, "x", 1); ST[0].oval = x.a; if (k == L) ST[1].lval = v; else if (k == F) { int32_t b = v; memcpy(&ST[1].fval, &b, 4); } else if (k == D) memcpy(&ST[1].dval, &v, 8); else if (k >= STR) ST[1].oval = (void*)v; else ST[1].ival = v; switch (k) { case B: v = (int8_t)v; break; case S: v = (int16_t)v; break; case I: case F: v = (int32_t)v; } if (bad) { off = sym_int("offset"); len = sym_int("range length"); vp_assume((off < 0) | ((len >= 0) & ((int64_t)off + len > n))); } else { off = vp_choice(n + 1, "offset"); len = vp_choice(n - off + 2, "range length"); int ask = len; if (len > n - off) { len = n - off; ask = sym_int("negative length"); vp_assume(ask < 0); } for (int i = 0; i < len; i++) w.v[off + i][0] = v; len = ask; } ST[2].ival = off; ST[3].ival = len; int e = CALLC(s, "Array", m, 4); if (bad) { THROWS(e, "a range outside the array throws"); vp_reach("thrown"); } else { OK(e); vp_reach("done"); } is(s, &w, "exactly the range is set"); }
JOBV(merge) { int k = vp_choice(8, "type"); char m[40]; name(m, "merge_", KN[k]); int n = vp_choice(4, "length"), n2 = vp_choice(4, "length 2"), no = vp_choice(3, "no array"); if (no && (n || n2)) return; A x = mk(s, k, n), y = mk(s, k, n2), r; ST[0].oval = no == 1 ? 0 : x.a; ST[1].oval = no == 2 ? 0 : y.a; int e = CALLC(s, "Array", m, 2); if (no) { THROWS(e, "no array throws"); vp_reach("thrown"); return; } OK(e); cut(&r, &x, 0, n); for (int i = 0; i < n2; i++) r.v[n + i][0] = y.v[i][0]; r.n = n + n2; r.a = keep(s, ST[0].oval); is(s, &r, "the elements of both arrays, in order"); is(s, &x, "the source does not change"); is(s, &y, "the source does not change"); vp_reach("done"); }
static int same_elem(int k, int64_t a, int64_t b) { if (k == F) { float x, y; int32_t p = a, q = b; memcpy(&x, &p, 4); memcpy(&y, &q, 4); return x == y; } if (k == D) { double x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; } return a == b; }
static void equal(SPV* s, int k) { int any = vp_choice(k >= STR ? 3 : 2, "any"), max = vp_thorough() ? 3 : 2; char m[40]; if (any) strcpy(m, "equals"); else name(m, "equals_", MN[k]); int n = vp_choice(max + 2, "length") - 1, n2 = vp_choice(max + 2, "length 2") - 1; void *a = 0, *b = 0; int64_t v[4], w[4]; if (n >= 0) a = anew(s, k, n); if (n2 >= 0) b = anew(s, k, n2); void* pool[3] = { 0, spv_str(s, "a", 1), spv_str(s, "a", 1) }; for (int i = 0; i < n; i++) { v[i] = k < STR ? sym_long("element") : (int64_t)pool[vp_choice(3, "object")]; aset2(s, k, a, i, 0, v[i]); v[i] = aget2(s, k, a, i, 0); } for (int i = 0; i < n2; i++) { w[i] = k < STR ? sym_long("element 2") : (int64_t)pool[1]; aset2(s, k, b, i, 0, w[i]); w[i] = aget2(s, k, b, i, 0); } ST[0].oval = a; ST[1].oval = b; if (any) { ST[2].ival = k < STR ? 0 : 1; } if (any == 2) ST[2].ival = 0; if (any == 2 && k == OBJ) return;
  OK(CALLC(s, "Array", m, any ? 3 : 2)); int want; if (n < 0 || n2 < 0) want = n == n2; else if (n != n2) want = 0; else { want = 1; for (int i = 0; i < n; i++) want &= any == 2 ? v[i] != 0 : same_elem(k, v[i], w[i]); } vp_assert((get_int() != 0) == want, "equal exactly if the lengths and all elements are equal"); vp_reach("done"); }
#define J(n, k) JOBV(eq_##n) { equal(s, k); }
J(byte, B) J(short, S) J(int, I) J(long, L) J(float, F) J(double, D) J(string, STR) J(object, OBJ)
JOBV(eq_mul) { int n = vp_choice(3, "length"), n2 = vp_choice(3, "length 2"); A x = mk(s, MUL, n), y = mk(s, MUL, n2); ST[0].oval = x.a; ST[1].oval = y.a; OK(CALLC(s, "Array", "equals", 2)); int same = n == n2, bits = same; for (int i = 0; i < n && n == n2; i++) for (int j = 0; j < 2; j++) { same &= same_elem(D, x.v[i][j], y.v[i][j]); bits &= x.v[i][j] == y.v[i][j]; vp_assume(same_elem(D, x.v[i][j], x.v[i][j]) & same_elem(D, y.v[i][j], y.v[i][j]) & ((x.v[i][j] << 1 != 0) | (x.v[i][j] == 0)) & ((y.v[i][j] << 1 != 0) | (y.v[i][j] == 0))); } vp_assert((get_int() != 0) == same, "equal exactly if the lengths and all elements are equal"); vp_reach("done"); }
JOBV(eq_content) { int any = vp_choice(2, "any"); void* x[2]; char t[2][2]; int n[2]; for (int i = 0; i < 2; i++) { x[i] = anew(s, STR, 2); n[i] = vp_choice(4, "length") - 1; if (n[i] > 0) vp_symbolic(t[i], n[i], "text"); ENV->set_elem_object(ENV, ST, x[i], 0, spv_str(s, "same", 4)); ENV->set_elem_object(ENV, ST, x[i], 1, n[i] < 0 ? 0 : spv_str(s, t[i], n[i])); } ST[0].oval = x[0]; ST[1].oval = x[1]; OK(CALLC(s, "Array", any ? "equals" : "equals_string", 2)); int want = n[0] == n[1]; for (int i = 0; i < n[0] && n[0] == n[1]; i++) want &= t[0][i] == t[1][i]; vp_assert((get_int() != 0) == want, "string arrays are equal exactly if their texts are"); vp_reach("done"); }
JOBV(eq_types) { int k = vp_choice(NK, "type"), k2 = vp_choice(NK, "type 2"); if (k == k2) return; ST[0].oval = anew(s, k, 0); void* a = ST[0].oval; void* b = anew(s, k2, 0); ST[0].oval = a; ST[1].oval = b; OK(CALLC(s, "Array", "equals", 2)); vp_assert(get_int() == 0, "arrays of different types are not equal"); ST[0].oval = spv_str(s, "a", 1); ST[1].oval = b; THROWS(CALLC(s, "Array", "equals", 2), "not an array"); ST[1].oval = spv_str(s, "a", 1); ST[0].oval = b; THROWS(CALLC(s, "Array", "equals", 2), "not an array"); vp_reach("done"); }
JOBV(eq_checker) { int n = vp_choice(4, "length"), n2 = vp_choice(4, "length 2"); void* a = anew(s, OBJ, n); void* b = anew(s, OBJ, n2); void* r = ENV->new_int_array(ENV, ST, 4); int want = n == n2, stop = 0; for (int i = 0; i < 4; i++) { int v = sym_int("answer"); ENV->get_elems_int(ENV, ST, r)[i] = v; if (i < n && n == n2) { want &= v != 0; } } ST[0].oval = r; OK(CALL(s, "SET_ANS", 1)); ST[0].ival = 0; OK(CALL(s, "SET_POS", 1)); ST[0].oval = a; ST[1].oval = b; OK(CALL(s, "eq_ans", 2)); vp_assert((get_int() != 0) == want, "equal exactly if the checker says so for every pair"); ST[0].oval = 0; OK(CALL(s, "SET_ANS", 1)); vp_reach("done"); }
JOBV(eq_points) { void *a = 0, *b = 0; int v[2][2]; void* x[2]; for (int i = 0; i < 2; i++) { ST[0].ival = 2; OK(CALL(s, "points", 1)); x[i] = keep(s, ST[0].oval); for (int j = 0; j < 2; j++) v[i][j] = sym_int("coordinate"); ST[0].ival = v[i][0]; ST[1].ival = v[i][1]; OK(CALL(s, "point", 2)); keep(s, ST[0].oval); ENV->set_elem_object(ENV, ST, x[i], 1, ST[0].oval); } ST[0].oval = x[0]; ST[1].oval = x[1]; OK(CALLC(s, "Array", "equals", 2)); vp_assert((get_int() != 0) == ((v[0][0] == v[1][0]) & (v[0][1] == v[1][1])), "object arrays are equal exactly if their elements are"); ST[0].oval = x[0]; ST[1].oval = x[1]; ST[2].ival = 1; OK(CALLC(s, "Array", "equals", 3)); vp_assert(get_int() == 0, "a shallow comparison compares addresses"); vp_reach("done"); }
JOBV(clones) { int n = 3; ST[0].ival = n; OK(CALL(s, "points", 1)); void* a = keep(s, ST[0].oval); int v[3][2]; for (int i = 0; i < n; i++) if (i != 1) { for (int j = 0; j < 2; j++) v[i][j] = sym_int("coordinate"); ST[0].ival = v[i][0]; ST[1].ival = v[i][1]; OK(CALL(s, "point", 2)); keep(s, ST[0].oval); ENV->set_elem_object(ENV, ST, a, i, ST[0].oval); } int bad = vp_choice(2, "bad"); if (bad) { int k = vp_choice(4, "failing call"); ST[0].oval = a; ST[1].ival = k; int e = CALL(s, "copy_die", 2); if (k < 3) { THROWS(e, "the exception of the cloner arrives"); vp_reach("thrown"); } else OK(e); ST[0].oval = 0; OK(CALL(s, "SET_ANS", 1)); return; } int off = vp_choice(n + 1, "offset"), len = vp_choice(n - off + 1, "range length"); ST[0].oval = a; ST[1].ival = off; ST[2].ival = len; OK(CALL(s, "copy_points", 3)); void* r = keep(s, ST[0].oval); vp_assert(ENV->is_type_by_name(ENV, ST, r, "Point", 1) && ENV->length(ENV, ST, r) == len, "a copy of the same type"); for (int i = 0; i < len; i++) { void *o = ENV->get_elem_object(ENV, ST, r, i), *p = ENV->get_elem_object(ENV, ST, a, off + i); if (off + i == 1) { vp_assert(!o, "undef"); continue; } vp_assert(o && o != p && ENV->is_type_by_name(ENV, ST, o, "Point", 0), "a clone of the element"); for (int j = 0; j < 2; j++) { ST[0].oval = o; OK(spv_call(s, spv_find(s, "Point", j ? "y" : "x"), 1)); vp_assert(get_int() == v[off + i][j], "an equal clone"); } } vp_reach("done"); }
JOBV(protos) { int how = vp_choice(3, "method"), k = how == 0 ? STR + vp_choice(2, "type") : how == 1 ? vp_choice(NK, "type") : vp_choice(NK + 1, "type"); int n = vp_choice(4, "length"), bad = vp_choice(3, "bad"); void* p = how < 2 ? anew(s, k, vp_choice(2, "length of the prototype")) : 0; if (how == 2) { if (k == STR) p = spv_str(s, "p", 1); else if (k == OBJ) { ST[0].ival = 1; ST[1].ival = 2; OK(CALL(s, "point", 2)); p = keep(s, ST[0].oval); } else p = anew(s, k == NK ? STR : k, 1); } int len = n; if (bad == 1) { len = sym_int("negative length"); vp_assume(len < 0); } ST[0].oval = bad == 2 ? 0 : p; ST[1].ival = len; int e = CALLC(s, "Array", how == 0 ? "new_proto" : how == 1 ? "new_proto_any" : "new_array_proto_element", 2); if (bad) { THROWS(e, "a negative length or no prototype throws"); vp_reach("thrown"); return; } OK(e); void* r = keep(s, ST[0].oval); vp_assert(r && ENV->length(ENV, ST, r) == n, "an array of the length"); if (how < 2) { A w; memset(&w, 0, sizeof w); w.a = r; w.k = k; w.n = n; is(s, &w, "a zeroed array of the type"); } else { vp_assert(ENV->is_type_by_name(ENV, ST, r, k == OBJ ? "Point" : k == NK ? "string" : KN[k], k == STR || k == OBJ ? 1 : 2), "an array of the type of the element"); for (int i = 0; i < n; i++) vp_assert(!ENV->get_elem_object(ENV, ST, r, i), "empty"); } vp_reach("done"); }
JOBV(repeat) { int k = vp_choice(NK + 1, "type"), strs = k == NK; if (strs) k = STR; int n = vp_choice(4, "length"), bad = vp_choice(3, "bad"), c = vp_choice(4, "count"); A x = mk(s, k, n), r; r.k = k; int ask = c; if (bad == 1) { ask = sym_int("negative count"); vp_assume(ask < 0); } ST[0].oval = bad == 2 ? 0 : x.a; ST[1].ival = ask; int e = CALLC(s, "Array", strs ? "repeat_string" : "repeat", 2); if (bad) { THROWS(e, "a negative count or no array throws"); vp_reach("thrown"); return; } OK(e); void* o = keep(s, ST[0].oval); vp_assert(ENV->length(ENV, ST, o) == n * c && ENV->is_type_by_name(ENV, ST, o, KN[k], 1), "an array of the same type, count times as long"); int ok = 1; for (int i = 0; i < n * c; i++) for (int j = 0; j < (k == MUL ? 2 : 1); j++) ok &= aget2(s, k, o, i, j) == x.v[i % n][j]; vp_assert(ok, "the elements are repeated in order"); is(s, &x, "the source does not change"); vp_reach("done"); }
JOBV(boxes) { static const char* C[] = { "Byte", "Short", "Int", "Long", "Float", "Double" }; int k = vp_choice(6, "type"), no = vp_choice(2, "no array"), n = 3; char m[40]; A x = mk(s, k, n); ST[0].oval = no ? 0 : x.a; int e = CALLC(s, "Array", name(m, "to_object_array_", KN[k]), 1); if (no) { THROWS(e, "no array throws"); ST[0].oval = 0; THROWS(CALLC(s, "Array", name(m, "to_array_", KN[k]), 1), "no array throws"); vp_reach("thrown"); return; } OK(e); void* o = keep(s, ST[0].oval); vp_assert(ENV->length(ENV, ST, o) == n && ENV->is_type_by_name(ENV, ST, o, C[k], 1), "an array of number objects"); ST[0].oval = o; OK(CALLC(s, "Array", name(m, "to_array_", KN[k]), 1)); A r = x; r.a = keep(s, ST[0].oval); is(s, &r, "the values come back"); ENV->set_elem_object(ENV, ST, o, 1, 0); ST[0].oval = o; THROWS(CALLC(s, "Array", name(m, "to_array_", KN[k]), 1), "undef in the array throws"); vp_reach("done"); }
JOBV(shuffle) { int k = vp_choice(NK, "type"), n = vp_choice(4, "length"); void* a = anew(s, k, n); int64_t v[3][2]; for (int i = 0; i < n; i++) for (int j = 0; j < (k == MUL ? 2 : 1); j++) { int64_t x = 10 + i + 100 * j; if (k == STR || k == OBJ) { char c = 'a' + i; x = (int64_t)spv_str(s, &c, 1); } aset2(s, k, a, i, j, x); v[i][j] = aget2(s, k, a, i, j); } int seed = sym_int("seed"); vp_assume((seed >= 0) & (seed < (vp_thorough() ? 1 << 20 : 1 << 12))); ST[0].oval = a; ST[1].ival = seed; OK(CALL(s, "shuffle", 2)); int used = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) used += ((aget2(s, k, a, i, 0) == v[j][0]) & (k != MUL || aget2(s, k, a, i, 1) == v[j][1])) << 4 * j; vp_assert(used == (n == 0 ? 0 : n == 1 ? 1 : n == 2 ? 0x11 : 0x111), "the elements are permuted"); vp_reach("done"); }
JOBV(unsigneds) { int k = vp_choice(3, "type"), n = vp_choice(3, "length") - 1; void* a = n < 0 ? 0 : anew(s, k, n); int64_t v[2]; for (int i = 0; i < n; i++) { v[i] = sym_byte("element") | (k ? 0 : 0); aset2(s, k, a, i, 0, v[i]); v[i] = aget2(s, k, a, i, 0) & (k == B ? 0xFF : k == S ? 0xFFFF : 0xFFFFFFFFLL); } char m[40], w[100]; int l = 0; ST[0].oval = a; OK(CALLC(s, "Array", name(m, "dump_unsigned_", KN[k]), 1)); void* o = keep(s, ST[0].oval); const char* r = ENV->get_chars(ENV, ST, o); int rl = ENV->length(ENV, ST, o); if (n < 0) { vp_assert(rl == 5 && !memcmp(r, "undef", 5), "undef"); vp_reach("undef"); return; } w[l++] = '['; w[l++] = '\n'; for (int i = 0; i < n; i++) { w[l++] = ' '; w[l++] = ' '; char t[12]; int q = 0; uint32_t u = v[i]; do { t[q++] = '0' + u % 10; u /= 10; } while (u); while (q) w[l++] = t[--q]; if (i < n - 1) w[l++] = ','; w[l++] = '\n'; } w[l++] = ']'; vp_assert(rl > l, "the dump is long enough"); int ok = 1; for (int i = 0; i < l; i++) ok &= r[i] == w[i]; vp_assert(ok, "every element as an unsigned number"); vp_reach("done"); }
