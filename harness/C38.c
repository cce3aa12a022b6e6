/*vp {"pc":"","time":200,"replays":60,"bounds":["every value of the components (texts: every value of up to 2 digits and the extremes)","arrays of up to 3 elements for the complex conversions, grep, map and map_expand","guards in a loop left in 5 ways at either iteration"]} */
#include "lang.h"
#define THROWS(e, what) do { vp_assert((e) != 0, what); vp_assert(spv_exc(s) != 0, what); spv_clear_exc(s); } while (0)
static void* keep(SPV* s) { void* o = ST[0].oval; if (o) ENV->push_mortal(ENV, ST, o); return o; }
static int geti(SPV* s, void* o, const char* c, const char* m) { ST[0].oval = o; OK(CALLC(s, c, m, 1)); return get_int(); }
static void* pt(SPV* s, int three, int n, int x, int y, int z) { ST[0].ival = x; ST[1].ival = y; ST[2].ival = z; OK(CALLC(s, three ? "Point3D" : "Point", "new", n)); void* o = keep(s); vp_assert(o && ENV->is_type_by_name(ENV, ST, o, three ? "Point3D" : "Point", 0), "an object of the class"); return o; }
static void is(SPV* s, int three, void* o, int x, int y, int z) { vp_assert(geti(s, o, "Point", "x") == x && geti(s, o, "Point", "y") == y && (!three || geti(s, o, "Point3D", "z") == z), "the components are the given ones"); }
static int num(char* b, int64_t v) { char t[24]; int n = 0, k = 0; uint32_t u = v < 0 ? -v : v; if (v < 0) b[k++] = '-'; do { t[n++] = '0' + u % 10; u /= 10; } while (u); while (n) b[k++] = t[--n]; return k; }
JOBV(points) { int three = vp_choice(2, "3D"), n = vp_choice(three ? 4 : 3, "arguments"), x = sym_int("x"), y = sym_int("y"), z = sym_int("z"); void* p = pt(s, three, n, x, y, z); if (n < 1) x = 0; if (n < 2) y = 0; if (n < 3) z = 0; is(s, three, p, x, y, z); const char* c = three ? "Point3D" : "Point"; ST[0].oval = p; int dyn = vp_choice(2, "default cloner"); if (dyn) OK(CALL(s, "clone", 1)); else OK(CALLC(s, c, "clone", 1)); void* q = keep(s); vp_assert(q && q != p && ENV->is_type_by_name(ENV, ST, q, c, 0), "a clone is a new object of the same class"); is(s, three, q, x, y, z); ST[0].oval = p; ST[1].oval = q; OK(CALL(s, "eq", 2)); vp_assert(get_int() == 1, "a clone is equal"); ST[0].oval = p; OK(CALLC(s, c, "clear", 1)); is(s, three, p, 0, 0, 0); is(s, three, q, x, y, z); vp_reach("done"); }
JOBV(equality) { int three = vp_choice(2, "3D"), how = vp_choice(2, "how"), u = vp_choice(4, "undef"); int v[2][3]; void* o[2]; for (int i = 0; i < 2; i++) { for (int j = 0; j < 3; j++) v[i][j] = sym_int("component"); o[i] = u >> i & 1 ? 0 : pt(s, three, three ? 3 : 2, v[i][0], v[i][1], v[i][2]); } int want = u == 3 || (u == 0 && ((v[0][0] == v[1][0]) & (v[0][1] == v[1][1]) & (!three | (v[0][2] == v[1][2])))); for (int d = 0; d < 3; d++) { ST[0].oval = o[d == 1]; ST[1].oval = o[d == 0 || d == 2 ? 1 : 0]; if (d == 2) { ST[0].oval = ST[1].oval = o[0]; want = 1; } OK(CALL(s, how ? three ? "peq3" : "peq" : "eq", 2)); vp_assert(get_int() == want, "equality says whether all components are equal, in both directions, and of an object with itself"); } vp_reach("done"); }
JOBV(texts) { int three = vp_choice(2, "3D"), w = vp_choice(3, "which"); static const int V[] = { 0, -1, 2147483647, INT32_MIN, 1000000, -99999 }; int v[3]; for (int j = 0; j < 3; j++) { v[j] = j == w ? sym_int("component") : V[vp_choice(j == (w + 1) % 3 ? 6 : 1, "constant")]; } vp_assume((v[w] > -100) & (v[w] < 100)); if (w == 2 && !three) return; void* p = pt(s, three, 3 - !three, v[0], v[1], v[2]); ST[0].oval = p; OK(CALLC(s, three ? "Point3D" : "Point", "to_string", 1)); void* r = keep(s); char b[60]; int n = 0; b[n++] = '('; for (int j = 0; j < 2 + three; j++) { if (j) b[n++] = ','; n += num(b + n, v[j]); } b[n++] = ')'; vp_assert(ENV->length(ENV, ST, r) == n, "the text of a point"); const char* t = ENV->get_chars(ENV, ST, r); int ok = 1; for (int i = 0; i < n; i++) ok &= t[i] == b[i]; vp_assert(ok, "the text of a point"); vp_reach("done"); }
#define GD(a, i) (((int64_t*)ENV->get_elems_double(ENV, ST, a))[i])
#define GF(a, i) (((int32_t*)ENV->get_elems_float(ENV, ST, a))[i])
#define G(a, i) (f ? (int64_t)GF(a, i) : GD(a, i))
JOBV(complex_new) { int f = vp_choice(2, "float"), n = vp_choice(3, "arguments"); int64_t re = sym_long("re"), im = sym_long("im"); ST[0].ival = n; if (f) { int32_t a = re, b = im; memcpy(&ST[1].fval, &a, 4); memcpy(&ST[2].fval, &b, 4); re = a; im = b; } else { memcpy(&ST[1].dval, &re, 8); memcpy(&ST[2].dval, &im, 8); } OK(CALL(s, f ? "cf" : "cd", 3)); void* a = keep(s); vp_assert(G(a, 0) == (n > 0 ? re : 0) && G(a, 1) == (n > 1 ? im : 0), "the parts are the given ones"); vp_reach("done"); }
JOBV(complex_arrays) { int f = vp_choice(2, "float"), n = vp_choice(4, "length"), k = vp_choice(4, "from"); const char* c = f ? "Complex_2f" : "Complex_2d"; if (k == 3) { int bad = vp_choice(4, "bad"); ST[0].oval = bad == 3 ? f ? ENV->new_float_array(ENV, ST, 2 * n + 1) : ENV->new_double_array(ENV, ST, 2 * n + 1) : 0; THROWS(CALLC(s, c, bad == 0 ? "to_re_array" : bad == 1 ? "to_im_array" : "new_array_from_pairs", 1), "no array or an odd number of parts throws"); vp_reach("thrown"); return; } int m = k == 0 ? 2 * n : n; void* a = f ? ENV->new_float_array(ENV, ST, m) : ENV->new_double_array(ENV, ST, m); int64_t v[6]; for (int i = 0; i < m; i++) { v[i] = sym_long("part"); if (f) { GF(a, i) = v[i]; v[i] = (int32_t)v[i]; } else GD(a, i) = v[i]; } ST[0].oval = a; OK(CALLC(s, c, k == 0 ? "new_array_from_pairs" : k == 1 ? "new_array_from_re_array" : "new_array_from_im_array", 1)); void* z = keep(s); vp_assert(z && ENV->is_type_by_name(ENV, ST, z, c, 1) && ENV->length(ENV, ST, z) == n, "a complex array of the length"); static const char* TO[] = { "to_pairs", "to_re_array", "to_im_array" }; for (int t = 0; t < 3; t++) { ST[0].oval = z; OK(CALLC(s, c, TO[t], 1)); void* b = keep(s); vp_assert(ENV->length(ENV, ST, b) == (t ? n : 2 * n), "an array of the length"); int ok = 1; for (int i = 0; i < (t ? n : 2 * n); i++) { int idx = t ? i : i / 2, part = t ? t - 1 : i % 2; int64_t w = k == 0 ? v[2 * idx + part] : (k == 1) == (part == 0) ? v[idx] : 0; ok &= G(b, i) == w; } vp_assert(ok, "the parts come back"); } vp_reach("done"); }
JOBV(complex_texts) { static const double V[] = { 0, 1, -1, 0.5, -2.25, 1e100, -1e-7, 123456789 }; int f = vp_choice(2, "float"), i = vp_choice(8, "re"), j = vp_choice(8, "im"); if (f && (V[i] > 1e30 || V[j] > 1e30)) return; char w[80]; if (f) { ST[0].fval = V[i]; ST[1].fval = V[j]; snprintf(w, sizeof w, "%g%s%gi", (float)V[i], V[j] < 0 ? "" : "+", (float)V[j]); } else { ST[0].dval = V[i]; ST[1].dval = V[j]; snprintf(w, sizeof w, "%g%s%gi", V[i], V[j] < 0 ? "" : "+", V[j]); } OK(CALL(s, f ? "cfs" : "cds", 2)); void* r = keep(s); vp_assert(!strcmp(ENV->get_chars(ENV, ST, r), w), "the text of a complex number"); vp_reach("done"); }
JOBV(boxes) { static const char* C[] = { "Byte", "Short", "Int", "Long", "Float", "Double" }; int k = vp_choice(6, "class"); int64_t v = sym_long("value"); memset(&ST[0], 0, sizeof ST[0]); if (k < 3) ST[0].ival = v; else if (k == 4) { int32_t b = v; memcpy(&ST[0].fval, &b, 4); } else memcpy(&ST[0], &v, 8); OK(CALLC(s, C[k], "new", 1)); void* o = keep(s); vp_assert(o && ENV->is_type_by_name(ENV, ST, o, C[k], 0), "an object of the class"); ST[0].oval = o; OK(CALLC(s, C[k], "value", 1)); int64_t g = k == 0 ? get_byte() : k == 1 ? get_short() : k == 2 ? get_int() : k == 3 ? get_long() : k == 4 ? (int32_t)fbits(get_float()) : (int64_t)dbits(get_double()); vp_assert(g == (k == 0 ? (int8_t)v : k == 1 ? (int16_t)v : k == 2 || k == 4 ? (int32_t)v : v), "the value is the given one"); vp_reach("done"); }
JOBV(bools) { int t = vp_choice(2, "which"); void* o = 0; for (int i = 0; i < 2; i++) { OK(CALLC(s, "Bool", t ? "TRUE" : "FALSE", 0)); void* p = keep(s); vp_assert(p && (!o || o == p), "there is one object of each"); o = p; ST[0].oval = o; OK(CALLC(s, "Bool", "value", 1)); vp_assert(get_byte() == t, "TRUE is 1 and FALSE is 0"); } vp_reach("done"); }
JOBV(errors) { int k = vp_choice(6, "error"); ST[0].ival = k; OK(CALL(s, "error_id", 1)); static const int W[] = { 1 | 32, 1 | 32, 1 | 2 | 64, 1 | 4, 1 | 8, 16 }; vp_assert(get_int() == W[k], "an error is of its class and of the parents of its class only"); vp_reach("done"); }
static void* cm(SPV* s, int v) { ST[0].ival = v; OK(CALLC(s, "Cm", "new", 1)); return keep(s); }
JOBV(defaults) { int u = vp_choice(4, "undef"), a = sym_int("a"), b = sym_int("b"); void* x = u & 1 ? 0 : cm(s, a); void* y = u & 2 ? 0 : cm(s, b); ST[0].oval = x; ST[1].oval = y; OK(CALL(s, "cmp", 2)); int c1 = get_int(); ST[0].oval = y; ST[1].oval = x; OK(CALL(s, "cmp", 2)); int c2 = get_int(), w = u == 3 ? 0 : u == 1 ? -1 : u == 2 ? 1 : (a > b) - (a < b); vp_assert((c1 == w) & (c2 == -w), "the default comparator orders undef first and is antisymmetric"); ST[0].oval = x; ST[1].oval = y; OK(CALL(s, "eq", 2)); vp_assert(get_int() == (u ? u == 3 : a == b), "the default equality checker"); ST[0].oval = x; ST[1].oval = y; OK(CALL(s, "addr", 2)); vp_assert(get_int() == (x == y), "the address checker compares identities"); ST[0].oval = x; ST[1].oval = x; OK(CALL(s, "addr", 2)); vp_assert(get_int() == 1, "an object is identical to itself"); ST[0].oval = x; OK(CALL(s, "clone", 1)); void* q = keep(s); if (!x) vp_assert(!q, "undef has no clone"); else { vp_assert(q && q != x && geti(s, q, "Cm", "v") == a, "a clone is equal and separate"); ST[0].oval = x; ST[1].ival = 5; OK(CALLC(s, "Cm", "set_v", 2)); vp_assert(geti(s, q, "Cm", "v") == a, "a change of the object does not reach its clone"); } vp_reach("done"); }
JOBV(strangers) { int m = vp_choice(3, "method"), i = vp_choice(2, "argument"); void* p = spv_str(s, "x", 1); ST[0].oval = i ? cm(s, 1) : p; if (i) { void* q = ST[0].oval; (void)q; } void* c = cm(s, 1); ST[0].oval = i && m < 2 ? c : p; ST[1].oval = i && m < 2 ? p : c; THROWS(CALL(s, m == 0 ? "cmp" : m == 1 ? "eq" : "clone", m == 2 ? 1 : 2), "an object without the interface throws"); vp_reach("thrown"); }
JOBV(guards) { int how = vp_choice(5, "way"), k = vp_choice(3, "iteration"); ST[0].ival = how; ST[1].ival = k; int e = CALL(s, "guard", 2), r = get_int(), w = 0, ret = 8, thrown = 0; for (int i = 0; i < 2; i++) { if (how < 4 && i == k) { w = w * 10 + 1; if (how == 0) continue; if (how == 2) ret = 7; if (how == 3) thrown = 1; break; } w = w * 10 + 2; if (how == 4 && i == k) { w = w * 10 + 1; w = w * 10 + 3; } else w = w * 10 + 1; } if (thrown) { THROWS(e, "the exception arrives"); } else { OK(e); vp_assert(r == ret, "the guards do not change the result"); } OK(CALL(s, "N", 0)); vp_assert(get_int() == w, "a guard runs exactly once, when its scope is left"); ST[0].oval = 0; THROWS(CALLC(s, "Scope::Guard", "new", 1), "a guard needs a callback"); vp_reach("done"); }
JOBV(callbacks) { int k = vp_choice(3, "method"), n = vp_choice(4, "length"); void* a = ENV->new_object_array(ENV, ST, ENV->get_basic_type(ENV, ST, "Cm"), n); void* m = ENV->new_int_array(ENV, ST, 3); int v[3], w[3], out = 0, idx[9]; void* o[3]; for (int i = 0; i < n; i++) { v[i] = sym_int("value"); o[i] = cm(s, v[i]); ENV->set_elem_object(ENV, ST, a, i, o[i]); w[i] = k == 2 ? vp_choice(3, "copies") : sym_int("answer"); ENV->get_elems_int(ENV, ST, m)[i] = w[i]; } ST[0].oval = m; OK(CALL(s, "SET_M", 1)); ST[0].oval = a; OK(CALL(s, k == 0 ? "grep" : k == 1 ? "map" : "map_expand", 1)); void* r = keep(s); for (int i = 0; i < n; i++) for (int j = 0; j < (k == 0 ? w[i] != 0 : k == 1 ? 1 : w[i]); j++) idx[out++] = i; vp_assert(r && r != a && ENV->is_type_by_name(ENV, ST, r, "Cm", 1) && ENV->length(ENV, ST, r) == out, "a new array of the same type"); for (int i = 0; i < out; i++) { void* x = ENV->get_elem_object(ENV, ST, r, i); if (k == 1) vp_assert(x != o[idx[i]] && geti(s, x, "Cm", "v") == (int32_t)((uint32_t)v[idx[i]] + 1), "the results of the callback, in order"); else vp_assert(x == o[idx[i]], "the selected elements, in order"); } vp_assert(ENV->length(ENV, ST, a) == n, "the source does not change"); for (int i = 0; i < n; i++) vp_assert(ENV->get_elem_object(ENV, ST, a, i) == o[i] && geti(s, o[i], "Cm", "v") == v[i], "the source does not change"); ST[0].oval = 0; OK(CALL(s, "SET_M", 1)); static const char* F[] = { "grep", "map", "map_expand" }; ST[0].oval = 0; ST[1].oval = 0; THROWS(CALLC(s, "Fn", F[k], 2), "no array throws"); ST[0].oval = a; ST[1].oval = 0; THROWS(CALLC(s, "Fn", F[k], 2), "no callback throws"); vp_reach("done"); }
JOBV(choose) { int k = vp_choice(2, "method"), u = vp_choice(4, "undef"); void* x = u & 1 ? 0 : cm(s, 1); void* y = u & 2 ? 0 : cm(s, 2); int c = sym_int("condition"); if (k) { ST[0].ival = c; ST[1].oval = x; ST[2].oval = y; OK(CALLC(s, "Fn", "if", 3)); vp_assert(ST[0].oval == (c ? x : y), "if selects by its condition"); } else { ST[0].oval = x; ST[1].oval = y; OK(CALLC(s, "Fn", "or", 2)); vp_assert(ST[0].oval == (x ? x : y), "or selects the first defined value"); } keep(s); vp_reach("done"); }
