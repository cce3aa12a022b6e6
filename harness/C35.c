/*vp {"pc":"VP","time":200,"replays":60,"bounds":["copy: strings and numeric and multi-numeric arrays of up to 4 elements (strings of up to 5 free bytes), every content, undef, read-only strings","dump: strings of up to 3 free bytes (thorough: 4), arrays of up to 3 numbers out of tables of extreme values, graphs of two objects whose references form every shape including cycles and weak references, object arrays nested in two levels, arrays that contain themselves","type names of 19 kinds of objects and of 19 declared types, basic type ids, args_width with 1 to 3 arguments of every value"]} */
#include "lang.h"
enum { B, S, I, L, F, D, MUL, MULF, M3, NK };
static void* keep(SPV* s, void* o) { if (o) ENV->push_mortal(ENV, ST, o); return o; }
static const char* TN[] = { "byte", "short", "int", "long", "float", "double", "Complex_2d", "Complex_2f", "Mx_3l" };
static const int SZ[] = { 1, 2, 4, 8, 4, 8, 16, 8, 24 };
static void* anew(SPV* s, int k, int n) { switch (k) { case B: return ENV->new_byte_array(ENV, ST, n); case S: return ENV->new_short_array(ENV, ST, n); case I: return ENV->new_int_array(ENV, ST, n); case L: return ENV->new_long_array(ENV, ST, n); case F: return ENV->new_float_array(ENV, ST, n); case D: return ENV->new_double_array(ENV, ST, n); } return ENV->new_mulnum_array(ENV, ST, ENV->get_basic_type(ENV, ST, TN[k]), n); }
static int same_bytes(const void* a, const void* b, int n) { int ok = 1; for (int i = 0; i < n; i++) ok &= ((const char*)a)[i] == ((const char*)b)[i]; return ok; }
JOB2(copy_array) {
  int k = vp_choice(NK, "type"), n = vp_choice(6, "length") - 1; static const char* M[] = { "copy_byte", "copy_short", "copy_int", "copy_long", "copy_float", "copy_double", "copy_mul", "copy_mulf", "copy_point" };
  if (n < 0) { ST[0].oval = 0; OK(CALL(s, M[k], 1)); vp_assert(!ST[0].oval, "the copy of undef is undef"); vp_reach("undef"); return; }
  void* x = anew(s, k, n); char v[4 * 24]; if (n) { vp_symbolic(v, n * SZ[k], "content"); memcpy(ENV->get_elems_byte(ENV, ST, x), v, n * SZ[k]); }
  ST[0].oval = x; OK(CALL(s, M[k], 1)); void* r = keep(s, ST[0].oval);
  vp_assert(r && r != x, "the copy is a separate object"); vp_assert(ENV->length(ENV, ST, r) == n && ENV->is_type_by_name(ENV, ST, r, TN[k], 1), "the copy has the same type and length");
  vp_assert(same_bytes(ENV->get_elems_byte(ENV, ST, r), v, n * SZ[k]), "the copy has the same elements"); vp_assert(same_bytes(ENV->get_elems_byte(ENV, ST, x), v, n * SZ[k]), "the source keeps its elements");
  if (n) { memset(ENV->get_elems_byte(ENV, ST, r), 0x5A, n * SZ[k]); vp_assert(same_bytes(ENV->get_elems_byte(ENV, ST, x), v, n * SZ[k]), "the source does not share the elements of the copy"); }
  vp_reach("done");
}
JOB2(copy_string) {
  int n = vp_choice(7, "length") - 1, ro = vp_choice(2, "read-only"), mut = vp_choice(2, "mutable"); if (mut && ro) return; char v[6]; if (n > 0) vp_symbolic(v, n, "text");
  void* x = n < 0 ? 0 : spv_str(s, v, n); if (x && ro) ENV->make_read_only(ENV, ST, x);
  ST[0].oval = x; OK(CALL(s, mut ? "copy_mutable" : "copy_string", 1)); void* r = keep(s, ST[0].oval); if (n < 0) { vp_assert(!r, "the copy of undef is undef"); vp_reach("undef"); return; }
  vp_assert(r && r != x && ENV->length(ENV, ST, r) == n && ENV->is_string(ENV, ST, r) && !ENV->is_read_only(ENV, ST, r), "the copy is a separate string that is not read-only");
  const char* c = ENV->get_chars(ENV, ST, r); int ok = 1; for (int i = 0; i < n; i++) ok &= c[i] == (char)(v[i] ^ (mut ? 0x55 : 0)); vp_assert(ok & (c[n] == 0), "the copy has the same characters");
  vp_assert(same_bytes(ENV->get_chars(ENV, ST, x), v, n) && ENV->is_read_only(ENV, ST, x) == ro, "the source does not change"); vp_reach("done");
}
static char W[8192]; static int wn;
static void p(const char* t) { int n = strlen(t); memcpy(W + wn, t, n); wn += n; }
static void ind(int d) { while (d-- > 0) p("  "); }
static void hex(uint64_t v) { char t[20]; int n = 0; do { t[n++] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v); p("0x"); while (n) W[wn++] = t[--n]; }
static void check(SPV* s, void* r, const char* what) { vp_assert(r && ENV->is_string(ENV, ST, r), "dump gives a string"); vp_assert(ENV->length(ENV, ST, r) == wn, what); vp_assert(same_bytes(ENV->get_chars(ENV, ST, r), W, wn), what); }
// UTF-8 by the table of well-formed byte sequences of the Unicode standard
static int in(uint8_t c, int a, int b) { return (c >= a) & (c <= b); }
static int seq(const uint8_t* t, int n) {
  if (t[0] < 0x80) return 1;
  if (n >= 2 && in(t[0], 0xC2, 0xDF) && in(t[1], 0x80, 0xBF)) return 2;
  if (n >= 3 && in(t[2], 0x80, 0xBF) && ((t[0] == 0xE0 && in(t[1], 0xA0, 0xBF)) || (t[0] == 0xED && in(t[1], 0x80, 0x9F)) || (((in(t[0], 0xE1, 0xEF) & (t[0] != 0xED)) != 0) && in(t[1], 0x80, 0xBF)))) return 3;
  if (n >= 4 && in(t[2], 0x80, 0xBF) && in(t[3], 0x80, 0xBF) && ((t[0] == 0xF0 && in(t[1], 0x90, 0xBF)) || (in(t[0], 0xF1, 0xF3) && in(t[1], 0x80, 0xBF)) || (t[0] == 0xF4 && in(t[1], 0x80, 0x8F)))) return 4;
  return 0;
}
JOBV(dump_string) {
  int max = vp_thorough() ? 4 : 3, n = vp_choice(max + 1, "length"); uint8_t t[8]; if (n) vp_symbolic(t, n, "text"); wn = 0; void* x = spv_str(s, t, n); ST[0].oval = x; OK(CALL(s, "dump", 1)); void* r = keep(s, ST[0].oval); p("\"");
  for (int i = 0; i < n;) { int k = seq(t + i, n - i); if (k > 1 || (k == 1 && t[i] >= 0x20 && t[i] < 0x7F)) { memcpy(W + wn, t + i, k); wn += k; i += k; } else { p("\\x{"); W[wn++] = "0123456789ABCDEF"[t[i] >> 4]; W[wn++] = "0123456789ABCDEF"[t[i] & 15]; p("}"); i++; } }
  p("\""); check(s, r, "the dump of a string shows its characters"); vp_reach("done");
}
static const int64_t IV[] = { 0, -1, 7, 127, -128, 32767, -32768, 2147483647, -2147483648LL, INT64_MAX, INT64_MIN }; static const int NI[] = { 5, 7, 9, 11 };
static const double FV[] = { 0, -0.0, 1.5, -2.25, 1e30, 0.1 };
static void num(int k, int64_t i, double d) { char t[64]; if (k < F) { uint64_t u = i < 0 ? -(uint64_t)i : i; int n = 0; if (i < 0) p("-"); do { t[n++] = '0' + u % 10; u /= 10; } while (u); while (n) W[wn++] = t[--n]; } else { snprintf(t, 64, "%g", k == F ? (float)d : d); p(t); } }
static void put(SPV* s, int k, void* x, int i, int64_t v, double d) { void* e = ENV->get_elems_byte(ENV, ST, x); switch (k) { case B: ((int8_t*)e)[i] = v; break; case S: ((int16_t*)e)[i] = v; break; case I: ((int32_t*)e)[i] = v; break; case L: ((int64_t*)e)[i] = v; break; case F: ((float*)e)[i] = d; break; case D: ((double*)e)[i] = d; break; } }
JOBV(dump_numbers) {
  int k = vp_choice(6, "type"), n = vp_choice(4, "length"); void* x = anew(s, k, n); int64_t v[3]; double d[3];
  for (int i = 0; i < n; i++) { int j = (i ? 3 * i + vp_choice(2, "value") : vp_choice(k < F ? NI[k] : 6, "value")) % (k < F ? NI[k] : 6); v[i] = k < F ? IV[j] : 0; d[i] = k < F ? 0 : FV[j]; put(s, k, x, i, v[i], d[i]); }
  wn = 0; p("[\n"); for (int i = 0; i < n; i++) { ind(1); num(k, v[i], d[i]); p(i == n - 1 ? "\n" : ",\n"); } p("] : "); p(TN[k]); p("[]("); hex((uint64_t)x); p(")");
  ST[0].oval = x; OK(CALL(s, "dump", 1)); check(s, keep(s, ST[0].oval), "the dump of an array shows its elements, type and address"); vp_reach("done");
}
JOBV(dump_mulnum) {
  int f = vp_choice(2, "float"), n = vp_choice(3, "length"); void* x = anew(s, f ? MULF : MUL, n); wn = 0; p("[\n");
  for (int i = 0; i < n; i++) { double a = FV[vp_choice(6, "value")], b = FV[(i * 3 + 2) % 6]; put(s, f ? F : D, x, 2 * i, 0, a); put(s, f ? F : D, x, 2 * i + 1, 0, b); ind(1); p("{\n"); ind(2); p("re => "); num(f ? F : D, 0, a); p(",\n"); ind(2); p("im => "); num(f ? F : D, 0, b); p("\n"); ind(1); p("}"); p(i == n - 1 ? "\n" : ",\n"); }
  p("] : "); p(f ? "Complex_2f" : "Complex_2d"); p("[]("); hex((uint64_t)x); p(")");
  ST[0].oval = x; OK(CALL(s, "dump", 1)); check(s, keep(s, ST[0].oval), "the dump of a multi-numeric array shows its fields"); vp_reach("done");
}
typedef struct { int kid, weak, objs; } G; // references: 0 undef, 1.. object
static void* N[3]; static G g[3]; static void* OA[3]; static int oa[3][2]; static int seen[8]; static int64_t nv[3];
static void dobj(int o, int d);
static void darr(int a, int d) { p("[\n"); for (int i = 0; i < 2; i++) { ind(d + 1); if (oa[a][i]) dobj(oa[a][i], d + 1); else p("undef"); p(i ? "\n" : ",\n"); } ind(d); p("] : Nd[]("); hex((uint64_t)OA[a]); p(")"); }
static void dobj(int o, int d) {
  if (seen[o]) { p("REUSE_OBJECT("); hex((uint64_t)N[o]); p(")"); return; } seen[o] = 1; p("Nd ("); hex((uint64_t)N[o]); p(") {\n"); int64_t v = nv[o];
  ind(d + 1); p("b => "); num(B, (int8_t)v, 0); p(",\n"); ind(d + 1); p("s => "); num(S, (int16_t)v, 0); p(",\n"); ind(d + 1); p("i => "); num(I, (int32_t)v, 0); p(",\n"); ind(d + 1); p("l => "); num(L, v, 0); p(",\n"); ind(d + 1); p("f => 1.5,\n"); ind(d + 1); p("d => -2.25,\n");
  ind(d + 1); p(o == 1 ? "str => \"ab\",\n" : "str => undef,\n"); ind(d + 1); p("nums => undef,\n"); ind(d + 1); p("kid => "); if (g[o].kid) dobj(g[o].kid, d + 1); else p("undef"); p(",\n"); ind(d + 1); p("weak => "); if (g[o].weak) dobj(g[o].weak, d + 1); else p("undef"); p(",\n");
  ind(d + 1); p("objs => "); if (g[o].objs) darr(o, d + 1); else p("undef"); p(",\n"); ind(d + 1); p("any => undef\n"); ind(d); p("}");
}
static int calls(SPV* s, void* o, const char* m, void* v) { ST[0].oval = o; ST[1].oval = v; return CALLC(s, "Nd", m, 2); }
JOBV(dump_graph) {
  for (int o = 1; o <= 2; o++) { OK(CALLC(s, "Nd", "new", 0)); N[o] = keep(s, ST[0].oval); int64_t v = nv[o] = o == 1 ? -300 : INT64_MAX; ST[0].oval = N[o]; ST[1].bval = v; OK(CALLC(s, "Nd", "set_b", 2)); ST[0].oval = N[o]; ST[1].sval = v; OK(CALLC(s, "Nd", "set_s", 2)); ST[0].oval = N[o]; ST[1].ival = v; OK(CALLC(s, "Nd", "set_i", 2)); ST[0].oval = N[o]; ST[1].lval = v; OK(CALLC(s, "Nd", "set_l", 2)); ST[0].oval = N[o]; ST[1].fval = 1.5f; OK(CALLC(s, "Nd", "set_f", 2)); ST[0].oval = N[o]; ST[1].dval = -2.25; OK(CALLC(s, "Nd", "set_d", 2)); }
  OK(calls(s, N[1], "set_str", spv_str(s, "ab", 2))); int wk = 0;
  for (int o = 1; o <= 2; o++) { g[o].kid = vp_choice(3, "kid"); g[o].weak = vp_choice(3, "weak"); g[o].objs = o == 1 ? vp_choice(2, "array") : 0; if (g[o].kid) OK(calls(s, N[o], "set_kid", N[g[o].kid])); if (g[o].weak) { OK(calls(s, N[o], "set_weak", N[g[o].weak])); ST[0].oval = N[o]; OK(CALLC(s, "Nd", "weaken_it", 1)); } if (g[o].kid && o == 1) { wk = vp_choice(2, "weak kid"); if (wk) { ST[0].oval = N[o]; OK(CALLC(s, "Nd", "weaken_kid", 1)); } }
    if (g[o].objs) { ST[0].ival = 2; OK(CALL(s, "new_nds", 1)); OA[o] = keep(s, ST[0].oval); for (int i = 0; i < 2; i++) { oa[o][i] = i ? 2 : vp_choice(3, "element"); if (oa[o][i]) ENV->set_elem_object(ENV, ST, OA[o], i, N[oa[o][i]]); } OK(calls(s, N[o], "set_objs", OA[o])); } }
  wn = 0; memset(seen, 0, sizeof seen); dobj(1, 0); ST[0].oval = N[1]; OK(CALL(s, "dump", 1)); check(s, keep(s, ST[0].oval), "the dump of an object shows its fields, each object once"); vp_reach("done");
}
// an object array that contains itself, directly or through an array or an object
JOBV(dump_self) {
  int k = vp_choice(4, "kind"); void* bt = ENV->get_basic_type(ENV, ST, "object"); void* a = ENV->new_object_array(ENV, ST, bt, 2); void* b = ENV->new_object_array(ENV, ST, bt, 1); OK(CALLC(s, "Nd", "new", 0)); void* n = keep(s, ST[0].oval);
  if (k == 0) ENV->set_elem_object(ENV, ST, a, 0, a); if (k == 1) { ENV->set_elem_object(ENV, ST, a, 1, b); ENV->set_elem_object(ENV, ST, b, 0, a); } if (k == 2) { ENV->set_elem_object(ENV, ST, a, 0, n); OK(calls(s, n, "set_any", a)); } if (k == 3) { ENV->set_elem_object(ENV, ST, a, 0, b); ENV->set_elem_object(ENV, ST, a, 1, b); }
  ST[0].oval = a; OK(CALL(s, "dump", 1)); void* r = keep(s, ST[0].oval); vp_assert(r && ENV->length(ENV, ST, r) > 10, "the dump of an array that contains itself ends"); for (int i = 0; i < 2; i++) ENV->set_elem_object(ENV, ST, a, i, 0); vp_reach("done");
}
static int text_is(SPV* s, void* r, const char* w) { return r && ENV->is_string(ENV, ST, r) && ENV->length(ENV, ST, r) == (int)strlen(w) && !memcmp(ENV->get_chars(ENV, ST, r), w, strlen(w) + 1); }
JOB2(type_names) { static const char* T[] = { "Nd", "string", "byte[]", "short[]", "int[]", "long[]", "float[]", "double[]", "string[]", "object[]", "Nd[]", "Nd[][]", "int[][][]", "Complex_2d[]", "Int", "If[]", "Int[]", "string[][]" }; int k = vp_choice(18, "kind"); ST[0].ival = k; OK(CALL(s, "mk", 1)); void* x = keep(s, ST[0].oval); ST[0].oval = x; OK(CALL(s, "type_name", 1)); vp_assert(text_is(s, keep(s, ST[0].oval), T[k]), "type_name gives the name of the type of the object"); ST[0].oval = 0; OK(CALL(s, "type_name", 1)); vp_assert(!ST[0].oval, "undef has no type name"); vp_reach("done"); }
JOB2(compile_type_names) { static const char* T[] = { "byte", "short", "int", "long", "float", "double", "string", "mutable string", "object", "Nd", "Nd[]", "Nd[][]", "Complex_2d", "Complex_2d[]", "int*", "Complex_2d*", "object[]", "If", "int[][][]" }; int k = vp_choice(19, "type"); ST[0].ival = k; OK(CALL(s, "ctn", 1)); vp_assert(text_is(s, keep(s, ST[0].oval), T[k]), "compile_type_name gives the name of the declared type"); vp_reach("done"); }
JOB2(type_ids) { OK(CALL(s, "ids", 0)); void* a = keep(s, ST[0].oval); int32_t* v = ENV->get_elems_int(ENV, ST, a); static const char* T[] = { "int", "int", "Nd", "Nd", "string", "Complex_2d", "object" }; for (int i = 0; i < 7; i++) vp_assert(v[i] == ENV->get_basic_type_id(ENV, ST, T[i]), "basic_type_id gives the id of the basic type"); vp_reach("done"); }
JOB2(args_widths) { int k = vp_choice(3, "arguments"), b = sym_int("b"); int64_t c = sym_long("c"); ST[0].ival = k; ST[1].ival = b; ST[2].lval = c; OK(CALL(s, "widths", 3)); int w = (int)((k + 1u) * 100u + (k ? (unsigned)b : 7u) * 10u + (unsigned)(k == 2 ? c : 8)); vp_assert(get_int() == w, "args_width is the number of given arguments, omitted ones have their default"); vp_reach("done"); }
JOB2(no_leaks) { int m = vp_choice(2, "operator"), u[3], w = 0; void* a = m ? ENV->new_string_array(ENV, ST, 3) : ENV->new_object_array(ENV, ST, ENV->get_basic_type(ENV, ST, "object"), 3); for (int i = 0; i < 3; i++) { u[i] = vp_choice(2, "undef"); ENV->set_elem_object(ENV, ST, a, i, u[i] ? 0 : spv_str(s, "abcdef", 6)); w += u[i] ? 0 : 6; } ST[0].oval = a; OK(CALL(s, m ? "copies_loop" : "type_names_loop", 1)); BAL_BEGIN ST[0].oval = a; OK(CALL(s, m ? "copies_loop" : "type_names_loop", 1)); vp_assert(get_int() == w, "type names and copies in a loop"); BAL_END vp_reach("done"); }
