/*vp {"pc":"","time":200,"replays":60,"bounds":["arrays of up to 4 elements (thorough: 5) of every element type and value, three orders (ascending, descending, and one under which different values are equal), default range and every range that fits; every 32-bit offset and length that does not fit","comparators that answer anything (also contradicting themselves) or throw at any call: arrays of up to 4 elements (thorough: 5)","option lists of up to 3 pairs"]} */
#include "lang.h"
#define THROWS(e, what) do { vp_assert((e) != 0, what); vp_assert(spv_exc(s) != 0, what); spv_clear_exc(s); } while (0)
enum { B, S, I, L, F, D, STR, OBJ, NK };
static const char* KN[] = { "byte", "short", "int", "long", "float", "double", "string", "object" };
static void* anew(SPV* s, int k, int n) { switch (k) { case B: return ENV->new_byte_array(ENV, ST, n); case S: return ENV->new_short_array(ENV, ST, n); case I: return ENV->new_int_array(ENV, ST, n); case L: return ENV->new_long_array(ENV, ST, n); case F: return ENV->new_float_array(ENV, ST, n); case D: return ENV->new_double_array(ENV, ST, n); case STR: return ENV->new_string_array(ENV, ST, n); default: return ENV->new_object_array(ENV, ST, ENV->get_basic_type(ENV, ST, "object"), n); } }
static int64_t aget(SPV* s, int k, void* a, int i) { switch (k) { case B: return ENV->get_elems_byte(ENV, ST, a)[i]; case S: return ENV->get_elems_short(ENV, ST, a)[i]; case I: return ENV->get_elems_int(ENV, ST, a)[i]; case L: return ENV->get_elems_long(ENV, ST, a)[i]; case F: return ((int32_t*)ENV->get_elems_float(ENV, ST, a))[i]; case D: return ((int64_t*)ENV->get_elems_double(ENV, ST, a))[i]; default: return (int64_t)ENV->get_elem_object(ENV, ST, a, i); } }
static void aset(SPV* s, int k, void* a, int i, int64_t v) { switch (k) { case B: ENV->get_elems_byte(ENV, ST, a)[i] = v; break; case S: ENV->get_elems_short(ENV, ST, a)[i] = v; break; case I: ENV->get_elems_int(ENV, ST, a)[i] = v; break; case L: ENV->get_elems_long(ENV, ST, a)[i] = v; break; case F: ((int32_t*)ENV->get_elems_float(ENV, ST, a))[i] = v; break; case D: ((int64_t*)ENV->get_elems_double(ENV, ST, a))[i] = v; break; default: ENV->set_elem_object(ENV, ST, a, i, (void*)v); } }
// key of an element under order o (0 ascending, 1 descending, 2 coarse), strings by their one byte (undef before all)
static double fkey(int k, int64_t v) { if (k == F) { float f; int32_t b = v; memcpy(&f, &b, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static int64_t kstr(SPV* s, int64_t v) { return v ? (uint8_t)ENV->get_chars(ENV, ST, (void*)v)[0] : -1; }
// x comes after y
static int after(SPV* s, int k, int o, int64_t x, int64_t y) { if (k == F || k == D) { double a = fkey(k, x), b = fkey(k, y); return o == 1 ? a < b : a > b; } if (k >= STR) { int64_t a = kstr(s, x), b = kstr(s, y); return o == 1 ? a < b : a > b; } if (o == 2) { x >>= 2; y >>= 2; } return o == 1 ? x < y : x > y; }
static void sorted(SPV* s, int k) { int max = vp_thorough() ? 5 : k == I ? 4 : 3, n = vp_choice(max + 1, "length"), o = k == OBJ ? 2 : vp_choice(3, "order"); int off = 0, len = -1, how = n == max ? 0 : vp_choice(2, "range"); void* a = anew(s, k, n); int64_t v[5], w[5];
  for (int i = 0; i < n; i++) { if (k < STR) v[i] = k < F ? sym_long("element") : sym_long("bits"); else { if (k == STR && o < 2 && i == 1 && vp_choice(2, "undef")) v[i] = 0; else { char c; vp_symbolic(&c, 1, "byte"); v[i] = (int64_t)spv_str(s, &c, 1); } } aset(s, k, a, i, v[i]); v[i] = aget(s, k, a, i); if (k == F || k == D) vp_assume(fkey(k, v[i]) == fkey(k, v[i])); }
  if (how) { off = vp_choice(n + 1, "offset"); len = vp_choice(n - off + 2, "range length") - 1; }
  int hi = len < 0 ? n : off + len;
  ST[0].oval = a; int e; char m[32]; if (o == 2) { strcpy(m, KN[k]); strcat(m, "_k"); ST[1].ival = off; ST[2].ival = len; e = CALL(s, m, 3); } else { strcpy(m, "sort_"); strcat(m, KN[k]); strcat(m, o ? "_desc" : "_asc"); ST[1].ival = off; ST[2].ival = len; e = CALLC(s, "Sort", m, how ? 3 : 1); if (!how && 0) return; } OK(e);
  for (int i = 0; i < n; i++) w[i] = v[i];
  // the independent definition: insertion sort is the stable sort
  for (int i = off + 1; i < hi; i++) { int64_t x = w[i]; int j = i; while (j > off && after(s, k, o, w[j - 1], x)) { w[j] = w[j - 1]; j--; } w[j] = x; }
  int same = 1; for (int i = 0; i < n; i++) same &= aget(s, k, a, i) == w[i]; vp_assert(same, "the range is stably sorted and the rest is unchanged"); vp_reach("sorted"); }
#define J(n, k) JOBV(n) { sorted(s, k); }
J(byte, B) J(short, S) J(int, I) J(long, L) J(float, F) J(double, D) J(string, STR) J(object, OBJ)
JOBV(bad_range) { int k = vp_choice(NK, "type"), n = vp_choice(3, "length"); void* a = vp_choice(2, "array") ? 0 : anew(s, k, n); int off = sym_int("offset"), len = sym_int("range length"); vp_assume((off < 0) | (off > n) | ((len >= 0) & ((int64_t)off + len > n))); int o = k == OBJ ? 0 : vp_choice(3, "order"); char m[32]; strcpy(m, o ? "sort_" : ""); strcat(m, KN[k]); strcat(m, o == 0 ? "_k" : o == 1 ? "_asc" : "_desc"); int64_t v[3]; if (a) for (int i = 0; i < n; i++) { v[i] = k < STR ? 7 - i : 0; aset(s, k, a, i, v[i]); v[i] = aget(s, k, a, i); } ST[0].oval = a; ST[1].ival = off; ST[2].ival = len; THROWS(CALLC(s, o ? "Sort" : "VP", m, 3), "a range outside the array or no array throws"); if (a) for (int i = 0; i < n; i++) vp_assert(aget(s, k, a, i) == v[i], "a failing sort changes nothing"); vp_reach("thrown"); }
JOBV(no_comparator) { int k = vp_choice(NK, "type"); char m[32]; strcpy(m, "sort_"); strcat(m, KN[k]); ST[0].oval = anew(s, k, 2); ST[1].oval = 0; ST[2].ival = 0; ST[3].ival = -1; THROWS(CALLC(s, "Sort", m, 4), "a missing comparator throws"); vp_reach("thrown"); }
static void any(SPV* s, int k) { int n = vp_thorough() ? 5 : 4; void* a = anew(s, k, n); int64_t v[5]; for (int i = 0; i < n; i++) { char c = 'a' + i; aset(s, k, a, i, k == I ? 10 + i : (int64_t)spv_str(s, &c, 1)); v[i] = aget(s, k, a, i); } void* r = ENV->new_int_array(ENV, ST, 12); for (int i = 0; i < 12; i++) ENV->get_elems_int(ENV, ST, r)[i] = sym_int("answer"); ST[0].oval = r; OK(CALL(s, "SET_RES", 1)); ST[0].ival = 0; OK(CALL(s, "SET_POS", 1)); ST[0].oval = a; ST[1].ival = 0; ST[2].ival = -1; int e = CALL(s, k == I ? "int_any" : "object_any", 3);
  if (e) { vp_reach("thrown"); vp_assert(spv_exc(s) != 0, "the exception of the comparator arrives"); spv_clear_exc(s); } else vp_reach("finished"); int used = 0; for (int i = 0; i < n; i++) { int64_t x = aget(s, k, a, i); for (int j = 0; j < n; j++) if (x == v[j]) used += 1 << 4 * j; } vp_assert(used == (n == 5 ? 0x11111 : 0x1111), "whatever the comparator answers or throws, the array is a permutation of what it was"); ST[0].oval = 0; OK(CALL(s, "SET_RES", 1)); }
JOBV(any_int) { any(s, I); } JOBV(any_object) { any(s, OBJ); }
JOBV(options) { int n = vp_choice(4, "pairs"), odd = vp_choice(2, "odd"); void* a = anew(s, OBJ, 2 * n + odd); int64_t v[7]; int bad = odd; for (int i = 0; i < 2 * n + odd; i++) { if (i % 2 == 0 && i == 2 && n > 1 && vp_choice(3, "key") == 0) { bad = 1; v[i] = vp_choice(2, "not a string") ? (int64_t)ENV->new_int_array(ENV, ST, 1) : 0; } else { char c; if (i % 2) c = '0' + i; else vp_symbolic(&c, 1, "key"); v[i] = i % 2 && i == 3 ? 0 : (int64_t)spv_str(s, &c, 1); } aset(s, OBJ, a, i, v[i]); } ST[0].oval = a; int e = CALLC(s, "Sort", "sort_options_asc", 1);
  if (bad) { THROWS(e, "an odd length or a key that is not a string throws"); for (int i = 0; i < 2 * n + odd; i++) vp_assert(aget(s, OBJ, a, i) == v[i], "nothing is changed"); vp_reach("bad"); return; } OK(e);
  for (int i = 1; i < n; i++) { int64_t x = v[2 * i], y = v[2 * i + 1]; int j = i; while (j > 0 && kstr(s, v[2 * j - 2]) > kstr(s, x)) { v[2 * j] = v[2 * j - 2]; v[2 * j + 1] = v[2 * j - 1]; j--; } v[2 * j] = x; v[2 * j + 1] = y; } for (int i = 0; i < 2 * n; i++) vp_assert(aget(s, OBJ, a, i) == v[i], "the pairs are sorted by name and stay together"); vp_reach("sorted"); }
JOBV(options_undef) { ST[0].oval = 0; THROWS(CALLC(s, "Sort", "sort_options_asc", 1), "undef throws"); vp_reach("thrown"); }
