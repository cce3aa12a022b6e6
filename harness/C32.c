/*vp {"pc":"VP","time":200,"replays":60,"bounds":["16 ways to a mutable string (casts through every kind of place, calls through interfaces, parents and callbacks, library functions that write through an object), 11 operations that only read; strings of up to 3 free bytes, every index and byte written, read-only or not","immutable lists of all 7 element types with up to 3 elements of every value, every 32-bit index"]} */
#include "lang.h"
#define THROWS(e, what) do { vp_assert((e) != 0, what); vp_assert(spv_exc(s) != 0, what); spv_clear_exc(s); } while (0)
static void same(SPV* s, void* o, const char* t, int n, const char* what) { const char* p = ENV->get_chars(ENV, ST, o); vp_assert(ENV->length(ENV, ST, o) == n, what); int ok = p[n] == 0; for (int i = 0; i < n; i++) ok &= p[i] == t[i]; vp_assert(ok, what); }
JOB2(ways) { int k = vp_choice(16, "way"), n = 1 + vp_choice(3, "length"), ro = vp_choice(2, "read only"), i = vp_choice(n, "index"); char t[4]; vp_symbolic(t, n, "text"); char c = sym_byte("byte"); void* o = spv_str(s, t, n); if (ro) ENV->make_read_only(ENV, ST, o); ST[0].ival = k; ST[1].oval = o; ST[2].ival = i; ST[3].bval = c; int e = CALL(s, "way", 4); if (ro) { THROWS(e, "a read-only string becomes no mutable string"); same(s, o, t, n, "a read-only string never changes"); vp_assert(ENV->is_read_only(ENV, ST, o), "a read-only string stays read-only"); vp_reach("thrown"); } else { OK(e); t[i] = c; same(s, o, t, n, "a mutable string gets exactly the byte written"); vp_assert(!ENV->is_read_only(ENV, ST, o), "a mutable string stays mutable"); vp_reach("written"); } }
JOB2(reads) { int k = vp_choice(11, "operation"), n = vp_choice(3, "length"), ro = vp_choice(2, "read only"); char t[4]; if (n) { vp_symbolic(t, n, "text"); if (k == 4 || k == 9 || k == 6) for (int i = 0; i < n; i++) vp_assume((t[i] == 'a') | (t[i] == 'B') | (t[i] == '\n') | (t[i] == ',')); } void* o = spv_str(s, t, n); if (ro) ENV->make_read_only(ENV, ST, o); ST[0].ival = k; ST[1].oval = o; OK(CALL(s, "op", 2)); void* r = ST[0].oval; vp_assert(r != o, "the result is another object"); if (r) ENV->push_mortal(ENV, ST, r); same(s, o, t, n, "an operation that reads a string does not change it"); vp_assert(!ENV->is_read_only(ENV, ST, o) == !ro, "and not its flag"); vp_reach("done"); }
JOB2(literals) { int k = vp_choice(16, "way"); ST[0].ival = k; ST[1].bval = sym_byte("byte"); THROWS(CALL(s, "spoil_literal", 2), "a string literal becomes no mutable string"); OK(CALL(s, "literal", 0)); void* o = ST[0].oval; ENV->push_mortal(ENV, ST, o); same(s, o, "abc", 3, "a literal never changes"); vp_reach("done"); }
JOB2(flags) { int ro = vp_choice(2, "read only"); void* o = spv_str(s, "ab", 2); if (ro) ENV->make_read_only(ENV, ST, o); ST[0].oval = o; OK(CALL(s, "flags", 1)); vp_assert(get_int() == ro + 4 + 16, "the flag says read-only for the string and not for its copies"); ST[0].oval = 0; OK(CALL(s, "flags", 1)); vp_assert(get_int() == 16, "undef is not read-only"); vp_reach("done"); }
// a mutable string that is made read-only while a variable of mutable type refers to it
JOB2(alias) { int n = 1 + vp_choice(3, "length"), i = vp_choice(n, "index"); char t[4]; vp_symbolic(t, n, "text"); void* o = spv_str(s, t, n); ST[0].oval = o; ST[1].ival = i; ST[2].bval = sym_byte("byte"); int e = CALL(s, "alias", 3); if (e) spv_clear_exc(s); vp_assert(ENV->is_read_only(ENV, ST, o), "make_read_only makes the string read-only"); same(s, o, t, n, "a string made read-only does not change through an older mutable variable"); vp_reach("done"); }
JOBV(native) { int n = 1 + vp_choice(3, "length"), ro = vp_choice(2, "read only"), k = vp_choice(3, "how"); char t[4]; vp_symbolic(t, n, "text"); void* o = spv_str(s, t, n); if (ro) ENV->make_read_only(ENV, ST, o); if (k == 0) { int len = sym_int("new length"); vp_assume((len >= 0) & (len <= n)); len = vp_pin(len, 4); ENV->shorten(ENV, ST, o, len); if (ro) same(s, o, t, n, "shorten does not change a read-only string"); else { same(s, o, t, len, "shorten cuts a mutable string"); const char* q = ENV->get_chars(ENV, ST, o); for (int i = len; i <= n; i++) vp_assert(q[i] == 0, "shorten fills the rest with NUL"); } }
  else if (k == 1) { void* c = ENV->new_string(ENV, ST, ENV->get_chars(ENV, ST, o), n); vp_assert(!ENV->is_read_only(ENV, ST, c), "a new string is not read-only"); ((char*)ENV->get_chars(ENV, ST, c))[0] ^= 1; same(s, o, t, n, "a copy is separate"); }
  else { void* w = ENV->new_object_by_name(ENV, ST, "Wc", &(int32_t){0}, __func__, __FILE__, __LINE__); int32_t e = 0; ST[0].oval = w; ST[1].oval = o; ST[2].ival = 0; ST[3].bval = sym_byte("byte"); char b = ST[3].bval; ENV->call_instance_method_by_name(ENV, ST, "write", 4, &e, __func__, __FILE__, __LINE__); if (ro) { THROWS(e, "a read-only string becomes no mutable argument"); same(s, o, t, n, "a read-only string never changes"); } else { OK(e); t[0] = b; same(s, o, t, n, "a mutable string gets the byte"); } } vp_reach("done"); }
static const char* LN[] = { "Byte", "Short", "Int", "Long", "Float", "Double", "String" };
JOBV(lists) { int k = vp_choice(7, "type"), n = vp_choice(5, "length") - 1; void* a = 0; int64_t v[3]; char t[3]; char cn[40]; strcpy(cn, "Immutable::"); strcat(cn, LN[k]); strcat(cn, "List");
#define E(i) (k == 0 ? (int64_t)ENV->get_elems_byte(ENV, ST, a)[i] : k == 1 ? ENV->get_elems_short(ENV, ST, a)[i] : k == 2 ? ENV->get_elems_int(ENV, ST, a)[i] : k == 3 ? ENV->get_elems_long(ENV, ST, a)[i] : k == 4 ? ((int32_t*)ENV->get_elems_float(ENV, ST, a))[i] : ((int64_t*)ENV->get_elems_double(ENV, ST, a))[i])
  int m = n < 0 ? 0 : n; if (n >= 0) { a = k == 0 ? ENV->new_byte_array(ENV, ST, n) : k == 1 ? ENV->new_short_array(ENV, ST, n) : k == 2 ? ENV->new_int_array(ENV, ST, n) : k == 3 ? ENV->new_long_array(ENV, ST, n) : k == 4 ? ENV->new_float_array(ENV, ST, n) : k == 5 ? ENV->new_double_array(ENV, ST, n) : ENV->new_string_array(ENV, ST, n); for (int i = 0; i < n; i++) { if (k == 6) { if (i == 1) continue; vp_symbolic(&t[i], 1, "text"); ENV->set_elem_object(ENV, ST, a, i, spv_str(s, &t[i], 1)); continue; } int w = k == 0 ? 1 : k == 1 ? 2 : k == 2 || k == 4 ? 4 : 8; vp_symbolic((char*)ENV->get_elems_byte(ENV, ST, a) + w * i, w, "element"); v[i] = E(i); } }
  ST[0].ival = k; ST[1].oval = a; OK(CALL(s, "lists", 2)); void* l = ST[0].oval; ENV->push_mortal(ENV, ST, l); void* src = a;
  for (int round = 0; round < 3; round++) { ST[0].oval = l; OK(CALLC(s, cn, "length", 1)); vp_assert(get_int() == m, "the length never changes"); for (int i = 0; i < m; i++) { ST[0].oval = l; ST[1].ival = i; OK(CALLC(s, cn, "get", 2)); if (k == 6) { void* o = ST[0].oval; if (i == 1) { vp_assert(!o, "undef"); continue; } ENV->push_mortal(ENV, ST, o); vp_assert(o != ENV->get_elem_object(ENV, ST, src, i) || round, "a copy"); same(s, o, &t[i], 1, "the elements never change"); vp_assert(ENV->is_read_only(ENV, ST, o), "the strings are read-only"); continue; } int64_t g = k == 0 ? get_byte() : k == 1 ? get_short() : k == 2 ? get_int() : k == 3 ? get_long() : k == 4 ? (int32_t)fbits(get_float()) : (int64_t)dbits(get_double()); vp_assert(g == v[i], "the elements never change"); }
    // spoil the source array, or the array got from the list
    if (round == 1) { ST[0].oval = l; OK(CALLC(s, cn, "to_array", 1)); a = ST[0].oval; ENV->push_mortal(ENV, ST, a); vp_assert(ENV->length(ENV, ST, a) == m, "an array of the elements"); for (int i = 0; i < m; i++) if (k == 6) { if (i != 1) same(s, ENV->get_elem_object(ENV, ST, a, i), &t[i], 1, "an array of the elements"); } else vp_assert(E(i) == v[i], "an array of the elements"); } if (round < 2) for (int i = 0; i < m; i++) { if (k == 6) { void* o = ENV->get_elem_object(ENV, ST, a, i); if (!o) continue; if (round == 0) ((char*)ENV->get_chars(ENV, ST, o))[0] ^= 1; ENV->set_elem_object(ENV, ST, a, i, 0); } else { int w = k == 0 ? 1 : k == 1 ? 2 : k == 2 || k == 4 ? 4 : 8; ((char*)ENV->get_elems_byte(ENV, ST, a))[w * i] ^= 1; } } }
  int i = sym_int("index"); vp_assume((i < 0) | (i >= m)); ST[0].oval = l; ST[1].ival = i; THROWS(CALLC(s, cn, "get", 2), "an index outside the list throws"); ST[0].ival = sym_int("negative length"); vp_assume(ST[0].ival < 0); THROWS(CALLC(s, cn, "new_len", 1), "a negative length throws"); int z = vp_choice(3, "new length"); ST[0].ival = z; OK(CALLC(s, cn, "new_len", 1)); void* q = ST[0].oval; ENV->push_mortal(ENV, ST, q); ST[0].oval = q; OK(CALLC(s, cn, "length", 1)); vp_assert(get_int() == z, "a list of the length"); vp_reach("done"); }
