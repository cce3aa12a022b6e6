/*vp {"pc":"VP","time":150,"bounds":["arrays of length 0..3 (and undef), every 32-bit index, every stored value, every element type","strings of length 0..3 for character access"]} */
// generated by tools/gen_*.py
#include "lang.h"

#define BADIDX (i < 0 || i >= n)
static void threw(SPV* s, int e) { vp_assert(e != 0, "an index outside the array throws"); vp_assert(spv_exc(s) != 0, "with an exception"); spv_clear_exc(s); vp_reach("outside"); }
JOB2(num_byte) { int n = vp_choice(5, "n"); c_int i = sym_int("i"); vp_must("outside"); if (n == 4) { ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "get_byte", 2)); ST[0].oval = 0; ST[1].ival = i; set_byte(2, 0); threw(s, CALL(s, "set_byte", 3)); ST[0].oval = 0; threw(s, CALL(s, "alen_byte", 1)); return; }
  void* a = ENV->new_byte_array(ENV, ST, n); c_byte* p = ENV->get_elems_byte(ENV, ST, a); c_byte old[3]; for (int k = 0; k < n; k++) { char nm[3] = {'e', '0' + k, 0}; p[k] = old[k] = sym_byte(nm); } c_byte v = sym_byte("v");
  ST[0].oval = a; OK(CALL(s, "alen_byte", 1)); vp_assert(get_int() == n, "array length operator");
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "get_byte", 2); vp_observe(e); if (BADIDX) threw(s, e); else { OK(e); int ok = 0; for (int k = 0; k < n; k++) ok |= (k == i) & same_byte(get_byte(), old[k]); vp_assert(ok, "the element is read"); }
  ST[0].oval = a; ST[1].ival = i; set_byte(2, v); e = CALL(s, "set_byte", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(same_byte(get_byte(), v), "value of the assignment"); }
  for (int k = 0; k < n; k++) vp_assert(same_byte(p[k], (k == i ? v : old[k])), "exactly the indexed element changes");
  ST[0].oval = a; ST[1].ival = i; set_byte(2, v); e = CALL(s, "addr_byte", 3); if (BADIDX) { threw(s, e); for (int k = 0; k < n; k++) vp_assert(same_byte(p[k], old[k]), "nothing changes"); } }
JOB2(num_short) { int n = vp_choice(5, "n"); c_int i = sym_int("i"); vp_must("outside"); if (n == 4) { ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "get_short", 2)); ST[0].oval = 0; ST[1].ival = i; set_short(2, 0); threw(s, CALL(s, "set_short", 3)); ST[0].oval = 0; threw(s, CALL(s, "alen_short", 1)); return; }
  void* a = ENV->new_short_array(ENV, ST, n); c_short* p = ENV->get_elems_short(ENV, ST, a); c_short old[3]; for (int k = 0; k < n; k++) { char nm[3] = {'e', '0' + k, 0}; p[k] = old[k] = sym_short(nm); } c_short v = sym_short("v");
  ST[0].oval = a; OK(CALL(s, "alen_short", 1)); vp_assert(get_int() == n, "array length operator");
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "get_short", 2); vp_observe(e); if (BADIDX) threw(s, e); else { OK(e); int ok = 0; for (int k = 0; k < n; k++) ok |= (k == i) & same_short(get_short(), old[k]); vp_assert(ok, "the element is read"); }
  ST[0].oval = a; ST[1].ival = i; set_short(2, v); e = CALL(s, "set_short", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(same_short(get_short(), v), "value of the assignment"); }
  for (int k = 0; k < n; k++) vp_assert(same_short(p[k], (k == i ? v : old[k])), "exactly the indexed element changes");
  ST[0].oval = a; ST[1].ival = i; set_short(2, v); e = CALL(s, "addr_short", 3); if (BADIDX) { threw(s, e); for (int k = 0; k < n; k++) vp_assert(same_short(p[k], old[k]), "nothing changes"); } }
JOB2(num_int) { int n = vp_choice(5, "n"); c_int i = sym_int("i"); vp_must("outside"); if (n == 4) { ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "get_int", 2)); ST[0].oval = 0; ST[1].ival = i; set_int(2, 0); threw(s, CALL(s, "set_int", 3)); ST[0].oval = 0; threw(s, CALL(s, "alen_int", 1)); return; }
  void* a = ENV->new_int_array(ENV, ST, n); c_int* p = ENV->get_elems_int(ENV, ST, a); c_int old[3]; for (int k = 0; k < n; k++) { char nm[3] = {'e', '0' + k, 0}; p[k] = old[k] = sym_int(nm); } c_int v = sym_int("v");
  ST[0].oval = a; OK(CALL(s, "alen_int", 1)); vp_assert(get_int() == n, "array length operator");
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "get_int", 2); vp_observe(e); if (BADIDX) threw(s, e); else { OK(e); int ok = 0; for (int k = 0; k < n; k++) ok |= (k == i) & same_int(get_int(), old[k]); vp_assert(ok, "the element is read"); }
  ST[0].oval = a; ST[1].ival = i; set_int(2, v); e = CALL(s, "set_int", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(same_int(get_int(), v), "value of the assignment"); }
  for (int k = 0; k < n; k++) vp_assert(same_int(p[k], (k == i ? v : old[k])), "exactly the indexed element changes");
  ST[0].oval = a; ST[1].ival = i; set_int(2, v); e = CALL(s, "addr_int", 3); if (BADIDX) { threw(s, e); for (int k = 0; k < n; k++) vp_assert(same_int(p[k], old[k]), "nothing changes"); } }
JOB2(num_long) { int n = vp_choice(5, "n"); c_int i = sym_int("i"); vp_must("outside"); if (n == 4) { ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "get_long", 2)); ST[0].oval = 0; ST[1].ival = i; set_long(2, 0); threw(s, CALL(s, "set_long", 3)); ST[0].oval = 0; threw(s, CALL(s, "alen_long", 1)); return; }
  void* a = ENV->new_long_array(ENV, ST, n); c_long* p = ENV->get_elems_long(ENV, ST, a); c_long old[3]; for (int k = 0; k < n; k++) { char nm[3] = {'e', '0' + k, 0}; p[k] = old[k] = sym_long(nm); } c_long v = sym_long("v");
  ST[0].oval = a; OK(CALL(s, "alen_long", 1)); vp_assert(get_int() == n, "array length operator");
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "get_long", 2); vp_observe(e); if (BADIDX) threw(s, e); else { OK(e); int ok = 0; for (int k = 0; k < n; k++) ok |= (k == i) & same_long(get_long(), old[k]); vp_assert(ok, "the element is read"); }
  ST[0].oval = a; ST[1].ival = i; set_long(2, v); e = CALL(s, "set_long", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(same_long(get_long(), v), "value of the assignment"); }
  for (int k = 0; k < n; k++) vp_assert(same_long(p[k], (k == i ? v : old[k])), "exactly the indexed element changes");
  ST[0].oval = a; ST[1].ival = i; set_long(2, v); e = CALL(s, "addr_long", 3); if (BADIDX) { threw(s, e); for (int k = 0; k < n; k++) vp_assert(same_long(p[k], old[k]), "nothing changes"); } }
JOB2(num_float) { int n = vp_choice(5, "n"); c_int i = sym_int("i"); vp_must("outside"); if (n == 4) { ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "get_float", 2)); ST[0].oval = 0; ST[1].ival = i; set_float(2, 0); threw(s, CALL(s, "set_float", 3)); ST[0].oval = 0; threw(s, CALL(s, "alen_float", 1)); return; }
  void* a = ENV->new_float_array(ENV, ST, n); c_float* p = ENV->get_elems_float(ENV, ST, a); c_float old[3]; for (int k = 0; k < n; k++) { char nm[3] = {'e', '0' + k, 0}; p[k] = old[k] = sym_float(nm); } c_float v = sym_float("v");
  ST[0].oval = a; OK(CALL(s, "alen_float", 1)); vp_assert(get_int() == n, "array length operator");
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "get_float", 2); vp_observe(e); if (BADIDX) threw(s, e); else { OK(e); int ok = 0; for (int k = 0; k < n; k++) ok |= (k == i) & same_float(get_float(), old[k]); vp_assert(ok, "the element is read"); }
  ST[0].oval = a; ST[1].ival = i; set_float(2, v); e = CALL(s, "set_float", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(same_float(get_float(), v), "value of the assignment"); }
  for (int k = 0; k < n; k++) vp_assert(same_float(p[k], (k == i ? v : old[k])), "exactly the indexed element changes");
  ST[0].oval = a; ST[1].ival = i; set_float(2, v); e = CALL(s, "addr_float", 3); if (BADIDX) { threw(s, e); for (int k = 0; k < n; k++) vp_assert(same_float(p[k], old[k]), "nothing changes"); } }
JOB2(num_double) { int n = vp_choice(5, "n"); c_int i = sym_int("i"); vp_must("outside"); if (n == 4) { ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "get_double", 2)); ST[0].oval = 0; ST[1].ival = i; set_double(2, 0); threw(s, CALL(s, "set_double", 3)); ST[0].oval = 0; threw(s, CALL(s, "alen_double", 1)); return; }
  void* a = ENV->new_double_array(ENV, ST, n); c_double* p = ENV->get_elems_double(ENV, ST, a); c_double old[3]; for (int k = 0; k < n; k++) { char nm[3] = {'e', '0' + k, 0}; p[k] = old[k] = sym_double(nm); } c_double v = sym_double("v");
  ST[0].oval = a; OK(CALL(s, "alen_double", 1)); vp_assert(get_int() == n, "array length operator");
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "get_double", 2); vp_observe(e); if (BADIDX) threw(s, e); else { OK(e); int ok = 0; for (int k = 0; k < n; k++) ok |= (k == i) & same_double(get_double(), old[k]); vp_assert(ok, "the element is read"); }
  ST[0].oval = a; ST[1].ival = i; set_double(2, v); e = CALL(s, "set_double", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(same_double(get_double(), v), "value of the assignment"); }
  for (int k = 0; k < n; k++) vp_assert(same_double(p[k], (k == i ? v : old[k])), "exactly the indexed element changes");
  ST[0].oval = a; ST[1].ival = i; set_double(2, v); e = CALL(s, "addr_double", 3); if (BADIDX) { threw(s, e); for (int k = 0; k < n; k++) vp_assert(same_double(p[k], old[k]), "nothing changes"); } }
JOB2(idx_byte) { c_byte i = sym_byte("i"); c_int v = sym_int("v"); int n = 3; void* a = ENV->new_int_array(ENV, ST, n); int32_t* p = ENV->get_elems_int(ENV, ST, a); p[0] = 1; p[1] = 2; p[2] = 3; ST[0].oval = a; set_byte(1, i); ST[2].ival = v; int e = CALL(s, "idx_byte", 3); vp_must("outside"); if (BADIDX) { threw(s, e); vp_assert(p[0] == 1 && p[1] == 2 && p[2] == 3, "nothing changes"); return; } OK(e); vp_assert(get_int() == v, "element"); for (int k = 0; k < 3; k++) vp_assert(p[k] == (k == i ? v : k + 1), "only the indexed element changes"); }
JOB2(idx_short) { c_short i = sym_short("i"); c_int v = sym_int("v"); int n = 3; void* a = ENV->new_int_array(ENV, ST, n); int32_t* p = ENV->get_elems_int(ENV, ST, a); p[0] = 1; p[1] = 2; p[2] = 3; ST[0].oval = a; set_short(1, i); ST[2].ival = v; int e = CALL(s, "idx_short", 3); vp_must("outside"); if (BADIDX) { threw(s, e); vp_assert(p[0] == 1 && p[1] == 2 && p[2] == 3, "nothing changes"); return; } OK(e); vp_assert(get_int() == v, "element"); for (int k = 0; k < 3; k++) vp_assert(p[k] == (k == i ? v : k + 1), "only the indexed element changes"); }
static void* mkint(SPV* s, int v) { ST[0].ival = v; OK(CALL(s, "mkint", 1)); void* o = ST[0].oval; ENV->push_mortal(ENV, ST, o); return o; }
JOB2(obj_object) { int n = vp_choice(5, "n"); c_int i = sym_int("i"); void* v = spv_str(s, "7", 1); vp_must("outside"); if (n == 4) { ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "get_object", 2)); ST[0].oval = 0; ST[1].ival = i; ST[2].oval = v; threw(s, CALL(s, "set_object", 3)); ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "undef_object", 2)); return; }
  ST[0].ival = n; OK(CALL(s, "make_object", 1)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); void* old[3] = { spv_str(s, "1", 1), spv_str(s, "2", 1), 0 }; for (int k = 0; k < n; k++) { vp_assert(ENV->get_elem_object(ENV, ST, a, k) == 0, "elements start undef"); ENV->set_elem_object(ENV, ST, a, k, old[k]); }
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "get_object", 2); if (BADIDX) threw(s, e); else { OK(e); int ok = 0; for (int k = 0; k < n; k++) ok |= (k == i) & (ST[0].oval == old[k]); vp_assert(ok, "the element is read"); }
  ST[0].oval = a; ST[1].ival = i; ST[2].oval = v; e = CALL(s, "set_object", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(ST[0].oval == v, "value of the assignment"); } for (int k = 0; k < n; k++) vp_assert(ENV->get_elem_object(ENV, ST, a, k) == (k == i ? v : old[k]), "exactly the indexed element changes");
  ST[0].oval = a; ST[1].ival = i; e = CALL(s, "undef_object", 2); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n; k++) vp_assert(ENV->get_elem_object(ENV, ST, a, k) == (k == i ? 0 : old[k]), "exactly the indexed element becomes undef"); }
JOB2(obj_string) { int n = vp_choice(5, "n"); c_int i = sym_int("i"); void* v = spv_str(s, "7", 1); vp_must("outside"); if (n == 4) { ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "get_string", 2)); ST[0].oval = 0; ST[1].ival = i; ST[2].oval = v; threw(s, CALL(s, "set_string", 3)); ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "undef_string", 2)); return; }
  ST[0].ival = n; OK(CALL(s, "make_string", 1)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); void* old[3] = { spv_str(s, "1", 1), spv_str(s, "2", 1), 0 }; for (int k = 0; k < n; k++) { vp_assert(ENV->get_elem_object(ENV, ST, a, k) == 0, "elements start undef"); ENV->set_elem_object(ENV, ST, a, k, old[k]); }
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "get_string", 2); if (BADIDX) threw(s, e); else { OK(e); int ok = 0; for (int k = 0; k < n; k++) ok |= (k == i) & (ST[0].oval == old[k]); vp_assert(ok, "the element is read"); }
  ST[0].oval = a; ST[1].ival = i; ST[2].oval = v; e = CALL(s, "set_string", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(ST[0].oval == v, "value of the assignment"); } for (int k = 0; k < n; k++) vp_assert(ENV->get_elem_object(ENV, ST, a, k) == (k == i ? v : old[k]), "exactly the indexed element changes");
  ST[0].oval = a; ST[1].ival = i; e = CALL(s, "undef_string", 2); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n; k++) vp_assert(ENV->get_elem_object(ENV, ST, a, k) == (k == i ? 0 : old[k]), "exactly the indexed element becomes undef"); }
JOB2(obj_Int) { int n = vp_choice(5, "n"); c_int i = sym_int("i"); void* v = mkint(s, 7); vp_must("outside"); if (n == 4) { ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "get_Int", 2)); ST[0].oval = 0; ST[1].ival = i; ST[2].oval = v; threw(s, CALL(s, "set_Int", 3)); ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "undef_Int", 2)); return; }
  ST[0].ival = n; OK(CALL(s, "make_Int", 1)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); void* old[3] = { mkint(s, 1), mkint(s, 2), 0 }; for (int k = 0; k < n; k++) { vp_assert(ENV->get_elem_object(ENV, ST, a, k) == 0, "elements start undef"); ENV->set_elem_object(ENV, ST, a, k, old[k]); }
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "get_Int", 2); if (BADIDX) threw(s, e); else { OK(e); int ok = 0; for (int k = 0; k < n; k++) ok |= (k == i) & (ST[0].oval == old[k]); vp_assert(ok, "the element is read"); }
  ST[0].oval = a; ST[1].ival = i; ST[2].oval = v; e = CALL(s, "set_Int", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(ST[0].oval == v, "value of the assignment"); } for (int k = 0; k < n; k++) vp_assert(ENV->get_elem_object(ENV, ST, a, k) == (k == i ? v : old[k]), "exactly the indexed element changes");
  ST[0].oval = a; ST[1].ival = i; e = CALL(s, "undef_Int", 2); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n; k++) vp_assert(ENV->get_elem_object(ENV, ST, a, k) == (k == i ? 0 : old[k]), "exactly the indexed element becomes undef"); }
JOB2(mul_Pt_3b) { int n = vp_choice(4, "n"); c_int i = sym_int("i"); c_byte v = sym_byte("v"); ST[0].ival = n; OK(CALL(s, "mk_Pt_3b", 1)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); c_byte* p = ENV->get_elems_byte(ENV, ST, a); c_byte old[12]; for (int k = 0; k < n * 3; k++) { vp_assert(p[k] == 0, "fields start at zero"); p[k] = old[k] = (c_byte)(k + 1); } vp_must("outside");
  for (int f = 0; f < 3; f++) { ST[0].oval = a; ST[1].ival = i; ST[2].ival = f; int e = CALL(s, "mget_Pt_3b", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(get_byte() == (c_byte)(i * 3 + f + 1), "field of the element"); } }
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "mget2_Pt_3b", 2); if (BADIDX) threw(s, e); else { OK(e); vp_assert(get_byte() == (c_byte)(i * 3 + 2), "field read through the element"); }
  ST[0].oval = a; ST[1].ival = i; set_byte(2, v); e = CALL(s, "mset2_Pt_3b", 3); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n * 3; k++) vp_assert(same_byte(p[k], (k / 3 == i && k % 3 == 1 ? v : old[k])), "exactly one field changes");
  ST[0].oval = a; ST[1].ival = i; set_byte(2, v); e = CALL(s, "mset_Pt_3b", 3); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n * 3; k++) vp_assert(same_byte(p[k], (k / 3 == i ? (k % 3 == 0 || k % 3 == 3 - 1 ? v : 0) : old[k])), "exactly one element changes"); }
JOB2(mul_Pt_2s) { int n = vp_choice(4, "n"); c_int i = sym_int("i"); c_short v = sym_short("v"); ST[0].ival = n; OK(CALL(s, "mk_Pt_2s", 1)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); c_short* p = ENV->get_elems_short(ENV, ST, a); c_short old[12]; for (int k = 0; k < n * 2; k++) { vp_assert(p[k] == 0, "fields start at zero"); p[k] = old[k] = (c_short)(k + 1); } vp_must("outside");
  for (int f = 0; f < 2; f++) { ST[0].oval = a; ST[1].ival = i; ST[2].ival = f; int e = CALL(s, "mget_Pt_2s", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(get_short() == (c_short)(i * 2 + f + 1), "field of the element"); } }
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "mget2_Pt_2s", 2); if (BADIDX) threw(s, e); else { OK(e); vp_assert(get_short() == (c_short)(i * 2 + 2), "field read through the element"); }
  ST[0].oval = a; ST[1].ival = i; set_short(2, v); e = CALL(s, "mset2_Pt_2s", 3); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n * 2; k++) vp_assert(same_short(p[k], (k / 2 == i && k % 2 == 1 ? v : old[k])), "exactly one field changes");
  ST[0].oval = a; ST[1].ival = i; set_short(2, v); e = CALL(s, "mset_Pt_2s", 3); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n * 2; k++) vp_assert(same_short(p[k], (k / 2 == i ? (k % 2 == 0 || k % 2 == 2 - 1 ? v : 0) : old[k])), "exactly one element changes"); }
JOB2(mul_Pt_2i) { int n = vp_choice(4, "n"); c_int i = sym_int("i"); c_int v = sym_int("v"); ST[0].ival = n; OK(CALL(s, "mk_Pt_2i", 1)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); c_int* p = ENV->get_elems_int(ENV, ST, a); c_int old[12]; for (int k = 0; k < n * 2; k++) { vp_assert(p[k] == 0, "fields start at zero"); p[k] = old[k] = (c_int)(k + 1); } vp_must("outside");
  for (int f = 0; f < 2; f++) { ST[0].oval = a; ST[1].ival = i; ST[2].ival = f; int e = CALL(s, "mget_Pt_2i", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(get_int() == (c_int)(i * 2 + f + 1), "field of the element"); } }
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "mget2_Pt_2i", 2); if (BADIDX) threw(s, e); else { OK(e); vp_assert(get_int() == (c_int)(i * 2 + 2), "field read through the element"); }
  ST[0].oval = a; ST[1].ival = i; set_int(2, v); e = CALL(s, "mset2_Pt_2i", 3); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n * 2; k++) vp_assert(same_int(p[k], (k / 2 == i && k % 2 == 1 ? v : old[k])), "exactly one field changes");
  ST[0].oval = a; ST[1].ival = i; set_int(2, v); e = CALL(s, "mset_Pt_2i", 3); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n * 2; k++) vp_assert(same_int(p[k], (k / 2 == i ? (k % 2 == 0 || k % 2 == 2 - 1 ? v : 0) : old[k])), "exactly one element changes"); }
JOB2(mul_Pt_3l) { int n = vp_choice(4, "n"); c_int i = sym_int("i"); c_long v = sym_long("v"); ST[0].ival = n; OK(CALL(s, "mk_Pt_3l", 1)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); c_long* p = ENV->get_elems_long(ENV, ST, a); c_long old[12]; for (int k = 0; k < n * 3; k++) { vp_assert(p[k] == 0, "fields start at zero"); p[k] = old[k] = (c_long)(k + 1); } vp_must("outside");
  for (int f = 0; f < 3; f++) { ST[0].oval = a; ST[1].ival = i; ST[2].ival = f; int e = CALL(s, "mget_Pt_3l", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(get_long() == (c_long)(i * 3 + f + 1), "field of the element"); } }
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "mget2_Pt_3l", 2); if (BADIDX) threw(s, e); else { OK(e); vp_assert(get_long() == (c_long)(i * 3 + 2), "field read through the element"); }
  ST[0].oval = a; ST[1].ival = i; set_long(2, v); e = CALL(s, "mset2_Pt_3l", 3); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n * 3; k++) vp_assert(same_long(p[k], (k / 3 == i && k % 3 == 1 ? v : old[k])), "exactly one field changes");
  ST[0].oval = a; ST[1].ival = i; set_long(2, v); e = CALL(s, "mset_Pt_3l", 3); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n * 3; k++) vp_assert(same_long(p[k], (k / 3 == i ? (k % 3 == 0 || k % 3 == 3 - 1 ? v : 0) : old[k])), "exactly one element changes"); }
JOB2(mul_Pt_2f) { int n = vp_choice(4, "n"); c_int i = sym_int("i"); c_float v = sym_float("v"); ST[0].ival = n; OK(CALL(s, "mk_Pt_2f", 1)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); c_float* p = ENV->get_elems_float(ENV, ST, a); c_float old[12]; for (int k = 0; k < n * 2; k++) { vp_assert(p[k] == 0, "fields start at zero"); p[k] = old[k] = (c_float)(k + 1); } vp_must("outside");
  for (int f = 0; f < 2; f++) { ST[0].oval = a; ST[1].ival = i; ST[2].ival = f; int e = CALL(s, "mget_Pt_2f", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(get_float() == (c_float)(i * 2 + f + 1), "field of the element"); } }
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "mget2_Pt_2f", 2); if (BADIDX) threw(s, e); else { OK(e); vp_assert(get_float() == (c_float)(i * 2 + 2), "field read through the element"); }
  ST[0].oval = a; ST[1].ival = i; set_float(2, v); e = CALL(s, "mset2_Pt_2f", 3); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n * 2; k++) vp_assert(same_float(p[k], (k / 2 == i && k % 2 == 1 ? v : old[k])), "exactly one field changes");
  ST[0].oval = a; ST[1].ival = i; set_float(2, v); e = CALL(s, "mset_Pt_2f", 3); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n * 2; k++) vp_assert(same_float(p[k], (k / 2 == i ? (k % 2 == 0 || k % 2 == 2 - 1 ? v : 0) : old[k])), "exactly one element changes"); }
JOB2(mul_Pt_2d) { int n = vp_choice(4, "n"); c_int i = sym_int("i"); c_double v = sym_double("v"); ST[0].ival = n; OK(CALL(s, "mk_Pt_2d", 1)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); c_double* p = ENV->get_elems_double(ENV, ST, a); c_double old[12]; for (int k = 0; k < n * 2; k++) { vp_assert(p[k] == 0, "fields start at zero"); p[k] = old[k] = (c_double)(k + 1); } vp_must("outside");
  for (int f = 0; f < 2; f++) { ST[0].oval = a; ST[1].ival = i; ST[2].ival = f; int e = CALL(s, "mget_Pt_2d", 3); if (BADIDX) threw(s, e); else { OK(e); vp_assert(get_double() == (c_double)(i * 2 + f + 1), "field of the element"); } }
  ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "mget2_Pt_2d", 2); if (BADIDX) threw(s, e); else { OK(e); vp_assert(get_double() == (c_double)(i * 2 + 2), "field read through the element"); }
  ST[0].oval = a; ST[1].ival = i; set_double(2, v); e = CALL(s, "mset2_Pt_2d", 3); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n * 2; k++) vp_assert(same_double(p[k], (k / 2 == i && k % 2 == 1 ? v : old[k])), "exactly one field changes");
  ST[0].oval = a; ST[1].ival = i; set_double(2, v); e = CALL(s, "mset_Pt_2d", 3); if (BADIDX) threw(s, e); else OK(e); for (int k = 0; k < n * 2; k++) vp_assert(same_double(p[k], (k / 2 == i ? (k % 2 == 0 || k % 2 == 2 - 1 ? v : 0) : old[k])), "exactly one element changes"); }
JOB2(chr) { int n = vp_choice(5, "n"); c_int i = sym_int("i"); c_byte v = sym_byte("v"); char b[4]; vp_must("outside"); if (n == 4) { ST[0].oval = 0; ST[1].ival = i; threw(s, CALL(s, "chr", 2)); ST[0].oval = 0; ST[1].ival = i; ST[2].bval = v; threw(s, CALL(s, "setchr", 3)); return; }
  vp_symbolic(b, n, "text"); void* o = spv_str(s, b, n); ST[0].oval = o; ST[1].ival = i; int e = CALL(s, "chr", 2); if (BADIDX) threw(s, e); else { OK(e); int w = 0; for (int k = 0; k < n; k++) w = k == i ? b[k] : w; vp_assert(get_byte() == w, "character read"); }
  ST[0].oval = o; ST[1].ival = i; ST[2].bval = v; e = CALL(s, "setchr", 3); if (BADIDX) threw(s, e); else OK(e); const char* p = ENV->get_chars(ENV, ST, o); for (int k = 0; k < n; k++) vp_assert(p[k] == (k == i ? v : b[k]), "exactly one character changes"); vp_assert(p[n] == 0, "still terminated"); }
JOB2(two) { c_int i = sym_int("i"), j = sym_int("j"), v = sym_int("v"); ST[0].ival = i; ST[1].ival = j; ST[2].ival = v; int e = CALL(s, "two", 3); vp_must("outside"); int in = (i == 0 && j == 0) || (i == 1 && j >= 0 && j < 3); if (!in) { threw(s, e); return; } OK(e); vp_assert(get_int() == v, "nested element"); }
JOB2(generic) { c_int i = sym_int("i"); int n = 2; ST[0].ival = 2; OK(CALL(s, "make_Int", 1)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); ENV->set_elem_object(ENV, ST, a, 1, mkint(s, 3)); ST[0].oval = a; ST[1].ival = i; int e = CALL(s, "generic", 2); vp_must("outside"); if (BADIDX) { threw(s, e); return; } OK(e); vp_assert(get_int() == (i == 1), "element through object[]"); }
