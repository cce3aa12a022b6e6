/*vp {"pc":"VP","time":150,"bounds":["every 32-bit length for every element type; an allocation request above the modelled limit (64 MiB) fails","content is examined at one symbolic index below the length (covers every element)","array literals of 0..5 elements with symbolic values"]} */
// generated by tools/gen_*.py
#include "lang.h"

static void refused(SPV* s, int e) { vp_assert(e != 0, "creation throws"); vp_assert(spv_exc(s) != 0, "with an exception"); spv_clear_exc(s); }
static void* created(SPV* s, int e, c_int n) { vp_must("negative"); vp_must("created"); vp_must("too large"); if (n < 0) { refused(s, e); vp_reach("negative"); return 0; } if (e) { refused(s, e); vp_reach("too large"); vp_assert(n > 1000000, "a modest request succeeds"); return 0; } vp_reach("created"); void* a = ST[0].oval; vp_assert(a != 0, "an object is returned"); ENV->push_mortal(ENV, ST, a); vp_assert(ENV->length(ENV, ST, a) == n, "the length is the requested one"); return a; }
JOB2(new_byte) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_byte", 1); void* a = created(s, e, n); if (!a || n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_byte* p = ENV->get_elems_byte(ENV, ST, a); vp_assert(p[i] == 0, "elements start at zero"); p[i] = 1; vp_assert(p[i] == 1, "elements are writable"); vp_assert(p[n - 1] == (i == n - 1), "last element"); }
JOBV(api_byte) { c_int n = sym_int("n"); void* a = ENV->new_byte_array_no_mortal(ENV, ST, n); vp_must("negative"); if (n < 0) { vp_assert(a == 0, "negative length gives no array"); vp_reach("negative"); return; } if (!a) { vp_assert(n > 1000000, "a modest request succeeds"); return; } vp_assert(ENV->length(ENV, ST, a) == n, "length"); if (n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_byte* p = ENV->get_elems_byte(ENV, ST, a); vp_assert(p[i] == 0, "zero"); p[i] = 5; }
JOB2(new_short) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_short", 1); void* a = created(s, e, n); if (!a || n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_short* p = ENV->get_elems_short(ENV, ST, a); vp_assert(p[i] == 0, "elements start at zero"); p[i] = 1; vp_assert(p[i] == 1, "elements are writable"); vp_assert(p[n - 1] == (i == n - 1), "last element"); }
JOBV(api_short) { c_int n = sym_int("n"); void* a = ENV->new_short_array_no_mortal(ENV, ST, n); vp_must("negative"); if (n < 0) { vp_assert(a == 0, "negative length gives no array"); vp_reach("negative"); return; } if (!a) { vp_assert(n > 1000000, "a modest request succeeds"); return; } vp_assert(ENV->length(ENV, ST, a) == n, "length"); if (n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_short* p = ENV->get_elems_short(ENV, ST, a); vp_assert(p[i] == 0, "zero"); p[i] = 5; }
JOB2(new_int) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_int", 1); void* a = created(s, e, n); if (!a || n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_int* p = ENV->get_elems_int(ENV, ST, a); vp_assert(p[i] == 0, "elements start at zero"); p[i] = 1; vp_assert(p[i] == 1, "elements are writable"); vp_assert(p[n - 1] == (i == n - 1), "last element"); }
JOBV(api_int) { c_int n = sym_int("n"); void* a = ENV->new_int_array_no_mortal(ENV, ST, n); vp_must("negative"); if (n < 0) { vp_assert(a == 0, "negative length gives no array"); vp_reach("negative"); return; } if (!a) { vp_assert(n > 1000000, "a modest request succeeds"); return; } vp_assert(ENV->length(ENV, ST, a) == n, "length"); if (n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_int* p = ENV->get_elems_int(ENV, ST, a); vp_assert(p[i] == 0, "zero"); p[i] = 5; }
JOB2(new_long) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_long", 1); void* a = created(s, e, n); if (!a || n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_long* p = ENV->get_elems_long(ENV, ST, a); vp_assert(p[i] == 0, "elements start at zero"); p[i] = 1; vp_assert(p[i] == 1, "elements are writable"); vp_assert(p[n - 1] == (i == n - 1), "last element"); }
JOBV(api_long) { c_int n = sym_int("n"); void* a = ENV->new_long_array_no_mortal(ENV, ST, n); vp_must("negative"); if (n < 0) { vp_assert(a == 0, "negative length gives no array"); vp_reach("negative"); return; } if (!a) { vp_assert(n > 1000000, "a modest request succeeds"); return; } vp_assert(ENV->length(ENV, ST, a) == n, "length"); if (n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_long* p = ENV->get_elems_long(ENV, ST, a); vp_assert(p[i] == 0, "zero"); p[i] = 5; }
JOB2(new_float) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_float", 1); void* a = created(s, e, n); if (!a || n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_float* p = ENV->get_elems_float(ENV, ST, a); vp_assert(p[i] == 0, "elements start at zero"); p[i] = 1; vp_assert(p[i] == 1, "elements are writable"); vp_assert(p[n - 1] == (i == n - 1), "last element"); }
JOBV(api_float) { c_int n = sym_int("n"); void* a = ENV->new_float_array_no_mortal(ENV, ST, n); vp_must("negative"); if (n < 0) { vp_assert(a == 0, "negative length gives no array"); vp_reach("negative"); return; } if (!a) { vp_assert(n > 1000000, "a modest request succeeds"); return; } vp_assert(ENV->length(ENV, ST, a) == n, "length"); if (n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_float* p = ENV->get_elems_float(ENV, ST, a); vp_assert(p[i] == 0, "zero"); p[i] = 5; }
JOB2(new_double) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_double", 1); void* a = created(s, e, n); if (!a || n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_double* p = ENV->get_elems_double(ENV, ST, a); vp_assert(p[i] == 0, "elements start at zero"); p[i] = 1; vp_assert(p[i] == 1, "elements are writable"); vp_assert(p[n - 1] == (i == n - 1), "last element"); }
JOBV(api_double) { c_int n = sym_int("n"); void* a = ENV->new_double_array_no_mortal(ENV, ST, n); vp_must("negative"); if (n < 0) { vp_assert(a == 0, "negative length gives no array"); vp_reach("negative"); return; } if (!a) { vp_assert(n > 1000000, "a modest request succeeds"); return; } vp_assert(ENV->length(ENV, ST, a) == n, "length"); if (n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_double* p = ENV->get_elems_double(ENV, ST, a); vp_assert(p[i] == 0, "zero"); p[i] = 5; }
JOB2(new_Pt_3b) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_Pt_3b", 1); void* a = created(s, e, n); if (!a || n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_byte* p = ENV->get_elems_byte(ENV, ST, a); for (int f = 0; f < 3; f++) { vp_assert(p[(size_t)i * 3 + f] == 0, "fields start at zero"); p[(size_t)i * 3 + f] = 1; } }
JOB2(new_Pt_2s) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_Pt_2s", 1); void* a = created(s, e, n); if (!a || n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_short* p = ENV->get_elems_short(ENV, ST, a); for (int f = 0; f < 2; f++) { vp_assert(p[(size_t)i * 2 + f] == 0, "fields start at zero"); p[(size_t)i * 2 + f] = 1; } }
JOB2(new_Pt_2i) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_Pt_2i", 1); void* a = created(s, e, n); if (!a || n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_int* p = ENV->get_elems_int(ENV, ST, a); for (int f = 0; f < 2; f++) { vp_assert(p[(size_t)i * 2 + f] == 0, "fields start at zero"); p[(size_t)i * 2 + f] = 1; } }
JOB2(new_Pt_3l) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_Pt_3l", 1); void* a = created(s, e, n); if (!a || n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_long* p = ENV->get_elems_long(ENV, ST, a); for (int f = 0; f < 3; f++) { vp_assert(p[(size_t)i * 3 + f] == 0, "fields start at zero"); p[(size_t)i * 3 + f] = 1; } }
JOB2(new_Pt_2f) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_Pt_2f", 1); void* a = created(s, e, n); if (!a || n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_float* p = ENV->get_elems_float(ENV, ST, a); for (int f = 0; f < 2; f++) { vp_assert(p[(size_t)i * 2 + f] == 0, "fields start at zero"); p[(size_t)i * 2 + f] = 1; } }
JOB2(new_Pt_2d) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_Pt_2d", 1); void* a = created(s, e, n); if (!a || n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); c_double* p = ENV->get_elems_double(ENV, ST, a); for (int f = 0; f < 2; f++) { vp_assert(p[(size_t)i * 2 + f] == 0, "fields start at zero"); p[(size_t)i * 2 + f] = 1; } }
JOB2(new_object) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_object", 1); void* a = created(s, e, n); if (!a || n == 0) return; if (n >= 100000) { ENV->set_elem_object(ENV, ST, a, n - 1, 0); return; } c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); vp_assume(n < 100000); vp_assert(ENV->get_elem_object(ENV, ST, a, i) == 0, "elements start undef"); }
JOB2(new_string) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_string", 1); void* a = created(s, e, n); if (!a || n == 0) return; if (n >= 100000) { ENV->set_elem_object(ENV, ST, a, n - 1, 0); return; } c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); vp_assume(n < 100000); vp_assert(ENV->get_elem_object(ENV, ST, a, i) == 0, "elements start undef"); }
JOB2(new_Int) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_Int", 1); void* a = created(s, e, n); if (!a || n == 0) return; if (n >= 100000) { ENV->set_elem_object(ENV, ST, a, n - 1, 0); return; } c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); vp_assume(n < 100000); vp_assert(ENV->get_elem_object(ENV, ST, a, i) == 0, "elements start undef"); }
JOB2(new_VP) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_VP", 1); void* a = created(s, e, n); if (!a || n == 0) return; if (n >= 100000) { ENV->set_elem_object(ENV, ST, a, n - 1, 0); return; } c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); vp_assume(n < 100000); vp_assert(ENV->get_elem_object(ENV, ST, a, i) == 0, "elements start undef"); }
JOB2(new_dim2) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_dim2", 1); void* a = created(s, e, n); if (!a || n == 0) return; if (n >= 100000) { return; } c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); vp_assert(ENV->get_elem_object(ENV, ST, a, i) == 0, "elements start undef"); }
JOB2(new_dim3) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_dim3", 1); void* a = created(s, e, n); if (!a || n == 0) return; if (n >= 100000) { return; } c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); vp_assert(ENV->get_elem_object(ENV, ST, a, i) == 0, "elements start undef"); }
JOB2(new_str) { c_int n = sym_int("n"); ST[0].ival = n; int e = CALL(s, "new_str", 1); void* a = created(s, e, n); if (!a || n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); char* p = (char*)ENV->get_chars(ENV, ST, a); vp_assert(p[i] == 0, "zero-filled"); p[i] = 7; vp_assert(p[n] == 0, "terminated"); vp_assert(!ENV->is_read_only(ENV, ST, a), "not read-only"); }
JOBV(api_string) { c_int n = sym_int("n"); void* a = ENV->new_string_no_mortal(ENV, ST, 0, n); if (n < 0) { vp_assert(a == 0, "negative length gives no string"); return; } if (!a) { vp_assert(n > 1000000, "a modest request succeeds"); return; } vp_assert(ENV->length(ENV, ST, a) == n, "length"); char* p = (char*)ENV->get_chars(ENV, ST, a); vp_assert(p[n] == 0, "terminated"); if (n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); vp_assert(p[i] == 0, "zero"); p[i] = 5; }
JOBV(api_mulnum) { c_int n = sym_int("n"); void* bt = ENV->get_basic_type(ENV, ST, "Pt_3l"); void* a = ENV->new_mulnum_array_no_mortal(ENV, ST, bt, n); if (n < 0) { vp_assert(a == 0, "negative length gives no array"); return; } if (!a) { vp_assert(n > 1000000, "a modest request succeeds"); return; } vp_assert(ENV->length(ENV, ST, a) == n, "length"); if (n == 0) return; c_int i = sym_int("i"); vp_assume((i >= 0) & (i < n)); int64_t* p = ENV->get_elems_long(ENV, ST, a); for (int f = 0; f < 3; f++) { vp_assert(p[(size_t)i * 3 + f] == 0, "zero"); p[(size_t)i * 3 + f] = 5; } }
JOB2(lit0_byte) { c_byte v0 = sym_byte("v0"); set_byte(0, v0); OK(CALL(s, "lit0_byte", 1)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 0, "length of the literal"); }
JOB2(lit1_byte) { c_byte v0 = sym_byte("v0"); set_byte(0, v0); OK(CALL(s, "lit1_byte", 1)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 1, "length of the literal"); c_byte* p = ENV->get_elems_byte(ENV, ST, a); vp_assert(same_byte(p[0], v0), "element 0"); }
JOB2(lit3_byte) { c_byte v0 = sym_byte("v0"); set_byte(0, v0); c_byte v1 = sym_byte("v1"); set_byte(1, v1); c_byte v2 = sym_byte("v2"); set_byte(2, v2); OK(CALL(s, "lit3_byte", 3)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 3, "length of the literal"); c_byte* p = ENV->get_elems_byte(ENV, ST, a); vp_assert(same_byte(p[0], v0), "element 0"); vp_assert(same_byte(p[1], v1), "element 1"); vp_assert(same_byte(p[2], v2), "element 2"); }
JOB2(lit5_byte) { c_byte v0 = sym_byte("v0"); set_byte(0, v0); c_byte v1 = sym_byte("v1"); set_byte(1, v1); c_byte v2 = sym_byte("v2"); set_byte(2, v2); c_byte v3 = sym_byte("v3"); set_byte(3, v3); c_byte v4 = sym_byte("v4"); set_byte(4, v4); OK(CALL(s, "lit5_byte", 5)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 5, "length of the literal"); c_byte* p = ENV->get_elems_byte(ENV, ST, a); vp_assert(same_byte(p[0], v0), "element 0"); vp_assert(same_byte(p[1], v1), "element 1"); vp_assert(same_byte(p[2], v2), "element 2"); vp_assert(same_byte(p[3], v3), "element 3"); vp_assert(same_byte(p[4], v4), "element 4"); }
JOB2(lit0_short) { c_short v0 = sym_short("v0"); set_short(0, v0); OK(CALL(s, "lit0_short", 1)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 0, "length of the literal"); }
JOB2(lit1_short) { c_short v0 = sym_short("v0"); set_short(0, v0); OK(CALL(s, "lit1_short", 1)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 1, "length of the literal"); c_short* p = ENV->get_elems_short(ENV, ST, a); vp_assert(same_short(p[0], v0), "element 0"); }
JOB2(lit3_short) { c_short v0 = sym_short("v0"); set_short(0, v0); c_short v1 = sym_short("v1"); set_short(1, v1); c_short v2 = sym_short("v2"); set_short(2, v2); OK(CALL(s, "lit3_short", 3)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 3, "length of the literal"); c_short* p = ENV->get_elems_short(ENV, ST, a); vp_assert(same_short(p[0], v0), "element 0"); vp_assert(same_short(p[1], v1), "element 1"); vp_assert(same_short(p[2], v2), "element 2"); }
JOB2(lit5_short) { c_short v0 = sym_short("v0"); set_short(0, v0); c_short v1 = sym_short("v1"); set_short(1, v1); c_short v2 = sym_short("v2"); set_short(2, v2); c_short v3 = sym_short("v3"); set_short(3, v3); c_short v4 = sym_short("v4"); set_short(4, v4); OK(CALL(s, "lit5_short", 5)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 5, "length of the literal"); c_short* p = ENV->get_elems_short(ENV, ST, a); vp_assert(same_short(p[0], v0), "element 0"); vp_assert(same_short(p[1], v1), "element 1"); vp_assert(same_short(p[2], v2), "element 2"); vp_assert(same_short(p[3], v3), "element 3"); vp_assert(same_short(p[4], v4), "element 4"); }
JOB2(lit0_int) { c_int v0 = sym_int("v0"); set_int(0, v0); OK(CALL(s, "lit0_int", 1)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 0, "length of the literal"); }
JOB2(lit1_int) { c_int v0 = sym_int("v0"); set_int(0, v0); OK(CALL(s, "lit1_int", 1)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 1, "length of the literal"); c_int* p = ENV->get_elems_int(ENV, ST, a); vp_assert(same_int(p[0], v0), "element 0"); }
JOB2(lit3_int) { c_int v0 = sym_int("v0"); set_int(0, v0); c_int v1 = sym_int("v1"); set_int(1, v1); c_int v2 = sym_int("v2"); set_int(2, v2); OK(CALL(s, "lit3_int", 3)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 3, "length of the literal"); c_int* p = ENV->get_elems_int(ENV, ST, a); vp_assert(same_int(p[0], v0), "element 0"); vp_assert(same_int(p[1], v1), "element 1"); vp_assert(same_int(p[2], v2), "element 2"); }
JOB2(lit5_int) { c_int v0 = sym_int("v0"); set_int(0, v0); c_int v1 = sym_int("v1"); set_int(1, v1); c_int v2 = sym_int("v2"); set_int(2, v2); c_int v3 = sym_int("v3"); set_int(3, v3); c_int v4 = sym_int("v4"); set_int(4, v4); OK(CALL(s, "lit5_int", 5)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 5, "length of the literal"); c_int* p = ENV->get_elems_int(ENV, ST, a); vp_assert(same_int(p[0], v0), "element 0"); vp_assert(same_int(p[1], v1), "element 1"); vp_assert(same_int(p[2], v2), "element 2"); vp_assert(same_int(p[3], v3), "element 3"); vp_assert(same_int(p[4], v4), "element 4"); }
JOB2(lit0_long) { c_long v0 = sym_long("v0"); set_long(0, v0); OK(CALL(s, "lit0_long", 1)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 0, "length of the literal"); }
JOB2(lit1_long) { c_long v0 = sym_long("v0"); set_long(0, v0); OK(CALL(s, "lit1_long", 1)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 1, "length of the literal"); c_long* p = ENV->get_elems_long(ENV, ST, a); vp_assert(same_long(p[0], v0), "element 0"); }
JOB2(lit3_long) { c_long v0 = sym_long("v0"); set_long(0, v0); c_long v1 = sym_long("v1"); set_long(1, v1); c_long v2 = sym_long("v2"); set_long(2, v2); OK(CALL(s, "lit3_long", 3)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 3, "length of the literal"); c_long* p = ENV->get_elems_long(ENV, ST, a); vp_assert(same_long(p[0], v0), "element 0"); vp_assert(same_long(p[1], v1), "element 1"); vp_assert(same_long(p[2], v2), "element 2"); }
JOB2(lit5_long) { c_long v0 = sym_long("v0"); set_long(0, v0); c_long v1 = sym_long("v1"); set_long(1, v1); c_long v2 = sym_long("v2"); set_long(2, v2); c_long v3 = sym_long("v3"); set_long(3, v3); c_long v4 = sym_long("v4"); set_long(4, v4); OK(CALL(s, "lit5_long", 5)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 5, "length of the literal"); c_long* p = ENV->get_elems_long(ENV, ST, a); vp_assert(same_long(p[0], v0), "element 0"); vp_assert(same_long(p[1], v1), "element 1"); vp_assert(same_long(p[2], v2), "element 2"); vp_assert(same_long(p[3], v3), "element 3"); vp_assert(same_long(p[4], v4), "element 4"); }
JOB2(lit0_float) { c_float v0 = sym_float("v0"); set_float(0, v0); OK(CALL(s, "lit0_float", 1)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 0, "length of the literal"); }
JOB2(lit1_float) { c_float v0 = sym_float("v0"); set_float(0, v0); OK(CALL(s, "lit1_float", 1)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 1, "length of the literal"); c_float* p = ENV->get_elems_float(ENV, ST, a); vp_assert(same_float(p[0], v0), "element 0"); }
JOB2(lit3_float) { c_float v0 = sym_float("v0"); set_float(0, v0); c_float v1 = sym_float("v1"); set_float(1, v1); c_float v2 = sym_float("v2"); set_float(2, v2); OK(CALL(s, "lit3_float", 3)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 3, "length of the literal"); c_float* p = ENV->get_elems_float(ENV, ST, a); vp_assert(same_float(p[0], v0), "element 0"); vp_assert(same_float(p[1], v1), "element 1"); vp_assert(same_float(p[2], v2), "element 2"); }
JOB2(lit5_float) { c_float v0 = sym_float("v0"); set_float(0, v0); c_float v1 = sym_float("v1"); set_float(1, v1); c_float v2 = sym_float("v2"); set_float(2, v2); c_float v3 = sym_float("v3"); set_float(3, v3); c_float v4 = sym_float("v4"); set_float(4, v4); OK(CALL(s, "lit5_float", 5)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 5, "length of the literal"); c_float* p = ENV->get_elems_float(ENV, ST, a); vp_assert(same_float(p[0], v0), "element 0"); vp_assert(same_float(p[1], v1), "element 1"); vp_assert(same_float(p[2], v2), "element 2"); vp_assert(same_float(p[3], v3), "element 3"); vp_assert(same_float(p[4], v4), "element 4"); }
JOB2(lit0_double) { c_double v0 = sym_double("v0"); set_double(0, v0); OK(CALL(s, "lit0_double", 1)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 0, "length of the literal"); }
JOB2(lit1_double) { c_double v0 = sym_double("v0"); set_double(0, v0); OK(CALL(s, "lit1_double", 1)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 1, "length of the literal"); c_double* p = ENV->get_elems_double(ENV, ST, a); vp_assert(same_double(p[0], v0), "element 0"); }
JOB2(lit3_double) { c_double v0 = sym_double("v0"); set_double(0, v0); c_double v1 = sym_double("v1"); set_double(1, v1); c_double v2 = sym_double("v2"); set_double(2, v2); OK(CALL(s, "lit3_double", 3)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 3, "length of the literal"); c_double* p = ENV->get_elems_double(ENV, ST, a); vp_assert(same_double(p[0], v0), "element 0"); vp_assert(same_double(p[1], v1), "element 1"); vp_assert(same_double(p[2], v2), "element 2"); }
JOB2(lit5_double) { c_double v0 = sym_double("v0"); set_double(0, v0); c_double v1 = sym_double("v1"); set_double(1, v1); c_double v2 = sym_double("v2"); set_double(2, v2); c_double v3 = sym_double("v3"); set_double(3, v3); c_double v4 = sym_double("v4"); set_double(4, v4); OK(CALL(s, "lit5_double", 5)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 5, "length of the literal"); c_double* p = ENV->get_elems_double(ENV, ST, a); vp_assert(same_double(p[0], v0), "element 0"); vp_assert(same_double(p[1], v1), "element 1"); vp_assert(same_double(p[2], v2), "element 2"); vp_assert(same_double(p[3], v3), "element 3"); vp_assert(same_double(p[4], v4), "element 4"); }
JOB2(litnest) { for (int k = 0; k < 5; k++) ST[k].ival = sym_int("v"); OK(CALL(s, "litnest", 5)); vp_assert(get_int() == 3210, "lengths of nested literals"); }
JOB2(litmix) { c_int i = sym_int("i"); c_double d = sym_double("d"); void* x = spv_str(s, "q", 1); ST[0].ival = i; ST[1].dval = d; ST[2].oval = x; OK(CALL(s, "litmix", 3)); void* a = ST[0].oval; ENV->push_mortal(ENV, ST, a); vp_assert(ENV->length(ENV, ST, a) == 6, "key-value literal length"); 
  void* e[6]; for (int k = 0; k < 6; k++) { e[k] = ENV->get_elem_object(ENV, ST, a, k); vp_assert(e[k] != 0, "defined"); } vp_assert(!strcmp(ENV->get_chars(ENV, ST, e[0]), "k") && !strcmp(ENV->get_chars(ENV, ST, e[2]), "d") && !strcmp(ENV->get_chars(ENV, ST, e[4]), "x"), "keys in order"); vp_assert(e[5] == x, "object value"); int err = 0; vp_assert(ENV->get_field_int_by_name(ENV, ST, e[1], "value", &err, "", "", 0) == i, "boxed int"); vp_assert(same_double(ENV->get_field_double_by_name(ENV, ST, e[3], "value", &err, "", "", 0), d), "boxed double"); }
