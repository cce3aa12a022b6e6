/*vp {"pc":"VP","time":200,"replays":80,"bounds":["24 creating and copying operations (new of every element kind, new_string_len, concatenation, .=, copy, conversions between string and byte[], literals, creation in a called method), lengths 0 to 3, strings of up to 2 free bytes: the first to third allocation made during the operation fails, or the request is larger than the modelled memory (any length above it)","weaken, pushes to StringBuffer and IntList that need growth: the first to third allocation fails"]} */
#include "lang.h"
static void* keep(SPV* s, void* o) { if (o) ENV->push_mortal(ENV, ST, o); return o; }
static void* mulnum(SPV* s, int n) { return ENV->new_mulnum_array(ENV, ST, ENV->get_basic_type(ENV, ST, "Complex_2d"), n); }
enum { NOPS = 24 };
typedef struct { char t[2]; void *s1, *s2, *b, *ia, *m; int32_t v; int8_t bv; } IN;
static void args(SPV* s, IN* in, int k, int n) { ST[0].ival = k; ST[1].ival = n; ST[2].oval = in->s1; ST[3].oval = in->s2; ST[4].oval = in->b; ST[5].oval = in->ia; ST[6].oval = in->m; }
static void made(SPV* s, IN* in, int k, int n, void* r) {
  static const char* T[] = { "Nd", "byte", "short", "int", "long", "float", "double", "Nd", "string", "Complex_2d", "int", "string", "string", "string", "int", "byte", "string", "string", "int", "string", "Complex_2d", "int", "Point", "string" };
  int dim = k == 0 || k == 22 || k == 11 || k == 12 || k == 13 || k == 16 || k == 17 || k == 23 ? 0 : k == 10 ? 2 : 1; vp_assert(r && ENV->is_type_by_name(ENV, ST, r, T[k], dim), "the created object has its type"); if (k == 0 || k == 22) return;
  int len = k == 12 || k == 23 ? 3 : k == 13 ? 2 : k == 14 || k == 16 ? 1 : k == 15 ? 2 : k == 17 ? 7 : k == 18 ? 3 : k == 19 ? 2 : k == 20 ? 1 : n; vp_assert(ENV->length(ENV, ST, r) == len, "the created object has its length");
  if (k == 12 || k == 23 || k == 13 || k == 15) { const char* c = (const char*)ENV->get_elems_byte(ENV, ST, r); vp_assert((c[0] == in->t[0]) & (c[1] == in->t[1]), "the created object has its content"); } if (k == 14) vp_assert(ENV->get_elems_int(ENV, ST, r)[0] == in->v, "the copy has its content"); if (k == 16) vp_assert(ENV->get_elems_byte(ENV, ST, r)[0] == in->bv, "the string has its content");
}
static void prepare(SPV* s, IN* in) { vp_symbolic(in->t, 2, "text"); in->s1 = spv_str(s, in->t, 2); in->s2 = spv_str(s, "x", 1); in->b = ENV->new_byte_array(ENV, ST, 1); in->bv = sym_byte("byte"); ENV->get_elems_byte(ENV, ST, in->b)[0] = in->bv; in->ia = ENV->new_int_array(ENV, ST, 1); in->v = sym_int("int"); ENV->get_elems_int(ENV, ST, in->ia)[0] = in->v; in->m = mulnum(s, 1); ST[0].oval = spv_str(s, "keep", 4); OK(CALL(s, "SET_KEEP", 1)); }
static void finish(SPV* s, IN* in, int k, int n, int failed, int r) {
  vp_assert(r == 0 || r == 1, "a failed creation throws, changes nothing else and leaves the variable as before"); OK(CALL(s, "RES", 0)); void* o = keep(s, ST[0].oval); OK(CALL(s, "KEEP", 0)); void* kp = keep(s, ST[0].oval); if (r) made(s, in, k, n, o); else vp_assert(o == kp, "the variable keeps its value"); (void)failed;
  vp_assert((ENV->get_chars(ENV, ST, in->s1)[0] == in->t[0]) & (ENV->get_elems_int(ENV, ST, in->ia)[0] == in->v), "the operands do not change");
  args(s, in, k, n); OK(CALL(s, "create", 7)); vp_assert(get_int() == 1, "the same creation succeeds afterwards"); OK(CALL(s, "RES", 0)); made(s, in, k, n, keep(s, ST[0].oval));
}
JOB2(faults) {
  int k = vp_choice(NOPS, "operation"), n = k > 0 && k < 12 ? vp_choice(2, "length") * 3 : 2, f = vp_choice(4, "failing allocation"); IN in; prepare(s, &in); args(s, &in, k, n); OK(CALL(s, "create", 7)); ST[0].oval = 0; OK(CALL(s, "SET_RES", 1));
  BAL_BEGIN(s); args(s, &in, k, n); uint64_t a0 = vp_alloc_seq(); vp_fail_alloc(f); int e = CALL(s, "create", 7), r = get_int(); uint64_t used = vp_alloc_seq() - a0; vp_fail_alloc(-1);
  if (e) { vp_assert(spv_exc(s) != 0 || used > (uint64_t)f, "an exception is set"); spv_clear_exc(s); vp_reach("outer"); ST[0].oval = 0; OK(CALL(s, "SET_RES", 1)); } else { if (r == 0) vp_reach("caught"); finish(s, &in, k, n, used > (uint64_t)f, r); ST[0].oval = 0; OK(CALL(s, "SET_RES", 1)); }
  BAL_END(s, "no block is lost"); vp_reach("done");
}
// a request beyond the modelled memory
JOB2(huge) { int k = 1 + vp_choice(11, "operation"); IN in; prepare(s, &in); int n = sym_int("length"); vp_assume(n > 0x5000000); BAL_BEGIN(s); args(s, &in, k, n); OK(CALL(s, "create", 7)); vp_assert(get_int() == 0, "a creation that does not fit into the memory throws and leaves the variable as before"); args(s, &in, k, 3); OK(CALL(s, "create", 7)); vp_assert(get_int() == 1, "a later creation succeeds"); ST[0].oval = 0; OK(CALL(s, "SET_RES", 1)); BAL_END(s, "no block is lost"); vp_reach("done"); }
JOB2(weaken) { int f = vp_choice(4, "failing allocation"); OK(CALLC(s, "Nd", "new", 0)); void* a = keep(s, ST[0].oval); OK(CALLC(s, "Nd", "new", 0)); void* b = keep(s, ST[0].oval); ST[0].oval = a; ST[1].oval = b; OK(CALL(s, "weak", 2)); vp_assert(get_int() == 1, "weaken works"); ST[0].oval = a; ST[1].oval = 0; OK(CALLC(s, "Nd", "set_kid", 2)); BAL_BEGIN(s); int rc = ENV->api->internal->get_ref_count(ENV, ST, b); ST[0].oval = a; ST[1].oval = b; vp_fail_alloc(f); int e = CALL(s, "weak", 2), r = get_int(); vp_fail_alloc(-1); if (!e) vp_assert(ENV->api->internal->get_ref_count(ENV, ST, b) == rc + !r, "a failed weaken leaves the reference counted"); if (e) spv_clear_exc(s); else vp_assert(r == 0 || r == 1, "a failed weaken throws and leaves the reference strong"); if (!e && !r) vp_reach("caught"); ST[0].oval = a; ST[1].oval = 0; OK(CALLC(s, "Nd", "set_kid", 2)); BAL_END(s, "no block is lost"); vp_reach("done"); }
JOBV(string_buffer) { int f = vp_choice(4, "failing allocation"); char t[2]; vp_symbolic(t, 2, "text"); ST[0].ival = 0; OK(CALL(s, "new_sb", 1)); void* sb = keep(s, ST[0].oval); void* x = spv_str(s, t, 2); for (int i = 0; i < 2; i++) { ST[0].oval = sb; ST[1].oval = x; OK(CALL(s, "push_sb", 2)); } int len = 4; void* big = spv_str(s, "0123456789012345678901234567890123456789", 40); ST[0].oval = sb; ST[1].oval = big; vp_fail_alloc(f); int e = CALL(s, "push_sb", 2), r = get_int(); vp_fail_alloc(-1); if (e) { spv_clear_exc(s); } ST[0].oval = sb; OK(CALL(s, "sb_string", 1)); void* o = keep(s, ST[0].oval); int n = ENV->length(ENV, ST, o); vp_assert(n == 4 || (n == 44 && (e || r)), "a failed push leaves the text as before"); if (!e && !r) { vp_assert(n == 4, "a failed push leaves the text as before"); vp_reach("caught"); } const char* c = ENV->get_chars(ENV, ST, o); vp_assert((c[0] == t[0]) & (c[1] == t[1]) & (c[2] == t[0]) & (c[3] == t[1]), "the earlier text does not change"); (void)len; vp_reach("done"); }
JOBV(list) { int f = vp_choice(4, "failing allocation"); ST[0].ival = 1; OK(CALL(s, "new_list", 1)); void* l = keep(s, ST[0].oval); int v = sym_int("v"), w = sym_int("w"); ST[0].oval = l; ST[1].ival = v; OK(CALL(s, "push_list", 2)); ST[0].oval = l; ST[1].ival = w; vp_fail_alloc(f); int e = CALL(s, "push_list", 2), r = get_int(); vp_fail_alloc(-1); if (e) spv_clear_exc(s); ST[0].oval = l; OK(CALL(s, "list_array", 1)); void* a = keep(s, ST[0].oval); int n = ENV->length(ENV, ST, a); int32_t* p = ENV->get_elems_int(ENV, ST, a); if (!e) vp_assert(n == 1 + (r == 1), "a failed push leaves the list as before"); vp_assert(p[0] == v, "the earlier element does not change"); if (n == 2) vp_assert(p[1] == w, "the pushed element"); if (!e && !r) vp_reach("caught"); vp_reach("done"); }
