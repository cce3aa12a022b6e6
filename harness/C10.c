/*vp {"pc":"VP","time":120,"bounds":["33 object types (classes in a chain of three, unrelated class, classes with interfaces, interface with an interface, strings, number objects, numeric, multi-numeric, string, class, interface and object arrays of 1..3 dimensions) x 32 target types, each pair with a cold cache and all pairs in one history","assignment rule of the compiler and run time: every pair of 14 base types with every pair of dimensions 0..255","error ids: every 32-bit value"]} */
// generated by tools/gen_*.py
#include "lang.h"

static const unsigned char ASG[33][32] = {{0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 1, 1, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}};
static const unsigned char SAM[33][32] = {{0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}};
static const char* TYN[] = {"object[]", "A", "B", "C", "D", "E1", "If1", "If2", "If3", "string", "Int", "Long", "byte[]", "int[]", "int[][]", "int[][][]", "string[]", "string[][]", "A[]", "B[]", "C[]", "D[]", "A[][]", "B[][]", "If1[]", "If1[][]", "If3[]", "If2[]", "Pt_2d[]", "Pt_2d[][]", "Int[]", "Int[][]"};

#define set_obj(i, v) (ST[i].oval = (v))
static void* mkobj(SPV* s, int k) { char b[16]; snprintf(b, 16, "mk%d", k); OK(CALL(s, b, 0)); ENV->push_mortal(ENV, ST, ST[0].oval); return ST[0].oval; }
static int call1(SPV* s, const char* p, int j, void* o) { char b[16]; snprintf(b, 16, "%s%d", p, j); set_obj(0, o); return CALL(s, b, 1); }
static void check_pair(SPV* s, void* o, int k, int j, int full) {
  OK(call1(s, "isa", j, o)); vp_assert(ST[0].ival == ASG[k][j], "isa tells whether the object can be assigned to the type");
  OK(call1(s, "ist", j, o)); vp_assert(ST[0].ival == SAM[k][j], "is_type tells whether the type is exactly that of the object");
  OK(call1(s, "casterr", j, o)); vp_assert(ST[0].ival == (ASG[k][j] ? 10 : 20), "isa as a condition");
  int e = call1(s, "cast", j, o); vp_assert((e == 0) == ASG[k][j], "a cast succeeds exactly when the object is assignable"); vp_assert(e || ST[0].oval == o, "a cast yields the object"); vp_assert(!e || spv_exc(s) != 0, "a failed cast throws"); spv_clear_exc(s);
  OK(call1(s, "castkeep", j, o)); vp_assert(ST[0].oval == (ASG[k][j] ? o : 0), "a failed cast leaves the destination unchanged");
  if (!full) return;
  if (strncmp(TYN[j], "object", 6)) { e = call1(s, "store", j, o); vp_assert((e == 0) == ASG[k][j], "an element accepts exactly the assignable objects"); vp_assert(e || ST[0].oval == o, "the element is the object"); spv_clear_exc(s);
    int same = -1; for (int q = 0; q < 33; q++) if (SAM[q][j]) same = q;
    if (same >= 0) { void* p = mkobj(s, same); set_obj(1, p); char b[16]; snprintf(b, 16, "storekeep%d", j); set_obj(0, o); OK(CALL(s, b, 2)); vp_assert(ST[0].oval == (ASG[k][j] ? 0 : p), "a failed element store leaves the element unchanged"); } } }

JOB2(pair0) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 0, 1); check_pair(s, o, k, 0, 0); }
JOB2(pair1) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 1, 1); check_pair(s, o, k, 1, 0); }
JOB2(pair2) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 2, 1); check_pair(s, o, k, 2, 0); }
JOB2(pair3) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 3, 1); check_pair(s, o, k, 3, 0); }
JOB2(pair4) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 4, 1); check_pair(s, o, k, 4, 0); }
JOB2(pair5) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 5, 1); check_pair(s, o, k, 5, 0); }
JOB2(pair6) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 6, 1); check_pair(s, o, k, 6, 0); }
JOB2(pair7) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 7, 1); check_pair(s, o, k, 7, 0); }
JOB2(pair8) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 8, 1); check_pair(s, o, k, 8, 0); }
JOB2(pair9) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 9, 1); check_pair(s, o, k, 9, 0); }
JOB2(pair10) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 10, 1); check_pair(s, o, k, 10, 0); }
JOB2(pair11) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 11, 1); check_pair(s, o, k, 11, 0); }
JOB2(pair12) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 12, 1); check_pair(s, o, k, 12, 0); }
JOB2(pair13) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 13, 1); check_pair(s, o, k, 13, 0); }
JOB2(pair14) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 14, 1); check_pair(s, o, k, 14, 0); }
JOB2(pair15) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 15, 1); check_pair(s, o, k, 15, 0); }
JOB2(pair16) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 16, 1); check_pair(s, o, k, 16, 0); }
JOB2(pair17) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 17, 1); check_pair(s, o, k, 17, 0); }
JOB2(pair18) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 18, 1); check_pair(s, o, k, 18, 0); }
JOB2(pair19) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 19, 1); check_pair(s, o, k, 19, 0); }
JOB2(pair20) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 20, 1); check_pair(s, o, k, 20, 0); }
JOB2(pair21) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 21, 1); check_pair(s, o, k, 21, 0); }
JOB2(pair22) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 22, 1); check_pair(s, o, k, 22, 0); }
JOB2(pair23) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 23, 1); check_pair(s, o, k, 23, 0); }
JOB2(pair24) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 24, 1); check_pair(s, o, k, 24, 0); }
JOB2(pair25) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 25, 1); check_pair(s, o, k, 25, 0); }
JOB2(pair26) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 26, 1); check_pair(s, o, k, 26, 0); }
JOB2(pair27) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 27, 1); check_pair(s, o, k, 27, 0); }
JOB2(pair28) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 28, 1); check_pair(s, o, k, 28, 0); }
JOB2(pair29) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 29, 1); check_pair(s, o, k, 29, 0); }
JOB2(pair30) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 30, 1); check_pair(s, o, k, 30, 0); }
JOB2(pair31) { int k = vp_choice(33, "object"); void* o = mkobj(s, k); check_pair(s, o, k, 31, 1); check_pair(s, o, k, 31, 0); }
JOB2(all) { int rev = vp_choice(2, "reverse"); for (int q = 0; q < 33; q++) { int k = rev ? 33 - 1 - q : q; void* o = mkobj(s, k); for (int r = 0; r < 32; r++) { int j = rev ? 32 - 1 - r : r; OK(call1(s, "isa", j, o)); vp_assert(ST[0].ival == ASG[k][j], "isa in a long history"); int e = call1(s, "cast", j, o); vp_assert((e == 0) == ASG[k][j], "cast in a long history"); spv_clear_exc(s); } } }
JOB2(undef) { int j = vp_choice(32, "type"); OK(call1(s, "isa", j, 0)); vp_assert(ST[0].ival == 0, "undef isa nothing"); OK(call1(s, "ist", j, 0)); vp_assert(ST[0].ival == 0, "undef is of no type"); OK(call1(s, "cast", j, 0)); vp_assert(ST[0].oval == 0, "undef casts to every type"); if (strncmp(TYN[j], "object", 6)) { OK(call1(s, "store", j, 0)); vp_assert(ST[0].oval == 0, "undef can be stored in every element"); } }
#include "spvm_native.h"
int32_t SPVM_API_TYPE_can_assign(void*, void*, int32_t, int32_t, void*, int32_t, int32_t); int32_t SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(void*, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, char*);
static const char* BN[] = {"int", "double", "string", "object", "Int", "Long", "A", "B", "C", "D", "E1", "If1", "If3", "Pt_2d"}; static const char BK[] = "PPSONNCCCCCIIM"; static const unsigned char UP[14][14] = {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0}, {0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 1, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}};

static void* bt(int i) { return SV.env->api->runtime->get_basic_type_by_name(SV.rt, BN[i]); }
static int spec_asg(int b, int d, int e, int f) { // destination b,d from source e,f without conversion, neither of them undef or void
  if (b == e && d == f) return 1; int nonobj = (f == 0) & ((BK[e] == 'P') | (BK[e] == 'M'));
  if (BK[b] == 'O' && d == 0) return !nonobj; if (BK[b] == 'O' && d == 1) return (f >= 2) | ((f == 1) & (BK[e] != 'P') & (BK[e] != 'M')); return (d == f) & UP[e][b]; }

void job_rule_int(void) { int e = vp_choice(14, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[0] == 'O') vp_assume(d <= 1); if (BK[e] == 'O') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt(0)), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg(0, d, e, f), "assignment rule"); vp_observe(r); }
void job_rule_double(void) { int e = vp_choice(14, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[1] == 'O') vp_assume(d <= 1); if (BK[e] == 'O') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt(1)), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg(1, d, e, f), "assignment rule"); vp_observe(r); }
void job_rule_string(void) { int e = vp_choice(14, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[2] == 'O') vp_assume(d <= 1); if (BK[e] == 'O') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt(2)), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg(2, d, e, f), "assignment rule"); vp_observe(r); }
void job_rule_object(void) { int e = vp_choice(14, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[3] == 'O') vp_assume(d <= 1); if (BK[e] == 'O') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt(3)), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg(3, d, e, f), "assignment rule"); vp_observe(r); }
void job_rule_Int(void) { int e = vp_choice(14, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[4] == 'O') vp_assume(d <= 1); if (BK[e] == 'O') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt(4)), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg(4, d, e, f), "assignment rule"); vp_observe(r); }
void job_rule_Long(void) { int e = vp_choice(14, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[5] == 'O') vp_assume(d <= 1); if (BK[e] == 'O') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt(5)), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg(5, d, e, f), "assignment rule"); vp_observe(r); }
void job_rule_A(void) { int e = vp_choice(14, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[6] == 'O') vp_assume(d <= 1); if (BK[e] == 'O') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt(6)), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg(6, d, e, f), "assignment rule"); vp_observe(r); }
void job_rule_B(void) { int e = vp_choice(14, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[7] == 'O') vp_assume(d <= 1); if (BK[e] == 'O') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt(7)), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg(7, d, e, f), "assignment rule"); vp_observe(r); }
void job_rule_C(void) { int e = vp_choice(14, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[8] == 'O') vp_assume(d <= 1); if (BK[e] == 'O') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt(8)), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg(8, d, e, f), "assignment rule"); vp_observe(r); }
void job_rule_D(void) { int e = vp_choice(14, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[9] == 'O') vp_assume(d <= 1); if (BK[e] == 'O') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt(9)), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg(9, d, e, f), "assignment rule"); vp_observe(r); }
void job_rule_E1(void) { int e = vp_choice(14, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[10] == 'O') vp_assume(d <= 1); if (BK[e] == 'O') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt(10)), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg(10, d, e, f), "assignment rule"); vp_observe(r); }
void job_rule_If1(void) { int e = vp_choice(14, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[11] == 'O') vp_assume(d <= 1); if (BK[e] == 'O') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt(11)), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg(11, d, e, f), "assignment rule"); vp_observe(r); }
void job_rule_If3(void) { int e = vp_choice(14, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[12] == 'O') vp_assume(d <= 1); if (BK[e] == 'O') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt(12)), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg(12, d, e, f), "assignment rule"); vp_observe(r); }
void job_rule_Pt_2d(void) { int e = vp_choice(14, "source"); int d = sym_byte("destination dimension") & 255, f = sym_byte("source dimension") & 255; if (BK[13] == 'O') vp_assume(d <= 1); if (BK[e] == 'O') vp_assume(f <= 1); int r = SPVM_TYPE_satisfy_assignment_requirement_without_data_conversion(*(void**)((char*)SV.compiler + 0) ? SV.compiler : SV.compiler, SV.env->api->basic_type->get_id(SV.rt, bt(13)), d, 0, SV.env->api->basic_type->get_id(SV.rt, bt(e)), f, 0, NULL); vp_assert(!r == !spec_asg(13, d, e, f), "assignment rule"); vp_observe(r); }
JOB2(errid) { OK(CALL(s, "basic_ids", 0)); int32_t* a = ENV->get_elems_int(ENV, ST, ST[0].oval); int q = vp_choice(4, "class"); int id = a[q];
  set_int(0, id); OK(CALL(s, "ie1", 1)); vp_assert(get_int() == (q == 1 || q == 2), "isa_error with a class"); set_int(0, id); OK(CALL(s, "ie0", 1)); vp_assert(get_int() == (q < 3), "isa_error with the base class"); set_int(0, id); OK(CALL(s, "it1", 1)); vp_assert(get_int() == (q == 1), "is_error is exact"); }
JOB2(errid_any) { c_int id = sym_int("id"); set_int(0, id); int e = CALL(s, "it1", 1); vp_assert(e || (get_int() & ~1) == 0, "is_error yields 0 or 1"); vp_observe(e); spv_clear_exc(s); }
JOB2(ieid_any) { c_int id = sym_int("id"); int n = ENV->api->runtime->get_basic_types_length(s->rt); vp_assume((id < 8) | (id >= n - 3)); set_int(0, id); int e = CALL(s, "ie1", 1); vp_assert(e || (get_int() & ~1) == 0, "isa_error yields 0 or 1"); vp_observe(e); spv_clear_exc(s); }
JOB2(mut) { int ro = vp_choice(2, "read-only"); void* o = spv_str(s, "abc", 3); if (ro) ENV->make_read_only(ENV, ST, o); set_obj(0, o); int e = CALL(s, "mut", 1); vp_assert((e != 0) == ro, "a cast to mutable string succeeds exactly for strings that are not read-only"); vp_assert(e || ST[0].oval == o, "the cast yields the string"); spv_clear_exc(s);
  void* x = mkobj(s, vp_choice(4, "object")); set_obj(0, x); vp_assert(CALL(s, "mut", 1) != 0, "other objects are rejected"); spv_clear_exc(s); set_obj(0, 0); OK(CALL(s, "mut", 1)); vp_assert(ST[0].oval == 0, "undef"); }
