/*vp {"pc":"VP","time":150,"bounds":["10 classes in 2 trees up to 5 deep with 7 overridden methods of up to 4 arguments, 4 interfaces; every static type, every run-time class and undef, every number of given arguments, all argument values","recursion to depths around the limit of 1000 calls"]} */
// generated by tools/gen_*.py
#include "lang.h"
static SPV* CUR; static void* OB[10];
static void mk(SPV* s, int k) { char n[8]; sprintf(n, "K%d", k); OK(CALLC(s, n, "new", 0)); }

JOB2(K0_m0_1) { c_int a = sym_int("a");  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K0_m0_1", 2); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (373020LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL); break; case 1: want = (994190LL + 111LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 101LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; case 2: want = (373020LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL); break; case 3: want = (701670LL + 133LL * 1000003LL + (long long)(a) * 7LL); break; case 4: want = (687538LL + 144LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 104LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; case 6: want = (687538LL + 146LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 106LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_m1_1) { c_int a = sym_int("a");  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K0_m1_1", 2); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (372421LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL + (long long)(43) * 19LL); break; case 1: want = (372421LL + 101LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL + (long long)(43) * 19LL); break; case 2: want = (791779LL + 122LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL + (long long)(-40) * 19LL); break; case 3: few = 1; break; case 4: want = (791779LL + 124LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL + (long long)(-40) * 19LL); break; case 6: want = (993272LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K0_m1_2", 3); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (372421LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; case 1: want = (372421LL + 101LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; case 2: want = (791779LL + 122LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(-40) * 19LL); break; case 3: want = (523255LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL); break; case 4: want = (791779LL + 124LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(-40) * 19LL); break; case 6: want = (993272LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_K0_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K0_K0_m1_2", 3); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (372421LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; case 1: want = (372421LL + 101LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; case 2: want = (372421LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; case 3: want = (372421LL + 103LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; case 4: want = (372421LL + 104LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; case 6: want = (372421LL + 106LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_m2_1) { c_byte a = sym_byte("a");  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); int e = CALL(s, "c_K0_m2_1", 2); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (440272LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(45) * 13LL + (long long)(906) * 17LL); break; case 1: want = (499696LL + 111LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; case 2: want = (440272LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(45) * 13LL + (long long)(906) * 17LL); break; case 3: want = (634243LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(-12) * 13LL + (long long)(763) * 17LL); break; case 4: want = (425440LL + 144LL * 1000003LL + (long long)(a) * 7LL + (long long)(66) * 13LL + (long long)(1000) * 17LL); break; case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(-13) * 13LL + (long long)(1000) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(-13) * 13LL + (long long)(1000) * 17LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_m2_2) { c_byte a = sym_byte("a"); c_short b = sym_short("b");  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); int e = CALL(s, "c_K0_m2_2", 3); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (440272LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(906) * 17LL); break; case 1: want = (499696LL + 111LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 2: want = (440272LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(906) * 17LL); break; case 3: want = (634243LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(763) * 17LL); break; case 4: want = (425440LL + 144LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K0_m2_3", 4); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (440272LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 1: want = (499696LL + 111LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 2: want = (440272LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 3: want = (634243LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 4: want = (425440LL + 144LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_K0_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K0_K0_m2_3", 4); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (440272LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 1: want = (440272LL + 101LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 2: want = (440272LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 3: want = (440272LL + 103LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 4: want = (440272LL + 104LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 6: want = (440272LL + 106LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_m3_1) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; int e = CALL(s, "c_K0_m3_1", 2); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (848954LL + 100LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; case 1: want = (848954LL + 101LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; case 2: want = (58683LL + 122LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; case 3: want = (848954LL + 103LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; case 4: want = (58683LL + 124LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; case 6: want = (730424LL + 166LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL + 5LL * (58683LL + 126LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_m3_2) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; set_int(2, a); int e = CALL(s, "c_K0_m3_2", 3); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (848954LL + 100LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 1: want = (848954LL + 101LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 2: want = (58683LL + 122LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 3: want = (848954LL + 103LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 4: want = (58683LL + 124LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 6: want = (730424LL + 166LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + 5LL * (58683LL + 126LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_m4_1) { c_long a = sym_long("a");  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); int e = CALL(s, "c_K0_m4_1", 2); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (147135LL + 100LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 1: want = (880807LL + 111LL * 1000003LL + (long long)(a) * 7LL + ((3.5f) == 2.5f ? 3LL : (3.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + (long long)(13) * 19LL); break; case 2: want = (147135LL + 102LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 3: want = (917025LL + 133LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0)); break; case 4: want = (147135LL + 104LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_m4_2) { c_long a = sym_long("a"); c_float f = sym_float("f");  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); int e = CALL(s, "c_K0_m4_2", 3); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (147135LL + 100LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 1: want = (880807LL + 111LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + (long long)(13) * 19LL); break; case 2: want = (147135LL + 102LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 3: want = (917025LL + 133LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0)); break; case 4: want = (147135LL + 104LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_m4_3) { c_long a = sym_long("a"); c_float f = sym_float("f"); c_double d = sym_double("d");  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); set_double(3, d); int e = CALL(s, "c_K0_m4_3", 4); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (147135LL + 100LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; case 1: want = (880807LL + 111LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + (long long)(13) * 19LL); break; case 2: want = (147135LL + 102LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; case 3: want = (917025LL + 133LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; case 4: want = (147135LL + 104LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_m5_0) {  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q;  int e = CALL(s, "c_K0_m5_0", 1); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (555731LL + 100LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 1: want = (555731LL + 101LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 2: want = (555731LL + 102LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 3: want = (555731LL + 103LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 4: want = (555731LL + 104LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 6: want = (555731LL + 106LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_m5_1) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; int e = CALL(s, "c_K0_m5_1", 2); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (555731LL + 100LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 1: want = (555731LL + 101LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 2: want = (555731LL + 102LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 3: want = (555731LL + 103LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 4: want = (555731LL + 104LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 6: want = (555731LL + 106LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K0_m5_2) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(7, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 6 }; if (ri < 6) mk(s, rk[ri]); void* q = ri < 6 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; set_int(2, a); int e = CALL(s, "c_K0_m5_2", 3); if (ri == 6) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (555731LL + 100LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 1: want = (555731LL + 101LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 2: want = (555731LL + 102LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 3: want = (555731LL + 103LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 4: want = (555731LL + 104LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 6: want = (555731LL + 106LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_m0_1) { c_int a = sym_int("a");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K1_m0_1", 2); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (994190LL + 111LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 101LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; case 3: want = (701670LL + 133LL * 1000003LL + (long long)(a) * 7LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_m1_1) { c_int a = sym_int("a");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K1_m1_1", 2); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (372421LL + 101LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL + (long long)(43) * 19LL); break; case 3: few = 1; break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K1_m1_2", 3); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (372421LL + 101LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; case 3: want = (523255LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_K0_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K1_K0_m1_2", 3); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (372421LL + 101LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; case 3: want = (372421LL + 103LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_m2_1) { c_byte a = sym_byte("a");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); int e = CALL(s, "c_K1_m2_1", 2); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (499696LL + 111LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; case 3: want = (634243LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(-12) * 13LL + (long long)(763) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_m2_2) { c_byte a = sym_byte("a"); c_short b = sym_short("b");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); int e = CALL(s, "c_K1_m2_2", 3); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (499696LL + 111LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 3: want = (634243LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(763) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K1_m2_3", 4); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (499696LL + 111LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 3: want = (634243LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_K1_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K1_K1_m2_3", 4); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (499696LL + 111LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 3: want = (499696LL + 113LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_m3_1) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; int e = CALL(s, "c_K1_m3_1", 2); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (848954LL + 101LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; case 3: want = (848954LL + 103LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_m3_2) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; set_int(2, a); int e = CALL(s, "c_K1_m3_2", 3); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (848954LL + 101LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 3: want = (848954LL + 103LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_m4_1) { c_long a = sym_long("a");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); int e = CALL(s, "c_K1_m4_1", 2); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (880807LL + 111LL * 1000003LL + (long long)(a) * 7LL + ((3.5f) == 2.5f ? 3LL : (3.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + (long long)(13) * 19LL); break; case 3: want = (917025LL + 133LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_m4_2) { c_long a = sym_long("a"); c_float f = sym_float("f");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); int e = CALL(s, "c_K1_m4_2", 3); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (880807LL + 111LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + (long long)(13) * 19LL); break; case 3: want = (917025LL + 133LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_m4_3) { c_long a = sym_long("a"); c_float f = sym_float("f"); c_double d = sym_double("d");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); set_double(3, d); int e = CALL(s, "c_K1_m4_3", 4); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (880807LL + 111LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + (long long)(13) * 19LL); break; case 3: want = (917025LL + 133LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_m5_0) {  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q;  int e = CALL(s, "c_K1_m5_0", 1); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (555731LL + 101LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 3: want = (555731LL + 103LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_m5_1) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; int e = CALL(s, "c_K1_m5_1", 2); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (555731LL + 101LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 3: want = (555731LL + 103LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K1_m5_2) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 1, 3 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; set_int(2, a); int e = CALL(s, "c_K1_m5_2", 3); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 1: want = (555731LL + 101LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 3: want = (555731LL + 103LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_m0_1) { c_int a = sym_int("a");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K2_m0_1", 2); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (373020LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL); break; case 4: want = (687538LL + 144LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 104LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; case 6: want = (687538LL + 146LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 106LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_m1_1) { c_int a = sym_int("a");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K2_m1_1", 2); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (791779LL + 122LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL + (long long)(-40) * 19LL); break; case 4: want = (791779LL + 124LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL + (long long)(-40) * 19LL); break; case 6: want = (993272LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K2_m1_2", 3); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (791779LL + 122LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(-40) * 19LL); break; case 4: want = (791779LL + 124LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(-40) * 19LL); break; case 6: want = (993272LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_K2_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K2_K2_m1_2", 3); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (791779LL + 122LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(-40) * 19LL); break; case 4: want = (791779LL + 124LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(-40) * 19LL); break; case 6: want = (791779LL + 126LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(-40) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_m2_1) { c_byte a = sym_byte("a");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); int e = CALL(s, "c_K2_m2_1", 2); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (440272LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(45) * 13LL + (long long)(906) * 17LL); break; case 4: want = (425440LL + 144LL * 1000003LL + (long long)(a) * 7LL + (long long)(66) * 13LL + (long long)(1000) * 17LL); break; case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(-13) * 13LL + (long long)(1000) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(-13) * 13LL + (long long)(1000) * 17LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_m2_2) { c_byte a = sym_byte("a"); c_short b = sym_short("b");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); int e = CALL(s, "c_K2_m2_2", 3); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (440272LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(906) * 17LL); break; case 4: want = (425440LL + 144LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K2_m2_3", 4); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (440272LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 4: want = (425440LL + 144LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_K0_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K2_K0_m2_3", 4); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (440272LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 4: want = (440272LL + 104LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 6: want = (440272LL + 106LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_m3_1) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; int e = CALL(s, "c_K2_m3_1", 2); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (58683LL + 122LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; case 4: want = (58683LL + 124LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; case 6: want = (730424LL + 166LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL + 5LL * (58683LL + 126LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_m3_2) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; set_int(2, a); int e = CALL(s, "c_K2_m3_2", 3); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (58683LL + 122LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 4: want = (58683LL + 124LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 6: want = (730424LL + 166LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + 5LL * (58683LL + 126LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_m4_1) { c_long a = sym_long("a");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); int e = CALL(s, "c_K2_m4_1", 2); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (147135LL + 102LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 4: want = (147135LL + 104LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_m4_2) { c_long a = sym_long("a"); c_float f = sym_float("f");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); int e = CALL(s, "c_K2_m4_2", 3); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (147135LL + 102LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 4: want = (147135LL + 104LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_m4_3) { c_long a = sym_long("a"); c_float f = sym_float("f"); c_double d = sym_double("d");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); set_double(3, d); int e = CALL(s, "c_K2_m4_3", 4); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (147135LL + 102LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; case 4: want = (147135LL + 104LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_m5_0) {  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q;  int e = CALL(s, "c_K2_m5_0", 1); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (555731LL + 102LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 4: want = (555731LL + 104LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 6: want = (555731LL + 106LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_m5_1) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; int e = CALL(s, "c_K2_m5_1", 2); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (555731LL + 102LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 4: want = (555731LL + 104LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 6: want = (555731LL + 106LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K2_m5_2) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 2, 4, 6 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; set_int(2, a); int e = CALL(s, "c_K2_m5_2", 3); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 2: want = (555731LL + 102LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 4: want = (555731LL + 104LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 6: want = (555731LL + 106LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_m0_1) { c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K3_m0_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (701670LL + 133LL * 1000003LL + (long long)(a) * 7LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K3_m1_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (523255LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_K3_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K3_K3_m1_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (523255LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_m2_1) { c_byte a = sym_byte("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); int e = CALL(s, "c_K3_m2_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (634243LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(-12) * 13LL + (long long)(763) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_m2_2) { c_byte a = sym_byte("a"); c_short b = sym_short("b");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); int e = CALL(s, "c_K3_m2_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (634243LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(763) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K3_m2_3", 4); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (634243LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_K3_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K3_K3_m2_3", 4); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (634243LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_m3_1) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; int e = CALL(s, "c_K3_m3_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (848954LL + 103LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_m3_2) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; set_int(2, a); int e = CALL(s, "c_K3_m3_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (848954LL + 103LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_m4_1) { c_long a = sym_long("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); int e = CALL(s, "c_K3_m4_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (917025LL + 133LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_m4_2) { c_long a = sym_long("a"); c_float f = sym_float("f");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); int e = CALL(s, "c_K3_m4_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (917025LL + 133LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_m4_3) { c_long a = sym_long("a"); c_float f = sym_float("f"); c_double d = sym_double("d");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); set_double(3, d); int e = CALL(s, "c_K3_m4_3", 4); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (917025LL + 133LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_m5_0) {  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q;  int e = CALL(s, "c_K3_m5_0", 1); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (555731LL + 103LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_m5_1) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; int e = CALL(s, "c_K3_m5_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (555731LL + 103LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_m5_2) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; set_int(2, a); int e = CALL(s, "c_K3_m5_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (555731LL + 103LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K3_m6_0) {  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 3 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q;  int e = CALL(s, "c_K3_m6_0", 1); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (972693LL + 133LL * 1000003LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_m0_1) { c_int a = sym_int("a");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K4_m0_1", 2); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (687538LL + 144LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 104LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; case 6: want = (687538LL + 146LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 106LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_m1_1) { c_int a = sym_int("a");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K4_m1_1", 2); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (791779LL + 124LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL + (long long)(-40) * 19LL); break; case 6: want = (993272LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K4_m1_2", 3); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (791779LL + 124LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(-40) * 19LL); break; case 6: want = (993272LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_K2_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K4_K2_m1_2", 3); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (791779LL + 124LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(-40) * 19LL); break; case 6: want = (791779LL + 126LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(-40) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_m2_1) { c_byte a = sym_byte("a");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); int e = CALL(s, "c_K4_m2_1", 2); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (425440LL + 144LL * 1000003LL + (long long)(a) * 7LL + (long long)(66) * 13LL + (long long)(1000) * 17LL); break; case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(-13) * 13LL + (long long)(1000) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(-13) * 13LL + (long long)(1000) * 17LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_m2_2) { c_byte a = sym_byte("a"); c_short b = sym_short("b");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); int e = CALL(s, "c_K4_m2_2", 3); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (425440LL + 144LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K4_m2_3", 4); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (425440LL + 144LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_K4_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K4_K4_m2_3", 4); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (425440LL + 144LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 6: want = (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_m3_1) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; int e = CALL(s, "c_K4_m3_1", 2); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (58683LL + 124LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; case 6: want = (730424LL + 166LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL + 5LL * (58683LL + 126LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_m3_2) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; set_int(2, a); int e = CALL(s, "c_K4_m3_2", 3); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (58683LL + 124LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 6: want = (730424LL + 166LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + 5LL * (58683LL + 126LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_m4_1) { c_long a = sym_long("a");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); int e = CALL(s, "c_K4_m4_1", 2); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (147135LL + 104LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_m4_2) { c_long a = sym_long("a"); c_float f = sym_float("f");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); int e = CALL(s, "c_K4_m4_2", 3); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (147135LL + 104LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_m4_3) { c_long a = sym_long("a"); c_float f = sym_float("f"); c_double d = sym_double("d");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); set_double(3, d); int e = CALL(s, "c_K4_m4_3", 4); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (147135LL + 104LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_m5_0) {  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q;  int e = CALL(s, "c_K4_m5_0", 1); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (555731LL + 104LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 6: want = (555731LL + 106LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_m5_1) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; int e = CALL(s, "c_K4_m5_1", 2); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (555731LL + 104LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 6: want = (555731LL + 106LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K4_m5_2) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(3, "run-time class"); static const int rk[] = { 4, 6 }; if (ri < 2) mk(s, rk[ri]); void* q = ri < 2 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; set_int(2, a); int e = CALL(s, "c_K4_m5_2", 3); if (ri == 2) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 4: want = (555731LL + 104LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 6: want = (555731LL + 106LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K5_m1_1) { c_int a = sym_int("a");  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 5, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K5_m1_1", 2); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 5: want = (353406LL + 155LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; case 7: want = (353406LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; case 8: want = (353406LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; case 9: want = (353406LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K5_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 5, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K5_m1_2", 3); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 5: want = (353406LL + 155LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 7: want = (353406LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 8: want = (353406LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 9: want = (353406LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K5_K5_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 5, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K5_K5_m1_2", 3); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 5: want = (353406LL + 155LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 7: want = (353406LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 8: want = (353406LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 9: want = (353406LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K5_m2_1) { c_byte a = sym_byte("a");  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 5, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); int e = CALL(s, "c_K5_m2_1", 2); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 5: want = (264149LL + 155LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; case 7: want = (264149LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K5_m2_2) { c_byte a = sym_byte("a"); c_short b = sym_short("b");  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 5, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); int e = CALL(s, "c_K5_m2_2", 3); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 5: want = (264149LL + 155LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 7: want = (264149LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K5_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 5, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K5_m2_3", 4); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 5: want = (264149LL + 155LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 7: want = (264149LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K5_K5_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 5, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K5_K5_m2_3", 4); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 5: want = (264149LL + 155LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 7: want = (264149LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K5_m4_1) { c_long a = sym_long("a");  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 5, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); int e = CALL(s, "c_K5_m4_1", 2); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 5: want = (643561LL + 155LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0)); break; case 7: want = (928156LL + 177LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 157LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0))); break; case 8: want = (705580LL + 188LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (928156LL + 178LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 158LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)))); break; case 9: want = (928156LL + 179LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 159LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K5_m4_2) { c_long a = sym_long("a"); c_float f = sym_float("f");  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 5, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); int e = CALL(s, "c_K5_m4_2", 3); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 5: want = (643561LL + 155LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0)); break; case 7: want = (928156LL + 177LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 157LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0))); break; case 8: want = (705580LL + 188LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (928156LL + 178LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 158LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)))); break; case 9: want = (928156LL + 179LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 159LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K5_m4_3) { c_long a = sym_long("a"); c_float f = sym_float("f"); c_double d = sym_double("d");  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 5, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); set_double(3, d); int e = CALL(s, "c_K5_m4_3", 4); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 5: want = (643561LL + 155LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; case 7: want = (928156LL + 177LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 157LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0))); break; case 8: want = (705580LL + 188LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (928156LL + 178LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 158LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)))); break; case 9: want = (928156LL + 179LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 159LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K5_m5_0) {  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 5, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q;  int e = CALL(s, "c_K5_m5_0", 1); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 5: want = (153774LL + 155LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(4) * 7LL); break; case 7: few = 1; break; case 8: few = 1; break; case 9: few = 1; break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K5_m5_1) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 5, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; int e = CALL(s, "c_K5_m5_1", 2); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 5: want = (153774LL + 155LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(4) * 7LL); break; case 7: few = 1; break; case 8: few = 1; break; case 9: few = 1; break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K5_m5_2) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 5, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; set_int(2, a); int e = CALL(s, "c_K5_m5_2", 3); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 5: want = (153774LL + 155LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL); break; case 7: want = (156617LL + 177LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL); break; case 8: want = (225712LL + 188LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL); break; case 9: want = (156617LL + 179LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K5_m6_0) {  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 5, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q;  int e = CALL(s, "c_K5_m6_0", 1); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 5: want = (625290LL + 155LL * 1000003LL + (long long)(-42) * 19LL); break; case 7: want = (300687LL + 177LL * 1000003LL); break; case 8: want = (300687LL + 178LL * 1000003LL); break; case 9: want = (300687LL + 179LL * 1000003LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_m0_1) { c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K6_m0_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (687538LL + 146LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 106LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_m1_1) { c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K6_m1_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (993272LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K6_m1_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (993272LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_K6_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K6_K6_m1_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (993272LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_m2_1) { c_byte a = sym_byte("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); int e = CALL(s, "c_K6_m2_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(-13) * 13LL + (long long)(1000) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(-13) * 13LL + (long long)(1000) * 17LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_m2_2) { c_byte a = sym_byte("a"); c_short b = sym_short("b");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); int e = CALL(s, "c_K6_m2_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K6_m2_3", 4); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_K6_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K6_K6_m2_3", 4); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_m3_1) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; int e = CALL(s, "c_K6_m3_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (730424LL + 166LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL + 5LL * (58683LL + 126LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_m3_2) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; set_int(2, a); int e = CALL(s, "c_K6_m3_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (730424LL + 166LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + 5LL * (58683LL + 126LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_m4_1) { c_long a = sym_long("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); int e = CALL(s, "c_K6_m4_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_m4_2) { c_long a = sym_long("a"); c_float f = sym_float("f");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); int e = CALL(s, "c_K6_m4_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_m4_3) { c_long a = sym_long("a"); c_float f = sym_float("f"); c_double d = sym_double("d");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); set_double(3, d); int e = CALL(s, "c_K6_m4_3", 4); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_m5_0) {  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q;  int e = CALL(s, "c_K6_m5_0", 1); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (555731LL + 106LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_m5_1) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; int e = CALL(s, "c_K6_m5_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (555731LL + 106LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K6_m5_2) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 6 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; set_int(2, a); int e = CALL(s, "c_K6_m5_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 6: want = (555731LL + 106LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_m0_1) { c_int a = sym_int("a");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K7_m0_1", 2); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (230723LL + 177LL * 1000003LL + (long long)(a) * 7LL + (long long)(20) * 19LL); break; case 8: want = (230723LL + 178LL * 1000003LL + (long long)(a) * 7LL + (long long)(20) * 19LL); break; case 9: want = (230723LL + 179LL * 1000003LL + (long long)(a) * 7LL + (long long)(20) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_m1_1) { c_int a = sym_int("a");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K7_m1_1", 2); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (353406LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; case 8: want = (353406LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; case 9: want = (353406LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K7_m1_2", 3); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (353406LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 8: want = (353406LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 9: want = (353406LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_K5_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K7_K5_m1_2", 3); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (353406LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 8: want = (353406LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 9: want = (353406LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_m2_1) { c_byte a = sym_byte("a");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); int e = CALL(s, "c_K7_m2_1", 2); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (264149LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_m2_2) { c_byte a = sym_byte("a"); c_short b = sym_short("b");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); int e = CALL(s, "c_K7_m2_2", 3); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (264149LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K7_m2_3", 4); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (264149LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_K5_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K7_K5_m2_3", 4); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (264149LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_m3_1) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; int e = CALL(s, "c_K7_m3_1", 2); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (904847LL + 177LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL + (long long)(-16) * 19LL); break; case 8: want = (399531LL + 188LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(-326) * 7LL + 5LL * (904847LL + 178LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(-326) * 7LL + (long long)(-16) * 19LL)); break; case 9: want = (904847LL + 179LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL + (long long)(-16) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_m3_2) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; set_int(2, a); int e = CALL(s, "c_K7_m3_2", 3); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (904847LL + 177LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + (long long)(-16) * 19LL); break; case 8: want = (399531LL + 188LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + 5LL * (904847LL + 178LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + (long long)(-16) * 19LL)); break; case 9: want = (904847LL + 179LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + (long long)(-16) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_m4_1) { c_long a = sym_long("a");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); int e = CALL(s, "c_K7_m4_1", 2); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (928156LL + 177LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 157LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0))); break; case 8: want = (705580LL + 188LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (928156LL + 178LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 158LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)))); break; case 9: want = (928156LL + 179LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 159LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_m4_2) { c_long a = sym_long("a"); c_float f = sym_float("f");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); int e = CALL(s, "c_K7_m4_2", 3); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (928156LL + 177LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 157LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0))); break; case 8: want = (705580LL + 188LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (928156LL + 178LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 158LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)))); break; case 9: want = (928156LL + 179LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 159LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_m4_3) { c_long a = sym_long("a"); c_float f = sym_float("f"); c_double d = sym_double("d");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); set_double(3, d); int e = CALL(s, "c_K7_m4_3", 4); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (928156LL + 177LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 157LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0))); break; case 8: want = (705580LL + 188LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (928156LL + 178LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 158LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)))); break; case 9: want = (928156LL + 179LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 159LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_m5_2) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; set_int(2, a); int e = CALL(s, "c_K7_m5_2", 3); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (156617LL + 177LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL); break; case 8: want = (225712LL + 188LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL); break; case 9: want = (156617LL + 179LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K7_m6_0) {  int ri = vp_choice(4, "run-time class"); static const int rk[] = { 7, 8, 9 }; if (ri < 3) mk(s, rk[ri]); void* q = ri < 3 ? ST[0].oval : 0; ST[0].oval = q;  int e = CALL(s, "c_K7_m6_0", 1); if (ri == 3) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 7: want = (300687LL + 177LL * 1000003LL); break; case 8: want = (300687LL + 178LL * 1000003LL); break; case 9: want = (300687LL + 179LL * 1000003LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_m0_1) { c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K8_m0_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (230723LL + 178LL * 1000003LL + (long long)(a) * 7LL + (long long)(20) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_m1_1) { c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K8_m1_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (353406LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K8_m1_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (353406LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_K5_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K8_K5_m1_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (353406LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_m2_1) { c_byte a = sym_byte("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); int e = CALL(s, "c_K8_m2_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_m2_2) { c_byte a = sym_byte("a"); c_short b = sym_short("b");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); int e = CALL(s, "c_K8_m2_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K8_m2_3", 4); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_K5_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K8_K5_m2_3", 4); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_m3_1) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; int e = CALL(s, "c_K8_m3_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (399531LL + 188LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(-326) * 7LL + 5LL * (904847LL + 178LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(-326) * 7LL + (long long)(-16) * 19LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_m3_2) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; set_int(2, a); int e = CALL(s, "c_K8_m3_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (399531LL + 188LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + 5LL * (904847LL + 178LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + (long long)(-16) * 19LL)); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_m4_1) { c_long a = sym_long("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); int e = CALL(s, "c_K8_m4_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (705580LL + 188LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (928156LL + 178LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 158LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_m4_2) { c_long a = sym_long("a"); c_float f = sym_float("f");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); int e = CALL(s, "c_K8_m4_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (705580LL + 188LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (928156LL + 178LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 158LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_m4_3) { c_long a = sym_long("a"); c_float f = sym_float("f"); c_double d = sym_double("d");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); set_double(3, d); int e = CALL(s, "c_K8_m4_3", 4); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (705580LL + 188LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (928156LL + 178LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 158LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_m5_2) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; set_int(2, a); int e = CALL(s, "c_K8_m5_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (225712LL + 188LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K8_m6_0) {  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 8 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q;  int e = CALL(s, "c_K8_m6_0", 1); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 8: want = (300687LL + 178LL * 1000003LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_m0_1) { c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K9_m0_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (230723LL + 179LL * 1000003LL + (long long)(a) * 7LL + (long long)(20) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_m1_1) { c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_K9_m1_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (353406LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K9_m1_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (353406LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_K5_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_K9_K5_m1_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (353406LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_m2_1) { c_byte a = sym_byte("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); int e = CALL(s, "c_K9_m2_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_m2_2) { c_byte a = sym_byte("a"); c_short b = sym_short("b");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); int e = CALL(s, "c_K9_m2_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K9_m2_3", 4); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_K5_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_K9_K5_m2_3", 4); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_m3_1) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; int e = CALL(s, "c_K9_m3_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (904847LL + 179LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL + (long long)(-16) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_m3_2) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; set_int(2, a); int e = CALL(s, "c_K9_m3_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (904847LL + 179LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + (long long)(-16) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_m4_1) { c_long a = sym_long("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); int e = CALL(s, "c_K9_m4_1", 2); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (928156LL + 179LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 159LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_m4_2) { c_long a = sym_long("a"); c_float f = sym_float("f");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); int e = CALL(s, "c_K9_m4_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (928156LL + 179LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 159LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_m4_3) { c_long a = sym_long("a"); c_float f = sym_float("f"); c_double d = sym_double("d");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); set_double(3, d); int e = CALL(s, "c_K9_m4_3", 4); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (928156LL + 179LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 159LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_m5_2) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; set_int(2, a); int e = CALL(s, "c_K9_m5_2", 3); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (156617LL + 179LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(K9_m6_0) {  int ri = vp_choice(2, "run-time class"); static const int rk[] = { 9 }; if (ri < 1) mk(s, rk[ri]); void* q = ri < 1 ? ST[0].oval : 0; ST[0].oval = q;  int e = CALL(s, "c_K9_m6_0", 1); if (ri == 1) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 9: want = (300687LL + 179LL * 1000003LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If0_m0_1) { c_int a = sym_int("a");  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 3, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_If0_m0_1", 2); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (701670LL + 133LL * 1000003LL + (long long)(a) * 7LL); break; case 7: want = (230723LL + 177LL * 1000003LL + (long long)(a) * 7LL + (long long)(20) * 19LL); break; case 8: want = (230723LL + 178LL * 1000003LL + (long long)(a) * 7LL + (long long)(20) * 19LL); break; case 9: want = (230723LL + 179LL * 1000003LL + (long long)(a) * 7LL + (long long)(20) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If0_m6_0) {  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 3, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q;  int e = CALL(s, "c_If0_m6_0", 1); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (972693LL + 133LL * 1000003LL); break; case 7: want = (300687LL + 177LL * 1000003LL); break; case 8: want = (300687LL + 178LL * 1000003LL); break; case 9: want = (300687LL + 179LL * 1000003LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If0_m1_1) { c_int a = sym_int("a");  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 3, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_If0_m1_1", 2); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: few = 1; break; case 7: want = (353406LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; case 8: want = (353406LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; case 9: want = (353406LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If0_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(5, "run-time class"); static const int rk[] = { 3, 7, 8, 9 }; if (ri < 4) mk(s, rk[ri]); void* q = ri < 4 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_If0_m1_2", 3); if (ri == 4) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 3: want = (523255LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL); break; case 7: want = (353406LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 8: want = (353406LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 9: want = (353406LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(can_If0_m0) { int ri = vp_choice(4, "class"); static const int rk[] = { 3, 7, 8, 9 }, can[] = { 1, 1, 1, 1 }; mk(s, rk[ri]); OK(CALL(s, "can_If0_m0", 1)); vp_assert(get_int() == can[ri], "can tells whether the method exists"); }
JOB2(can_If0_m6) { int ri = vp_choice(4, "class"); static const int rk[] = { 3, 7, 8, 9 }, can[] = { 1, 1, 1, 1 }; mk(s, rk[ri]); OK(CALL(s, "can_If0_m6", 1)); vp_assert(get_int() == can[ri], "can tells whether the method exists"); }
JOB2(can_If0_m1) { int ri = vp_choice(4, "class"); static const int rk[] = { 3, 7, 8, 9 }, can[] = { 1, 1, 1, 1 }; mk(s, rk[ri]); OK(CALL(s, "can_If0_m1", 1)); vp_assert(get_int() == can[ri], "can tells whether the method exists"); }
JOB2(If1_m1_1) { c_int a = sym_int("a");  int ri = vp_choice(11, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (ri < 10) mk(s, rk[ri]); void* q = ri < 10 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_If1_m1_1", 2); if (ri == 10) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (372421LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL + (long long)(43) * 19LL); break; case 1: want = (372421LL + 101LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL + (long long)(43) * 19LL); break; case 2: want = (791779LL + 122LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL + (long long)(-40) * 19LL); break; case 3: few = 1; break; case 4: want = (791779LL + 124LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL + (long long)(-40) * 19LL); break; case 5: want = (353406LL + 155LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; case 6: want = (993272LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(77) * 13LL); break; case 7: want = (353406LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; case 8: want = (353406LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; case 9: want = (353406LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(1034) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If1_m1_2) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(11, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (ri < 10) mk(s, rk[ri]); void* q = ri < 10 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); set_long(2, b); int e = CALL(s, "c_If1_m1_2", 3); if (ri == 10) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (372421LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; case 1: want = (372421LL + 101LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; case 2: want = (791779LL + 122LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(-40) * 19LL); break; case 3: want = (523255LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL); break; case 4: want = (791779LL + 124LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(-40) * 19LL); break; case 5: want = (353406LL + 155LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 6: want = (993272LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL); break; case 7: want = (353406LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 8: want = (353406LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 9: want = (353406LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(can_If1_m1) { int ri = vp_choice(10, "class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }, can[] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }; mk(s, rk[ri]); OK(CALL(s, "can_If1_m1", 1)); vp_assert(get_int() == can[ri], "can tells whether the method exists"); }
JOB2(If2_m2_1) { c_byte a = sym_byte("a");  int ri = vp_choice(11, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (ri < 10) mk(s, rk[ri]); void* q = ri < 10 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); int e = CALL(s, "c_If2_m2_1", 2); if (ri == 10) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (440272LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(45) * 13LL + (long long)(906) * 17LL); break; case 1: want = (499696LL + 111LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; case 2: want = (440272LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(45) * 13LL + (long long)(906) * 17LL); break; case 3: want = (634243LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(-12) * 13LL + (long long)(763) * 17LL); break; case 4: want = (425440LL + 144LL * 1000003LL + (long long)(a) * 7LL + (long long)(66) * 13LL + (long long)(1000) * 17LL); break; case 5: want = (264149LL + 155LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(-13) * 13LL + (long long)(1000) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(-13) * 13LL + (long long)(1000) * 17LL)); break; case 7: want = (264149LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(-81) * 13LL + (long long)(1000) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If2_m2_2) { c_byte a = sym_byte("a"); c_short b = sym_short("b");  int ri = vp_choice(11, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (ri < 10) mk(s, rk[ri]); void* q = ri < 10 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); int e = CALL(s, "c_If2_m2_2", 3); if (ri == 10) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (440272LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(906) * 17LL); break; case 1: want = (499696LL + 111LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 2: want = (440272LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(906) * 17LL); break; case 3: want = (634243LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(763) * 17LL); break; case 4: want = (425440LL + 144LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 5: want = (264149LL + 155LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL)); break; case 7: want = (264149LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(1000) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If2_m2_3) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(11, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (ri < 10) mk(s, rk[ri]); void* q = ri < 10 ? ST[0].oval : 0; ST[0].oval = q; set_byte(1, a); set_short(2, b); set_int(3, c); int e = CALL(s, "c_If2_m2_3", 4); if (ri == 10) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (440272LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 1: want = (499696LL + 111LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 2: want = (440272LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 3: want = (634243LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 4: want = (425440LL + 144LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 5: want = (264149LL + 155LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL)); break; case 7: want = (264149LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If2_m3_1) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(11, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (ri < 10) mk(s, rk[ri]); void* q = ri < 10 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; int e = CALL(s, "c_If2_m3_1", 2); if (ri == 10) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (848954LL + 100LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; case 1: want = (848954LL + 101LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; case 2: want = (58683LL + 122LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; case 3: want = (848954LL + 103LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; case 4: want = (58683LL + 124LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL); break; case 5: few = 1; break; case 6: want = (730424LL + 166LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL + 5LL * (58683LL + 126LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL)); break; case 7: want = (904847LL + 177LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL + (long long)(-16) * 19LL); break; case 8: want = (399531LL + 188LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(-326) * 7LL + 5LL * (904847LL + 178LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(-326) * 7LL + (long long)(-16) * 19LL)); break; case 9: want = (904847LL + 179LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(9) * 7LL + (long long)(-16) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If2_m3_2) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(11, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (ri < 10) mk(s, rk[ri]); void* q = ri < 10 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pob; set_int(2, a); int e = CALL(s, "c_If2_m3_2", 3); if (ri == 10) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (848954LL + 100LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 1: want = (848954LL + 101LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 2: want = (58683LL + 122LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 3: want = (848954LL + 103LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 4: want = (58683LL + 124LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 5: few = 1; break; case 6: want = (730424LL + 166LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + 5LL * (58683LL + 126LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL)); break; case 7: want = (904847LL + 177LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + (long long)(-16) * 19LL); break; case 8: want = (399531LL + 188LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + 5LL * (904847LL + 178LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + (long long)(-16) * 19LL)); break; case 9: want = (904847LL + 179LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + (long long)(-16) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If2_m5_0) {  int ri = vp_choice(11, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (ri < 10) mk(s, rk[ri]); void* q = ri < 10 ? ST[0].oval : 0; ST[0].oval = q;  int e = CALL(s, "c_If2_m5_0", 1); if (ri == 10) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (555731LL + 100LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 1: want = (555731LL + 101LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 2: want = (555731LL + 102LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 3: want = (555731LL + 103LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 4: want = (555731LL + 104LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 5: want = (153774LL + 155LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(4) * 7LL); break; case 6: want = (555731LL + 106LL * 1000003LL + ((0) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 7: few = 1; break; case 8: few = 1; break; case 9: few = 1; break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If2_m5_1) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0;  int ri = vp_choice(11, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (ri < 10) mk(s, rk[ri]); void* q = ri < 10 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; int e = CALL(s, "c_If2_m5_1", 2); if (ri == 10) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (555731LL + 100LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 1: want = (555731LL + 101LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 2: want = (555731LL + 102LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 3: want = (555731LL + 103LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 4: want = (555731LL + 104LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 5: want = (153774LL + 155LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(4) * 7LL); break; case 6: want = (555731LL + 106LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(-190) * 7LL + (long long)(9) * 19LL); break; case 7: few = 1; break; case 8: few = 1; break; case 9: few = 1; break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If2_m5_2) { int str = vp_choice(2, "str defined"); void* pstr = str ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(11, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (ri < 10) mk(s, rk[ri]); void* q = ri < 10 ? ST[0].oval : 0; ST[0].oval = q; ST[1].oval = pstr; set_int(2, a); int e = CALL(s, "c_If2_m5_2", 3); if (ri == 10) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (555731LL + 100LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 1: want = (555731LL + 101LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 2: want = (555731LL + 102LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 3: want = (555731LL + 103LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 4: want = (555731LL + 104LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 5: want = (153774LL + 155LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL); break; case 6: want = (555731LL + 106LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL + (long long)(9) * 19LL); break; case 7: want = (156617LL + 177LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL); break; case 8: want = (225712LL + 188LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL); break; case 9: want = (156617LL + 179LL * 1000003LL + ((str) ? 200LL : 0) + (long long)(a) * 7LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(can_If2_m2) { int ri = vp_choice(10, "class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }, can[] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }; mk(s, rk[ri]); OK(CALL(s, "can_If2_m2", 1)); vp_assert(get_int() == can[ri], "can tells whether the method exists"); }
JOB2(can_If2_m3) { int ri = vp_choice(10, "class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }, can[] = { 1, 1, 1, 1, 1, 0, 1, 1, 1, 1 }; mk(s, rk[ri]); OK(CALL(s, "can_If2_m3", 1)); vp_assert(get_int() == can[ri], "can tells whether the method exists"); }
JOB2(can_If2_m5) { int ri = vp_choice(10, "class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }, can[] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }; mk(s, rk[ri]); OK(CALL(s, "can_If2_m5", 1)); vp_assert(get_int() == can[ri], "can tells whether the method exists"); }
JOB2(If3_m4_1) { c_long a = sym_long("a");  int ri = vp_choice(11, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (ri < 10) mk(s, rk[ri]); void* q = ri < 10 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); int e = CALL(s, "c_If3_m4_1", 2); if (ri == 10) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (147135LL + 100LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 1: want = (880807LL + 111LL * 1000003LL + (long long)(a) * 7LL + ((3.5f) == 2.5f ? 3LL : (3.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + (long long)(13) * 19LL); break; case 2: want = (147135LL + 102LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 3: want = (917025LL + 133LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0)); break; case 4: want = (147135LL + 104LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 5: want = (643561LL + 155LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0)); break; case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 7: want = (928156LL + 177LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 157LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0))); break; case 8: want = (705580LL + 188LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (928156LL + 178LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 158LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)))); break; case 9: want = (928156LL + 179LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 159LL * 1000003LL + (long long)(a) * 7LL + ((2.5f) == 2.5f ? 3LL : (2.5f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If3_m4_2) { c_long a = sym_long("a"); c_float f = sym_float("f");  int ri = vp_choice(11, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (ri < 10) mk(s, rk[ri]); void* q = ri < 10 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); int e = CALL(s, "c_If3_m4_2", 3); if (ri == 10) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (147135LL + 100LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 1: want = (880807LL + 111LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + (long long)(13) * 19LL); break; case 2: want = (147135LL + 102LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 3: want = (917025LL + 133LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0)); break; case 4: want = (147135LL + 104LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 5: want = (643561LL + 155LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0)); break; case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)); break; case 7: want = (928156LL + 177LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 157LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0))); break; case 8: want = (705580LL + 188LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (928156LL + 178LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 158LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((-1.25) > 0.5 ? 11LL : 0)))); break; case 9: want = (928156LL + 179LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 159LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((0.75) > 0.5 ? 11LL : 0))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If3_m4_3) { c_long a = sym_long("a"); c_float f = sym_float("f"); c_double d = sym_double("d");  int ri = vp_choice(11, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (ri < 10) mk(s, rk[ri]); void* q = ri < 10 ? ST[0].oval : 0; ST[0].oval = q; set_long(1, a); set_float(2, f); set_double(3, d); int e = CALL(s, "c_If3_m4_3", 4); if (ri == 10) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (147135LL + 100LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; case 1: want = (880807LL + 111LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + (long long)(13) * 19LL); break; case 2: want = (147135LL + 102LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; case 3: want = (917025LL + 133LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; case 4: want = (147135LL + 104LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; case 5: want = (643561LL + 155LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; case 6: want = (147135LL + 106LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)); break; case 7: want = (928156LL + 177LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 157LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0))); break; case 8: want = (705580LL + 188LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (928156LL + 178LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 158LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0)))); break; case 9: want = (928156LL + 179LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0) + 5LL * (643561LL + 159LL * 1000003LL + (long long)(a) * 7LL + ((f) == 2.5f ? 3LL : (f) == 3.5f ? 5LL : 0) + ((d) > 0.5 ? 11LL : 0))); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(If3_m0_1) { c_int a = sym_int("a");  int ri = vp_choice(11, "run-time class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (ri < 10) mk(s, rk[ri]); void* q = ri < 10 ? ST[0].oval : 0; ST[0].oval = q; set_int(1, a); int e = CALL(s, "c_If3_m0_1", 2); if (ri == 10) { vp_assert(e != 0, "a call on undef throws"); vp_assert(spv_exc(s) != 0, "with a message"); } else { long long want = 0; int few = 0; switch (rk[ri]) { case 0: want = (373020LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL); break; case 1: want = (994190LL + 111LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 101LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; case 2: want = (373020LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL); break; case 3: want = (701670LL + 133LL * 1000003LL + (long long)(a) * 7LL); break; case 4: want = (687538LL + 144LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 104LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; case 5: few = 1; break; case 6: want = (687538LL + 146LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 106LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; case 7: want = (230723LL + 177LL * 1000003LL + (long long)(a) * 7LL + (long long)(20) * 19LL); break; case 8: want = (230723LL + 178LL * 1000003LL + (long long)(a) * 7LL + (long long)(20) * 19LL); break; case 9: want = (230723LL + 179LL * 1000003LL + (long long)(a) * 7LL + (long long)(20) * 19LL); break; } if (few) vp_assert(e != 0, "a call without a required argument throws"); else { OK(e); vp_assert(get_long() == want, "the method found by the documented search runs with the given and the default arguments"); vp_observe(get_long()); } } spv_clear_exc(s); }
JOB2(can_If3_m4) { int ri = vp_choice(10, "class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }, can[] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }; mk(s, rk[ri]); OK(CALL(s, "can_If3_m4", 1)); vp_assert(get_int() == can[ri], "can tells whether the method exists"); }
JOB2(can_If3_m0) { int ri = vp_choice(10, "class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }, can[] = { 1, 1, 1, 1, 1, 0, 1, 1, 1, 1 }; mk(s, rk[ri]); OK(CALL(s, "can_If3_m0", 1)); vp_assert(get_int() == can[ri], "can tells whether the method exists"); }
JOB2(s_K0_1) { c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_K0_1", 2)); vp_assert(get_long() == (long long)a * 3 + (long long)-40 * 5 + 8226LL, "a static call runs the named class's method"); }
JOB2(s_K0_2) { c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_K0_2", 2)); vp_assert(get_long() == (long long)a * 3 + (long long)b * 5 + 8226LL, "a static call runs the named class's method"); }
JOB2(s_K1_1) { c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_K1_1", 2)); vp_assert(get_long() == (long long)a * 3 + (long long)46 * 5 + 1339LL, "a static call runs the named class's method"); }
JOB2(s_K1_2) { c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_K1_2", 2)); vp_assert(get_long() == (long long)a * 3 + (long long)b * 5 + 1339LL, "a static call runs the named class's method"); }
JOB2(s_K4_1) { c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_K4_1", 2)); vp_assert(get_long() == (long long)a * 3 + (long long)70 * 5 + 9285LL, "a static call runs the named class's method"); }
JOB2(s_K4_2) { c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_K4_2", 2)); vp_assert(get_long() == (long long)a * 3 + (long long)b * 5 + 9285LL, "a static call runs the named class's method"); }
JOB2(s_K6_1) { c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_K6_1", 2)); vp_assert(get_long() == (long long)a * 3 + (long long)-78 * 5 + 8518LL, "a static call runs the named class's method"); }
JOB2(s_K6_2) { c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_K6_2", 2)); vp_assert(get_long() == (long long)a * 3 + (long long)b * 5 + 8518LL, "a static call runs the named class's method"); }
JOB2(s_K7_1) { c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_K7_1", 2)); vp_assert(get_long() == (long long)a * 3 + (long long)91 * 5 + 6598LL, "a static call runs the named class's method"); }
JOB2(s_K7_2) { c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_K7_2", 2)); vp_assert(get_long() == (long long)a * 3 + (long long)b * 5 + 6598LL, "a static call runs the named class's method"); }
JOB2(s_K8_1) { c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_K8_1", 2)); vp_assert(get_long() == (long long)a * 3 + (long long)66 * 5 + 8512LL, "a static call runs the named class's method"); }
JOB2(s_K8_2) { c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_K8_2", 2)); vp_assert(get_long() == (long long)a * 3 + (long long)b * 5 + 8512LL, "a static call runs the named class's method"); }
JOB2(s_K9_1) { c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_K9_1", 2)); vp_assert(get_long() == (long long)a * 3 + (long long)-89 * 5 + 9796LL, "a static call runs the named class's method"); }
JOB2(s_K9_2) { c_int a = sym_int("a"), b = sym_int("b"); set_int(0, a); set_int(1, b); OK(CALL(s, "s_K9_2", 2)); vp_assert(get_long() == (long long)a * 3 + (long long)b * 5 + 9796LL, "a static call runs the named class's method"); }
JOB2(native_m0) { c_int a = sym_int("a");  int ri = vp_choice(9, "class"); static const int rk[] = { 0, 1, 2, 3, 4, 6, 7, 8, 9 }; mk(s, rk[ri]); set_int(1, a); int e = 0; ENV->call_instance_method_by_name(ENV, ST, "m0", 2, &e, "f", "F", 1); OK(e); long long want = 0; switch (rk[ri]) { case 0: want = (373020LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL); break; case 1: want = (994190LL + 111LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 101LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; case 2: want = (373020LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL); break; case 3: want = (701670LL + 133LL * 1000003LL + (long long)(a) * 7LL); break; case 4: want = (687538LL + 144LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 104LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; case 6: want = (687538LL + 146LL * 1000003LL + (long long)(a) * 7LL + 5LL * (373020LL + 106LL * 1000003LL + (long long)(a) * 7LL + (long long)(-17) * 19LL)); break; case 7: want = (230723LL + 177LL * 1000003LL + (long long)(a) * 7LL + (long long)(20) * 19LL); break; case 8: want = (230723LL + 178LL * 1000003LL + (long long)(a) * 7LL + (long long)(20) * 19LL); break; case 9: want = (230723LL + 179LL * 1000003LL + (long long)(a) * 7LL + (long long)(20) * 19LL); break; } vp_assert(get_long() == want, "a native call by name finds the same method"); }
JOB2(native_m1) { c_int a = sym_int("a"); c_long b = sym_long("b");  int ri = vp_choice(10, "class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; mk(s, rk[ri]); set_int(1, a); set_long(2, b); int e = 0; ENV->call_instance_method_by_name(ENV, ST, "m1", 3, &e, "f", "F", 1); OK(e); long long want = 0; switch (rk[ri]) { case 0: want = (372421LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; case 1: want = (372421LL + 101LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(43) * 19LL); break; case 2: want = (791779LL + 122LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(-40) * 19LL); break; case 3: want = (523255LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL); break; case 4: want = (791779LL + 124LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(-40) * 19LL); break; case 5: want = (353406LL + 155LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 6: want = (993272LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL); break; case 7: want = (353406LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 8: want = (353406LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; case 9: want = (353406LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(39) * 19LL); break; } vp_assert(get_long() == want, "a native call by name finds the same method"); }
JOB2(native_m2) { c_byte a = sym_byte("a"); c_short b = sym_short("b"); c_int c = sym_int("c");  int ri = vp_choice(10, "class"); static const int rk[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }; mk(s, rk[ri]); set_byte(1, a); set_short(2, b); set_int(3, c); int e = 0; ENV->call_instance_method_by_name(ENV, ST, "m2", 4, &e, "f", "F", 1); OK(e); long long want = 0; switch (rk[ri]) { case 0: want = (440272LL + 100LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 1: want = (499696LL + 111LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 2: want = (440272LL + 102LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 3: want = (634243LL + 133LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 4: want = (425440LL + 144LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 5: want = (264149LL + 155LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 6: want = (710493LL + 166LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL + 5LL * (425440LL + 146LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL)); break; case 7: want = (264149LL + 157LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 8: want = (264149LL + 158LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; case 9: want = (264149LL + 159LL * 1000003LL + (long long)(a) * 7LL + (long long)(b) * 13LL + (long long)(c) * 17LL); break; } vp_assert(get_long() == want, "a native call by name finds the same method"); }
JOB2(native_m3) { int ob = vp_choice(2, "ob defined"); void* pob = ob ? spv_str(s, "xy", 2) : 0; c_int a = sym_int("a");  int ri = vp_choice(9, "class"); static const int rk[] = { 0, 1, 2, 3, 4, 6, 7, 8, 9 }; mk(s, rk[ri]); ST[1].oval = pob; set_int(2, a); int e = 0; ENV->call_instance_method_by_name(ENV, ST, "m3", 3, &e, "f", "F", 1); OK(e); long long want = 0; switch (rk[ri]) { case 0: want = (848954LL + 100LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 1: want = (848954LL + 101LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 2: want = (58683LL + 122LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 3: want = (848954LL + 103LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 4: want = (58683LL + 124LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL); break; case 6: want = (730424LL + 166LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + 5LL * (58683LL + 126LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL)); break; case 7: want = (904847LL + 177LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + (long long)(-16) * 19LL); break; case 8: want = (399531LL + 188LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + 5LL * (904847LL + 178LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + (long long)(-16) * 19LL)); break; case 9: want = (904847LL + 179LL * 1000003LL + ((ob) ? 100LL : 0) + (long long)(a) * 7LL + (long long)(-16) * 19LL); break; } vp_assert(get_long() == want, "a native call by name finds the same method"); }
JOB2(depth_rec) { static const int at[] = { 1, 500, 997, 998, 999, 1000, 1001, 1500 }; int n = at[vp_choice(8, "depth")]; for (int round = 0; round < 2; round++) { set_int(0, n); int e = CALL(s, "rec", 1); int deep = n + 1 > 1000; vp_assert(!e == !deep, "the call depth limit is 1000"); if (e) { vp_assert(spv_exc_is(s, "Deep recursion"), "message"); spv_clear_exc(s); } else vp_assert(get_int() == n, "value of the recursion"); } }
JOB2(depth_recp) { static const int at[] = { 1, 500, 997, 998, 999, 1000, 1001, 1500 }; int n = at[vp_choice(8, "depth")]; for (int round = 0; round < 2; round++) { set_int(0, n); int e = CALL(s, "recp", 1); int deep = n + 1 > 1000; vp_assert(!e == !deep, "the call depth limit is 1000"); if (e) { vp_assert(spv_exc_is(s, "Deep recursion"), "message"); spv_clear_exc(s); } else vp_assert(get_int() == n, "value of the recursion"); } }
JOB2(depth_reca) { static const int at[] = { 1, 500, 997, 998, 999, 1000, 1001, 1500 }; int n = at[vp_choice(8, "depth")]; for (int round = 0; round < 2; round++) { set_int(0, n); int e = CALL(s, "reca", 1); int deep = n + 1 > 1000; vp_assert(!e == !deep, "the call depth limit is 1000"); if (e) { vp_assert(spv_exc_is(s, "Deep recursion"), "message"); spv_clear_exc(s); } else vp_assert(get_int() == n, "value of the recursion"); } }
JOB2(depth_safe) { static const int at[] = { 1, 500, 997, 998, 999, 1000, 1001, 1500 }; int n = at[vp_choice(8, "depth")]; for (int round = 0; round < 2; round++) { set_int(0, n); int e = CALL(s, "safe", 1); int deep = n + 1 + 1 > 1000; OK(e); vp_assert(get_int() == (deep ? -2 : n), "an exception of the depth limit is caught and the variables of the caller are intact"); } }
