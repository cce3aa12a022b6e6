/*vp {"pc":"VP","time":300,"replays":40,"bounds":["436 generated programs: every statement kind inside every other, every jump out of the nestings, and deeper random nestings; every value of three int arguments; loops of up to 3 iterations"]} */
#include "lang.h"
static int T;
static int p(int k, int v) { T = T * 31 + k; return v; }
static int q(int k, int v) { T = T * 31 + k; return v + 1; }
#include "C33/ref.h"
static void run(SPV* s, int lo, int hi) { int n = lo + vp_choice(hi - lo, "program"); int a = sym_int("a"), b = sym_int("b"), c = sym_int("c"); char m[8]; snprintf(m, sizeof m, "p%d", n); BAL_BEGIN; ST[0].ival = 0; OK(CALL(s, "SET_T", 1)); ST[0].ival = a; ST[1].ival = b; ST[2].ival = c; int e = CALL(s, m, 3), got = get_int(); OK(CALL(s, "T", 0)); int t = get_int(); vp_assert(!e || spv_exc(s), "a method that throws sets the exception"); BAL_END T = 0; int err = 0, want = REF[n](a, b, c, &err); vp_assert((e != 0) == err, "the program throws exactly if it should"); vp_assert(t == T, "exactly the selected statements are executed, in order"); if (!err) vp_assert(got == want, "the program returns from the right statement"); vp_reach("done"); }
#define J(k) JOB2(g##k) { run(s, NPROG * k / 16, NPROG * (k + 1) / 16); }
J(0) J(1) J(2) J(3) J(4) J(5) J(6) J(7) J(8) J(9) J(10) J(11) J(12) J(13) J(14) J(15)
