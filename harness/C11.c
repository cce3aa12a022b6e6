/*vp {"pc":"VP","time":150,"bounds":["80 random programs of 12..60 statements (nested eval, die with message, class or id, failing operators, native failures, calls, loops, next, last, return) with every combination of their 6 conditions","die with every 32-bit id other than 0"]} */
// generated by tools/gen_*.py
#include "lang.h"

typedef struct { int ret, eid; const char* msg; uint64_t T, D; } Exp;
static void run(SPV* s, const char* m, const Exp* ex) { OK(CALL(s, "reset", 0)); OK(CALL(s, "eids", 0)); int ids[4]; memcpy(ids, ENV->get_elems_int(ENV, ST, ST[0].oval), 16); int sc = ENV->enter_scope(ENV, ST);
  c_int x = sym_int("x"); vp_assume((x >= 0) & (x < 64));
  /* the first run may enlarge the frame storage, which the stack keeps */ set_int(0, x); CALL(s, m, 1); spv_clear_exc(s); OK(CALL(s, "reset", 0)); spv_clear_exc(s); ENV->leave_scope(ENV, ST, sc); OK(CALL(s, "reset", 0));
  BAL_BEGIN set_int(0, x); int e = CALL(s, m, 1); int rv = get_int(); const Exp* E = &ex[vp_pick(x)];
  vp_assert(!e == !E->eid, "an exception leaves the method exactly when it is thrown and not caught"); vp_assert(e == ids[E->eid], "error id of the exception"); vp_assert(e || rv == E->ret, "return value");
  if (e) { vp_assert(spv_exc(s) != 0, "the exception variable is set"); const char* c = spv_exc_chars(s); if (E->msg[0] != '*') { size_t n = strlen(E->msg); vp_assert(strncmp(c, E->msg, n) == 0 && c[n] == (E->msg[0] == 'E' ? '\n' : ':'), "message of the exception"); } else vp_assert(c[0] != 0 && c[0] != 'M', "message of a built-in failure"); vp_assert(strstr(c, m) != 0, "the stack trace names the method"); }
  spv_clear_exc(s); OK(CALL(s, "getT", 0)); vp_assert((uint64_t)get_long() == E->T, "the statements executed are exactly those of the documented semantics"); OK(CALL(s, "dropG", 0)); OK(CALL(s, "getD", 0)); vp_assert((uint64_t)get_long() == E->D, "every object was destroyed exactly once"); vp_observe(get_long()); BAL_END }
static const Exp E0[] = { { 0, 2, "M45", 6809311813505217636ULL, 0ULL }, { 0, 2, "M45", 6809311841906288740ULL, 0ULL }, { 0, 2, "M45", 6809311813505217636ULL, 0ULL }, { 0, 2, "M45", 6809311841906288740ULL, 0ULL }, { 0, 1, "M13", 32779ULL, 0ULL }, { 0, 1, "Error", 34ULL, 0ULL }, { 0, 1, "M13", 43ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 2, "M45", 621019986834760260ULL, 0ULL }, { 0, 2, "M45", 621020015235831364ULL, 0ULL }, { 26, 0, "", 17952ULL, 0ULL }, { 0, 3, "M25", 17952ULL, 0ULL }, { 0, 1, "M13", 31495144ULL, 0ULL }, { 0, 1, "Error", 34ULL, 0ULL }, { 0, 1, "M13", 35848ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 30, 0, "", 0ULL, 0ULL }, { 30, 0, "", 0ULL, 0ULL }, { 30, 0, "", 0ULL, 0ULL }, { 30, 0, "", 0ULL, 0ULL }, { 0, 1, "M11", 1057ULL, 0ULL }, { 0, 1, "Error", 34ULL, 0ULL }, { 30, 0, "", 33ULL, 0ULL }, { 30, 0, "", 33ULL, 0ULL }, { 39, 0, "", 13437400490721665860ULL, 0ULL }, { 39, 0, "", 13437400490751219524ULL, 0ULL }, { 26, 0, "", 17952ULL, 0ULL }, { 0, 3, "M25", 17952ULL, 0ULL }, { 0, 1, "M11", 1015972ULL, 0ULL }, { 0, 1, "Error", 34ULL, 0ULL }, { 26, 0, "", 1001055ULL, 0ULL }, { 0, 3, "M25", 1001055ULL, 0ULL }, { 7, 0, "", 6566691658902906205ULL, 0ULL }, { 32, 0, "", 31ULL, 0ULL }, { 7, 0, "", 6566691658902906205ULL, 0ULL }, { 32, 0, "", 31ULL, 0ULL }, { 0, 1, "M13", 1066ULL, 0ULL }, { 0, 1, "Error", 34ULL, 0ULL }, { 0, 1, "M13", 43ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "M28", 17952ULL, 0ULL }, { 0, 1, "M28", 17952ULL, 0ULL }, { 26, 0, "", 17952ULL, 0ULL }, { 0, 3, "M25", 17952ULL, 0ULL }, { 0, 1, "M13", 1018951ULL, 0ULL }, { 0, 1, "Error", 34ULL, 0ULL }, { 0, 1, "M13", 35848ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 30, 0, "", 0ULL, 0ULL }, { 30, 0, "", 0ULL, 0ULL }, { 30, 0, "", 0ULL, 0ULL }, { 30, 0, "", 0ULL, 0ULL }, { 0, 1, "M11", 34ULL, 0ULL }, { 0, 1, "Error", 34ULL, 0ULL }, { 30, 0, "", 33ULL, 0ULL }, { 30, 0, "", 33ULL, 0ULL }, { 0, 1, "M28", 17952ULL, 0ULL }, { 0, 1, "M28", 17952ULL, 0ULL }, { 26, 0, "", 17952ULL, 0ULL }, { 0, 3, "M25", 17952ULL, 0ULL }, { 0, 1, "M11", 32869ULL, 0ULL }, { 0, 1, "Error", 34ULL, 0ULL }, { 26, 0, "", 1001055ULL, 0ULL }, { 0, 3, "M25", 1001055ULL, 0ULL } };
JOB2(prog0) { run(s, "p0_main", E0); }
static const Exp E1[] = { { 7, 0, "", 28430593985ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430863345ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430593985ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430863345ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430953773ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430803701ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430953773ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430803701ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430624769ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430833523ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430624769ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430833523ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430624769ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430803701ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430624769ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 7, 0, "", 28430803701ULL, 0ULL }, { 4, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL }, { 3, 0, "", 30785ULL, 0ULL } };
JOB2(prog1) { run(s, "p1_main", E1); }
static const Exp E2[] = { { 7, 0, "", 602669399623ULL, 0ULL }, { 7, 0, "", 602669399623ULL, 0ULL }, { 7, 0, "", 602669399623ULL, 0ULL }, { 7, 0, "", 602669399623ULL, 0ULL }, { 0, 3, "M30", 2540955929935064ULL, 0ULL }, { 0, 3, "M30", 3487039003518613909ULL, 0ULL }, { 0, 3, "M30", 2540979893338808ULL, 0ULL }, { 0, 3, "M30", 3487039027482017653ULL, 0ULL }, { 24, 0, "", 21ULL, 0ULL }, { 24, 0, "", 21ULL, 0ULL }, { 7, 0, "", 602669399623ULL, 0ULL }, { 7, 0, "", 602669399623ULL, 0ULL }, { 24, 0, "", 92355ULL, 0ULL }, { 24, 0, "", 5563124895953954503ULL, 0ULL }, { 0, 3, "M30", 2540952380724697ULL, 0ULL }, { 0, 3, "M30", 2496756582578654037ULL, 0ULL }, { 7, 0, "", 602669399623ULL, 0ULL }, { 7, 0, "", 602669399623ULL, 0ULL }, { 7, 0, "", 578705995879ULL, 0ULL }, { 7, 0, "", 578705995879ULL, 0ULL }, { 0, 3, "M30", 2540955929935064ULL, 0ULL }, { 0, 3, "M30", 3487039003518613909ULL, 0ULL }, { 0, 3, "M30", 2540955929935064ULL, 0ULL }, { 0, 3, "M30", 3487039003518613909ULL, 0ULL }, { 24, 0, "", 21ULL, 0ULL }, { 24, 0, "", 21ULL, 0ULL }, { 7, 0, "", 578705995879ULL, 0ULL }, { 7, 0, "", 578705995879ULL, 0ULL }, { 24, 0, "", 92355ULL, 0ULL }, { 24, 0, "", 5563124895953954503ULL, 0ULL }, { 0, 3, "M30", 2540928417320953ULL, 0ULL }, { 0, 3, "M30", 2496756558615250293ULL, 0ULL }, { 7, 0, "", 602669399623ULL, 0ULL }, { 7, 0, "", 602669399623ULL, 0ULL }, { 7, 0, "", 578705995879ULL, 0ULL }, { 7, 0, "", 578705995879ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 24, 0, "", 21ULL, 0ULL }, { 24, 0, "", 21ULL, 0ULL }, { 7, 0, "", 578705995879ULL, 0ULL }, { 7, 0, "", 578705995879ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 7, 0, "", 602669399623ULL, 0ULL }, { 7, 0, "", 602669399623ULL, 0ULL }, { 7, 0, "", 578705995879ULL, 0ULL }, { 7, 0, "", 578705995879ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 24, 0, "", 21ULL, 0ULL }, { 24, 0, "", 21ULL, 0ULL }, { 7, 0, "", 578705995879ULL, 0ULL }, { 7, 0, "", 578705995879ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL }, { 0, 1, "M2", 96ULL, 0ULL } };
JOB2(prog2) { run(s, "p2_main", E2); }
static const Exp E3[] = { { 0, 2, "M57", 8530361981568760289ULL, 0ULL }, { 4, 0, "", 2ULL, 0ULL }, { 0, 2, "M57", 3189370681092655272ULL, 0ULL }, { 0, 1, "*", 1623122759710205376ULL, 0ULL }, { 0, 1, "M50", 10120645939176664289ULL, 0ULL }, { 4, 0, "", 2ULL, 0ULL }, { 0, 1, "M50", 423105156441360216ULL, 0ULL }, { 0, 1, "*", 13476835720500850494ULL, 0ULL }, { 0, 2, "M47", 14115252279918326888ULL, 0ULL }, { 4, 0, "", 2ULL, 0ULL }, { 0, 2, "M47", 17759839960460430984ULL, 0ULL }, { 0, 1, "*", 1623122759710205376ULL, 0ULL }, { 0, 2, "M47", 9252316356284514141ULL, 0ULL }, { 4, 0, "", 2ULL, 0ULL }, { 0, 2, "M47", 2393873595202566662ULL, 0ULL }, { 0, 1, "*", 13476835720500850494ULL, 0ULL }, { 0, 2, "M57", 185225617926318049ULL, 0ULL }, { 4, 0, "", 2ULL, 0ULL }, { 0, 2, "M57", 14800029167751531370ULL, 0ULL }, { 0, 1, "*", 13476042505183213374ULL, 0ULL }, { 0, 1, "M50", 10120645939176664289ULL, 0ULL }, { 4, 0, "", 2ULL, 0ULL }, { 0, 1, "M50", 423105156441360216ULL, 0ULL }, { 0, 1, "*", 13476835720500850494ULL, 0ULL }, { 0, 2, "M47", 276399435191440996ULL, 0ULL }, { 4, 0, "", 2ULL, 0ULL }, { 0, 2, "M47", 8002907420654797318ULL, 0ULL }, { 0, 1, "*", 13476042505183213374ULL, 0ULL }, { 0, 2, "M47", 9252316356284514141ULL, 0ULL }, { 4, 0, "", 2ULL, 0ULL }, { 0, 2, "M47", 2393873595202566662ULL, 0ULL }, { 0, 1, "*", 13476835720500850494ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL } };
JOB2(prog3) { run(s, "p3_main", E3); }
static const Exp E4[] = { { 7, 0, "", 1918153127ULL, 0ULL }, { 0, 1, "*", 61906691ULL, 0ULL }, { 11, 0, "", 60584ULL, 0ULL }, { 0, 1, "*", 1954ULL, 0ULL }, { 7, 0, "", 1918153127ULL, 0ULL }, { 0, 1, "*", 61906691ULL, 0ULL }, { 11, 0, "", 60584ULL, 0ULL }, { 0, 1, "*", 1954ULL, 0ULL }, { 0, 1, "*", 1843345152422ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 11, 0, "", 58218599ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "*", 1843345152422ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 11, 0, "", 58218599ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 7, 0, "", 1918153127ULL, 0ULL }, { 0, 1, "*", 61906691ULL, 0ULL }, { 11, 0, "", 60584ULL, 0ULL }, { 0, 1, "*", 1954ULL, 0ULL }, { 7, 0, "", 1918153127ULL, 0ULL }, { 0, 1, "*", 61906691ULL, 0ULL }, { 11, 0, "", 60584ULL, 0ULL }, { 0, 1, "*", 1954ULL, 0ULL }, { 0, 1, "*", 1843345152422ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 11, 0, "", 58218599ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "*", 1843345152422ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 11, 0, "", 58218599ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 7, 0, "", 2025ULL, 0ULL }, { 0, 1, "*", 65ULL, 0ULL }, { 11, 0, "", 2025ULL, 0ULL }, { 0, 1, "*", 65ULL, 0ULL }, { 7, 0, "", 2025ULL, 0ULL }, { 0, 1, "*", 65ULL, 0ULL }, { 11, 0, "", 2025ULL, 0ULL }, { 0, 1, "*", 65ULL, 0ULL }, { 0, 1, "*", 1943400ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 11, 0, "", 1943400ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "*", 1943400ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 11, 0, "", 1943400ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 7, 0, "", 2025ULL, 0ULL }, { 0, 1, "*", 65ULL, 0ULL }, { 11, 0, "", 2025ULL, 0ULL }, { 0, 1, "*", 65ULL, 0ULL }, { 7, 0, "", 2025ULL, 0ULL }, { 0, 1, "*", 65ULL, 0ULL }, { 11, 0, "", 2025ULL, 0ULL }, { 0, 1, "*", 65ULL, 0ULL }, { 0, 1, "*", 1943400ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 11, 0, "", 1943400ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "*", 1943400ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 11, 0, "", 1943400ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL } };
JOB2(prog4) { run(s, "p4_main", E4); }
static const Exp E5[] = { { 7, 0, "", 433475872059066325ULL, 0ULL }, { 0, 2, "M22", 528ULL, 0ULL }, { 7, 0, "", 13429501990426646981ULL, 0ULL }, { 0, 2, "M22", 488112658ULL, 0ULL }, { 0, 1, "*", 528ULL, 0ULL }, { 0, 2, "M22", 528ULL, 0ULL }, { 0, 1, "*", 16384ULL, 0ULL }, { 0, 2, "M22", 488112658ULL, 0ULL }, { 0, 2, "M25", 888391524341ULL, 0ULL }, { 0, 2, "M22", 962284ULL, 0ULL }, { 0, 2, "M25", 888391524341ULL, 0ULL }, { 0, 2, "M22", 962284ULL, 0ULL }, { 0, 1, "*", 28657791107ULL, 0ULL }, { 0, 2, "M22", 962284ULL, 0ULL }, { 0, 1, "*", 28657791107ULL, 0ULL }, { 0, 2, "M22", 962284ULL, 0ULL }, { 35, 0, "", 14550564669198ULL, 0ULL }, { 35, 0, "", 15750855ULL, 0ULL }, { 0, 1, "Error", 14541631419780ULL, 0ULL }, { 0, 1, "Error", 469076265021ULL, 0ULL }, { 0, 1, "*", 528ULL, 0ULL }, { 35, 0, "", 15750855ULL, 0ULL }, { 0, 1, "*", 16384ULL, 0ULL }, { 0, 1, "Error", 469076265021ULL, 0ULL }, { 0, 2, "M25", 888391524341ULL, 0ULL }, { 35, 0, "", 28667423851ULL, 0ULL }, { 0, 2, "M25", 888391524341ULL, 0ULL }, { 0, 1, "Error", 924755607ULL, 0ULL }, { 0, 1, "*", 28657791107ULL, 0ULL }, { 35, 0, "", 28667423851ULL, 0ULL }, { 0, 1, "*", 28657791107ULL, 0ULL }, { 0, 1, "Error", 924755607ULL, 0ULL }, { 7, 0, "", 13983092647114333ULL, 0ULL }, { 0, 2, "M22", 528ULL, 0ULL }, { 0, 3, "M20", 16384ULL, 0ULL }, { 0, 3, "M20", 488112658ULL, 0ULL }, { 0, 1, "*", 528ULL, 0ULL }, { 0, 2, "M22", 528ULL, 0ULL }, { 0, 3, "M20", 16384ULL, 0ULL }, { 0, 3, "M20", 488112658ULL, 0ULL }, { 0, 1, "Error", 28657791107ULL, 0ULL }, { 0, 1, "Error", 962284ULL, 0ULL }, { 0, 1, "Error", 28657791107ULL, 0ULL }, { 0, 1, "Error", 962284ULL, 0ULL }, { 0, 1, "Error", 28657791107ULL, 0ULL }, { 0, 1, "Error", 962284ULL, 0ULL }, { 0, 1, "Error", 28657791107ULL, 0ULL }, { 0, 1, "Error", 962284ULL, 0ULL }, { 35, 0, "", 14550564669198ULL, 0ULL }, { 35, 0, "", 15750855ULL, 0ULL }, { 0, 3, "M20", 16384ULL, 0ULL }, { 0, 3, "M20", 488112658ULL, 0ULL }, { 0, 1, "*", 528ULL, 0ULL }, { 35, 0, "", 15750855ULL, 0ULL }, { 0, 3, "M20", 16384ULL, 0ULL }, { 0, 3, "M20", 488112658ULL, 0ULL }, { 0, 1, "Error", 28657791107ULL, 0ULL }, { 0, 1, "Error", 962284ULL, 0ULL }, { 0, 1, "Error", 28657791107ULL, 0ULL }, { 0, 1, "Error", 962284ULL, 0ULL }, { 0, 1, "Error", 28657791107ULL, 0ULL }, { 0, 1, "Error", 962284ULL, 0ULL }, { 0, 1, "Error", 28657791107ULL, 0ULL }, { 0, 1, "Error", 962284ULL, 0ULL } };
JOB2(prog5) { run(s, "p5_main", E5); }
static const Exp E6[] = { { 7, 0, "", 15784333048167777769ULL, 0ULL }, { 7, 0, "", 15784333048167777769ULL, 0ULL }, { 7, 0, "", 18209494385840037254ULL, 0ULL }, { 7, 0, "", 18209494385840037254ULL, 0ULL }, { 7, 0, "", 8328017206222525804ULL, 0ULL }, { 7, 0, "", 8328017206222525804ULL, 0ULL }, { 7, 0, "", 3243769528599883849ULL, 0ULL }, { 7, 0, "", 3243769528599883849ULL, 0ULL }, { 7, 0, "", 10999684497593116506ULL, 0ULL }, { 7, 0, "", 8948768964639282772ULL, 0ULL }, { 7, 0, "", 10999684412392763130ULL, 0ULL }, { 7, 0, "", 8948768879438929396ULL, 0ULL }, { 7, 0, "", 9386219295294135993ULL, 0ULL }, { 7, 0, "", 1545824580979041847ULL, 0ULL }, { 7, 0, "", 10115271272356758966ULL, 0ULL }, { 7, 0, "", 9934923178972093087ULL, 0ULL }, { 0, 1, "*", 18360859847079171813ULL, 0ULL }, { 0, 1, "*", 18360859847079171813ULL, 0ULL }, { 0, 1, "*", 8323134430453684136ULL, 0ULL }, { 0, 1, "*", 8323134430453684136ULL, 0ULL }, { 0, 1, "*", 3243927018540976898ULL, 0ULL }, { 0, 1, "*", 3243927018540976898ULL, 0ULL }, { 0, 1, "*", 8435425372920438917ULL, 0ULL }, { 0, 1, "*", 8435425372920438917ULL, 0ULL }, { 7, 0, "", 29317607633ULL, 0ULL }, { 7, 0, "", 29317607633ULL, 0ULL }, { 7, 0, "", 29317607633ULL, 0ULL }, { 7, 0, "", 29317607633ULL, 0ULL }, { 7, 0, "", 29317607633ULL, 0ULL }, { 7, 0, "", 29317607633ULL, 0ULL }, { 7, 0, "", 29317607633ULL, 0ULL }, { 7, 0, "", 29317607633ULL, 0ULL }, { 0, 3, "M47", 18360859580897732730ULL, 0ULL }, { 0, 3, "M47", 18360859580897732730ULL, 0ULL }, { 0, 3, "M47", 8323134164272245053ULL, 0ULL }, { 0, 3, "M47", 8323134164272245053ULL, 0ULL }, { 0, 3, "M47", 18360859580897732730ULL, 0ULL }, { 0, 3, "M47", 18360859580897732730ULL, 0ULL }, { 0, 3, "M47", 8323134164272245053ULL, 0ULL }, { 0, 3, "M47", 8323134164272245053ULL, 0ULL }, { 0, 3, "M47", 27075395571098866ULL, 0ULL }, { 0, 3, "M47", 27075395571098866ULL, 0ULL }, { 0, 3, "M47", 27075395571098866ULL, 0ULL }, { 0, 3, "M47", 27075395571098866ULL, 0ULL }, { 0, 3, "M47", 9639862365512547787ULL, 0ULL }, { 0, 3, "M47", 10324925599516783727ULL, 0ULL }, { 0, 3, "M47", 16152530611503866113ULL, 0ULL }, { 0, 3, "M47", 8632011903381095480ULL, 0ULL }, { 0, 1, "*", 8328017178681351732ULL, 0ULL }, { 0, 1, "*", 8328017178681351732ULL, 0ULL }, { 0, 1, "*", 3243769501058709777ULL, 0ULL }, { 0, 1, "*", 3243769501058709777ULL, 0ULL }, { 0, 1, "*", 8328017178681351732ULL, 0ULL }, { 0, 1, "*", 8328017178681351732ULL, 0ULL }, { 0, 1, "*", 3243769501058709777ULL, 0ULL }, { 0, 1, "*", 3243769501058709777ULL, 0ULL }, { 0, 3, "M47", 873399857119772ULL, 0ULL }, { 0, 3, "M47", 873399857119772ULL, 0ULL }, { 0, 3, "M47", 873399857119772ULL, 0ULL }, { 0, 3, "M47", 873399857119772ULL, 0ULL }, { 0, 3, "M47", 873399857119772ULL, 0ULL }, { 0, 3, "M47", 873399857119772ULL, 0ULL }, { 0, 3, "M47", 873399857119772ULL, 0ULL }, { 0, 3, "M47", 873399857119772ULL, 0ULL } };
JOB2(prog6) { run(s, "p6_main", E6); }
static const Exp E7[] = { { 7, 0, "", 13078567290641427931ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M6", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 60, 0, "", 9039202357395596482ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M6", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 16535162592680003973ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M6", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 60, 0, "", 17511857196575632254ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M6", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 13672843439980858688ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M6", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 60, 0, "", 7911994956267611660ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M6", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 13672843439980858688ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M6", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 9, 0, "", 56613262584802014ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M6", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL } };
JOB2(prog7) { run(s, "p7_main", E7); }
static const Exp E8[] = { { 0, 2, "M31", 16655666282884907323ULL, 0ULL }, { 0, 2, "M31", 16655666282884907323ULL, 0ULL }, { 0, 1, "Error", 16655666282884907319ULL, 0ULL }, { 0, 2, "M31", 12768185946214683351ULL, 0ULL }, { 21, 0, "", 55559920576559ULL, 0ULL }, { 0, 1, "*", 2019ULL, 0ULL }, { 21, 0, "", 55559920576559ULL, 0ULL }, { 0, 1, "*", 2019ULL, 0ULL }, { 0, 1, "M11", 29615270ULL, 0ULL }, { 0, 1, "M11", 29615270ULL, 0ULL }, { 0, 1, "M11", 29615270ULL, 0ULL }, { 0, 1, "M11", 29615270ULL, 0ULL }, { 21, 0, "", 55559920576559ULL, 0ULL }, { 0, 1, "*", 2019ULL, 0ULL }, { 21, 0, "", 55559920576559ULL, 0ULL }, { 0, 1, "*", 2019ULL, 0ULL }, { 0, 2, "M31", 16655666282884907323ULL, 0ULL }, { 0, 2, "M31", 16655666282884907323ULL, 0ULL }, { 0, 1, "Error", 16655666282884907319ULL, 0ULL }, { 0, 2, "M31", 12768185946214683351ULL, 0ULL }, { 21, 0, "", 55559920576559ULL, 0ULL }, { 0, 1, "*", 2019ULL, 0ULL }, { 21, 0, "", 55559920576559ULL, 0ULL }, { 0, 1, "*", 2019ULL, 0ULL }, { 0, 1, "M11", 29615270ULL, 0ULL }, { 0, 1, "M11", 29615270ULL, 0ULL }, { 0, 1, "M11", 29615270ULL, 0ULL }, { 0, 1, "M11", 29615270ULL, 0ULL }, { 21, 0, "", 55559920576559ULL, 0ULL }, { 0, 1, "*", 2019ULL, 0ULL }, { 21, 0, "", 55559920576559ULL, 0ULL }, { 0, 1, "*", 2019ULL, 0ULL }, { 0, 2, "M31", 16655666282884907323ULL, 0ULL }, { 0, 2, "M31", 16655666282884907323ULL, 0ULL }, { 0, 1, "Error", 16655666282884907319ULL, 0ULL }, { 0, 2, "M31", 12768185946214683351ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 0, 1, "*", 29615270ULL, 0ULL }, { 0, 1, "*", 29615270ULL, 0ULL }, { 0, 1, "*", 29615270ULL, 0ULL }, { 0, 1, "*", 29615270ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 0, 2, "M31", 16655666282884907323ULL, 0ULL }, { 0, 2, "M31", 16655666282884907323ULL, 0ULL }, { 0, 1, "Error", 16655666282884907319ULL, 0ULL }, { 0, 2, "M31", 12768185946214683351ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 0, 1, "*", 29615270ULL, 0ULL }, { 0, 1, "*", 29615270ULL, 0ULL }, { 0, 1, "*", 29615270ULL, 0ULL }, { 0, 1, "*", 29615270ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL }, { 21, 0, "", 1792027408177ULL, 0ULL } };
JOB2(prog8) { run(s, "p8_main", E8); }
static const Exp E9[] = { { 7, 0, "", 3238528475170353762ULL, 0ULL }, { 7, 0, "", 11469220160780978555ULL, 0ULL }, { 7, 0, "", 16200343479318531738ULL, 0ULL }, { 7, 0, "", 16200343479318531738ULL, 0ULL }, { 7, 0, "", 8666942881375486659ULL, 0ULL }, { 7, 0, "", 8666942881375486659ULL, 0ULL }, { 7, 0, "", 14334402723060049258ULL, 0ULL }, { 7, 0, "", 14334402723060049258ULL, 0ULL }, { 7, 0, "", 5176482793513738883ULL, 0ULL }, { 7, 0, "", 11469220160780978555ULL, 0ULL }, { 7, 0, "", 16200343479318531738ULL, 0ULL }, { 7, 0, "", 16200343479318531738ULL, 0ULL }, { 7, 0, "", 8666942881375486659ULL, 0ULL }, { 7, 0, "", 8666942881375486659ULL, 0ULL }, { 7, 0, "", 14334402723060049258ULL, 0ULL }, { 7, 0, "", 14334402723060049258ULL, 0ULL }, { 0, 1, "*", 5281810548274853464ULL, 0ULL }, { 0, 1, "*", 9609508340873621970ULL, 0ULL }, { 0, 1, "*", 7243717680650054031ULL, 0ULL }, { 0, 1, "*", 7243717680650054031ULL, 0ULL }, { 0, 1, "*", 12953877722893084970ULL, 0ULL }, { 0, 1, "*", 12953877722893084970ULL, 0ULL }, { 0, 1, "*", 4089265019407042171ULL, 0ULL }, { 0, 1, "*", 4089265019407042171ULL, 0ULL }, { 0, 1, "*", 5281810548274853464ULL, 0ULL }, { 0, 1, "*", 9609508340873621970ULL, 0ULL }, { 0, 1, "*", 7243717680650054031ULL, 0ULL }, { 0, 1, "*", 7243717680650054031ULL, 0ULL }, { 0, 1, "*", 12953877722893084970ULL, 0ULL }, { 0, 1, "*", 12953877722893084970ULL, 0ULL }, { 0, 1, "*", 4089265019407042171ULL, 0ULL }, { 0, 1, "*", 4089265019407042171ULL, 0ULL }, { 7, 0, "", 977493282708043375ULL, 0ULL }, { 7, 0, "", 13236588356230277004ULL, 0ULL }, { 7, 0, "", 16200343479318531738ULL, 0ULL }, { 7, 0, "", 16200343479318531738ULL, 0ULL }, { 7, 0, "", 8666942881375486659ULL, 0ULL }, { 7, 0, "", 8666942881375486659ULL, 0ULL }, { 7, 0, "", 14334402723060049258ULL, 0ULL }, { 7, 0, "", 14334402723060049258ULL, 0ULL }, { 7, 0, "", 2915447601051428496ULL, 0ULL }, { 7, 0, "", 13236588356230277004ULL, 0ULL }, { 7, 0, "", 16200343479318531738ULL, 0ULL }, { 7, 0, "", 16200343479318531738ULL, 0ULL }, { 7, 0, "", 8666942881375486659ULL, 0ULL }, { 7, 0, "", 8666942881375486659ULL, 0ULL }, { 7, 0, "", 14334402723060049258ULL, 0ULL }, { 7, 0, "", 14334402723060049258ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL }, { 0, 1, "*", 918012612ULL, 0ULL } };
JOB2(prog9) { run(s, "p9_main", E9); }
static const Exp E10[] = { { 7, 0, "", 4274770709038064010ULL, 0ULL }, { 7, 0, "", 8985675065570280653ULL, 0ULL }, { 0, 1, "M30", 14308648626279829285ULL, 0ULL }, { 0, 1, "M30", 2246738091961789456ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M33", 11812961162155860807ULL, 0ULL }, { 0, 2, "M33", 14662413513909312114ULL, 0ULL }, { 0, 1, "M30", 11812961162155859812ULL, 0ULL }, { 0, 1, "M30", 14662413513909311119ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 14147809548632511256ULL, 0ULL }, { 7, 0, "", 5986761486987952565ULL, 0ULL }, { 0, 1, "M30", 14308648626279829285ULL, 0ULL }, { 0, 1, "M30", 2246738091961789456ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 14341752301658443666ULL, 0ULL }, { 7, 0, "", 16981000012687703299ULL, 0ULL }, { 0, 1, "M30", 11812961162155859812ULL, 0ULL }, { 0, 1, "M30", 14662413513909311119ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 15425729283451186674ULL, 0ULL }, { 7, 0, "", 1795751829204447236ULL, 0ULL }, { 0, 1, "M30", 12366000061201772027ULL, 0ULL }, { 0, 1, "M30", 17159179462512325653ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M33", 3230266842401494761ULL, 0ULL }, { 0, 2, "M33", 14662413513909312114ULL, 0ULL }, { 0, 1, "M30", 104202156206499830ULL, 0ULL }, { 0, 1, "M30", 14662413513909311119ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M58", 4043738675372052046ULL, 0ULL }, { 0, 1, "M58", 10806364440753561184ULL, 0ULL }, { 0, 1, "M30", 12366000061201772027ULL, 0ULL }, { 0, 1, "M30", 17159179462512325653ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M58", 9650388508532211116ULL, 0ULL }, { 0, 1, "M58", 2332942947771784537ULL, 0ULL }, { 0, 1, "M30", 104202156206499830ULL, 0ULL }, { 0, 1, "M30", 14662413513909311119ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL } };
JOB2(prog10) { run(s, "p10_main", E10); }
static const Exp E11[] = { { 0, 2, "M32", 13231672987708655369ULL, 0ULL }, { 0, 1, "Error", 1922ULL, 0ULL }, { 0, 1, "M8", 152450861383970112ULL, 0ULL }, { 0, 1, "M8", 0ULL, 0ULL }, { 0, 2, "M32", 11670769178543830503ULL, 0ULL }, { 0, 1, "Error", 1922ULL, 0ULL }, { 0, 1, "M8", 152458619941149696ULL, 0ULL }, { 0, 1, "M8", 0ULL, 0ULL }, { 0, 2, "M32", 1558723830351550142ULL, 0ULL }, { 0, 1, "*", 52880162301248ULL, 0ULL }, { 0, 1, "M8", 29552704ULL, 0ULL }, { 0, 1, "M8", 29552704ULL, 0ULL }, { 0, 2, "M32", 52880162301248ULL, 0ULL }, { 0, 1, "*", 52880162301248ULL, 0ULL }, { 0, 1, "M8", 29552704ULL, 0ULL }, { 0, 1, "M8", 29552704ULL, 0ULL }, { 0, 2, "M32", 13231672987708655369ULL, 0ULL }, { 0, 1, "Error", 6733036930034616712ULL, 0ULL }, { 0, 1, "M8", 6910915869824143680ULL, 0ULL }, { 0, 1, "M8", 6910915869824143680ULL, 0ULL }, { 0, 2, "M32", 11732086698310972011ULL, 0ULL }, { 0, 1, "Error", 52880162301248ULL, 0ULL }, { 0, 1, "M8", 28429701248ULL, 0ULL }, { 0, 1, "M8", 28429701248ULL, 0ULL }, { 0, 2, "M32", 9715863402553279350ULL, 0ULL }, { 0, 1, "Error", 6733036930034616712ULL, 0ULL }, { 0, 1, "M8", 6910915869824143680ULL, 0ULL }, { 0, 1, "M8", 6910915869824143680ULL, 0ULL }, { 0, 2, "M32", 52880162301248ULL, 0ULL }, { 0, 1, "Error", 52880162301248ULL, 0ULL }, { 0, 1, "M8", 28429701248ULL, 0ULL }, { 0, 1, "M8", 28429701248ULL, 0ULL }, { 0, 2, "M32", 5198554340346096616ULL, 0ULL }, { 0, 1, "Error", 1922ULL, 0ULL }, { 0, 1, "M8", 152450861383970112ULL, 0ULL }, { 0, 1, "M8", 0ULL, 0ULL }, { 0, 2, "M32", 16112609961962716444ULL, 0ULL }, { 0, 1, "Error", 1922ULL, 0ULL }, { 0, 1, "M8", 152458619941149696ULL, 0ULL }, { 0, 1, "M8", 0ULL, 0ULL }, { 0, 2, "M32", 2821770717961166240ULL, 0ULL }, { 0, 1, "*", 52880162301248ULL, 0ULL }, { 0, 1, "M8", 29552704ULL, 0ULL }, { 0, 1, "M8", 29552704ULL, 0ULL }, { 0, 2, "M32", 52880162301248ULL, 0ULL }, { 0, 1, "*", 52880162301248ULL, 0ULL }, { 0, 1, "M8", 29552704ULL, 0ULL }, { 0, 1, "M8", 29552704ULL, 0ULL }, { 0, 2, "M32", 2821770717961166240ULL, 0ULL }, { 0, 1, "*", 52880162301248ULL, 0ULL }, { 0, 1, "M8", 28429701248ULL, 0ULL }, { 0, 1, "M8", 28429701248ULL, 0ULL }, { 0, 2, "M32", 2821770717961166240ULL, 0ULL }, { 0, 1, "*", 52880162301248ULL, 0ULL }, { 0, 1, "M8", 28429701248ULL, 0ULL }, { 0, 1, "M8", 28429701248ULL, 0ULL }, { 0, 2, "M32", 2821770717961166240ULL, 0ULL }, { 0, 1, "*", 52880162301248ULL, 0ULL }, { 0, 1, "M8", 28429701248ULL, 0ULL }, { 0, 1, "M8", 28429701248ULL, 0ULL }, { 0, 2, "M32", 52880162301248ULL, 0ULL }, { 0, 1, "*", 52880162301248ULL, 0ULL }, { 0, 1, "M8", 28429701248ULL, 0ULL }, { 0, 1, "M8", 28429701248ULL, 0ULL } };
JOB2(prog11) { run(s, "p11_main", E11); }
static const Exp E12[] = { { 0, 1, "M32", 15681191280638360819ULL, 0ULL }, { 23, 0, "", 1261161303ULL, 0ULL }, { 0, 1, "M32", 17081654756317522003ULL, 0ULL }, { 23, 0, "", 1261161303ULL, 0ULL }, { 0, 1, "M32", 15681191280638360819ULL, 0ULL }, { 23, 0, "", 1061585ULL, 0ULL }, { 0, 1, "M32", 17081654756317522003ULL, 0ULL }, { 23, 0, "", 1061585ULL, 0ULL }, { 22, 0, "", 1090309918ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 22, 0, "", 1090309918ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 22, 0, "", 1090309918ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 22, 0, "", 1090309918ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 0, 1, "M32", 15681191280638360819ULL, 0ULL }, { 23, 0, "", 1031794ULL, 0ULL }, { 0, 1, "M32", 17081654756317522003ULL, 0ULL }, { 23, 0, "", 1031794ULL, 0ULL }, { 0, 1, "M32", 3832677629369004243ULL, 0ULL }, { 23, 0, "", 1031794ULL, 0ULL }, { 0, 1, "M32", 12301129365259199539ULL, 0ULL }, { 23, 0, "", 1031794ULL, 0ULL }, { 22, 0, "", 1090309918ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 22, 0, "", 1090309918ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 22, 0, "", 1090309918ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 22, 0, "", 1090309918ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 0, 1, "M32", 658832095757928638ULL, 0ULL }, { 23, 0, "", 38260123544ULL, 0ULL }, { 0, 3, "M13", 41428ULL, 0ULL }, { 0, 3, "M13", 41428ULL, 0ULL }, { 0, 1, "M10", 41428ULL, 0ULL }, { 23, 0, "", 1061585ULL, 0ULL }, { 0, 3, "M13", 41428ULL, 0ULL }, { 23, 0, "", 1061585ULL, 0ULL }, { 22, 0, "", 33793975988ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 0, 3, "M13", 36592ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 0, 1, "M5", 36592ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 0, 3, "M13", 36592ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 0, 1, "M32", 6811888824559053735ULL, 0ULL }, { 23, 0, "", 1031794ULL, 0ULL }, { 0, 3, "M13", 30795ULL, 0ULL }, { 23, 0, "", 1031794ULL, 0ULL }, { 0, 1, "Error", 30795ULL, 0ULL }, { 23, 0, "", 1031794ULL, 0ULL }, { 0, 3, "M13", 30795ULL, 0ULL }, { 23, 0, "", 1031794ULL, 0ULL }, { 22, 0, "", 33793975988ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 0, 3, "M13", 36592ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 0, 1, "M5", 36592ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL }, { 0, 3, "M13", 36592ULL, 0ULL }, { 22, 0, "", 1002003ULL, 0ULL } };
JOB2(prog12) { run(s, "p12_main", E12); }
static const Exp E13[] = { { 7, 0, "", 10163592582624860ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "Error", 249ULL, 0ULL }, { 0, 1, "Error", 249ULL, 0ULL }, { 0, 1, "*", 249ULL, 0ULL }, { 0, 1, "*", 249ULL, 0ULL }, { 13, 0, "", 28641067ULL, 0ULL }, { 0, 1, "*", 993ULL, 0ULL }, { 0, 1, "*", 1180ULL, 0ULL }, { 0, 1, "*", 993ULL, 0ULL }, { 0, 1, "Error", 961ULL, 0ULL }, { 0, 1, "Error", 993ULL, 0ULL }, { 0, 1, "*", 1180ULL, 0ULL }, { 0, 1, "*", 993ULL, 0ULL }, { 7, 0, "", 3450082027413ULL, 0ULL }, { 0, 1, "*", 125ULL, 0ULL }, { 0, 1, "*", 125ULL, 0ULL }, { 0, 1, "*", 125ULL, 0ULL }, { 0, 1, "Error", 125ULL, 0ULL }, { 0, 1, "Error", 125ULL, 0ULL }, { 0, 1, "*", 125ULL, 0ULL }, { 0, 1, "*", 125ULL, 0ULL }, { 13, 0, "", 32364942ULL, 0ULL }, { 0, 1, "*", 1086ULL, 0ULL }, { 0, 1, "*", 1086ULL, 0ULL }, { 0, 1, "*", 1086ULL, 0ULL }, { 0, 1, "Error", 1086ULL, 0ULL }, { 0, 1, "Error", 1086ULL, 0ULL }, { 0, 1, "*", 1086ULL, 0ULL }, { 0, 1, "*", 1086ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "Error", 249ULL, 0ULL }, { 0, 1, "Error", 249ULL, 0ULL }, { 0, 1, "*", 249ULL, 0ULL }, { 0, 1, "*", 249ULL, 0ULL }, { 0, 1, "*", 961ULL, 0ULL }, { 0, 1, "*", 993ULL, 0ULL }, { 0, 1, "*", 1180ULL, 0ULL }, { 0, 1, "*", 993ULL, 0ULL }, { 0, 1, "Error", 961ULL, 0ULL }, { 0, 1, "Error", 993ULL, 0ULL }, { 0, 1, "*", 1180ULL, 0ULL }, { 0, 1, "*", 993ULL, 0ULL }, { 0, 1, "*", 125ULL, 0ULL }, { 0, 1, "*", 125ULL, 0ULL }, { 0, 1, "*", 125ULL, 0ULL }, { 0, 1, "*", 125ULL, 0ULL }, { 0, 1, "Error", 125ULL, 0ULL }, { 0, 1, "Error", 125ULL, 0ULL }, { 0, 1, "*", 125ULL, 0ULL }, { 0, 1, "*", 125ULL, 0ULL }, { 0, 1, "*", 1086ULL, 0ULL }, { 0, 1, "*", 1086ULL, 0ULL }, { 0, 1, "*", 1086ULL, 0ULL }, { 0, 1, "*", 1086ULL, 0ULL }, { 0, 1, "Error", 1086ULL, 0ULL }, { 0, 1, "Error", 1086ULL, 0ULL }, { 0, 1, "*", 1086ULL, 0ULL }, { 0, 1, "*", 1086ULL, 0ULL } };
JOB2(prog13) { run(s, "p13_main", E13); }
static const Exp E14[] = { { 7, 0, "", 221218589812ULL, 0ULL }, { 7, 0, "", 221218589812ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 7, 0, "", 221218589812ULL, 0ULL }, { 7, 0, "", 221218589812ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 7, 0, "", 221218589812ULL, 0ULL }, { 7, 0, "", 212591064809684ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 7, 0, "", 6857776284189ULL, 0ULL }, { 7, 0, "", 6590323009100221ULL, 0ULL }, { 0, 1, "M19", 28227948789837ULL, 0ULL }, { 0, 1, "M19", 28227948789837ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 15, 0, "", 28227948789833ULL, 0ULL }, { 0, 1, "Error", 28227948789833ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 15, 0, "", 28227948789833ULL, 0ULL }, { 0, 1, "Error", 28227948789833ULL, 0ULL }, { 7, 0, "", 221218589812ULL, 0ULL }, { 7, 0, "", 221218589812ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 7, 0, "", 221218589812ULL, 0ULL }, { 7, 0, "", 221218589812ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 7, 0, "", 221218589812ULL, 0ULL }, { 0, 1, "M12", 6857776284183ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 0, 1, "M19", 910578993220ULL, 0ULL }, { 7, 0, "", 6857776284189ULL, 0ULL }, { 0, 1, "M12", 6857776284183ULL, 0ULL }, { 0, 1, "M19", 28227948789837ULL, 0ULL }, { 0, 1, "M19", 28227948789837ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 15, 0, "", 28227948789833ULL, 0ULL }, { 0, 1, "Error", 28227948789833ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 15, 0, "", 28227948789833ULL, 0ULL }, { 0, 1, "Error", 28227948789833ULL, 0ULL } };
JOB2(prog14) { run(s, "p14_main", E14); }
static const Exp E15[] = { { 7, 0, "", 1252738055219857748ULL, 0ULL }, { 7, 0, "", 9860829314251653182ULL, 0ULL }, { 7, 0, "", 5529568190720881673ULL, 0ULL }, { 7, 0, "", 12372074935257439603ULL, 0ULL }, { 7, 0, "", 10280107539868382228ULL, 0ULL }, { 7, 0, "", 10280107539868382228ULL, 0ULL }, { 7, 0, "", 29892665570004681ULL, 0ULL }, { 7, 0, "", 29892665570004681ULL, 0ULL }, { 7, 0, "", 5783296472061187244ULL, 0ULL }, { 7, 0, "", 9860829314251592576ULL, 0ULL }, { 7, 0, "", 15016792052145813919ULL, 0ULL }, { 7, 0, "", 12372074935257439603ULL, 0ULL }, { 7, 0, "", 10280107539868321622ULL, 0ULL }, { 7, 0, "", 10280107539868321622ULL, 0ULL }, { 7, 0, "", 29892665570004681ULL, 0ULL }, { 7, 0, "", 29892665570004681ULL, 0ULL }, { 7, 0, "", 5529568190720881673ULL, 0ULL }, { 7, 0, "", 12372074935257439603ULL, 0ULL }, { 7, 0, "", 5529568190720881673ULL, 0ULL }, { 7, 0, "", 12372074935257439603ULL, 0ULL }, { 7, 0, "", 29892666229398675ULL, 0ULL }, { 7, 0, "", 29892666229398675ULL, 0ULL }, { 7, 0, "", 29892666229398675ULL, 0ULL }, { 7, 0, "", 29892666229398675ULL, 0ULL }, { 7, 0, "", 15016792052145813919ULL, 0ULL }, { 7, 0, "", 12372074935257439603ULL, 0ULL }, { 7, 0, "", 15016792052145813919ULL, 0ULL }, { 7, 0, "", 12372074935257439603ULL, 0ULL }, { 7, 0, "", 29892666229398675ULL, 0ULL }, { 7, 0, "", 29892666229398675ULL, 0ULL }, { 7, 0, "", 29892666229398675ULL, 0ULL }, { 7, 0, "", 29892666229398675ULL, 0ULL }, { 0, 1, "*", 992960529274619271ULL, 0ULL }, { 0, 1, "*", 17446008875613093213ULL, 0ULL }, { 0, 1, "*", 1033257573851388ULL, 0ULL }, { 0, 1, "*", 9212733007473137234ULL, 0ULL }, { 0, 1, "*", 7626838576800726036ULL, 0ULL }, { 0, 1, "*", 7626838576800726036ULL, 0ULL }, { 0, 1, "Error", 1026ULL, 0ULL }, { 0, 1, "Error", 1026ULL, 0ULL }, { 0, 1, "*", 36090914ULL, 0ULL }, { 0, 1, "*", 32029535695732974ULL, 0ULL }, { 0, 1, "*", 36090914ULL, 0ULL }, { 0, 1, "*", 32029535695732974ULL, 0ULL }, { 0, 1, "*", 947695514ULL, 0ULL }, { 0, 1, "*", 947695484ULL, 0ULL }, { 0, 1, "Error", 1026ULL, 0ULL }, { 0, 1, "Error", 1026ULL, 0ULL }, { 0, 1, "*", 1033257573851388ULL, 0ULL }, { 0, 1, "*", 9212733007473137234ULL, 0ULL }, { 0, 1, "*", 1033257573851388ULL, 0ULL }, { 0, 1, "*", 9212733007473137234ULL, 0ULL }, { 0, 1, "*", 27131720378131603ULL, 0ULL }, { 0, 1, "*", 27131720378131603ULL, 0ULL }, { 0, 1, "Error", 1026ULL, 0ULL }, { 0, 1, "Error", 1026ULL, 0ULL }, { 0, 1, "*", 36090914ULL, 0ULL }, { 0, 1, "*", 32029535695732974ULL, 0ULL }, { 0, 1, "*", 36090914ULL, 0ULL }, { 0, 1, "*", 32029535695732974ULL, 0ULL }, { 0, 1, "*", 947695514ULL, 0ULL }, { 0, 1, "*", 947695484ULL, 0ULL }, { 0, 1, "Error", 1026ULL, 0ULL }, { 0, 1, "Error", 1026ULL, 0ULL } };
JOB2(prog15) { run(s, "p15_main", E15); }
static const Exp E16[] = { { 0, 2, "M5", 0ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 7, 0, "", 11832360322496870452ULL, 0ULL }, { 7, 0, "", 11832360322496870452ULL, 0ULL }, { 7, 0, "", 822125098010310471ULL, 0ULL }, { 7, 0, "", 822125098010310471ULL, 0ULL }, { 7, 0, "", 821558390522341042ULL, 0ULL }, { 7, 0, "", 821558390522341042ULL, 0ULL }, { 7, 0, "", 822125098010310471ULL, 0ULL }, { 7, 0, "", 822125098010310471ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 0, 2, "M5", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 7, 0, "", 16315032596921503178ULL, 0ULL }, { 7, 0, "", 16315032596921503178ULL, 0ULL }, { 7, 0, "", 822125098010310471ULL, 0ULL }, { 7, 0, "", 822125098010310471ULL, 0ULL }, { 7, 0, "", 7021566032483020556ULL, 0ULL }, { 7, 0, "", 7021566032483020556ULL, 0ULL }, { 7, 0, "", 822125098010310471ULL, 0ULL }, { 7, 0, "", 822125098010310471ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL }, { 0, 1, "Error", 32ULL, 0ULL } };
JOB2(prog16) { run(s, "p16_main", E16); }
static const Exp E17[] = { { 7, 0, "", 7121400417286586351ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M5", 66ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 5544191434104916061ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 3, 0, "", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M7", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M5", 66ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M7", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 3, 0, "", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M5", 66ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 3, 0, "", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M5", 66ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 3, 0, "", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "Error", 64892486ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M5", 66ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "Error", 64892486ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 3, 0, "", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M7", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M5", 66ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M7", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 3, 0, "", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M5", 66ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 3, 0, "", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M5", 66ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 3, 0, "", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL } };
JOB2(prog17) { run(s, "p17_main", E17); }
static const Exp E18[] = { { 0, 1, "M40", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "*", 4813038382245355129ULL, 0ULL }, { 0, 1, "*", 80343046041327ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "*", 80343045978862ULL, 0ULL }, { 0, 1, "*", 80343045978862ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "*", 77209667245195391ULL, 0ULL }, { 0, 1, "*", 80343046041327ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "*", 80343045978862ULL, 0ULL }, { 0, 1, "*", 80343045978862ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 0, 1, "M40", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "Error", 2373488324058709420ULL, 0ULL }, { 0, 1, "*", 10773310876544394816ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "M9", 80343045978862ULL, 0ULL }, { 0, 1, "M9", 80343045978862ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "Error", 2393499684541503562ULL, 0ULL }, { 0, 1, "Error", 2393499684541503562ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 0, 1, "M9", 80343045978862ULL, 0ULL }, { 0, 1, "M9", 80343045978862ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL }, { 4, 0, "", 94ULL, 0ULL } };
JOB2(prog18) { run(s, "p18_main", E18); }
static const Exp E19[] = { { 7, 0, "", 7696596321730231074ULL, 0ULL }, { 7, 0, "", 842606162932986924ULL, 0ULL }, { 7, 0, "", 7696596321730231074ULL, 0ULL }, { 7, 0, "", 842606162932986924ULL, 0ULL }, { 7, 0, "", 1127998393568139874ULL, 0ULL }, { 7, 0, "", 266628546863854316ULL, 0ULL }, { 7, 0, "", 1127998393568139874ULL, 0ULL }, { 7, 0, "", 266628546863854316ULL, 0ULL }, { 9, 0, "", 7647763514732707361ULL, 0ULL }, { 9, 0, "", 876801418244523ULL, 0ULL }, { 9, 0, "", 7647763514732707361ULL, 0ULL }, { 9, 0, "", 876801418244523ULL, 0ULL }, { 9, 0, "", 11966589964116273337ULL, 0ULL }, { 9, 0, "", 10417836148646718771ULL, 0ULL }, { 9, 0, "", 11966589964116273337ULL, 0ULL }, { 9, 0, "", 10417836148646718771ULL, 0ULL }, { 7, 0, "", 7696596321730231074ULL, 0ULL }, { 7, 0, "", 842606162932986924ULL, 0ULL }, { 7, 0, "", 7696596321730231074ULL, 0ULL }, { 7, 0, "", 842606162932986924ULL, 0ULL }, { 7, 0, "", 1127998393568139874ULL, 0ULL }, { 7, 0, "", 266628546863854316ULL, 0ULL }, { 7, 0, "", 1127998393568139874ULL, 0ULL }, { 7, 0, "", 266628546863854316ULL, 0ULL }, { 9, 0, "", 7647763514732707361ULL, 0ULL }, { 9, 0, "", 876801418244523ULL, 0ULL }, { 9, 0, "", 7647763514732707361ULL, 0ULL }, { 9, 0, "", 876801418244523ULL, 0ULL }, { 9, 0, "", 11966589964116273337ULL, 0ULL }, { 9, 0, "", 10417836148646718771ULL, 0ULL }, { 9, 0, "", 11966589964116273337ULL, 0ULL }, { 9, 0, "", 10417836148646718771ULL, 0ULL }, { 7, 0, "", 7696596321730231074ULL, 0ULL }, { 7, 0, "", 842606162932986924ULL, 0ULL }, { 7, 0, "", 7696596321730231074ULL, 0ULL }, { 7, 0, "", 842606162932986924ULL, 0ULL }, { 7, 0, "", 3923438553179743746ULL, 0ULL }, { 7, 0, "", 15541844487022588620ULL, 0ULL }, { 7, 0, "", 3923438553179743746ULL, 0ULL }, { 7, 0, "", 15541844487022588620ULL, 0ULL }, { 9, 0, "", 7647763514732707361ULL, 0ULL }, { 9, 0, "", 876801418244523ULL, 0ULL }, { 9, 0, "", 7647763514732707361ULL, 0ULL }, { 9, 0, "", 876801418244523ULL, 0ULL }, { 9, 0, "", 4636870093151198297ULL, 0ULL }, { 9, 0, "", 18092681207283836179ULL, 0ULL }, { 9, 0, "", 4636870093151198297ULL, 0ULL }, { 9, 0, "", 18092681207283836179ULL, 0ULL }, { 7, 0, "", 7696596321730231074ULL, 0ULL }, { 7, 0, "", 842606162932986924ULL, 0ULL }, { 7, 0, "", 7696596321730231074ULL, 0ULL }, { 7, 0, "", 842606162932986924ULL, 0ULL }, { 7, 0, "", 3923438553179743746ULL, 0ULL }, { 7, 0, "", 15541844487022588620ULL, 0ULL }, { 7, 0, "", 3923438553179743746ULL, 0ULL }, { 7, 0, "", 15541844487022588620ULL, 0ULL }, { 9, 0, "", 7647763514732707361ULL, 0ULL }, { 9, 0, "", 876801418244523ULL, 0ULL }, { 9, 0, "", 7647763514732707361ULL, 0ULL }, { 9, 0, "", 876801418244523ULL, 0ULL }, { 9, 0, "", 4636870093151198297ULL, 0ULL }, { 9, 0, "", 18092681207283836179ULL, 0ULL }, { 9, 0, "", 4636870093151198297ULL, 0ULL }, { 9, 0, "", 18092681207283836179ULL, 0ULL } };
JOB2(prog19) { run(s, "p19_main", E19); }
static const Exp E20[] = { { 0, 2, "M19", 6069868386970926410ULL, 0ULL }, { 0, 2, "M19", 6789848851454255628ULL, 0ULL }, { 0, 1, "*", 1042692ULL, 0ULL }, { 0, 1, "*", 30790ULL, 0ULL }, { 0, 2, "M19", 6789859141517329996ULL, 0ULL }, { 0, 2, "M19", 6789859141517329996ULL, 0ULL }, { 0, 1, "*", 30790ULL, 0ULL }, { 0, 1, "*", 30790ULL, 0ULL }, { 0, 2, "M19", 6069868386970926410ULL, 0ULL }, { 0, 2, "M19", 6789848851454255628ULL, 0ULL }, { 0, 1, "*", 1042692ULL, 0ULL }, { 0, 1, "*", 30790ULL, 0ULL }, { 0, 2, "M19", 6789859141517329996ULL, 0ULL }, { 0, 2, "M19", 6789859141517329996ULL, 0ULL }, { 0, 1, "*", 30790ULL, 0ULL }, { 0, 1, "*", 30790ULL, 0ULL }, { 0, 2, "M19", 6069868386970926410ULL, 0ULL }, { 0, 2, "M19", 6789848851454255628ULL, 0ULL }, { 0, 1, "*", 1042692ULL, 0ULL }, { 0, 1, "*", 30790ULL, 0ULL }, { 0, 2, "M19", 6789859141517329996ULL, 0ULL }, { 0, 2, "M19", 6789859141517329996ULL, 0ULL }, { 0, 1, "*", 30790ULL, 0ULL }, { 0, 1, "*", 30790ULL, 0ULL }, { 0, 2, "M19", 6069868386970926410ULL, 0ULL }, { 0, 2, "M19", 6789848851454255628ULL, 0ULL }, { 0, 1, "*", 1042692ULL, 0ULL }, { 0, 1, "*", 30790ULL, 0ULL }, { 0, 2, "M19", 6789859141517329996ULL, 0ULL }, { 0, 2, "M19", 6789859141517329996ULL, 0ULL }, { 0, 1, "*", 30790ULL, 0ULL }, { 0, 1, "*", 30790ULL, 0ULL }, { 0, 2, "M19", 16763913083360163753ULL, 0ULL }, { 0, 2, "M19", 11697635812023993255ULL, 0ULL }, { 0, 1, "*", 31062783749ULL, 0ULL }, { 0, 1, "*", 917211267ULL, 0ULL }, { 0, 2, "M19", 12138583071730045297ULL, 0ULL }, { 0, 2, "M19", 11697636144265290610ULL, 0ULL }, { 0, 1, "*", 917211267ULL, 0ULL }, { 0, 1, "*", 917211267ULL, 0ULL }, { 0, 2, "M19", 16763913083360163753ULL, 0ULL }, { 0, 2, "M19", 11697635812023993255ULL, 0ULL }, { 0, 1, "*", 31062783749ULL, 0ULL }, { 0, 1, "*", 917211267ULL, 0ULL }, { 0, 2, "M19", 12138583071730045297ULL, 0ULL }, { 0, 2, "M19", 11697636144265290610ULL, 0ULL }, { 0, 1, "*", 917211267ULL, 0ULL }, { 0, 1, "*", 917211267ULL, 0ULL }, { 0, 2, "M19", 16763913083360163753ULL, 0ULL }, { 0, 2, "M19", 11697635812023993255ULL, 0ULL }, { 0, 1, "*", 31062783749ULL, 0ULL }, { 0, 1, "*", 917211267ULL, 0ULL }, { 0, 2, "M19", 12138583071730045297ULL, 0ULL }, { 0, 2, "M19", 11697636144265290610ULL, 0ULL }, { 0, 1, "*", 917211267ULL, 0ULL }, { 0, 1, "*", 917211267ULL, 0ULL }, { 0, 2, "M19", 16763913083360163753ULL, 0ULL }, { 0, 2, "M19", 11697635812023993255ULL, 0ULL }, { 0, 1, "*", 31062783749ULL, 0ULL }, { 0, 1, "*", 917211267ULL, 0ULL }, { 0, 2, "M19", 12138583071730045297ULL, 0ULL }, { 0, 2, "M19", 11697636144265290610ULL, 0ULL }, { 0, 1, "*", 917211267ULL, 0ULL }, { 0, 1, "*", 917211267ULL, 0ULL } };
JOB2(prog20) { run(s, "p20_main", E20); }
static const Exp E21[] = { { 0, 1, "M10", 6727ULL, 0ULL }, { 0, 1, "Error", 26255529822769769ULL, 0ULL }, { 0, 1, "M10", 6727ULL, 0ULL }, { 0, 1, "Error", 26255529822769769ULL, 0ULL }, { 7, 0, "", 14624188147128862643ULL, 0ULL }, { 0, 1, "Error", 26255529822769769ULL, 0ULL }, { 0, 1, "Error", 225ULL, 0ULL }, { 0, 1, "Error", 26255529822769769ULL, 0ULL }, { 0, 1, "M10", 917092871ULL, 0ULL }, { 0, 1, "*", 28429813525ULL, 0ULL }, { 0, 1, "M10", 917092871ULL, 0ULL }, { 0, 1, "*", 28429813525ULL, 0ULL }, { 7, 0, "", 12944248687584203926ULL, 0ULL }, { 0, 1, "Error", 7585770868160651622ULL, 0ULL }, { 0, 1, "Error", 29583649ULL, 0ULL }, { 0, 1, "Error", 7585770868160651622ULL, 0ULL }, { 0, 1, "M10", 6727ULL, 0ULL }, { 0, 1, "M12", 846952265186974ULL, 0ULL }, { 0, 1, "M10", 6727ULL, 0ULL }, { 0, 1, "M31", 27321040812482ULL, 0ULL }, { 0, 1, "Error", 7888687360971600678ULL, 0ULL }, { 0, 1, "M12", 846952265186974ULL, 0ULL }, { 0, 1, "M31", 6454538949ULL, 0ULL }, { 0, 1, "M31", 27321040812482ULL, 0ULL }, { 0, 1, "M10", 917092871ULL, 0ULL }, { 0, 1, "*", 846952265186969ULL, 0ULL }, { 0, 1, "M10", 917092871ULL, 0ULL }, { 0, 1, "*", 846952265186969ULL, 0ULL }, { 0, 1, "Error", 17235247553995391815ULL, 0ULL }, { 0, 1, "M12", 3976457581391004650ULL, 0ULL }, { 0, 1, "Error", 17235247553995391815ULL, 0ULL }, { 0, 1, "M12", 3976457581391004650ULL, 0ULL }, { 0, 1, "M9", 6727ULL, 0ULL }, { 0, 1, "Error", 26255529822769769ULL, 0ULL }, { 0, 1, "M9", 6727ULL, 0ULL }, { 0, 1, "Error", 26255529822769769ULL, 0ULL }, { 7, 0, "", 14624188147128862643ULL, 0ULL }, { 0, 1, "Error", 26255529822769769ULL, 0ULL }, { 0, 1, "Error", 225ULL, 0ULL }, { 0, 1, "Error", 26255529822769769ULL, 0ULL }, { 0, 1, "M9", 917092871ULL, 0ULL }, { 0, 1, "*", 28429813525ULL, 0ULL }, { 0, 1, "M9", 917092871ULL, 0ULL }, { 0, 1, "*", 28429813525ULL, 0ULL }, { 7, 0, "", 12944248687584203926ULL, 0ULL }, { 0, 1, "Error", 7585770868160651622ULL, 0ULL }, { 0, 1, "Error", 29583649ULL, 0ULL }, { 0, 1, "Error", 7585770868160651622ULL, 0ULL }, { 0, 1, "M9", 6727ULL, 0ULL }, { 0, 1, "M12", 846952265186974ULL, 0ULL }, { 0, 1, "M9", 6727ULL, 0ULL }, { 0, 1, "M31", 27321040812482ULL, 0ULL }, { 0, 1, "Error", 7888687360971600678ULL, 0ULL }, { 0, 1, "M12", 846952265186974ULL, 0ULL }, { 0, 1, "M31", 6454538949ULL, 0ULL }, { 0, 1, "M31", 27321040812482ULL, 0ULL }, { 0, 1, "M9", 917092871ULL, 0ULL }, { 0, 1, "*", 846952265186969ULL, 0ULL }, { 0, 1, "M9", 917092871ULL, 0ULL }, { 0, 1, "*", 846952265186969ULL, 0ULL }, { 0, 1, "Error", 17235247553995391815ULL, 0ULL }, { 0, 1, "M12", 3976457581391004650ULL, 0ULL }, { 0, 1, "Error", 17235247553995391815ULL, 0ULL }, { 0, 1, "M12", 3976457581391004650ULL, 0ULL } };
JOB2(prog21) { run(s, "p21_main", E21); }
static const Exp E22[] = { { 0, 1, "M24", 2536587805320356906ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 2536587805320356906ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 2536587805320356906ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 2536587805320356906ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 17847057081899868977ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 938178246029ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 21, 0, "", 27949268142751013ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 938178246029ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 2536561365698196235ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 2536561365698196235ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 2536561365698196235ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 2536561365698196235ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 17847057081899868977ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 938178246029ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 21, 0, "", 27949268142751013ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 938178246029ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 9623582769176342214ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 2690663194766547522ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 9623582769176342214ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 2690663194766547522ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 17847057081899868977ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 938178246029ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 21, 0, "", 27949268142751013ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 938178246029ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 8835919985387792453ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 2665254717870142691ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 8835919985387792453ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 2665254717870142691ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 17847057081899868977ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 938178246029ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 21, 0, "", 27949268142751013ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "M24", 938178246029ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL } };
JOB2(prog22) { run(s, "p22_main", E22); }
static const Exp E23[] = { { 0, 1, "M37", 6347439711157640593ULL, 0ULL }, { 0, 1, "M37", 132482266972265679ULL, 0ULL }, { 0, 1, "M37", 14698420619732626639ULL, 0ULL }, { 0, 1, "M37", 81665258154168213ULL, 0ULL }, { 0, 1, "M37", 6347439711157640593ULL, 0ULL }, { 0, 1, "M37", 132482266972265679ULL, 0ULL }, { 0, 1, "M37", 14698420619732626639ULL, 0ULL }, { 0, 1, "M37", 81665258154168213ULL, 0ULL }, { 0, 1, "*", 3721587867658177598ULL, 0ULL }, { 0, 1, "*", 11712963407697141789ULL, 0ULL }, { 0, 1, "*", 12072568776233163644ULL, 0ULL }, { 0, 1, "*", 16678010755340430171ULL, 0ULL }, { 0, 1, "*", 13486168841423670600ULL, 0ULL }, { 0, 1, "*", 11712963407697141789ULL, 0ULL }, { 0, 1, "*", 16186251730845627406ULL, 0ULL }, { 0, 1, "*", 16678010755340430171ULL, 0ULL }, { 0, 1, "*", 9519361456657185688ULL, 0ULL }, { 0, 1, "*", 132482266972265679ULL, 0ULL }, { 0, 1, "*", 2737134878975291794ULL, 0ULL }, { 0, 1, "*", 8121174878403229302ULL, 0ULL }, { 0, 1, "*", 9519361456657185688ULL, 0ULL }, { 0, 1, "*", 132482266972265679ULL, 0ULL }, { 0, 1, "*", 2737134878975291794ULL, 0ULL }, { 0, 1, "*", 8121174878403229302ULL, 0ULL }, { 0, 2, "M9", 149610402ULL, 0ULL }, { 0, 1, "*", 11712963407697141789ULL, 0ULL }, { 0, 2, "M9", 32ULL, 0ULL }, { 0, 2, "M9", 32ULL, 0ULL }, { 0, 2, "M9", 149610402ULL, 0ULL }, { 0, 1, "*", 11712963407697141789ULL, 0ULL }, { 0, 2, "M9", 32ULL, 0ULL }, { 0, 2, "M9", 32ULL, 0ULL }, { 0, 1, "M37", 1476314966363026619ULL, 0ULL }, { 0, 1, "*", 8121174878403229302ULL, 0ULL }, { 0, 1, "M37", 1476314966363026619ULL, 0ULL }, { 0, 1, "*", 8121174878403229302ULL, 0ULL }, { 0, 1, "M37", 1476314966363026619ULL, 0ULL }, { 0, 1, "*", 8121174878403229302ULL, 0ULL }, { 0, 1, "M37", 1476314966363026619ULL, 0ULL }, { 0, 1, "*", 8121174878403229302ULL, 0ULL }, { 0, 1, "*", 12748879811323309504ULL, 0ULL }, { 0, 1, "*", 13970450384873670595ULL, 0ULL }, { 0, 1, "*", 12748879811323309504ULL, 0ULL }, { 0, 1, "*", 13970450384873670595ULL, 0ULL }, { 0, 1, "*", 7868140814570616130ULL, 0ULL }, { 0, 1, "*", 13970450384873670595ULL, 0ULL }, { 0, 1, "*", 7868140814570616130ULL, 0ULL }, { 0, 1, "*", 13970450384873670595ULL, 0ULL }, { 0, 1, "*", 11948748272275937381ULL, 0ULL }, { 0, 1, "*", 8121174878403229302ULL, 0ULL }, { 0, 1, "*", 11948748272275937381ULL, 0ULL }, { 0, 1, "*", 8121174878403229302ULL, 0ULL }, { 0, 1, "*", 11948748272275937381ULL, 0ULL }, { 0, 1, "*", 8121174878403229302ULL, 0ULL }, { 0, 1, "*", 11948748272275937381ULL, 0ULL }, { 0, 1, "*", 8121174878403229302ULL, 0ULL }, { 0, 2, "M9", 32ULL, 0ULL }, { 0, 2, "M9", 32ULL, 0ULL }, { 0, 2, "M9", 32ULL, 0ULL }, { 0, 2, "M9", 32ULL, 0ULL }, { 0, 2, "M9", 32ULL, 0ULL }, { 0, 2, "M9", 32ULL, 0ULL }, { 0, 2, "M9", 32ULL, 0ULL }, { 0, 2, "M9", 32ULL, 0ULL } };
JOB2(prog23) { run(s, "p23_main", E23); }
static const Exp E24[] = { { 0, 1, "M60", 9157233155141248884ULL, 0ULL }, { 0, 2, "M9", 66ULL, 0ULL }, { 0, 1, "M60", 9157233155141248884ULL, 0ULL }, { 0, 2, "M9", 66ULL, 0ULL }, { 0, 1, "M60", 5250797341013718783ULL, 0ULL }, { 0, 2, "M9", 66ULL, 0ULL }, { 0, 1, "M60", 5250797341013718783ULL, 0ULL }, { 0, 2, "M9", 66ULL, 0ULL }, { 0, 2, "M17", 63752ULL, 0ULL }, { 0, 2, "M9", 66ULL, 0ULL }, { 0, 2, "M17", 63752ULL, 0ULL }, { 0, 2, "M9", 66ULL, 0ULL }, { 0, 2, "M17", 63752ULL, 0ULL }, { 0, 2, "M9", 66ULL, 0ULL }, { 0, 2, "M17", 63752ULL, 0ULL }, { 0, 2, "M9", 66ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 50, 0, "", 1ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 50, 0, "", 1ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 50, 0, "", 1ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 50, 0, "", 1ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 50, 0, "", 1ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 50, 0, "", 1ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 50, 0, "", 1ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 50, 0, "", 1ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 0, 1, "M47", 1ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 0, 1, "M47", 1ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 0, 1, "M47", 1ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 0, 1, "M47", 1ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 0, 1, "M47", 1ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 0, 1, "M47", 1ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 0, 1, "M47", 1ULL, 0ULL }, { 0, 1, "M60", 1ULL, 0ULL }, { 0, 1, "M47", 1ULL, 0ULL } };
JOB2(prog24) { run(s, "p24_main", E24); }
static const Exp E25[] = { { 0, 1, "M24", 6797080474610634865ULL, 0ULL }, { 0, 1, "M24", 10265307949152090827ULL, 0ULL }, { 0, 1, "M24", 59524703258ULL, 0ULL }, { 0, 1, "M24", 10265307949152090827ULL, 0ULL }, { 0, 1, "M24", 1749444593497299ULL, 0ULL }, { 0, 1, "M24", 929816306514576ULL, 0ULL }, { 0, 1, "M24", 59524703258ULL, 0ULL }, { 0, 1, "M24", 929816306514576ULL, 0ULL }, { 0, 1, "M24", 6797080474610634865ULL, 0ULL }, { 0, 1, "M24", 9256982872735334359ULL, 0ULL }, { 0, 1, "M24", 59524703258ULL, 0ULL }, { 0, 1, "M24", 9256982872735334359ULL, 0ULL }, { 0, 1, "M24", 1749444593497299ULL, 0ULL }, { 0, 1, "M24", 29994074403698ULL, 0ULL }, { 0, 1, "M24", 59524703258ULL, 0ULL }, { 0, 1, "M24", 29994074403698ULL, 0ULL }, { 0, 1, "M24", 1749472106111410ULL, 0ULL }, { 0, 1, "M24", 929843819128687ULL, 0ULL }, { 0, 1, "M24", 59524703258ULL, 0ULL }, { 0, 1, "M24", 929843819128687ULL, 0ULL }, { 0, 1, "M24", 1749444593497299ULL, 0ULL }, { 0, 1, "M24", 929816306514576ULL, 0ULL }, { 0, 1, "M24", 59524703258ULL, 0ULL }, { 0, 1, "M24", 929816306514576ULL, 0ULL }, { 0, 1, "M24", 1749472106111410ULL, 0ULL }, { 0, 1, "M24", 29994961907379ULL, 0ULL }, { 0, 1, "M24", 59524703258ULL, 0ULL }, { 0, 1, "M24", 29994961907379ULL, 0ULL }, { 0, 1, "M24", 1749444593497299ULL, 0ULL }, { 0, 1, "M24", 29994074403698ULL, 0ULL }, { 0, 1, "M24", 59524703258ULL, 0ULL }, { 0, 1, "M24", 29994074403698ULL, 0ULL }, { 0, 1, "M24", 6797080474610633904ULL, 0ULL }, { 0, 1, "M24", 10265307949152090827ULL, 0ULL }, { 0, 1, "M24", 59524702297ULL, 0ULL }, { 0, 1, "M24", 10265307949152090827ULL, 0ULL }, { 0, 1, "M24", 1749444593496338ULL, 0ULL }, { 0, 1, "M24", 929816306514576ULL, 0ULL }, { 0, 1, "M24", 59524702297ULL, 0ULL }, { 0, 1, "M24", 929816306514576ULL, 0ULL }, { 0, 1, "M24", 6797080474610633904ULL, 0ULL }, { 0, 1, "M24", 9256982872735334359ULL, 0ULL }, { 0, 1, "M24", 59524702297ULL, 0ULL }, { 0, 1, "M24", 9256982872735334359ULL, 0ULL }, { 0, 1, "M24", 1749444593496338ULL, 0ULL }, { 0, 1, "M24", 29994074403698ULL, 0ULL }, { 0, 1, "M24", 59524702297ULL, 0ULL }, { 0, 1, "M24", 29994074403698ULL, 0ULL }, { 0, 1, "M24", 1749472106110449ULL, 0ULL }, { 0, 1, "M24", 929843819128687ULL, 0ULL }, { 0, 1, "M24", 59524702297ULL, 0ULL }, { 0, 1, "M24", 929843819128687ULL, 0ULL }, { 0, 1, "M24", 1749444593496338ULL, 0ULL }, { 0, 1, "M24", 929816306514576ULL, 0ULL }, { 0, 1, "M24", 59524702297ULL, 0ULL }, { 0, 1, "M24", 929816306514576ULL, 0ULL }, { 0, 1, "M24", 1749472106110449ULL, 0ULL }, { 0, 1, "M24", 29994961907379ULL, 0ULL }, { 0, 1, "M24", 59524702297ULL, 0ULL }, { 0, 1, "M24", 29994961907379ULL, 0ULL }, { 0, 1, "M24", 1749444593496338ULL, 0ULL }, { 0, 1, "M24", 29994074403698ULL, 0ULL }, { 0, 1, "M24", 59524702297ULL, 0ULL }, { 0, 1, "M24", 29994074403698ULL, 0ULL } };
JOB2(prog25) { run(s, "p25_main", E25); }
static const Exp E26[] = { { 7, 0, "", 1185015907247385543ULL, 0ULL }, { 62, 0, "", 1076200741040755111ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 58, 0, "", 36124112937718ULL, 0ULL }, { 58, 0, "", 36125029070550ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 7, 0, "", 10532851079077596651ULL, 0ULL }, { 7, 0, "", 10559079184260982283ULL, 0ULL }, { 7, 0, "", 12647503475534587613ULL, 0ULL }, { 7, 0, "", 12673731580717973245ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "*", 2354625472768988570ULL, 0ULL }, { 62, 0, "", 1076200741040755111ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 58, 0, "", 36164966736195ULL, 0ULL }, { 58, 0, "", 36125029070550ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 59, 0, "", 4238852863119280318ULL, 0ULL }, { 59, 0, "", 4238814483022595473ULL, 0ULL }, { 59, 0, "", 8609893817391113484ULL, 0ULL }, { 59, 0, "", 8609855437294428639ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 7, 0, "", 1165293873389ULL, 0ULL }, { 7, 0, "", 1165323426061ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 7, 0, "", 1165293873389ULL, 0ULL }, { 7, 0, "", 1165323426061ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1166611737856ULL, 0ULL }, { 0, 1, "*", 1165323426061ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 0, 1, "*", 1166611737856ULL, 0ULL }, { 0, 1, "*", 1165323426061ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 9, 0, "", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL } };
JOB2(prog26) { run(s, "p26_main", E26); }
static const Exp E27[] = { { 7, 0, "", 1443747717761450310ULL, 0ULL }, { 0, 1, "Error", 212569592023522ULL, 0ULL }, { 7, 0, "", 16708146673566975948ULL, 0ULL }, { 0, 1, "Error", 6857083612392ULL, 0ULL }, { 7, 0, "", 16708147799405568460ULL, 0ULL }, { 7, 0, "", 16708147799405568460ULL, 0ULL }, { 7, 0, "", 11845041421741683334ULL, 0ULL }, { 7, 0, "", 11845041421741683334ULL, 0ULL }, { 0, 1, "*", 6332660714801258539ULL, 0ULL }, { 0, 1, "Error", 4298324612616ULL, 0ULL }, { 0, 1, "*", 6332660714801258539ULL, 0ULL }, { 0, 1, "Error", 4298324612616ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 28601482148ULL, 0ULL }, { 0, 1, "*", 28601482148ULL, 0ULL }, { 0, 1, "*", 28601482148ULL, 0ULL }, { 0, 1, "*", 28601482148ULL, 0ULL }, { 0, 2, "M9", 922628456ULL, 0ULL }, { 0, 2, "M9", 922628456ULL, 0ULL }, { 0, 2, "M9", 922628456ULL, 0ULL }, { 0, 2, "M9", 922628456ULL, 0ULL }, { 0, 1, "*", 85403624356ULL, 0ULL }, { 0, 1, "*", 85403624356ULL, 0ULL }, { 0, 1, "*", 85403624356ULL, 0ULL }, { 0, 1, "*", 85403624356ULL, 0ULL }, { 0, 2, "M9", 2754955624ULL, 0ULL }, { 0, 2, "M9", 2754955624ULL, 0ULL }, { 0, 2, "M9", 2754955624ULL, 0ULL }, { 0, 2, "M9", 2754955624ULL, 0ULL }, { 0, 1, "*", 5595790152136962732ULL, 0ULL }, { 0, 1, "Error", 187834921692354ULL, 0ULL }, { 0, 1, "*", 180509359708562342ULL, 0ULL }, { 0, 1, "Error", 6059191021064ULL, 0ULL }, { 0, 1, "*", 180509359746353574ULL, 0ULL }, { 0, 1, "*", 180509359746353574ULL, 0ULL }, { 0, 1, "*", 5822882571243884ULL, 0ULL }, { 0, 1, "*", 5822882571243884ULL, 0ULL }, { 0, 1, "*", 204279377896814790ULL, 0ULL }, { 0, 1, "Error", 4298324612616ULL, 0ULL }, { 0, 1, "*", 204279377896814790ULL, 0ULL }, { 0, 1, "Error", 4298324612616ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 28601482148ULL, 0ULL }, { 0, 1, "*", 28601482148ULL, 0ULL }, { 0, 1, "*", 28601482148ULL, 0ULL }, { 0, 1, "*", 28601482148ULL, 0ULL }, { 0, 2, "M9", 922628456ULL, 0ULL }, { 0, 2, "M9", 922628456ULL, 0ULL }, { 0, 2, "M9", 922628456ULL, 0ULL }, { 0, 2, "M9", 922628456ULL, 0ULL }, { 0, 1, "*", 85403624356ULL, 0ULL }, { 0, 1, "*", 85403624356ULL, 0ULL }, { 0, 1, "*", 85403624356ULL, 0ULL }, { 0, 1, "*", 85403624356ULL, 0ULL }, { 0, 2, "M9", 2754955624ULL, 0ULL }, { 0, 2, "M9", 2754955624ULL, 0ULL }, { 0, 2, "M9", 2754955624ULL, 0ULL }, { 0, 2, "M9", 2754955624ULL, 0ULL } };
JOB2(prog27) { run(s, "p27_main", E27); }
static const Exp E28[] = { { 7, 0, "", 926072854273026459ULL, 0ULL }, { 7, 0, "", 8150836777821051615ULL, 0ULL }, { 0, 1, "*", 7402094370232338299ULL, 0ULL }, { 0, 1, "*", 7402094370232338299ULL, 0ULL }, { 7, 0, "", 14725106552444112031ULL, 0ULL }, { 7, 0, "", 3252011189450421955ULL, 0ULL }, { 0, 1, "*", 7420171717594881754ULL, 0ULL }, { 0, 1, "*", 7420171717594881754ULL, 0ULL }, { 0, 1, "*", 11565017606813424834ULL, 0ULL }, { 0, 1, "*", 11565017606813424834ULL, 0ULL }, { 0, 1, "*", 8182426849866343774ULL, 0ULL }, { 0, 1, "*", 8182426849866343774ULL, 0ULL }, { 0, 1, "*", 10802762474541962814ULL, 0ULL }, { 0, 1, "*", 10802762474541962814ULL, 0ULL }, { 0, 1, "*", 7420171717594881754ULL, 0ULL }, { 0, 1, "*", 7420171717594881754ULL, 0ULL }, { 7, 0, "", 11930998526724647055ULL, 0ULL }, { 7, 0, "", 8150836777821051615ULL, 0ULL }, { 0, 1, "*", 8182426849866343774ULL, 0ULL }, { 0, 1, "*", 8182426849866343774ULL, 0ULL }, { 7, 0, "", 9995903604251514123ULL, 0ULL }, { 7, 0, "", 3252011189450421955ULL, 0ULL }, { 0, 1, "*", 7420171717594881754ULL, 0ULL }, { 0, 1, "*", 7420171717594881754ULL, 0ULL }, { 0, 1, "*", 11565017606813424834ULL, 0ULL }, { 0, 1, "*", 11565017606813424834ULL, 0ULL }, { 0, 1, "*", 8182426849866343774ULL, 0ULL }, { 0, 1, "*", 8182426849866343774ULL, 0ULL }, { 0, 1, "*", 10802762474541962814ULL, 0ULL }, { 0, 1, "*", 10802762474541962814ULL, 0ULL }, { 0, 1, "*", 7420171717594881754ULL, 0ULL }, { 0, 1, "*", 7420171717594881754ULL, 0ULL }, { 7, 0, "", 6554572932490296570ULL, 0ULL }, { 7, 0, "", 2864424081702415102ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 7, 0, "", 6554572932490296570ULL, 0ULL }, { 7, 0, "", 2864424081703368414ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 0, 1, "*", 902473235170883ULL, 0ULL }, { 0, 1, "*", 902473235170883ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 0, 1, "*", 902473235170883ULL, 0ULL }, { 0, 1, "*", 902473235170883ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 7, 0, "", 9137281743165599056ULL, 0ULL }, { 7, 0, "", 2864424081702415102ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 7, 0, "", 9137281743165599056ULL, 0ULL }, { 7, 0, "", 2864424081703368414ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 0, 1, "*", 902473235170883ULL, 0ULL }, { 0, 1, "*", 902473235170883ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 0, 1, "*", 902473235170883ULL, 0ULL }, { 0, 1, "*", 902473235170883ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL }, { 0, 1, "*", 1044639ULL, 0ULL } };
JOB2(prog28) { run(s, "p28_main", E28); }
static const Exp E29[] = { { 7, 0, "", 3364ULL, 0ULL }, { 7, 0, "", 930781318593957ULL, 0ULL }, { 0, 1, "Error", 3ULL, 0ULL }, { 0, 1, "M8", 968554962116ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 7, 0, "", 930781318593957ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M8", 968554962116ULL, 0ULL }, { 7, 0, "", 3364ULL, 0ULL }, { 7, 0, "", 1091ULL, 0ULL }, { 0, 1, "Error", 3ULL, 0ULL }, { 7, 0, "", 1091ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 7, 0, "", 1091ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 7, 0, "", 1091ULL, 0ULL }, { 7, 0, "", 3364ULL, 0ULL }, { 7, 0, "", 29879873684101ULL, 0ULL }, { 0, 1, "Error", 3ULL, 0ULL }, { 0, 1, "*", 31092480420ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 7, 0, "", 29879873684101ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "*", 31092480420ULL, 0ULL }, { 7, 0, "", 3364ULL, 0ULL }, { 7, 0, "", 29879873684101ULL, 0ULL }, { 0, 1, "Error", 3ULL, 0ULL }, { 0, 1, "*", 31092480420ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 7, 0, "", 29879873684101ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "*", 31092480420ULL, 0ULL }, { 7, 0, "", 3364ULL, 0ULL }, { 9, 0, "", 1048763ULL, 0ULL }, { 0, 1, "Error", 3ULL, 0ULL }, { 9, 0, "", 1048763ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 9, 0, "", 1048763ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 9, 0, "", 1048763ULL, 0ULL }, { 7, 0, "", 3364ULL, 0ULL }, { 7, 0, "", 1091ULL, 0ULL }, { 0, 1, "Error", 3ULL, 0ULL }, { 7, 0, "", 1091ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 7, 0, "", 1091ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 7, 0, "", 1091ULL, 0ULL }, { 7, 0, "", 3364ULL, 0ULL }, { 9, 0, "", 33667ULL, 0ULL }, { 0, 1, "Error", 3ULL, 0ULL }, { 9, 0, "", 33667ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 9, 0, "", 33667ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 9, 0, "", 33667ULL, 0ULL }, { 7, 0, "", 3364ULL, 0ULL }, { 9, 0, "", 33667ULL, 0ULL }, { 0, 1, "Error", 3ULL, 0ULL }, { 9, 0, "", 33667ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 9, 0, "", 33667ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 9, 0, "", 33667ULL, 0ULL } };
JOB2(prog29) { run(s, "p29_main", E29); }
static const Exp E30[] = { { 0, 2, "M39", 6714748183263882107ULL, 0ULL }, { 0, 2, "M39", 5243009722324288012ULL, 0ULL }, { 0, 1, "*", 8950785517167999376ULL, 0ULL }, { 0, 1, "Error", 838483149294412293ULL, 0ULL }, { 0, 2, "M39", 16950313751724853663ULL, 0ULL }, { 0, 1, "*", 838483149294412293ULL, 0ULL }, { 0, 2, "M39", 8950785517200383316ULL, 0ULL }, { 0, 1, "Error", 838483149294412293ULL, 0ULL }, { 0, 2, "M39", 5373698332966495690ULL, 0ULL }, { 0, 2, "M39", 563952483039504797ULL, 0ULL }, { 0, 1, "*", 4402108938207034483ULL, 0ULL }, { 0, 1, "Error", 839329245603671557ULL, 0ULL }, { 0, 2, "M39", 9662903793179326219ULL, 0ULL }, { 0, 1, "*", 839329245603671557ULL, 0ULL }, { 0, 2, "M39", 4402108938207035574ULL, 0ULL }, { 0, 1, "Error", 839329245603671557ULL, 0ULL }, { 0, 2, "M39", 14120378346057851000ULL, 0ULL }, { 0, 1, "Error", 12572311302419494117ULL, 0ULL }, { 0, 1, "*", 1290226554737339827ULL, 0ULL }, { 0, 1, "Error", 12572311302419494117ULL, 0ULL }, { 0, 2, "M39", 7228179627744212667ULL, 0ULL }, { 0, 1, "*", 17820537419087089605ULL, 0ULL }, { 0, 1, "*", 12572311302419494117ULL, 0ULL }, { 0, 1, "*", 12572311302419494117ULL, 0ULL }, { 0, 2, "M39", 4831668709404329261ULL, 0ULL }, { 0, 1, "Error", 13385409855617646821ULL, 0ULL }, { 0, 1, "*", 15255520642894942192ULL, 0ULL }, { 0, 1, "Error", 13385409855617646821ULL, 0ULL }, { 0, 2, "M39", 4795203468406072523ULL, 0ULL }, { 0, 1, "*", 5998251873001118661ULL, 0ULL }, { 0, 1, "*", 13385409855617646821ULL, 0ULL }, { 0, 1, "*", 13385409855617646821ULL, 0ULL }, { 0, 2, "M39", 13082120966512548131ULL, 0ULL }, { 0, 2, "M39", 18164125265937418596ULL, 0ULL }, { 0, 2, "M18", 838483149294412637ULL, 0ULL }, { 0, 2, "M18", 838483149294412637ULL, 0ULL }, { 0, 2, "M39", 17820537419405521704ULL, 0ULL }, { 0, 1, "*", 838483149294412637ULL, 0ULL }, { 0, 2, "M18", 838483149294412637ULL, 0ULL }, { 0, 2, "M18", 838483149294412637ULL, 0ULL }, { 0, 2, "M39", 18075278924293890850ULL, 0ULL }, { 0, 2, "M39", 6931325266288170821ULL, 0ULL }, { 0, 2, "M18", 839329245603671901ULL, 0ULL }, { 0, 2, "M18", 839329245603671901ULL, 0ULL }, { 0, 2, "M39", 9663197187696205923ULL, 0ULL }, { 0, 1, "*", 839329245603671901ULL, 0ULL }, { 0, 2, "M18", 839329245603671901ULL, 0ULL }, { 0, 2, "M18", 839329245603671901ULL, 0ULL }, { 0, 2, "M39", 13628209884730801104ULL, 0ULL }, { 0, 1, "Error", 12572311302419824701ULL, 0ULL }, { 0, 2, "M18", 17481081863971220368ULL, 0ULL }, { 0, 1, "Error", 12572311302419824701ULL, 0ULL }, { 0, 2, "M39", 13595552410992878691ULL, 0ULL }, { 0, 1, "*", 17820537419404780829ULL, 0ULL }, { 0, 1, "*", 12572311302419824701ULL, 0ULL }, { 0, 1, "*", 12572311302419824701ULL, 0ULL }, { 0, 2, "M39", 9576242390963986133ULL, 0ULL }, { 0, 1, "Error", 13385409855617977405ULL, 0ULL }, { 0, 2, "M18", 1478367335787601808ULL, 0ULL }, { 0, 1, "Error", 13385409855617977405ULL, 0ULL }, { 0, 2, "M39", 17496784059733467683ULL, 0ULL }, { 0, 1, "*", 5998251873318809885ULL, 0ULL }, { 0, 1, "*", 13385409855617977405ULL, 0ULL }, { 0, 1, "*", 13385409855617977405ULL, 0ULL } };
JOB2(prog30) { run(s, "p30_main", E30); }
static const Exp E31[] = { { 7, 0, "", 14158057520610284343ULL, 0ULL }, { 0, 1, "*", 16494101230699359313ULL, 0ULL }, { 7, 0, "", 7318311523149634229ULL, 0ULL }, { 0, 1, "*", 10207042677340747567ULL, 0ULL }, { 17, 0, "", 4154208816442440711ULL, 0ULL }, { 17, 0, "", 4154422039201800961ULL, 0ULL }, { 17, 0, "", 4180436921626779655ULL, 0ULL }, { 17, 0, "", 4180650144386139905ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 7, 0, "", 4138061253786175222ULL, 0ULL }, { 0, 1, "*", 7134968765970128528ULL, 0ULL }, { 7, 0, "", 14038898759236244302ULL, 0ULL }, { 0, 1, "*", 12429494210810218056ULL, 0ULL }, { 17, 0, "", 4154208816442440711ULL, 0ULL }, { 17, 0, "", 4154422039201800961ULL, 0ULL }, { 17, 0, "", 4180436921626779655ULL, 0ULL }, { 17, 0, "", 4180650144386139905ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL }, { 2, 0, "", 961ULL, 0ULL } };
JOB2(prog31) { run(s, "p31_main", E31); }
static const Exp E32[] = { { 0, 2, "M39", 4396694641628476954ULL, 0ULL }, { 0, 1, "*", 14265716554634037698ULL, 0ULL }, { 0, 2, "M39", 11040428871547855066ULL, 0ULL }, { 0, 1, "*", 82901839112514ULL, 0ULL }, { 0, 1, "M30", 11173832406279355788ULL, 0ULL }, { 0, 1, "*", 14265716554634037698ULL, 0ULL }, { 0, 1, "M30", 5355666216386234636ULL, 0ULL }, { 0, 1, "*", 82901839112514ULL, 0ULL }, { 0, 2, "M16", 17738611756843817896ULL, 0ULL }, { 0, 2, "M16", 17738611756843817896ULL, 0ULL }, { 34, 0, "", 0ULL, 0ULL }, { 38, 0, "", 1210ULL, 0ULL }, { 0, 1, "M9", 11083466379015123588ULL, 0ULL }, { 0, 1, "M9", 11083466379015123588ULL, 0ULL }, { 0, 1, "M30", 0ULL, 0ULL }, { 0, 1, "M30", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 2, "M16", 17738611756843817896ULL, 0ULL }, { 0, 2, "M16", 17738611756843817896ULL, 0ULL }, { 34, 0, "", 0ULL, 0ULL }, { 38, 0, "", 1210ULL, 0ULL }, { 0, 1, "M9", 11083466379015123588ULL, 0ULL }, { 0, 1, "M9", 11083466379015123588ULL, 0ULL }, { 0, 1, "M30", 0ULL, 0ULL }, { 0, 1, "M30", 0ULL, 0ULL }, { 0, 1, "M5", 97ULL, 0ULL }, { 0, 1, "M5", 97ULL, 0ULL }, { 0, 2, "M39", 13092247364701517049ULL, 0ULL }, { 0, 1, "*", 79668667387126595ULL, 0ULL }, { 0, 1, "M5", 97ULL, 0ULL }, { 0, 1, "M5", 97ULL, 0ULL }, { 0, 1, "M30", 14904828073010516110ULL, 0ULL }, { 0, 1, "*", 79668667387126595ULL, 0ULL }, { 0, 1, "M5", 35ULL, 0ULL }, { 0, 1, "M5", 35ULL, 0ULL }, { 38, 0, "", 26282719555646905ULL, 0ULL }, { 38, 0, "", 26282719555646905ULL, 0ULL }, { 0, 1, "M5", 35ULL, 0ULL }, { 0, 1, "M5", 35ULL, 0ULL }, { 0, 1, "M30", 0ULL, 0ULL }, { 0, 1, "M30", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M5", 35ULL, 0ULL }, { 0, 1, "M5", 35ULL, 0ULL }, { 38, 0, "", 26282719555646905ULL, 0ULL }, { 38, 0, "", 26282719555646905ULL, 0ULL }, { 0, 1, "M5", 35ULL, 0ULL }, { 0, 1, "M5", 35ULL, 0ULL }, { 0, 1, "M30", 0ULL, 0ULL }, { 0, 1, "M30", 0ULL, 0ULL } };
JOB2(prog32) { run(s, "p32_main", E32); }
static const Exp E33[] = { { 7, 0, "", 888126482ULL, 0ULL }, { 7, 0, "", 5987195502082384002ULL, 0ULL }, { 7, 0, "", 5975780864716330532ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 2, "M38", 28784139007678617ULL, 0ULL }, { 0, 2, "M38", 9214733916901969956ULL, 0ULL }, { 0, 2, "M38", 12007071710857051621ULL, 0ULL }, { 3, 0, "", 1088ULL, 0ULL }, { 7, 0, "", 888126482ULL, 0ULL }, { 7, 0, "", 27531739975ULL, 0ULL }, { 7, 0, "", 27518224502ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 1, "M36", 1005413642ULL, 0ULL }, { 0, 1, "M36", 31167642145ULL, 0ULL }, { 0, 1, "M36", 31154126672ULL, 0ULL }, { 3, 0, "", 1088ULL, 0ULL }, { 7, 0, "", 28630185ULL, 0ULL }, { 7, 0, "", 28630185ULL, 0ULL }, { 7, 0, "", 5975780864716330532ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 34, 0, "", 1045600ULL, 0ULL }, { 34, 0, "", 1045600ULL, 0ULL }, { 34, 0, "", 891916177557074053ULL, 0ULL }, { 3, 0, "", 1088ULL, 0ULL }, { 7, 0, "", 28630185ULL, 0ULL }, { 7, 0, "", 28630185ULL, 0ULL }, { 7, 0, "", 27518224502ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 34, 0, "", 1045600ULL, 0ULL }, { 34, 0, "", 1045600ULL, 0ULL }, { 34, 0, "", 1004971827ULL, 0ULL }, { 3, 0, "", 1088ULL, 0ULL }, { 7, 0, "", 888126482ULL, 0ULL }, { 7, 0, "", 5987222794595582114ULL, 0ULL }, { 7, 0, "", 27518223572ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 2, "M38", 28784139007678617ULL, 0ULL }, { 0, 2, "M38", 9214099365970113852ULL, 0ULL }, { 0, 2, "M38", 891916170174105717ULL, 0ULL }, { 3, 0, "", 1088ULL, 0ULL }, { 7, 0, "", 888126482ULL, 0ULL }, { 7, 0, "", 1136465895367437780ULL, 0ULL }, { 7, 0, "", 27518223572ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 1, "M36", 1005413642ULL, 0ULL }, { 0, 1, "M36", 966177566343ULL, 0ULL }, { 0, 1, "M36", 31154125742ULL, 0ULL }, { 3, 0, "", 1088ULL, 0ULL }, { 7, 0, "", 28630185ULL, 0ULL }, { 7, 0, "", 28630185ULL, 0ULL }, { 7, 0, "", 27518223572ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 34, 0, "", 1045600ULL, 0ULL }, { 34, 0, "", 1045600ULL, 0ULL }, { 34, 0, "", 1004971797ULL, 0ULL }, { 3, 0, "", 1088ULL, 0ULL }, { 7, 0, "", 28630185ULL, 0ULL }, { 7, 0, "", 28630185ULL, 0ULL }, { 7, 0, "", 27518223572ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 34, 0, "", 1045600ULL, 0ULL }, { 34, 0, "", 1045600ULL, 0ULL }, { 34, 0, "", 1004971797ULL, 0ULL }, { 3, 0, "", 1088ULL, 0ULL } };
JOB2(prog33) { run(s, "p33_main", E33); }
static const Exp E34[] = { { 0, 1, "M42", 7156286604110827017ULL, 0ULL }, { 0, 1, "M42", 2044128001757183899ULL, 0ULL }, { 0, 1, "*", 3ULL, 0ULL }, { 0, 2, "M20", 2476955944673404701ULL, 0ULL }, { 0, 1, "M42", 483955842921016525ULL, 0ULL }, { 0, 1, "M42", 2044128001757183899ULL, 0ULL }, { 0, 1, "*", 3ULL, 0ULL }, { 0, 2, "M20", 2476955944673404701ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 21, 0, "", 2617535906461644ULL, 0ULL }, { 21, 0, "", 2577477540316028ULL, 0ULL }, { 0, 1, "*", 3ULL, 0ULL }, { 10, 0, "", 97ULL, 0ULL }, { 21, 0, "", 91819151ULL, 0ULL }, { 21, 0, "", 89972109ULL, 0ULL }, { 0, 1, "*", 3ULL, 0ULL }, { 10, 0, "", 97ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL } };
JOB2(prog34) { run(s, "p34_main", E34); }
static const Exp E35[] = { { 0, 1, "M11", 889300103052843430ULL, 0ULL }, { 0, 1, "M11", 27320942906344ULL, 0ULL }, { 0, 1, "M11", 29937363846379ULL, 0ULL }, { 0, 1, "M11", 29937363846379ULL, 0ULL }, { 0, 1, "M11", 889300103052843430ULL, 0ULL }, { 0, 1, "M11", 27320942906344ULL, 0ULL }, { 0, 1, "M11", 29937363846379ULL, 0ULL }, { 0, 1, "M11", 29937363846379ULL, 0ULL }, { 0, 1, "M5", 29851300830883ULL, 0ULL }, { 0, 1, "M5", 917087137ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "M5", 29851300830883ULL, 0ULL }, { 0, 1, "M5", 917087137ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "*", 29851300830883ULL, 0ULL }, { 0, 1, "*", 917087137ULL, 0ULL }, { 0, 1, "*", 1004913022ULL, 0ULL }, { 0, 1, "*", 1004913022ULL, 0ULL }, { 0, 1, "*", 29851300830883ULL, 0ULL }, { 0, 1, "*", 917087137ULL, 0ULL }, { 0, 1, "*", 1004913022ULL, 0ULL }, { 0, 1, "*", 1004913022ULL, 0ULL }, { 0, 1, "M5", 29851300830883ULL, 0ULL }, { 0, 1, "M5", 917087137ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "M5", 29851300830883ULL, 0ULL }, { 0, 1, "M5", 917087137ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "M11", 889300103052843430ULL, 0ULL }, { 0, 1, "M11", 27320942906344ULL, 0ULL }, { 0, 1, "M11", 29937363846379ULL, 0ULL }, { 0, 1, "M11", 29937363846379ULL, 0ULL }, { 0, 1, "M11", 889300103052843430ULL, 0ULL }, { 0, 1, "M11", 27320942906344ULL, 0ULL }, { 0, 1, "M11", 29937363846379ULL, 0ULL }, { 0, 1, "M11", 29937363846379ULL, 0ULL }, { 0, 1, "M5", 29851300830883ULL, 0ULL }, { 0, 1, "M5", 917087137ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "M5", 29851300830883ULL, 0ULL }, { 0, 1, "M5", 917087137ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "*", 29851300830883ULL, 0ULL }, { 0, 1, "*", 917087137ULL, 0ULL }, { 0, 1, "*", 1004913022ULL, 0ULL }, { 0, 1, "*", 1004913022ULL, 0ULL }, { 0, 1, "*", 29851300830883ULL, 0ULL }, { 0, 1, "*", 917087137ULL, 0ULL }, { 0, 1, "*", 1004913022ULL, 0ULL }, { 0, 1, "*", 1004913022ULL, 0ULL }, { 0, 1, "M5", 29851300830883ULL, 0ULL }, { 0, 1, "M5", 917087137ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "M5", 29851300830883ULL, 0ULL }, { 0, 1, "M5", 917087137ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL }, { 0, 1, "M5", 1004913022ULL, 0ULL } };
JOB2(prog35) { run(s, "p35_main", E35); }
static const Exp E36[] = { { 0, 1, "M14", 787822411975621796ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 1, "M14", 853063891811ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 2, "M11", 26444980759479ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 1, "M14", 853063891811ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 1, "M14", 787690213864818441ULL, 0ULL }, { 10, 0, "", 28630148ULL, 0ULL }, { 0, 1, "M14", 852920746056ULL, 0ULL }, { 0, 1, "M14", 852920746056ULL, 0ULL }, { 0, 2, "M11", 26440543241074ULL, 0ULL }, { 0, 2, "M11", 26440543241074ULL, 0ULL }, { 0, 1, "M14", 852920746056ULL, 0ULL }, { 0, 1, "M14", 852920746056ULL, 0ULL }, { 0, 1, "M14", 787822411975621796ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 1, "M14", 853063891811ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 2, "M11", 26444980759479ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 1, "M14", 853063891811ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 1, "M14", 787690213864818441ULL, 0ULL }, { 10, 0, "", 28630148ULL, 0ULL }, { 0, 1, "M14", 852920746056ULL, 0ULL }, { 0, 1, "M14", 852920746056ULL, 0ULL }, { 0, 2, "M11", 26440543241074ULL, 0ULL }, { 0, 2, "M11", 26440543241074ULL, 0ULL }, { 0, 1, "M14", 852920746056ULL, 0ULL }, { 0, 1, "M14", 852920746056ULL, 0ULL }, { 0, 1, "M14", 787822411975621796ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 2, "M6", 28634953ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 2, "M11", 26444980759479ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 2, "M6", 28634953ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 1, "M14", 787690213864818441ULL, 0ULL }, { 10, 0, "", 28630148ULL, 0ULL }, { 0, 2, "M6", 28630148ULL, 0ULL }, { 0, 2, "M6", 28630148ULL, 0ULL }, { 0, 2, "M11", 26440543241074ULL, 0ULL }, { 0, 2, "M11", 26440543241074ULL, 0ULL }, { 0, 2, "M6", 28630148ULL, 0ULL }, { 0, 2, "M6", 28630148ULL, 0ULL }, { 0, 1, "M14", 787822411975621796ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 2, "M6", 28634953ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 2, "M11", 26444980759479ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 2, "M6", 28634953ULL, 0ULL }, { 3, 0, "", 961ULL, 0ULL }, { 0, 1, "M14", 787690213864818441ULL, 0ULL }, { 10, 0, "", 28630148ULL, 0ULL }, { 0, 2, "M6", 28630148ULL, 0ULL }, { 0, 2, "M6", 28630148ULL, 0ULL }, { 0, 2, "M11", 26440543241074ULL, 0ULL }, { 0, 2, "M11", 26440543241074ULL, 0ULL }, { 0, 2, "M6", 28630148ULL, 0ULL }, { 0, 2, "M6", 28630148ULL, 0ULL } };
JOB2(prog36) { run(s, "p36_main", E36); }
static const Exp E37[] = { { 0, 2, "M18", 278242ULL, 0ULL }, { 0, 2, "M18", 278242ULL, 0ULL }, { 0, 2, "M18", 29830914ULL, 0ULL }, { 0, 2, "M18", 29830914ULL, 0ULL }, { 0, 2, "M12", 289ULL, 0ULL }, { 0, 2, "M12", 289ULL, 0ULL }, { 0, 2, "M12", 31041ULL, 0ULL }, { 0, 2, "M12", 31041ULL, 0ULL }, { 11, 0, "", 1847300ULL, 0ULL }, { 11, 0, "", 1847300ULL, 0ULL }, { 11, 0, "", 1847300ULL, 0ULL }, { 11, 0, "", 1847300ULL, 0ULL }, { 11, 0, "", 1847300ULL, 0ULL }, { 11, 0, "", 1847300ULL, 0ULL }, { 11, 0, "", 1847300ULL, 0ULL }, { 11, 0, "", 1847300ULL, 0ULL }, { 0, 1, "Error", 187ULL, 0ULL }, { 0, 1, "Error", 187ULL, 0ULL }, { 0, 1, "Error", 187ULL, 0ULL }, { 0, 1, "Error", 187ULL, 0ULL }, { 0, 1, "Error", 187ULL, 0ULL }, { 0, 1, "Error", 187ULL, 0ULL }, { 0, 1, "Error", 187ULL, 0ULL }, { 0, 1, "Error", 187ULL, 0ULL }, { 0, 1, "Error", 1922ULL, 0ULL }, { 0, 1, "Error", 1922ULL, 0ULL }, { 0, 1, "Error", 1922ULL, 0ULL }, { 0, 1, "Error", 1922ULL, 0ULL }, { 0, 1, "Error", 1922ULL, 0ULL }, { 0, 1, "Error", 1922ULL, 0ULL }, { 0, 1, "Error", 1922ULL, 0ULL }, { 0, 1, "Error", 1922ULL, 0ULL }, { 0, 2, "M18", 39914ULL, 0ULL }, { 0, 2, "M18", 39914ULL, 0ULL }, { 0, 2, "M18", 39914ULL, 0ULL }, { 0, 2, "M18", 39914ULL, 0ULL }, { 0, 2, "M12", 41ULL, 0ULL }, { 0, 2, "M12", 41ULL, 0ULL }, { 0, 2, "M12", 41ULL, 0ULL }, { 0, 2, "M12", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 0, 2, "M18", 41ULL, 0ULL }, { 0, 2, "M18", 41ULL, 0ULL }, { 0, 3, "M14", 1284ULL, 0ULL }, { 0, 3, "M14", 1284ULL, 0ULL }, { 0, 2, "M12", 41ULL, 0ULL }, { 0, 2, "M12", 41ULL, 0ULL }, { 0, 2, "M12", 41ULL, 0ULL }, { 0, 2, "M12", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL }, { 11, 0, "", 41ULL, 0ULL } };
JOB2(prog37) { run(s, "p37_main", E37); }
static const Exp E38[] = { { 7, 0, "", 1969561963019808424ULL, 0ULL }, { 7, 0, "", 1969561963019808424ULL, 0ULL }, { 7, 0, "", 1969561963019808424ULL, 0ULL }, { 7, 0, "", 1969561963019808424ULL, 0ULL }, { 0, 1, "*", 3012ULL, 0ULL }, { 0, 1, "*", 3012ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 7, 0, "", 1969561963019808424ULL, 0ULL }, { 7, 0, "", 1969561963019839176ULL, 0ULL }, { 7, 0, "", 1969561963019808424ULL, 0ULL }, { 7, 0, "", 1969561963019839176ULL, 0ULL }, { 0, 1, "*", 3012ULL, 0ULL }, { 0, 1, "*", 3012ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 7, 0, "", 7367644306042808805ULL, 0ULL }, { 7, 0, "", 7367644306042808805ULL, 0ULL }, { 7, 0, "", 1969561963019808424ULL, 0ULL }, { 7, 0, "", 1969561963019808424ULL, 0ULL }, { 0, 1, "*", 3726887ULL, 0ULL }, { 0, 1, "*", 3726887ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 7, 0, "", 7367644306042808805ULL, 0ULL }, { 7, 0, "", 7367644306042839557ULL, 0ULL }, { 7, 0, "", 1969561963019808424ULL, 0ULL }, { 7, 0, "", 1969561963019839176ULL, 0ULL }, { 0, 1, "*", 3726887ULL, 0ULL }, { 0, 1, "*", 3726887ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 15, 0, "", 82874206475431ULL, 0ULL }, { 15, 0, "", 82874206475431ULL, 0ULL }, { 15, 0, "", 82874206475431ULL, 0ULL }, { 15, 0, "", 82874206475431ULL, 0ULL }, { 0, 1, "*", 3012ULL, 0ULL }, { 0, 1, "*", 3012ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 15, 0, "", 82874206475431ULL, 0ULL }, { 15, 0, "", 82874206475431ULL, 0ULL }, { 15, 0, "", 82874206475431ULL, 0ULL }, { 15, 0, "", 82874206475431ULL, 0ULL }, { 0, 1, "*", 3012ULL, 0ULL }, { 0, 1, "*", 3012ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 15, 0, "", 102536410079075556ULL, 0ULL }, { 15, 0, "", 102536410079075556ULL, 0ULL }, { 15, 0, "", 82874206475431ULL, 0ULL }, { 15, 0, "", 82874206475431ULL, 0ULL }, { 0, 1, "*", 3726887ULL, 0ULL }, { 0, 1, "*", 3726887ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 15, 0, "", 102536410079075556ULL, 0ULL }, { 15, 0, "", 102536410079075556ULL, 0ULL }, { 15, 0, "", 82874206475431ULL, 0ULL }, { 15, 0, "", 82874206475431ULL, 0ULL }, { 0, 1, "*", 3726887ULL, 0ULL }, { 0, 1, "*", 3726887ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL }, { 0, 1, "*", 956324ULL, 0ULL } };
JOB2(prog38) { run(s, "p38_main", E38); }
static const Exp E39[] = { { 0, 2, "M15", 14ULL, 0ULL }, { 0, 2, "M15", 14ULL, 0ULL }, { 0, 2, "M13", 0ULL, 0ULL }, { 0, 2, "M13", 0ULL, 0ULL }, { 0, 2, "M15", 14ULL, 0ULL }, { 0, 2, "M15", 14ULL, 0ULL }, { 0, 2, "M13", 0ULL, 0ULL }, { 0, 2, "M13", 0ULL, 0ULL }, { 0, 2, "M15", 14ULL, 0ULL }, { 0, 2, "M15", 14ULL, 0ULL }, { 0, 2, "M13", 0ULL, 0ULL }, { 0, 2, "M13", 0ULL, 0ULL }, { 0, 2, "M15", 14ULL, 0ULL }, { 0, 2, "M15", 14ULL, 0ULL }, { 0, 2, "M13", 0ULL, 0ULL }, { 0, 2, "M13", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 12, 0, "", 0ULL, 0ULL }, { 0, 2, "M15", 1035445801ULL, 0ULL }, { 0, 2, "M15", 1035446793ULL, 0ULL }, { 0, 2, "M13", 31713ULL, 0ULL }, { 0, 1, "*", 33ULL, 0ULL }, { 0, 1, "M4", 1ULL, 0ULL }, { 0, 1, "M4", 1ULL, 0ULL }, { 0, 2, "M13", 31713ULL, 0ULL }, { 0, 1, "*", 33ULL, 0ULL }, { 0, 2, "M15", 1035445801ULL, 0ULL }, { 7, 0, "", 34757ULL, 0ULL }, { 0, 2, "M13", 31713ULL, 0ULL }, { 0, 1, "*", 33ULL, 0ULL }, { 0, 1, "M4", 1ULL, 0ULL }, { 0, 1, "M4", 1ULL, 0ULL }, { 0, 2, "M13", 31713ULL, 0ULL }, { 0, 1, "*", 33ULL, 0ULL }, { 0, 2, "M15", 1035446793ULL, 0ULL }, { 0, 2, "M15", 1035446793ULL, 0ULL }, { 0, 2, "M13", 31745ULL, 0ULL }, { 0, 1, "*", 33ULL, 0ULL }, { 0, 1, "M4", 1ULL, 0ULL }, { 0, 1, "M4", 1ULL, 0ULL }, { 0, 2, "M13", 31745ULL, 0ULL }, { 0, 1, "*", 33ULL, 0ULL }, { 0, 2, "M15", 1035446793ULL, 0ULL }, { 7, 0, "", 34757ULL, 0ULL }, { 0, 2, "M13", 31745ULL, 0ULL }, { 0, 1, "*", 33ULL, 0ULL }, { 0, 1, "M4", 1ULL, 0ULL }, { 0, 1, "M4", 1ULL, 0ULL }, { 0, 2, "M13", 31745ULL, 0ULL }, { 0, 1, "*", 33ULL, 0ULL } };
JOB2(prog39) { run(s, "p39_main", E39); }
static const Exp E40[] = { { 0, 2, "M32", 4407522432432201735ULL, 0ULL }, { 0, 2, "M32", 17644440590102273251ULL, 0ULL }, { 0, 2, "M32", 4407522432432201735ULL, 0ULL }, { 0, 2, "M32", 17644440590102273251ULL, 0ULL }, { 0, 2, "M32", 2484970697698986732ULL, 0ULL }, { 0, 2, "M32", 17644440590102273251ULL, 0ULL }, { 0, 2, "M32", 2484970697698986732ULL, 0ULL }, { 0, 2, "M32", 17644440590102273251ULL, 0ULL }, { 0, 2, "M32", 11790032442478270708ULL, 0ULL }, { 0, 2, "M32", 3599319079103131752ULL, 0ULL }, { 0, 2, "M32", 11790032442478270708ULL, 0ULL }, { 0, 2, "M32", 3599319079103131752ULL, 0ULL }, { 0, 2, "M32", 1211553394354321777ULL, 0ULL }, { 0, 2, "M32", 3599319079103131752ULL, 0ULL }, { 0, 2, "M32", 1211553394354321777ULL, 0ULL }, { 0, 2, "M32", 3599319079103131752ULL, 0ULL }, { 10, 0, "", 27047733584883046ULL, 0ULL }, { 10, 0, "", 29287621602ULL, 0ULL }, { 10, 0, "", 27047733584883046ULL, 0ULL }, { 10, 0, "", 29287621602ULL, 0ULL }, { 10, 0, "", 27047733593293749ULL, 0ULL }, { 10, 0, "", 29287621602ULL, 0ULL }, { 10, 0, "", 27047733593293749ULL, 0ULL }, { 10, 0, "", 29287621602ULL, 0ULL }, { 10, 0, "", 27047872035457282ULL, 0ULL }, { 10, 0, "", 29287771518ULL, 0ULL }, { 10, 0, "", 27047872035457282ULL, 0ULL }, { 10, 0, "", 29287771518ULL, 0ULL }, { 10, 0, "", 27047872043867985ULL, 0ULL }, { 10, 0, "", 29287771518ULL, 0ULL }, { 10, 0, "", 27047872043867985ULL, 0ULL }, { 10, 0, "", 29287771518ULL, 0ULL }, { 0, 2, "M32", 4407522432432201735ULL, 0ULL }, { 0, 2, "M32", 17644440590102273251ULL, 0ULL }, { 0, 2, "M32", 4407522432432201735ULL, 0ULL }, { 0, 2, "M32", 17644440590102273251ULL, 0ULL }, { 0, 2, "M32", 2484970697698986732ULL, 0ULL }, { 0, 2, "M32", 17644440590102273251ULL, 0ULL }, { 0, 2, "M32", 2484970697698986732ULL, 0ULL }, { 0, 2, "M32", 17644440590102273251ULL, 0ULL }, { 0, 2, "M32", 11790032442478270708ULL, 0ULL }, { 0, 2, "M32", 3599319079103131752ULL, 0ULL }, { 0, 2, "M32", 11790032442478270708ULL, 0ULL }, { 0, 2, "M32", 3599319079103131752ULL, 0ULL }, { 0, 2, "M32", 1211553394354321777ULL, 0ULL }, { 0, 2, "M32", 3599319079103131752ULL, 0ULL }, { 0, 2, "M32", 1211553394354321777ULL, 0ULL }, { 0, 2, "M32", 3599319079103131752ULL, 0ULL }, { 10, 0, "", 27047733584883046ULL, 0ULL }, { 10, 0, "", 29287621602ULL, 0ULL }, { 10, 0, "", 27047733584883046ULL, 0ULL }, { 10, 0, "", 29287621602ULL, 0ULL }, { 10, 0, "", 27047733593293749ULL, 0ULL }, { 10, 0, "", 29287621602ULL, 0ULL }, { 10, 0, "", 27047733593293749ULL, 0ULL }, { 10, 0, "", 29287621602ULL, 0ULL }, { 10, 0, "", 27047872035457282ULL, 0ULL }, { 10, 0, "", 29287771518ULL, 0ULL }, { 10, 0, "", 27047872035457282ULL, 0ULL }, { 10, 0, "", 29287771518ULL, 0ULL }, { 10, 0, "", 27047872043867985ULL, 0ULL }, { 10, 0, "", 29287771518ULL, 0ULL }, { 10, 0, "", 27047872043867985ULL, 0ULL }, { 10, 0, "", 29287771518ULL, 0ULL } };
JOB2(prog40) { run(s, "p40_main", E40); }
static const Exp E41[] = { { 7, 0, "", 5975363798269131ULL, 0ULL }, { 7, 0, "", 5584447ULL, 0ULL }, { 0, 1, "Error", 11991366250849731492ULL, 0ULL }, { 0, 1, "Error", 140628668243ULL, 0ULL }, { 7, 0, "", 5975363798269131ULL, 0ULL }, { 7, 0, "", 5584447ULL, 0ULL }, { 0, 1, "Error", 11991366250849731492ULL, 0ULL }, { 0, 1, "Error", 140628668243ULL, 0ULL }, { 0, 2, "M13", 192753670911907ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 0, 2, "M13", 192753670911907ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 0, 2, "M13", 192753670911907ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 0, 2, "M13", 192753670911907ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 7, 0, "", 5975363798269131ULL, 0ULL }, { 7, 0, "", 5584447ULL, 0ULL }, { 0, 1, "Error", 11991366250849731492ULL, 0ULL }, { 0, 1, "Error", 140628668243ULL, 0ULL }, { 7, 0, "", 5975363798269131ULL, 0ULL }, { 7, 0, "", 5584447ULL, 0ULL }, { 0, 1, "Error", 11991366250849731492ULL, 0ULL }, { 0, 1, "Error", 140628668243ULL, 0ULL }, { 0, 2, "M13", 192753670911907ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 0, 2, "M13", 192753670911907ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 0, 2, "M13", 192753670911907ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 0, 2, "M13", 192753670911907ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 7, 0, "", 193670489979606ULL, 0ULL }, { 7, 0, "", 966842ULL, 0ULL }, { 0, 1, "Error", 5769637566982456761ULL, 0ULL }, { 0, 1, "Error", 28803204437ULL, 0ULL }, { 7, 0, "", 193670489979606ULL, 0ULL }, { 7, 0, "", 966842ULL, 0ULL }, { 0, 1, "Error", 5769637566982456761ULL, 0ULL }, { 0, 1, "Error", 28803204437ULL, 0ULL }, { 0, 2, "M13", 6247435160632ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 0, 2, "M13", 6247435160632ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 0, 2, "M13", 6247435160632ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 0, 2, "M13", 6247435160632ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 7, 0, "", 193670489979606ULL, 0ULL }, { 7, 0, "", 966842ULL, 0ULL }, { 0, 1, "Error", 5769637566982456761ULL, 0ULL }, { 0, 1, "Error", 28803204437ULL, 0ULL }, { 7, 0, "", 193670489979606ULL, 0ULL }, { 7, 0, "", 966842ULL, 0ULL }, { 0, 1, "Error", 5769637566982456761ULL, 0ULL }, { 0, 1, "Error", 28803204437ULL, 0ULL }, { 0, 2, "M13", 6247435160632ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 0, 2, "M13", 6247435160632ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 0, 2, "M13", 6247435160632ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL }, { 0, 2, "M13", 6247435160632ULL, 0ULL }, { 0, 2, "M13", 90770ULL, 0ULL } };
JOB2(prog41) { run(s, "p41_main", E41); }
static const Exp E42[] = { { 0, 2, "M24", 1600768274266688269ULL, 0ULL }, { 0, 2, "M24", 4135030972344371054ULL, 0ULL }, { 0, 2, "M24", 17069205702359971632ULL, 0ULL }, { 0, 2, "M24", 4135030972344371054ULL, 0ULL }, { 0, 2, "M24", 1600768274266688269ULL, 0ULL }, { 7, 0, "", 28632995ULL, 0ULL }, { 0, 2, "M24", 17069205702359971632ULL, 0ULL }, { 7, 0, "", 28632995ULL, 0ULL }, { 0, 2, "M24", 1279370143736476753ULL, 0ULL }, { 0, 2, "M24", 1585836491521485646ULL, 0ULL }, { 0, 2, "M24", 1279370143736476753ULL, 0ULL }, { 0, 2, "M24", 1585836491521485646ULL, 0ULL }, { 0, 2, "M24", 1279370143736476753ULL, 0ULL }, { 7, 0, "", 29586307ULL, 0ULL }, { 0, 2, "M24", 1279370143736476753ULL, 0ULL }, { 7, 0, "", 29586307ULL, 0ULL }, { 0, 2, "M24", 5805564088386814395ULL, 0ULL }, { 8, 0, "", 28633213ULL, 0ULL }, { 0, 2, "M24", 1945540473673805636ULL, 0ULL }, { 8, 0, "", 28633213ULL, 0ULL }, { 0, 2, "M24", 5805564088386814395ULL, 0ULL }, { 7, 0, "", 28633213ULL, 0ULL }, { 0, 2, "M24", 1945540473673805636ULL, 0ULL }, { 7, 0, "", 28633213ULL, 0ULL }, { 0, 2, "M24", 3133650505648594167ULL, 0ULL }, { 8, 0, "", 29586525ULL, 0ULL }, { 0, 2, "M24", 3133650505648594167ULL, 0ULL }, { 8, 0, "", 29586525ULL, 0ULL }, { 0, 2, "M24", 3133650505648594167ULL, 0ULL }, { 7, 0, "", 29586525ULL, 0ULL }, { 0, 2, "M24", 3133650505648594167ULL, 0ULL }, { 7, 0, "", 29586525ULL, 0ULL }, { 0, 2, "M24", 15679171363716380332ULL, 0ULL }, { 0, 2, "M24", 17680410737217268719ULL, 0ULL }, { 0, 2, "M24", 12167841393523317681ULL, 0ULL }, { 0, 2, "M24", 17680410737217268719ULL, 0ULL }, { 0, 2, "M24", 15679171363716380332ULL, 0ULL }, { 7, 0, "", 32416484ULL, 0ULL }, { 0, 2, "M24", 12167841393523317681ULL, 0ULL }, { 7, 0, "", 32416484ULL, 0ULL }, { 0, 2, "M24", 1109628945185759056ULL, 0ULL }, { 0, 2, "M24", 17680410737217268719ULL, 0ULL }, { 0, 2, "M24", 1109628945185759056ULL, 0ULL }, { 0, 2, "M24", 17680410737217268719ULL, 0ULL }, { 0, 2, "M24", 1109628945185759056ULL, 0ULL }, { 7, 0, "", 32416484ULL, 0ULL }, { 0, 2, "M24", 1109628945185759056ULL, 0ULL }, { 7, 0, "", 32416484ULL, 0ULL }, { 0, 2, "M24", 6064742034082610716ULL, 0ULL }, { 8, 0, "", 32416670ULL, 0ULL }, { 0, 2, "M24", 168732271240487619ULL, 0ULL }, { 8, 0, "", 32416670ULL, 0ULL }, { 0, 2, "M24", 6064742034082610716ULL, 0ULL }, { 7, 0, "", 32416670ULL, 0ULL }, { 0, 2, "M24", 168732271240487619ULL, 0ULL }, { 7, 0, "", 32416670ULL, 0ULL }, { 0, 2, "M24", 1970007057227095544ULL, 0ULL }, { 8, 0, "", 32416670ULL, 0ULL }, { 0, 2, "M24", 1970007057227095544ULL, 0ULL }, { 8, 0, "", 32416670ULL, 0ULL }, { 0, 2, "M24", 1970007057227095544ULL, 0ULL }, { 7, 0, "", 32416670ULL, 0ULL }, { 0, 2, "M24", 1970007057227095544ULL, 0ULL }, { 7, 0, "", 32416670ULL, 0ULL } };
JOB2(prog42) { run(s, "p42_main", E42); }
static const Exp E43[] = { { 7, 0, "", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M48", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 15865121360658526172ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 53388678004241306ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M48", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 1864836251ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 1864836251ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 47, 0, "", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 47, 0, "", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 1722215419042341ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 1722215419491128ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 47, 0, "", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 47, 0, "", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 1864836251ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 1864836251ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M48", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 15865121360658526172ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 53388678004238423ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M48", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 1864836251ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 1864836251ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 47, 0, "", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 47, 0, "", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 1722215419042341ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 1722215419491128ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 47, 0, "", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 47, 0, "", 2019ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 1864836251ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M30", 1864836251ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL } };
JOB2(prog43) { run(s, "p43_main", E43); }
static const Exp E44[] = { { 7, 0, "", 12908681245344723182ULL, 0ULL }, { 7, 0, "", 1220402179159212302ULL, 0ULL }, { 0, 1, "Error", 4935130371963781781ULL, 0ULL }, { 0, 1, "Error", 4935130371963781781ULL, 0ULL }, { 7, 0, "", 1245035893282542872ULL, 0ULL }, { 7, 0, "", 1245881961191684344ULL, 0ULL }, { 0, 1, "Error", 17698402155169507991ULL, 0ULL }, { 0, 1, "Error", 17698402155169507991ULL, 0ULL }, { 25, 0, "", 45908924ULL, 0ULL }, { 25, 0, "", 45283313ULL, 0ULL }, { 25, 0, "", 28231552246747ULL, 0ULL }, { 25, 0, "", 28231552246747ULL, 0ULL }, { 25, 0, "", 45908924ULL, 0ULL }, { 25, 0, "", 45283313ULL, 0ULL }, { 25, 0, "", 28231552246747ULL, 0ULL }, { 25, 0, "", 28231552246747ULL, 0ULL }, { 7, 0, "", 12908681245344723182ULL, 0ULL }, { 7, 0, "", 1220402179159212302ULL, 0ULL }, { 7, 0, "", 10631527086110789225ULL, 0ULL }, { 7, 0, "", 10631527086110789225ULL, 0ULL }, { 7, 0, "", 1245035893282542872ULL, 0ULL }, { 7, 0, "", 1245881961191684344ULL, 0ULL }, { 7, 0, "", 9899777538293936626ULL, 0ULL }, { 7, 0, "", 9899777538293936626ULL, 0ULL }, { 25, 0, "", 45908924ULL, 0ULL }, { 25, 0, "", 45283313ULL, 0ULL }, { 25, 0, "", 7625687288686972749ULL, 0ULL }, { 25, 0, "", 7625687288686972749ULL, 0ULL }, { 25, 0, "", 45908924ULL, 0ULL }, { 25, 0, "", 45283313ULL, 0ULL }, { 25, 0, "", 7625687288686972749ULL, 0ULL }, { 25, 0, "", 7625687288686972749ULL, 0ULL }, { 0, 1, "M23", 45253275ULL, 0ULL }, { 0, 1, "M23", 45284027ULL, 0ULL }, { 0, 1, "M23", 7625687288658344312ULL, 0ULL }, { 0, 1, "M23", 7625687288658344312ULL, 0ULL }, { 0, 1, "M23", 45253275ULL, 0ULL }, { 0, 1, "M23", 45284027ULL, 0ULL }, { 0, 1, "M23", 7625687288658344312ULL, 0ULL }, { 0, 1, "M23", 7625687288658344312ULL, 0ULL }, { 0, 1, "M23", 45908924ULL, 0ULL }, { 0, 1, "M23", 45283313ULL, 0ULL }, { 0, 1, "M23", 7625687288658343598ULL, 0ULL }, { 0, 1, "M23", 7625687288658343598ULL, 0ULL }, { 0, 1, "M23", 45908924ULL, 0ULL }, { 0, 1, "M23", 45283313ULL, 0ULL }, { 0, 1, "M23", 7625687288658343598ULL, 0ULL }, { 0, 1, "M23", 7625687288658343598ULL, 0ULL }, { 0, 1, "M23", 45253275ULL, 0ULL }, { 0, 1, "M23", 45284027ULL, 0ULL }, { 0, 1, "M23", 7625687288658344312ULL, 0ULL }, { 0, 1, "M23", 7625687288658344312ULL, 0ULL }, { 0, 1, "M23", 45253275ULL, 0ULL }, { 0, 1, "M23", 45284027ULL, 0ULL }, { 0, 1, "M23", 7625687288658344312ULL, 0ULL }, { 0, 1, "M23", 7625687288658344312ULL, 0ULL }, { 0, 1, "M23", 45908924ULL, 0ULL }, { 0, 1, "M23", 45283313ULL, 0ULL }, { 0, 1, "M23", 7625687288658343598ULL, 0ULL }, { 0, 1, "M23", 7625687288658343598ULL, 0ULL }, { 0, 1, "M23", 45908924ULL, 0ULL }, { 0, 1, "M23", 45283313ULL, 0ULL }, { 0, 1, "M23", 7625687288658343598ULL, 0ULL }, { 0, 1, "M23", 7625687288658343598ULL, 0ULL } };
JOB2(prog44) { run(s, "p44_main", E44); }
static const Exp E45[] = { { 7, 0, "", 17342686713545043637ULL, 0ULL }, { 0, 1, "*", 11673363445359745426ULL, 0ULL }, { 7, 0, "", 13883230192738049848ULL, 0ULL }, { 7, 0, "", 2481874174222212210ULL, 0ULL }, { 7, 0, "", 17342686713545043637ULL, 0ULL }, { 0, 1, "*", 11673363445359745426ULL, 0ULL }, { 7, 0, "", 13883230192738049848ULL, 0ULL }, { 7, 0, "", 2481874174222212210ULL, 0ULL }, { 0, 1, "M50", 10718875707471436247ULL, 0ULL }, { 0, 1, "*", 6927642259376469270ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 7, 0, "", 12566020460486243167ULL, 0ULL }, { 7, 0, "", 9611634121308706269ULL, 0ULL }, { 0, 2, "M32", 2807252223078457809ULL, 0ULL }, { 0, 2, "M32", 2807252222651803600ULL, 0ULL }, { 0, 2, "M32", 10206512950842450285ULL, 0ULL }, { 0, 2, "M32", 2807252222651803600ULL, 0ULL }, { 0, 2, "M32", 2807252223078457809ULL, 0ULL }, { 0, 2, "M32", 2807252222651803600ULL, 0ULL }, { 0, 2, "M32", 10206512950842450285ULL, 0ULL }, { 0, 2, "M32", 2807252222651803600ULL, 0ULL }, { 0, 2, "M32", 1109810016813ULL, 0ULL }, { 0, 2, "M32", 35787405516ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 2, "M32", 917221718036ULL, 0ULL }, { 0, 2, "M32", 29574879749ULL, 0ULL }, { 7, 0, "", 17342686713545043637ULL, 0ULL }, { 0, 1, "*", 11673363445359745426ULL, 0ULL }, { 7, 0, "", 13883230192738049848ULL, 0ULL }, { 7, 0, "", 2481874174222212210ULL, 0ULL }, { 7, 0, "", 17342686713545043637ULL, 0ULL }, { 0, 1, "*", 11673363445359745426ULL, 0ULL }, { 7, 0, "", 13883230192738049848ULL, 0ULL }, { 7, 0, "", 2481874174222212210ULL, 0ULL }, { 0, 1, "*", 1250ULL, 0ULL }, { 0, 1, "*", 6927642259376469270ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1033ULL, 0ULL }, { 7, 0, "", 9611634121308706269ULL, 0ULL }, { 0, 2, "M32", 2807252223078457809ULL, 0ULL }, { 0, 2, "M32", 2807252222651803600ULL, 0ULL }, { 0, 2, "M32", 10206512950842450285ULL, 0ULL }, { 0, 2, "M32", 2807252222651803600ULL, 0ULL }, { 0, 2, "M32", 2807252223078457809ULL, 0ULL }, { 0, 2, "M32", 2807252222651803600ULL, 0ULL }, { 0, 2, "M32", 10206512950842450285ULL, 0ULL }, { 0, 2, "M32", 2807252222651803600ULL, 0ULL }, { 0, 1, "*", 1250ULL, 0ULL }, { 0, 2, "M32", 35787405516ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "M3", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1033ULL, 0ULL }, { 0, 2, "M32", 29574879749ULL, 0ULL } };
JOB2(prog45) { run(s, "p45_main", E45); }
static const Exp E46[] = { { 0, 1, "M34", 6033299101474430877ULL, 0ULL }, { 0, 1, "Error", 6042341452253380359ULL, 0ULL }, { 0, 1, "M34", 12690804020947611785ULL, 0ULL }, { 0, 1, "Error", 12691095709682416607ULL, 0ULL }, { 0, 1, "M34", 6033299101497549469ULL, 0ULL }, { 0, 1, "Error", 6042341452276498951ULL, 0ULL }, { 0, 1, "M34", 12690804020948326769ULL, 0ULL }, { 0, 1, "Error", 12691095709683131591ULL, 0ULL }, { 16, 0, "", 7465534658111221815ULL, 0ULL }, { 16, 0, "", 7465534658121410337ULL, 0ULL }, { 16, 0, "", 7465534658111221815ULL, 0ULL }, { 16, 0, "", 7465534658121410337ULL, 0ULL }, { 16, 0, "", 7465534658111221815ULL, 0ULL }, { 16, 0, "", 7465534658121410337ULL, 0ULL }, { 16, 0, "", 7465534658111221815ULL, 0ULL }, { 16, 0, "", 7465534658121410337ULL, 0ULL }, { 0, 1, "M34", 6846370362159385469ULL, 0ULL }, { 0, 1, "Error", 6855412712938334951ULL, 0ULL }, { 0, 1, "M34", 12717032126130997417ULL, 0ULL }, { 0, 1, "Error", 12717323814865802239ULL, 0ULL }, { 0, 1, "M34", 6846370362182504061ULL, 0ULL }, { 0, 1, "Error", 6855412712961453543ULL, 0ULL }, { 0, 1, "M34", 12717032126131712401ULL, 0ULL }, { 0, 1, "Error", 12717323814866517223ULL, 0ULL }, { 16, 0, "", 7465534659027354647ULL, 0ULL }, { 16, 0, "", 7465534659037543169ULL, 0ULL }, { 16, 0, "", 7465534659027354647ULL, 0ULL }, { 16, 0, "", 7465534659037543169ULL, 0ULL }, { 16, 0, "", 7465534659027354647ULL, 0ULL }, { 16, 0, "", 7465534659037543169ULL, 0ULL }, { 16, 0, "", 7465534659027354647ULL, 0ULL }, { 16, 0, "", 7465534659037543169ULL, 0ULL }, { 0, 1, "M11", 2569079092983129ULL, 0ULL }, { 0, 1, "M11", 2569079093311791ULL, 0ULL }, { 0, 1, "M11", 2569079092983129ULL, 0ULL }, { 0, 1, "M11", 2569079093311791ULL, 0ULL }, { 0, 1, "M11", 2569079092983129ULL, 0ULL }, { 0, 1, "M11", 2569079093311791ULL, 0ULL }, { 0, 1, "M11", 2569079092983129ULL, 0ULL }, { 0, 1, "M11", 2569079093311791ULL, 0ULL }, { 0, 1, "M20", 15201724220215202709ULL, 0ULL }, { 0, 1, "M20", 15201733629529228671ULL, 0ULL }, { 0, 1, "M20", 15201724220215202709ULL, 0ULL }, { 0, 1, "M20", 15201733629529228671ULL, 0ULL }, { 0, 1, "M20", 15201724220215202709ULL, 0ULL }, { 0, 1, "M20", 15201733629529228671ULL, 0ULL }, { 0, 1, "M20", 15201724220215202709ULL, 0ULL }, { 0, 1, "M20", 15201733629529228671ULL, 0ULL }, { 0, 1, "M11", 2569079122535801ULL, 0ULL }, { 0, 1, "M11", 2569079122864463ULL, 0ULL }, { 0, 1, "M11", 2569079122535801ULL, 0ULL }, { 0, 1, "M11", 2569079122864463ULL, 0ULL }, { 0, 1, "M11", 2569079122535801ULL, 0ULL }, { 0, 1, "M11", 2569079122864463ULL, 0ULL }, { 0, 1, "M11", 2569079122535801ULL, 0ULL }, { 0, 1, "M11", 2569079122864463ULL, 0ULL }, { 0, 1, "M20", 15202570288124344181ULL, 0ULL }, { 0, 1, "M20", 15202579697438370143ULL, 0ULL }, { 0, 1, "M20", 15202570288124344181ULL, 0ULL }, { 0, 1, "M20", 15202579697438370143ULL, 0ULL }, { 0, 1, "M20", 15202570288124344181ULL, 0ULL }, { 0, 1, "M20", 15202579697438370143ULL, 0ULL }, { 0, 1, "M20", 15202570288124344181ULL, 0ULL }, { 0, 1, "M20", 15202579697438370143ULL, 0ULL } };
JOB2(prog46) { run(s, "p46_main", E46); }
static const Exp E47[] = { { 7, 0, "", 412629577198244ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 15ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 6280274687072896296ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 2662898341ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 12791516893145622ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 15ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 7149803056497922561ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 2692452005ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 412629577198244ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 15ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 6280274687072896296ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 2662898341ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 12791516893145622ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 15ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 7149803056497922561ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 2692452005ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "M60", 616996895911775917ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 2558902146538ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "M60", 11335749550651603853ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 112942000710ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "M60", 3230288191955086018ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 112942001702ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "M60", 4138461353479071671ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 82546184820ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "M60", 17065933483304313223ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 3644252352ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "M60", 1904175586307876308ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 3644244664ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL } };
JOB2(prog47) { run(s, "p47_main", E47); }
static const Exp E48[] = { { 7, 0, "", 7600750494728207052ULL, 0ULL }, { 7, 0, "", 1775425471ULL, 0ULL }, { 7, 0, "", 7600750494670948750ULL, 0ULL }, { 7, 0, "", 1775425471ULL, 0ULL }, { 7, 0, "", 78938ULL, 0ULL }, { 7, 0, "", 1804932015ULL, 0ULL }, { 7, 0, "", 78938ULL, 0ULL }, { 7, 0, "", 1804932015ULL, 0ULL }, { 7, 0, "", 60617ULL, 0ULL }, { 7, 0, "", 1775425471ULL, 0ULL }, { 7, 0, "", 60617ULL, 0ULL }, { 7, 0, "", 1775425471ULL, 0ULL }, { 7, 0, "", 78938ULL, 0ULL }, { 7, 0, "", 1804932015ULL, 0ULL }, { 7, 0, "", 78938ULL, 0ULL }, { 7, 0, "", 1804932015ULL, 0ULL }, { 7, 0, "", 1722181605453305ULL, 0ULL }, { 7, 0, "", 1722181605453305ULL, 0ULL }, { 7, 0, "", 1722181605453305ULL, 0ULL }, { 7, 0, "", 1722181605453305ULL, 0ULL }, { 7, 0, "", 1722181605453305ULL, 0ULL }, { 7, 0, "", 1722181605453305ULL, 0ULL }, { 7, 0, "", 1722181605453305ULL, 0ULL }, { 7, 0, "", 1722181605453305ULL, 0ULL }, { 7, 0, "", 55554244347715ULL, 0ULL }, { 7, 0, "", 55554244347715ULL, 0ULL }, { 7, 0, "", 55554244347715ULL, 0ULL }, { 7, 0, "", 55554244347715ULL, 0ULL }, { 7, 0, "", 55554244347715ULL, 0ULL }, { 7, 0, "", 55554244347715ULL, 0ULL }, { 7, 0, "", 55554244347715ULL, 0ULL }, { 7, 0, "", 55554244347715ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL } };
JOB2(prog48) { run(s, "p48_main", E48); }
static const Exp E49[] = { { 7, 0, "", 17687599922112875756ULL, 0ULL }, { 7, 0, "", 17687599922112875756ULL, 0ULL }, { 7, 0, "", 8349284053025916520ULL, 0ULL }, { 7, 0, "", 8349284053025916520ULL, 0ULL }, { 7, 0, "", 13360415572727250027ULL, 0ULL }, { 7, 0, "", 13360415572727250027ULL, 0ULL }, { 7, 0, "", 573785617078439503ULL, 0ULL }, { 7, 0, "", 573785617078439503ULL, 0ULL }, { 7, 0, "", 12205500764805051571ULL, 0ULL }, { 7, 0, "", 12205500764805051571ULL, 0ULL }, { 7, 0, "", 12205500764805051571ULL, 0ULL }, { 7, 0, "", 12205500764805051571ULL, 0ULL }, { 7, 0, "", 9436038359547374816ULL, 0ULL }, { 7, 0, "", 9436038359547374816ULL, 0ULL }, { 7, 0, "", 9436039239951026368ULL, 0ULL }, { 7, 0, "", 9436039239951026368ULL, 0ULL }, { 0, 1, "*", 16911802372855544586ULL, 0ULL }, { 0, 1, "*", 16911802372855544586ULL, 0ULL }, { 0, 1, "*", 813918466729787782ULL, 0ULL }, { 0, 1, "*", 813918466729787782ULL, 0ULL }, { 0, 1, "*", 7757039494654883273ULL, 0ULL }, { 0, 1, "*", 7757039494654883273ULL, 0ULL }, { 0, 1, "*", 6784728394914316973ULL, 0ULL }, { 0, 1, "*", 6784728394914316973ULL, 0ULL }, { 0, 1, "*", 926524911315203ULL, 0ULL }, { 0, 1, "*", 926524911315203ULL, 0ULL }, { 0, 1, "*", 926524911315203ULL, 0ULL }, { 0, 1, "*", 926524911315203ULL, 0ULL }, { 0, 1, "*", 28722272251217648ULL, 0ULL }, { 0, 1, "*", 28722272251217648ULL, 0ULL }, { 0, 1, "*", 28722272251218640ULL, 0ULL }, { 0, 1, "*", 28722272251218640ULL, 0ULL }, { 0, 1, "M22", 660551376063374060ULL, 0ULL }, { 0, 1, "M22", 660551376063374060ULL, 0ULL }, { 0, 1, "M22", 7412395431524891240ULL, 0ULL }, { 0, 1, "M22", 7412395431524891240ULL, 0ULL }, { 0, 1, "M22", 2030348584683973099ULL, 0ULL }, { 0, 1, "M22", 2030348584683973099ULL, 0ULL }, { 0, 1, "M22", 8423329493186891215ULL, 0ULL }, { 0, 1, "M22", 8423329493186891215ULL, 0ULL }, { 0, 1, "M22", 890390439773910693ULL, 0ULL }, { 0, 1, "M22", 890390439773910693ULL, 0ULL }, { 0, 1, "M22", 890390439773910693ULL, 0ULL }, { 0, 1, "M22", 890390439773910693ULL, 0ULL }, { 0, 1, "M22", 9155359559710608722ULL, 0ULL }, { 0, 1, "M22", 9155359559710608722ULL, 0ULL }, { 0, 1, "M22", 9155359559711562034ULL, 0ULL }, { 0, 1, "M22", 9155359559711562034ULL, 0ULL }, { 0, 1, "*", 16911802372855544586ULL, 0ULL }, { 0, 1, "*", 16911802372855544586ULL, 0ULL }, { 0, 1, "*", 813918466729787782ULL, 0ULL }, { 0, 1, "*", 813918466729787782ULL, 0ULL }, { 0, 1, "*", 7757039494654883273ULL, 0ULL }, { 0, 1, "*", 7757039494654883273ULL, 0ULL }, { 0, 1, "*", 6784728394914316973ULL, 0ULL }, { 0, 1, "*", 6784728394914316973ULL, 0ULL }, { 0, 1, "*", 926524911315203ULL, 0ULL }, { 0, 1, "*", 926524911315203ULL, 0ULL }, { 0, 1, "*", 926524911315203ULL, 0ULL }, { 0, 1, "*", 926524911315203ULL, 0ULL }, { 0, 1, "*", 28722272251217648ULL, 0ULL }, { 0, 1, "*", 28722272251217648ULL, 0ULL }, { 0, 1, "*", 28722272251218640ULL, 0ULL }, { 0, 1, "*", 28722272251218640ULL, 0ULL } };
JOB2(prog49) { run(s, "p49_main", E49); }
static const Exp E50[] = { { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 11, 0, "", 2832067ULL, 0ULL }, { 11, 0, "", 2832099ULL, 0ULL }, { 11, 0, "", 2832379ULL, 0ULL }, { 11, 0, "", 2832379ULL, 0ULL }, { 11, 0, "", 2832067ULL, 0ULL }, { 11, 0, "", 2832099ULL, 0ULL }, { 11, 0, "", 2832379ULL, 0ULL }, { 11, 0, "", 2832379ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 11, 0, "", 2832067ULL, 0ULL }, { 11, 0, "", 2832099ULL, 0ULL }, { 11, 0, "", 2832379ULL, 0ULL }, { 11, 0, "", 2832379ULL, 0ULL }, { 11, 0, "", 2832067ULL, 0ULL }, { 11, 0, "", 2832099ULL, 0ULL }, { 11, 0, "", 2832379ULL, 0ULL }, { 11, 0, "", 2832379ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 11, 0, "", 2513556064870438ULL, 0ULL }, { 0, 1, "M5", 2615563022758ULL, 0ULL }, { 11, 0, "", 2513556064870750ULL, 0ULL }, { 0, 1, "M5", 2615563022758ULL, 0ULL }, { 11, 0, "", 77920238010989344ULL, 0ULL }, { 0, 1, "M5", 2615563022758ULL, 0ULL }, { 11, 0, "", 77920238010989656ULL, 0ULL }, { 0, 1, "M5", 2615563022758ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 0, 2, "M13", 87800804ULL, 0ULL }, { 11, 0, "", 2513556064870438ULL, 0ULL }, { 0, 1, "M5", 2615563022758ULL, 0ULL }, { 11, 0, "", 2513556064870750ULL, 0ULL }, { 0, 1, "M5", 2615563022758ULL, 0ULL }, { 11, 0, "", 77920238010989344ULL, 0ULL }, { 0, 1, "M5", 2615563022758ULL, 0ULL }, { 11, 0, "", 77920238010989656ULL, 0ULL }, { 0, 1, "M5", 2615563022758ULL, 0ULL } };
JOB2(prog50) { run(s, "p50_main", E50); }
static const Exp E51[] = { { 7, 0, "", 9436477592751484444ULL, 0ULL }, { 7, 0, "", 7099717346569220793ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 26, 0, "", 2525111453679685707ULL, 0ULL }, { 26, 0, "", 2525111453679685707ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 7, 0, "", 9044261818648084166ULL, 0ULL }, { 7, 0, "", 6707501572465820515ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 28, 0, "", 7591ULL, 0ULL }, { 28, 0, "", 7591ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 7, 0, "", 9436477592751484444ULL, 0ULL }, { 7, 0, "", 13153984743678826780ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 26, 0, "", 2525111453679685707ULL, 0ULL }, { 26, 0, "", 2525111453679685707ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 7, 0, "", 9044261818648084166ULL, 0ULL }, { 7, 0, "", 2430319933973170994ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 28, 0, "", 7591ULL, 0ULL }, { 28, 0, "", 7591ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 0, 1, "M6", 0ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 961ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL }, { 0, 2, "M3", 1088ULL, 0ULL } };
JOB2(prog51) { run(s, "p51_main", E51); }
static const Exp E52[] = { { 7, 0, "", 4435744294251ULL, 0ULL }, { 7, 0, "", 4435744294251ULL, 0ULL }, { 7, 0, "", 4435744294251ULL, 0ULL }, { 7, 0, "", 4435744294251ULL, 0ULL }, { 17, 0, "", 137508058256631ULL, 0ULL }, { 17, 0, "", 137508058256631ULL, 0ULL }, { 17, 0, "", 137508058256631ULL, 0ULL }, { 17, 0, "", 137508058256631ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 120981996ULL, 0ULL }, { 7, 0, "", 120981996ULL, 0ULL }, { 7, 0, "", 120981996ULL, 0ULL }, { 7, 0, "", 120981996ULL, 0ULL }, { 0, 2, "M13", 3750427462ULL, 0ULL }, { 0, 2, "M13", 3750427462ULL, 0ULL }, { 0, 2, "M13", 3750427462ULL, 0ULL }, { 0, 2, "M13", 3750427462ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 33, 0, "", 62061380ULL, 0ULL }, { 33, 0, "", 62061380ULL, 0ULL }, { 33, 0, "", 62061380ULL, 0ULL }, { 33, 0, "", 62061380ULL, 0ULL }, { 17, 0, "", 1776764632218233ULL, 0ULL }, { 17, 0, "", 1776764632218233ULL, 0ULL }, { 17, 0, "", 1776764632218233ULL, 0ULL }, { 17, 0, "", 1776764632218233ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 0, 2, "M3", 2ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL } };
JOB2(prog52) { run(s, "p52_main", E52); }
static const Exp E53[] = { { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 842762956382933163ULL, 0ULL }, { 0, 1, "M14", 912554188137ULL, 0ULL }, { 0, 1, "M19", 842762957299065995ULL, 0ULL }, { 0, 1, "M14", 912554189129ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 842762956382933163ULL, 0ULL }, { 0, 1, "M14", 912554188137ULL, 0ULL }, { 0, 1, "M19", 842762957299065995ULL, 0ULL }, { 0, 1, "M14", 912554189129ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 908843943533ULL, 0ULL }, { 0, 1, "M14", 984107ULL, 0ULL }, { 0, 1, "M19", 908843943533ULL, 0ULL }, { 0, 1, "M14", 984107ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 908843943533ULL, 0ULL }, { 0, 1, "M14", 984107ULL, 0ULL }, { 0, 1, "M19", 908843943533ULL, 0ULL }, { 0, 1, "M14", 984107ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 28283894983978ULL, 0ULL }, { 0, 1, "M14", 30626152ULL, 0ULL }, { 0, 1, "M19", 28283894983978ULL, 0ULL }, { 0, 1, "M14", 30626152ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 28283894983978ULL, 0ULL }, { 0, 1, "M14", 30626152ULL, 0ULL }, { 0, 1, "M19", 28283894983978ULL, 0ULL }, { 0, 1, "M14", 30626152ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 908843943533ULL, 0ULL }, { 0, 1, "M14", 984107ULL, 0ULL }, { 0, 1, "M19", 908843943533ULL, 0ULL }, { 0, 1, "M14", 984107ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 12468559ULL, 0ULL }, { 0, 1, "M14", 13ULL, 0ULL }, { 0, 1, "M19", 908843943533ULL, 0ULL }, { 0, 1, "M14", 984107ULL, 0ULL }, { 0, 1, "M19", 908843943533ULL, 0ULL }, { 0, 1, "M14", 984107ULL, 0ULL } };
JOB2(prog53) { run(s, "p53_main", E53); }
static const Exp E54[] = { { 7, 0, "", 11278264830827135765ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 7, 0, "", 1940310337513259906ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 7, 0, "", 16391361606137802836ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 7, 0, "", 2766153293004964003ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 8, 0, "", 2770756ULL, 0ULL }, { 8, 0, "", 2770756ULL, 0ULL }, { 8, 0, "", 121279ULL, 0ULL }, { 8, 0, "", 121279ULL, 0ULL }, { 8, 0, "", 2770756ULL, 0ULL }, { 8, 0, "", 2770756ULL, 0ULL }, { 8, 0, "", 121279ULL, 0ULL }, { 8, 0, "", 121279ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 7, 0, "", 164894692127713ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 7, 0, "", 158463809240793728ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 7, 0, "", 164894692127713ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 7, 0, "", 158463809240793728ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 8, 0, "", 2770756ULL, 0ULL }, { 8, 0, "", 2770756ULL, 0ULL }, { 8, 0, "", 121279ULL, 0ULL }, { 8, 0, "", 121279ULL, 0ULL }, { 8, 0, "", 2770756ULL, 0ULL }, { 8, 0, "", 2770756ULL, 0ULL }, { 8, 0, "", 121279ULL, 0ULL }, { 8, 0, "", 121279ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL }, { 0, 1, "M1", 0ULL, 0ULL } };
JOB2(prog54) { run(s, "p54_main", E54); }
static const Exp E55[] = { { 7, 0, "", 14787498332200440117ULL, 0ULL }, { 7, 0, "", 86749222266ULL, 0ULL }, { 7, 0, "", 841027083856187608ULL, 0ULL }, { 7, 0, "", 86749222266ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 14787498992502163965ULL, 0ULL }, { 7, 0, "", 2798361090ULL, 0ULL }, { 7, 0, "", 13749108992614434941ULL, 0ULL }, { 7, 0, "", 2798361090ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 12100316939978734293ULL, 0ULL }, { 0, 1, "*", 93932ULL, 0ULL }, { 7, 0, "", 10894500900262776437ULL, 0ULL }, { 0, 1, "*", 93932ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 12100316939979443683ULL, 0ULL }, { 0, 1, "*", 93932ULL, 0ULL }, { 7, 0, "", 1947265075727706681ULL, 0ULL }, { 0, 1, "*", 93932ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL } };
JOB2(prog55) { run(s, "p55_main", E55); }
static const Exp E56[] = { { 7, 0, "", 1024457575601799153ULL, 0ULL }, { 7, 0, "", 9661426786630663633ULL, 0ULL }, { 7, 0, "", 13430923470550818924ULL, 0ULL }, { 7, 0, "", 1108675096135224917ULL, 0ULL }, { 7, 0, "", 1123231037101523302ULL, 0ULL }, { 7, 0, "", 16671628806235472995ULL, 0ULL }, { 7, 0, "", 5313082553856052449ULL, 0ULL }, { 7, 0, "", 11863888150545688039ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 7, 0, "", 1573955803274502115ULL, 0ULL }, { 7, 0, "", 9770127350424314372ULL, 0ULL }, { 7, 0, "", 5763807320029031262ULL, 0ULL }, { 7, 0, "", 5763807320029031262ULL, 0ULL }, { 7, 0, "", 7852541396437304053ULL, 0ULL }, { 7, 0, "", 18303347793570650454ULL, 0ULL }, { 7, 0, "", 5284722609381814576ULL, 0ULL }, { 7, 0, "", 5284722609381814576ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "Error", 1ULL, 0ULL }, { 0, 1, "M46", 3744609665934505775ULL, 0ULL }, { 0, 1, "M46", 8538178591931621202ULL, 0ULL }, { 0, 1, "M46", 7893773591990631022ULL, 0ULL }, { 0, 1, "M46", 334181470274510098ULL, 0ULL }, { 0, 1, "M46", 324175001337412292ULL, 0ULL }, { 0, 1, "M46", 7974960425812952644ULL, 0ULL }, { 0, 1, "M46", 3657895235674090755ULL, 0ULL }, { 0, 1, "M46", 7486539407119512580ULL, 0ULL }, { 0, 1, "Error", 983107ULL, 0ULL }, { 0, 1, "Error", 983107ULL, 0ULL }, { 0, 1, "Error", 983107ULL, 0ULL }, { 0, 1, "Error", 983107ULL, 0ULL }, { 0, 1, "Error", 983107ULL, 0ULL }, { 0, 1, "Error", 983107ULL, 0ULL }, { 0, 1, "Error", 983107ULL, 0ULL }, { 0, 1, "Error", 983107ULL, 0ULL }, { 0, 1, "M46", 3667102922702055777ULL, 0ULL }, { 0, 1, "M46", 3885189965883845762ULL, 0ULL }, { 0, 1, "M46", 3262147481484525408ULL, 0ULL }, { 0, 1, "M46", 3262147481484525408ULL, 0ULL }, { 0, 1, "M46", 16761368032566069267ULL, 0ULL }, { 0, 1, "M46", 675880574995390324ULL, 0ULL }, { 0, 1, "M46", 6702576305131082194ULL, 0ULL }, { 0, 1, "M46", 6702576305131082194ULL, 0ULL }, { 0, 1, "Error", 984099ULL, 0ULL }, { 0, 1, "Error", 984099ULL, 0ULL }, { 0, 1, "Error", 984099ULL, 0ULL }, { 0, 1, "Error", 984099ULL, 0ULL }, { 0, 1, "Error", 984099ULL, 0ULL }, { 0, 1, "Error", 984099ULL, 0ULL }, { 0, 1, "Error", 984099ULL, 0ULL }, { 0, 1, "Error", 984099ULL, 0ULL } };
JOB2(prog56) { run(s, "p56_main", E56); }
static const Exp E57[] = { { 7, 0, "", 14913834526094002122ULL, 0ULL }, { 7, 0, "", 4740202068784819820ULL, 0ULL }, { 7, 0, "", 7418075197888725342ULL, 0ULL }, { 7, 0, "", 17696624912090705222ULL, 0ULL }, { 0, 2, "M28", 2752492053366763306ULL, 0ULL }, { 0, 2, "M28", 9500014104614503850ULL, 0ULL }, { 7, 0, "", 16196211177377552344ULL, 0ULL }, { 7, 0, "", 17089720852441442736ULL, 0ULL }, { 0, 3, "M30", 5759884048665658186ULL, 0ULL }, { 0, 3, "M30", 4437514862635346920ULL, 0ULL }, { 0, 3, "M30", 13505016597817922155ULL, 0ULL }, { 0, 3, "M30", 14476683161449383811ULL, 0ULL }, { 0, 2, "M28", 2752492053366763306ULL, 0ULL }, { 0, 2, "M28", 9500014104614503850ULL, 0ULL }, { 0, 1, "M39", 15841655884768091703ULL, 0ULL }, { 0, 1, "M39", 4209016476353376095ULL, 0ULL }, { 7, 0, "", 11830508462281216571ULL, 0ULL }, { 7, 0, "", 7079518472760687234ULL, 0ULL }, { 7, 0, "", 10572928574339918361ULL, 0ULL }, { 7, 0, "", 12270202783665211912ULL, 0ULL }, { 0, 2, "M28", 11540277331101780753ULL, 0ULL }, { 0, 2, "M28", 9500014104614503850ULL, 0ULL }, { 7, 0, "", 3848182566041456347ULL, 0ULL }, { 7, 0, "", 7041305354832459310ULL, 0ULL }, { 0, 3, "M30", 12535708845249408463ULL, 0ULL }, { 0, 3, "M30", 4437514862635346920ULL, 0ULL }, { 0, 3, "M30", 4523836112813330576ULL, 0ULL }, { 0, 3, "M30", 8513951956090425345ULL, 0ULL }, { 0, 2, "M28", 11540277331101780753ULL, 0ULL }, { 0, 2, "M28", 9500014104614503850ULL, 0ULL }, { 0, 1, "M39", 613653546821285012ULL, 0ULL }, { 0, 1, "M39", 12169445579850814625ULL, 0ULL }, { 0, 1, "*", 16999278351166649141ULL, 0ULL }, { 0, 1, "M37", 4228927934973801457ULL, 0ULL }, { 0, 1, "*", 5451000552528335661ULL, 0ULL }, { 0, 1, "M37", 5451000552528744830ULL, 0ULL }, { 0, 1, "*", 16999278351166649141ULL, 0ULL }, { 0, 2, "M28", 7036304069513415611ULL, 0ULL }, { 0, 1, "*", 5451000552528335661ULL, 0ULL }, { 0, 1, "M37", 18410717873943258981ULL, 0ULL }, { 0, 1, "*", 16999278351166649141ULL, 0ULL }, { 0, 3, "M30", 15424770328835672538ULL, 0ULL }, { 0, 1, "*", 5451000552528335661ULL, 0ULL }, { 0, 3, "M30", 16837414019883748066ULL, 0ULL }, { 0, 1, "*", 16999278351166649141ULL, 0ULL }, { 0, 2, "M28", 7036304069513415611ULL, 0ULL }, { 0, 1, "*", 5451000552528335661ULL, 0ULL }, { 0, 1, "M37", 18410717873943258981ULL, 0ULL }, { 0, 1, "*", 16999278351166649141ULL, 0ULL }, { 0, 1, "M37", 16999278351167058311ULL, 0ULL }, { 0, 1, "*", 16564192909210757269ULL, 0ULL }, { 0, 1, "M37", 16564192909211166438ULL, 0ULL }, { 0, 1, "*", 16999278351166649141ULL, 0ULL }, { 0, 2, "M28", 7036304069513415611ULL, 0ULL }, { 0, 1, "*", 16564192909210757269ULL, 0ULL }, { 0, 1, "M37", 10606507088262951677ULL, 0ULL }, { 0, 1, "*", 16999278351166649141ULL, 0ULL }, { 0, 3, "M30", 15424770328835672538ULL, 0ULL }, { 0, 1, "*", 16564192909210757269ULL, 0ULL }, { 0, 3, "M30", 7675003928829864058ULL, 0ULL }, { 0, 1, "*", 16999278351166649141ULL, 0ULL }, { 0, 2, "M28", 7036304069513415611ULL, 0ULL }, { 0, 1, "*", 16564192909210757269ULL, 0ULL }, { 0, 1, "M37", 10606507088262951677ULL, 0ULL } };
JOB2(prog57) { run(s, "p57_main", E57); }
static const Exp E58[] = { { 7, 0, "", 13922982746460127205ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 6, 0, "", 123969ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 1, "Error", 13922982746460127203ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 6, 0, "", 123969ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 7, 0, "", 3549133984136ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 6, 0, "", 123969ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 1, "Error", 3549133984134ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 6, 0, "", 123969ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 7, 0, "", 13295554547755423140ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 6, 0, "", 94178ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 1, "Error", 13295554547755423138ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 6, 0, "", 94178ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 7, 0, "", 2696242946695ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 6, 0, "", 94178ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 1, "Error", 2696242946693ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 6, 0, "", 94178ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL } };
JOB2(prog58) { run(s, "p58_main", E58); }
static const Exp E59[] = { { 7, 0, "", 659236921002253192ULL, 0ULL }, { 0, 1, "Error", 18217711664058555623ULL, 0ULL }, { 0, 1, "M37", 62ULL, 0ULL }, { 0, 1, "M37", 62ULL, 0ULL }, { 0, 2, "M35", 230126285819121749ULL, 0ULL }, { 0, 2, "M35", 17975957859741347936ULL, 0ULL }, { 0, 2, "M35", 62ULL, 0ULL }, { 0, 2, "M35", 62ULL, 0ULL }, { 32, 0, "", 7133885996110528226ULL, 0ULL }, { 32, 0, "", 3852687475889066467ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 32, 0, "", 230126285819121749ULL, 0ULL }, { 32, 0, "", 17975957859741347936ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 0, 1, "M39", 11923236983883118210ULL, 0ULL }, { 0, 1, "M39", 13083849587482552675ULL, 0ULL }, { 0, 1, "M39", 60670ULL, 0ULL }, { 0, 1, "M39", 60670ULL, 0ULL }, { 0, 1, "*", 230126285819121749ULL, 0ULL }, { 0, 1, "*", 17975957859741347936ULL, 0ULL }, { 0, 1, "*", 62ULL, 0ULL }, { 0, 1, "*", 62ULL, 0ULL }, { 32, 0, "", 7133886876514179778ULL, 0ULL }, { 32, 0, "", 3852687475889066467ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 32, 0, "", 230126285819121749ULL, 0ULL }, { 32, 0, "", 17975957859741347936ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 7, 0, "", 659237802322037576ULL, 0ULL }, { 0, 1, "Error", 10695804713253406542ULL, 0ULL }, { 0, 1, "M37", 62ULL, 0ULL }, { 0, 1, "M37", 62ULL, 0ULL }, { 0, 2, "M35", 230126285848705173ULL, 0ULL }, { 0, 2, "M35", 26365649216510172ULL, 0ULL }, { 0, 2, "M35", 62ULL, 0ULL }, { 0, 2, "M35", 62ULL, 0ULL }, { 32, 0, "", 7133885996140111650ULL, 0ULL }, { 32, 0, "", 26365649216510172ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 32, 0, "", 230126285848705173ULL, 0ULL }, { 32, 0, "", 26365649216510172ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 0, 1, "M39", 11923237012312788674ULL, 0ULL }, { 0, 1, "M39", 6890644823356724764ULL, 0ULL }, { 0, 1, "M39", 60670ULL, 0ULL }, { 0, 1, "M39", 60670ULL, 0ULL }, { 0, 1, "*", 230126285848705173ULL, 0ULL }, { 0, 1, "*", 26365649216510172ULL, 0ULL }, { 0, 1, "*", 62ULL, 0ULL }, { 0, 1, "*", 62ULL, 0ULL }, { 32, 0, "", 7133886876543763202ULL, 0ULL }, { 32, 0, "", 26365649216510172ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 32, 0, "", 230126285848705173ULL, 0ULL }, { 32, 0, "", 26365649216510172ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL }, { 32, 0, "", 62ULL, 0ULL } };
JOB2(prog59) { run(s, "p59_main", E59); }
static const Exp E60[] = { { 7, 0, "", 3607588618672375718ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 12047251245561800369ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 1474337983518300415ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 9172884953249886644ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 49, 0, "", 10249877008390619196ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 49, 0, "", 14196039279375384261ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 49, 0, "", 2098067361427943330ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 49, 0, "", 5184931287474507659ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 11888036911305405462ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 3622371231450845177ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 15725478324098496330ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 6638700272657164573ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 49, 0, "", 13128623099642303249ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 3622371231450845177ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 12206909938762009985ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 6638700272657164573ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL } };
JOB2(prog60) { run(s, "p60_main", E60); }
static const Exp E61[] = { { 7, 0, "", 1565498311845ULL, 0ULL }, { 0, 1, "*", 7925399405307465186ULL, 0ULL }, { 53, 0, "", 888427586ULL, 0ULL }, { 0, 1, "*", 25434920183134309ULL, 0ULL }, { 0, 1, "Error", 1565498311845ULL, 0ULL }, { 0, 1, "*", 48530447656348ULL, 0ULL }, { 53, 0, "", 1490563278ULL, 0ULL }, { 0, 1, "*", 45319947090ULL, 0ULL }, { 0, 2, "M51", 13311765469272776155ULL, 0ULL }, { 47, 0, "", 18134151654277744544ULL, 0ULL }, { 0, 2, "M51", 5996221304525907178ULL, 0ULL }, { 47, 0, "", 5996214222283574511ULL, 0ULL }, { 0, 2, "M51", 6836359925845971382ULL, 0ULL }, { 47, 0, "", 14207506468096716418ULL, 0ULL }, { 0, 2, "M51", 16909464743184203027ULL, 0ULL }, { 47, 0, "", 1350126543800474ULL, 0ULL }, { 55, 0, "", 1365501438717288870ULL, 0ULL }, { 0, 1, "*", 13628754050745477505ULL, 0ULL }, { 53, 0, "", 888427586ULL, 0ULL }, { 0, 1, "*", 25434920183134309ULL, 0ULL }, { 0, 1, "Error", 1365501438717288870ULL, 0ULL }, { 0, 1, "*", 5437056452816840891ULL, 0ULL }, { 53, 0, "", 1490563278ULL, 0ULL }, { 0, 1, "*", 45319947090ULL, 0ULL }, { 0, 2, "M51", 13311765469272776155ULL, 0ULL }, { 47, 0, "", 18134151654277744544ULL, 0ULL }, { 0, 2, "M51", 5996221304525907178ULL, 0ULL }, { 47, 0, "", 5996214222283574511ULL, 0ULL }, { 0, 2, "M51", 6836359925845971382ULL, 0ULL }, { 47, 0, "", 14207506468096716418ULL, 0ULL }, { 0, 2, "M51", 16909464743184203027ULL, 0ULL }, { 47, 0, "", 1350126543800474ULL, 0ULL }, { 7, 0, "", 1564610808164ULL, 0ULL }, { 0, 1, "*", 10279467908401656162ULL, 0ULL }, { 17, 0, "", 948309928393266344ULL, 0ULL }, { 17, 0, "", 1073794ULL, 0ULL }, { 0, 1, "Error", 1564610808164ULL, 0ULL }, { 0, 1, "*", 48502935042237ULL, 0ULL }, { 17, 0, "", 35821ULL, 0ULL }, { 17, 0, "", 1073794ULL, 0ULL }, { 0, 2, "M51", 13311765469272776155ULL, 0ULL }, { 47, 0, "", 10903408312450749823ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 2, "M51", 6836359925845971382ULL, 0ULL }, { 47, 0, "", 14207506468096716418ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 55, 0, "", 1365528730342983301ULL, 0ULL }, { 0, 1, "*", 7739766891536342305ULL, 0ULL }, { 17, 0, "", 948309928393266344ULL, 0ULL }, { 17, 0, "", 1073794ULL, 0ULL }, { 0, 1, "*", 1365528730342983301ULL, 0ULL }, { 0, 1, "*", 5437902493213368252ULL, 0ULL }, { 17, 0, "", 35821ULL, 0ULL }, { 17, 0, "", 1073794ULL, 0ULL }, { 0, 2, "M51", 13311765469272776155ULL, 0ULL }, { 47, 0, "", 10903408312450749823ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 2, "M51", 6836359925845971382ULL, 0ULL }, { 47, 0, "", 14207506468096716418ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL } };
JOB2(prog61) { run(s, "p61_main", E61); }
static const Exp E62[] = { { 7, 0, "", 4844894396485888076ULL, 0ULL }, { 5, 0, "", 3972ULL, 0ULL }, { 7, 0, "", 2037651347441857567ULL, 0ULL }, { 5, 0, "", 3972ULL, 0ULL }, { 7, 0, "", 2757620572080099174ULL, 0ULL }, { 5, 0, "", 3972ULL, 0ULL }, { 0, 1, "*", 11966855372068789002ULL, 0ULL }, { 5, 0, "", 3972ULL, 0ULL }, { 7, 0, "", 3972ULL, 0ULL }, { 5, 0, "", 3972ULL, 0ULL }, { 7, 0, "", 3972ULL, 0ULL }, { 5, 0, "", 3972ULL, 0ULL }, { 7, 0, "", 3972ULL, 0ULL }, { 5, 0, "", 3972ULL, 0ULL }, { 7, 0, "", 3972ULL, 0ULL }, { 5, 0, "", 3972ULL, 0ULL }, { 0, 1, "*", 211543632961399ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 2, "M30", 15783649624459456974ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 0ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 0ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 6, 0, "", 993ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 6, 0, "", 993ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 6, 0, "", 993ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 6, 0, "", 993ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 6, 0, "", 993ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 6, 0, "", 993ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 6, 0, "", 993ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 6, 0, "", 993ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 5, 0, "", 0ULL, 0ULL } };
JOB2(prog62) { run(s, "p62_main", E62); }
static const Exp E63[] = { { 7, 0, "", 15687178469793583661ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M31", 10390351446217957320ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 12973581463414139478ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M31", 86236763169ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 33, 0, "", 12944889311992856921ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M31", 12944889311992856921ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 33, 0, "", 86236763169ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M31", 86236763169ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 11415527987600887147ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M31", 2673339638150ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 48, 0, "", 82873529406588ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M31", 86236763169ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 33, 0, "", 2673339638150ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M31", 2673339638150ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 33, 0, "", 86236763169ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M31", 86236763169ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL } };
JOB2(prog63) { run(s, "p63_main", E63); }
static const Exp E64[] = { { 0, 1, "M8", 983107ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 7, 0, "", 875417655872191ULL, 0ULL }, { 7, 0, "", 875417655872191ULL, 0ULL }, { 7, 0, "", 14900563391437491365ULL, 0ULL }, { 7, 0, "", 14900563391437491365ULL, 0ULL }, { 13, 0, "", 872511348214789ULL, 0ULL }, { 13, 0, "", 872511348214789ULL, 0ULL }, { 0, 1, "M6", 983107ULL, 0ULL }, { 0, 1, "M6", 983107ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 18, 0, "", 29385022667ULL, 0ULL }, { 18, 0, "", 29385022667ULL, 0ULL }, { 18, 0, "", 29385022699ULL, 0ULL }, { 18, 0, "", 29385022699ULL, 0ULL }, { 13, 0, "", 872511348214789ULL, 0ULL }, { 13, 0, "", 872511348214789ULL, 0ULL }, { 0, 1, "M6", 983107ULL, 0ULL }, { 0, 1, "M6", 983107ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 7, 0, "", 875417655872191ULL, 0ULL }, { 7, 0, "", 875417655872191ULL, 0ULL }, { 7, 0, "", 14900563391437491365ULL, 0ULL }, { 7, 0, "", 14900563391437491365ULL, 0ULL }, { 13, 0, "", 27047848225239204ULL, 0ULL }, { 13, 0, "", 27047848225239204ULL, 0ULL }, { 13, 0, "", 27047848225239204ULL, 0ULL }, { 13, 0, "", 27047848225239204ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 0, 1, "M8", 983107ULL, 0ULL }, { 18, 0, "", 29385022699ULL, 0ULL }, { 18, 0, "", 29385022699ULL, 0ULL }, { 18, 0, "", 29385022699ULL, 0ULL }, { 18, 0, "", 29385022699ULL, 0ULL }, { 13, 0, "", 27047848225239204ULL, 0ULL }, { 13, 0, "", 27047848225239204ULL, 0ULL }, { 13, 0, "", 27047848225239204ULL, 0ULL }, { 13, 0, "", 27047848225239204ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL }, { 13, 0, "", 31818ULL, 0ULL } };
JOB2(prog64) { run(s, "p64_main", E64); }
static const Exp E65[] = { { 7, 0, "", 7637874844872492628ULL, 0ULL }, { 7, 0, "", 3982258123627023156ULL, 0ULL }, { 43, 0, "", 1798082548143157214ULL, 0ULL }, { 43, 0, "", 1798082548143157214ULL, 0ULL }, { 7, 0, "", 2363438724635407866ULL, 0ULL }, { 0, 1, "M6", 89377ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 7, 0, "", 7637874844872492628ULL, 0ULL }, { 7, 0, "", 14160830589783096052ULL, 0ULL }, { 43, 0, "", 1798082548143157214ULL, 0ULL }, { 43, 0, "", 1798082548143157214ULL, 0ULL }, { 7, 0, "", 2363438724635407866ULL, 0ULL }, { 0, 1, "M6", 89377ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 0, 1, "M47", 4241895477363686996ULL, 0ULL }, { 0, 1, "M47", 14450024749467990836ULL, 0ULL }, { 43, 0, "", 1798082548143157214ULL, 0ULL }, { 43, 0, "", 1798082548143157214ULL, 0ULL }, { 7, 0, "", 2363438723747904185ULL, 0ULL }, { 0, 1, "M6", 89377ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 0, 1, "M47", 4241895477363686996ULL, 0ULL }, { 0, 1, "M47", 10064878214178364148ULL, 0ULL }, { 43, 0, "", 1798082548143157214ULL, 0ULL }, { 43, 0, "", 1798082548143157214ULL, 0ULL }, { 7, 0, "", 2363438723747904185ULL, 0ULL }, { 0, 1, "M6", 89377ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 7, 0, "", 16157386730558798328ULL, 0ULL }, { 7, 0, "", 9628071983096436834ULL, 0ULL }, { 43, 0, "", 47719105670ULL, 0ULL }, { 43, 0, "", 47719105670ULL, 0ULL }, { 7, 0, "", 2363438724635407866ULL, 0ULL }, { 7, 0, "", 76228999105810436ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 7, 0, "", 16157386730558798328ULL, 0ULL }, { 7, 0, "", 9628071983096436834ULL, 0ULL }, { 43, 0, "", 47719105670ULL, 0ULL }, { 43, 0, "", 47719105670ULL, 0ULL }, { 7, 0, "", 2363438724635407866ULL, 0ULL }, { 7, 0, "", 76228999105810436ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 0, 1, "M47", 10381489618886485304ULL, 0ULL }, { 0, 1, "M47", 6305278319850182178ULL, 0ULL }, { 43, 0, "", 47719105670ULL, 0ULL }, { 43, 0, "", 47719105670ULL, 0ULL }, { 7, 0, "", 2363438723747904185ULL, 0ULL }, { 7, 0, "", 76228998218306755ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 0, 1, "M47", 10381489618886485304ULL, 0ULL }, { 0, 1, "M47", 6305278319850182178ULL, 0ULL }, { 43, 0, "", 47719105670ULL, 0ULL }, { 43, 0, "", 47719105670ULL, 0ULL }, { 7, 0, "", 2363438723747904185ULL, 0ULL }, { 7, 0, "", 76228998218306755ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL }, { 43, 0, "", 1539302004ULL, 0ULL } };
JOB2(prog65) { run(s, "p65_main", E65); }
static const Exp E66[] = { { 0, 2, "M41", 13241942188662785744ULL, 0ULL }, { 0, 2, "M41", 4231570928463026005ULL, 0ULL }, { 0, 2, "M41", 556552340651508548ULL, 0ULL }, { 0, 2, "M41", 556552340651508548ULL, 0ULL }, { 0, 2, "M41", 6124119282384732383ULL, 0ULL }, { 0, 2, "M41", 4231570928463026005ULL, 0ULL }, { 0, 2, "M41", 556552340651508548ULL, 0ULL }, { 0, 2, "M41", 556552340651508548ULL, 0ULL }, { 23, 0, "", 14323749361620865233ULL, 0ULL }, { 23, 0, "", 11747608527489552815ULL, 0ULL }, { 26, 0, "", 30175251101ULL, 0ULL }, { 26, 0, "", 30175251101ULL, 0ULL }, { 23, 0, "", 178931495159658419ULL, 0ULL }, { 23, 0, "", 178931495159658419ULL, 0ULL }, { 26, 0, "", 30175251101ULL, 0ULL }, { 26, 0, "", 30175251101ULL, 0ULL }, { 7, 0, "", 217679859423296401ULL, 0ULL }, { 7, 0, "", 2513678345729990963ULL, 0ULL }, { 7, 0, "", 863891820262104226ULL, 0ULL }, { 7, 0, "", 863891820262104226ULL, 0ULL }, { 7, 0, "", 1684079090098474028ULL, 0ULL }, { 7, 0, "", 2513678345729990963ULL, 0ULL }, { 7, 0, "", 863891820262104226ULL, 0ULL }, { 7, 0, "", 863891820262104226ULL, 0ULL }, { 23, 0, "", 4101005211900236000ULL, 0ULL }, { 23, 0, "", 4101005211900236000ULL, 0ULL }, { 26, 0, "", 30175251101ULL, 0ULL }, { 26, 0, "", 30175251101ULL, 0ULL }, { 23, 0, "", 4101005211900236000ULL, 0ULL }, { 23, 0, "", 4101005211900236000ULL, 0ULL }, { 26, 0, "", 30175251101ULL, 0ULL }, { 26, 0, "", 30175251101ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL } };
JOB2(prog66) { run(s, "p66_main", E66); }
static const Exp E67[] = { { 7, 0, "", 6711393935073238634ULL, 0ULL }, { 0, 2, "M59", 10379929362445357846ULL, 0ULL }, { 7, 0, "", 6598562386128827ULL, 0ULL }, { 0, 1, "Error", 204473006178087332ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 7, 0, "", 11584813166688164975ULL, 0ULL }, { 0, 2, "M59", 6518884562901557530ULL, 0ULL }, { 7, 0, "", 2500420951224822ULL, 0ULL }, { 0, 1, "Error", 77429768805025736ULL, 0ULL }, { 7, 0, "", 11584813166688164975ULL, 0ULL }, { 0, 2, "M59", 6518884562901557530ULL, 0ULL }, { 7, 0, "", 2500420951224822ULL, 0ULL }, { 0, 1, "Error", 77429768805025736ULL, 0ULL }, { 32, 0, "", 15845126007472155739ULL, 0ULL }, { 32, 0, "", 117721601ULL, 0ULL }, { 32, 0, "", 3652139295ULL, 0ULL }, { 32, 0, "", 117721601ULL, 0ULL }, { 32, 0, "", 15845126007472155739ULL, 0ULL }, { 32, 0, "", 117721601ULL, 0ULL }, { 32, 0, "", 3652139295ULL, 0ULL }, { 32, 0, "", 117721601ULL, 0ULL }, { 32, 0, "", 2707377312ULL, 0ULL }, { 32, 0, "", 87244447ULL, 0ULL }, { 32, 0, "", 2707377312ULL, 0ULL }, { 32, 0, "", 87244447ULL, 0ULL }, { 32, 0, "", 2707377312ULL, 0ULL }, { 32, 0, "", 87244447ULL, 0ULL }, { 32, 0, "", 2707377312ULL, 0ULL }, { 32, 0, "", 87244447ULL, 0ULL }, { 34, 0, "", 3071548462327722583ULL, 0ULL }, { 34, 0, "", 13825677430789512716ULL, 0ULL }, { 34, 0, "", 6991608459405562675ULL, 0ULL }, { 34, 0, "", 6991608459405562675ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 4, 0, "", 0ULL, 0ULL }, { 34, 0, "", 2395254387208738354ULL, 0ULL }, { 34, 0, "", 77266270551488881ULL, 0ULL }, { 34, 0, "", 2492460339656494ULL, 0ULL }, { 34, 0, "", 2492460339656494ULL, 0ULL }, { 34, 0, "", 2698859940ULL, 0ULL }, { 34, 0, "", 2698859940ULL, 0ULL }, { 34, 0, "", 2698859940ULL, 0ULL }, { 34, 0, "", 2698859940ULL, 0ULL }, { 32, 0, "", 3784480ULL, 0ULL }, { 32, 0, "", 3784480ULL, 0ULL }, { 32, 0, "", 3784480ULL, 0ULL }, { 32, 0, "", 3784480ULL, 0ULL }, { 32, 0, "", 3784480ULL, 0ULL }, { 32, 0, "", 3784480ULL, 0ULL }, { 32, 0, "", 3784480ULL, 0ULL }, { 32, 0, "", 3784480ULL, 0ULL }, { 32, 0, "", 2801377ULL, 0ULL }, { 32, 0, "", 2801377ULL, 0ULL }, { 32, 0, "", 2801377ULL, 0ULL }, { 32, 0, "", 2801377ULL, 0ULL }, { 32, 0, "", 2801377ULL, 0ULL }, { 32, 0, "", 2801377ULL, 0ULL }, { 32, 0, "", 2801377ULL, 0ULL }, { 32, 0, "", 2801377ULL, 0ULL } };
JOB2(prog67) { run(s, "p67_main", E67); }
static const Exp E68[] = { { 7, 0, "", 9633842378609939175ULL, 0ULL }, { 7, 0, "", 5446676864300490084ULL, 0ULL }, { 7, 0, "", 14923683708622934383ULL, 0ULL }, { 53, 0, "", 13900717070927233440ULL, 0ULL }, { 0, 3, "M69", 12551020555007417218ULL, 0ULL }, { 7, 0, "", 14035102489959464114ULL, 0ULL }, { 0, 3, "M69", 14449786824942496612ULL, 0ULL }, { 53, 0, "", 447139781269812200ULL, 0ULL }, { 42, 0, "", 199955591317ULL, 0ULL }, { 42, 0, "", 5112748273735181730ULL, 0ULL }, { 42, 0, "", 6450180355ULL, 0ULL }, { 42, 0, "", 5112748273735181730ULL, 0ULL }, { 42, 0, "", 199955591317ULL, 0ULL }, { 42, 0, "", 164927363668875566ULL, 0ULL }, { 42, 0, "", 6450180355ULL, 0ULL }, { 42, 0, "", 164927363668875566ULL, 0ULL }, { 7, 0, "", 1234324099746567117ULL, 0ULL }, { 57, 0, "", 8487257788125117880ULL, 0ULL }, { 7, 0, "", 9540951762554204251ULL, 0ULL }, { 53, 0, "", 846107877879182ULL, 0ULL }, { 7, 0, "", 1234324099746567117ULL, 0ULL }, { 57, 0, "", 8734911249008711134ULL, 0ULL }, { 7, 0, "", 9540951762554204251ULL, 0ULL }, { 53, 0, "", 846107877879182ULL, 0ULL }, { 42, 0, "", 1628814828945803154ULL, 0ULL }, { 42, 0, "", 14221542856834577242ULL, 0ULL }, { 42, 0, "", 32ULL, 0ULL }, { 42, 0, "", 32ULL, 0ULL }, { 42, 0, "", 1628814828945803154ULL, 0ULL }, { 42, 0, "", 16677236285491074138ULL, 0ULL }, { 42, 0, "", 32ULL, 0ULL }, { 42, 0, "", 32ULL, 0ULL }, { 7, 0, "", 13684531157600290492ULL, 0ULL }, { 55, 0, "", 834509330398393204ULL, 0ULL }, { 0, 1, "*", 5658472989851617188ULL, 0ULL }, { 53, 0, "", 13900717070927233440ULL, 0ULL }, { 7, 0, "", 13684531157598025415ULL, 0ULL }, { 7, 0, "", 14035102489959464114ULL, 0ULL }, { 0, 1, "*", 5658472989851617188ULL, 0ULL }, { 53, 0, "", 447139781269812200ULL, 0ULL }, { 42, 0, "", 199955591317ULL, 0ULL }, { 42, 0, "", 5112748273735181730ULL, 0ULL }, { 42, 0, "", 6450180355ULL, 0ULL }, { 42, 0, "", 5112748273735181730ULL, 0ULL }, { 42, 0, "", 199955591317ULL, 0ULL }, { 42, 0, "", 164927363668875566ULL, 0ULL }, { 42, 0, "", 6450180355ULL, 0ULL }, { 42, 0, "", 164927363668875566ULL, 0ULL }, { 7, 0, "", 9068166226832090062ULL, 0ULL }, { 55, 0, "", 97988836285524735ULL, 0ULL }, { 7, 0, "", 2811251713810957019ULL, 0ULL }, { 53, 0, "", 846107877879182ULL, 0ULL }, { 7, 0, "", 9068166226832090062ULL, 0ULL }, { 57, 0, "", 9242841107374607839ULL, 0ULL }, { 7, 0, "", 2811251713810957019ULL, 0ULL }, { 53, 0, "", 846107877879182ULL, 0ULL }, { 42, 0, "", 1628761096810444371ULL, 0ULL }, { 42, 0, "", 2602124284415051931ULL, 0ULL }, { 42, 0, "", 32ULL, 0ULL }, { 42, 0, "", 32ULL, 0ULL }, { 42, 0, "", 1628761096810444371ULL, 0ULL }, { 42, 0, "", 7758496775841072603ULL, 0ULL }, { 42, 0, "", 32ULL, 0ULL }, { 42, 0, "", 32ULL, 0ULL } };
JOB2(prog68) { run(s, "p68_main", E68); }
static const Exp E69[] = { { 7, 0, "", 5769760106416990861ULL, 0ULL }, { 7, 0, "", 193661290755321ULL, 0ULL }, { 31, 0, "", 5769760106416990861ULL, 0ULL }, { 31, 0, "", 193661290755321ULL, 0ULL }, { 7, 0, "", 201521548223ULL, 0ULL }, { 7, 0, "", 201521548223ULL, 0ULL }, { 31, 0, "", 201521548223ULL, 0ULL }, { 31, 0, "", 201521548223ULL, 0ULL }, { 7, 0, "", 5769760106416990861ULL, 0ULL }, { 7, 0, "", 193661290755321ULL, 0ULL }, { 31, 0, "", 5769760106416990861ULL, 0ULL }, { 31, 0, "", 193661290755321ULL, 0ULL }, { 7, 0, "", 201521548223ULL, 0ULL }, { 7, 0, "", 201521548223ULL, 0ULL }, { 31, 0, "", 201521548223ULL, 0ULL }, { 31, 0, "", 201521548223ULL, 0ULL }, { 7, 0, "", 7030313536476767823ULL, 0ULL }, { 7, 0, "", 6410236127425770325ULL, 0ULL }, { 31, 0, "", 7030313536476767823ULL, 0ULL }, { 31, 0, "", 6410236127425770325ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M3", 125ULL, 0ULL }, { 0, 1, "M3", 125ULL, 0ULL }, { 0, 1, "M3", 125ULL, 0ULL }, { 0, 1, "M3", 125ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 6, 0, "", 0ULL, 0ULL }, { 7, 0, "", 14250275141891126337ULL, 0ULL }, { 12, 0, "", 3730914ULL, 0ULL }, { 31, 0, "", 14250275141891126337ULL, 0ULL }, { 12, 0, "", 3730914ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "M3", 125ULL, 0ULL }, { 0, 1, "M3", 125ULL, 0ULL }, { 0, 1, "M3", 125ULL, 0ULL }, { 0, 1, "M3", 125ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL } };
JOB2(prog69) { run(s, "p69_main", E69); }
static const Exp E70[] = { { 7, 0, "", 199688790158ULL, 0ULL }, { 7, 0, "", 199688790158ULL, 0ULL }, { 7, 0, "", 17325366499291412252ULL, 0ULL }, { 7, 0, "", 17325366499291412252ULL, 0ULL }, { 7, 0, "", 192159634961010ULL, 0ULL }, { 7, 0, "", 192159634961010ULL, 0ULL }, { 7, 0, "", 10714051591739235712ULL, 0ULL }, { 7, 0, "", 10714051591739235712ULL, 0ULL }, { 7, 0, "", 184842383200751931ULL, 0ULL }, { 0, 3, "M6", 0ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 7, 0, "", 208069986ULL, 0ULL }, { 0, 3, "M6", 0ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 7, 0, "", 199688790158ULL, 0ULL }, { 7, 0, "", 199688790158ULL, 0ULL }, { 7, 0, "", 17325366499291412252ULL, 0ULL }, { 7, 0, "", 17325366499291412252ULL, 0ULL }, { 7, 0, "", 6712060ULL, 0ULL }, { 7, 0, "", 6712060ULL, 0ULL }, { 7, 0, "", 27207390207414062ULL, 0ULL }, { 7, 0, "", 27207390207414062ULL, 0ULL }, { 7, 0, "", 200149627044ULL, 0ULL }, { 0, 3, "M6", 0ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 7, 0, "", 208069986ULL, 0ULL }, { 0, 3, "M6", 0ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 7, 0, "", 199688790158ULL, 0ULL }, { 7, 0, "", 199688790158ULL, 0ULL }, { 7, 0, "", 17325366499291412252ULL, 0ULL }, { 7, 0, "", 17325366499291412252ULL, 0ULL }, { 7, 0, "", 192159634961010ULL, 0ULL }, { 7, 0, "", 192159634961010ULL, 0ULL }, { 7, 0, "", 10714051591739235712ULL, 0ULL }, { 7, 0, "", 10714051591739235712ULL, 0ULL }, { 7, 0, "", 184842383200751931ULL, 0ULL }, { 0, 3, "M6", 0ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 7, 0, "", 208069986ULL, 0ULL }, { 0, 3, "M6", 0ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 7, 0, "", 199688790158ULL, 0ULL }, { 7, 0, "", 199688790158ULL, 0ULL }, { 7, 0, "", 17325366499291412252ULL, 0ULL }, { 7, 0, "", 17325366499291412252ULL, 0ULL }, { 7, 0, "", 6712060ULL, 0ULL }, { 7, 0, "", 6712060ULL, 0ULL }, { 7, 0, "", 27207390207414062ULL, 0ULL }, { 7, 0, "", 27207390207414062ULL, 0ULL }, { 7, 0, "", 200149627044ULL, 0ULL }, { 0, 3, "M6", 0ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 7, 0, "", 208069986ULL, 0ULL }, { 0, 3, "M6", 0ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL }, { 3, 0, "", 33ULL, 0ULL } };
JOB2(prog70) { run(s, "p70_main", E70); }
static const Exp E71[] = { { 7, 0, "", 232851507542503680ULL, 0ULL }, { 7, 0, "", 18104692971786416834ULL, 0ULL }, { 7, 0, "", 1256371316144422221ULL, 0ULL }, { 7, 0, "", 9881665943194816195ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 7, 0, "", 4462548207871149699ULL, 0ULL }, { 7, 0, "", 17334646861776397665ULL, 0ULL }, { 7, 0, "", 4462548207871149699ULL, 0ULL }, { 7, 0, "", 9111619833184797026ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 7, 0, "", 2097495962913179083ULL, 0ULL }, { 7, 0, "", 7581557662681987445ULL, 0ULL }, { 7, 0, "", 2097495962913179083ULL, 0ULL }, { 7, 0, "", 7581557662681987445ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 7, 0, "", 2097469523291018412ULL, 0ULL }, { 7, 0, "", 7581531223059826774ULL, 0ULL }, { 7, 0, "", 2097469523291018412ULL, 0ULL }, { 7, 0, "", 7581531223059826774ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 7, 0, "", 17338772830987598072ULL, 0ULL }, { 7, 0, "", 15431437534784239352ULL, 0ULL }, { 7, 0, "", 17338772830987598040ULL, 0ULL }, { 7, 0, "", 11041671387213178777ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 7, 0, "", 11367970607252107129ULL, 0ULL }, { 7, 0, "", 9135835674256506794ULL, 0ULL }, { 7, 0, "", 11367970607252107129ULL, 0ULL }, { 7, 0, "", 8858543849011423211ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 7, 0, "", 15995901943092260912ULL, 0ULL }, { 7, 0, "", 2013066897069484890ULL, 0ULL }, { 7, 0, "", 15995901943092260912ULL, 0ULL }, { 7, 0, "", 2013066897069484890ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 7, 0, "", 15995875503470100241ULL, 0ULL }, { 7, 0, "", 2013040457447324219ULL, 0ULL }, { 7, 0, "", 15995875503470100241ULL, 0ULL }, { 7, 0, "", 2013040457447324219ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL }, { 0, 1, "M32", 1088ULL, 0ULL } };
JOB2(prog71) { run(s, "p71_main", E71); }
static const Exp E72[] = { { 7, 0, "", 29373526833ULL, 0ULL }, { 7, 0, "", 29373526833ULL, 0ULL }, { 7, 0, "", 29373526833ULL, 0ULL }, { 7, 0, "", 29373526833ULL, 0ULL }, { 7, 0, "", 875066234491492ULL, 0ULL }, { 7, 0, "", 875066234491492ULL, 0ULL }, { 7, 0, "", 30565574ULL, 0ULL }, { 7, 0, "", 30565574ULL, 0ULL }, { 7, 0, "", 27130464072791023ULL, 0ULL }, { 7, 0, "", 27130464072791023ULL, 0ULL }, { 7, 0, "", 27130464072791023ULL, 0ULL }, { 7, 0, "", 27130464072791023ULL, 0ULL }, { 7, 0, "", 15033660022503256294ULL, 0ULL }, { 7, 0, "", 15033660022503256294ULL, 0ULL }, { 7, 0, "", 28231492271364ULL, 0ULL }, { 7, 0, "", 28231492271364ULL, 0ULL }, { 7, 0, "", 29373526833ULL, 0ULL }, { 7, 0, "", 29373526833ULL, 0ULL }, { 7, 0, "", 29373526833ULL, 0ULL }, { 7, 0, "", 29373526833ULL, 0ULL }, { 7, 0, "", 875066234491492ULL, 0ULL }, { 7, 0, "", 875066234491492ULL, 0ULL }, { 7, 0, "", 30565574ULL, 0ULL }, { 7, 0, "", 30565574ULL, 0ULL }, { 7, 0, "", 27130464072791023ULL, 0ULL }, { 7, 0, "", 27130464072791023ULL, 0ULL }, { 7, 0, "", 27130464072791023ULL, 0ULL }, { 7, 0, "", 27130464072791023ULL, 0ULL }, { 7, 0, "", 15033660022503256294ULL, 0ULL }, { 7, 0, "", 15033660022503256294ULL, 0ULL }, { 7, 0, "", 28231492271364ULL, 0ULL }, { 7, 0, "", 28231492271364ULL, 0ULL }, { 0, 3, "M21", 29373526833ULL, 0ULL }, { 0, 3, "M21", 29373526833ULL, 0ULL }, { 0, 3, "M21", 29373526833ULL, 0ULL }, { 0, 3, "M21", 29373526833ULL, 0ULL }, { 0, 1, "*", 947532578ULL, 0ULL }, { 0, 1, "*", 947532578ULL, 0ULL }, { 0, 3, "M21", 30565574ULL, 0ULL }, { 0, 3, "M21", 30565574ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 0, 3, "M21", 29373526833ULL, 0ULL }, { 0, 3, "M21", 29373526833ULL, 0ULL }, { 0, 3, "M21", 29373526833ULL, 0ULL }, { 0, 3, "M21", 29373526833ULL, 0ULL }, { 0, 1, "*", 947532578ULL, 0ULL }, { 0, 1, "*", 947532578ULL, 0ULL }, { 0, 3, "M21", 30565574ULL, 0ULL }, { 0, 3, "M21", 30565574ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL }, { 5, 0, "", 31810ULL, 0ULL } };
JOB2(prog72) { run(s, "p72_main", E72); }
static const Exp E73[] = { { 0, 1, "M22", 7652864553075527080ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 7652864553075527080ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 3177893696673992015ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 3177893696673992015ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 7652864553075527080ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 7652864553075527080ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 3177893696673992015ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 3177893696673992015ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 7, 0, "", 14106590970535785442ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "Error", 15746124292185244528ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 2, "M47", 5695304343585042113ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 2, "M25", 10533737987750340363ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 7, 0, "", 5695304348188284211ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "Error", 15746124292185244528ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 63, 0, "", 14106453835243421198ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 2, "M25", 10533737987750340363ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 7652864553075527080ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 7652864553075527080ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 3177893696673992015ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 3177893696673992015ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 7652864553075527080ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 7652864553075527080ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 3177893696673992015ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "M22", 3177893696673992015ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "*", 27154379492521095ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "*", 27154379492521095ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "*", 15746124292180455116ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "*", 15746124292180455116ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "*", 27154379492521095ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "*", 27154379492521095ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "*", 15746124292180455116ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL }, { 0, 1, "*", 15746124292180455116ULL, 0ULL }, { 0, 1, "M11", 27132362278760326ULL, 0ULL } };
JOB2(prog73) { run(s, "p73_main", E73); }
static const Exp E74[] = { { 0, 1, "M49", 8091814599989061589ULL, 0ULL }, { 7, 0, "", 6998770205025127737ULL, 0ULL }, { 0, 1, "*", 15312583520136775922ULL, 0ULL }, { 0, 1, "*", 17384044633699347977ULL, 0ULL }, { 0, 1, "M49", 14821440900947121037ULL, 0ULL }, { 7, 0, "", 1640296685082475656ULL, 0ULL }, { 0, 1, "*", 7546570232871987882ULL, 0ULL }, { 0, 1, "*", 819056942911199960ULL, 0ULL }, { 0, 1, "M49", 8091814599989061589ULL, 0ULL }, { 7, 0, "", 6998770205025127737ULL, 0ULL }, { 0, 1, "*", 15312583520136775922ULL, 0ULL }, { 0, 1, "*", 17384044633699347977ULL, 0ULL }, { 0, 1, "M49", 14821440900947121037ULL, 0ULL }, { 7, 0, "", 1640296685082475656ULL, 0ULL }, { 0, 1, "*", 7546570232871987882ULL, 0ULL }, { 0, 1, "*", 819056942911199960ULL, 0ULL }, { 0, 1, "M49", 228006214551867477ULL, 0ULL }, { 7, 0, "", 920957976501343449ULL, 0ULL }, { 0, 1, "*", 11375684814943448792ULL, 0ULL }, { 0, 1, "*", 5446681665784046351ULL, 0ULL }, { 0, 1, "M49", 228006214551867477ULL, 0ULL }, { 7, 0, "", 920957976501343449ULL, 0ULL }, { 0, 1, "*", 11375684814943448792ULL, 0ULL }, { 0, 1, "*", 5446681665784046351ULL, 0ULL }, { 0, 1, "M49", 228006214551867477ULL, 0ULL }, { 7, 0, "", 920957976501343449ULL, 0ULL }, { 0, 1, "*", 11375684814943448792ULL, 0ULL }, { 0, 1, "*", 5446681665784046351ULL, 0ULL }, { 0, 1, "M49", 228006214551867477ULL, 0ULL }, { 7, 0, "", 920957976501343449ULL, 0ULL }, { 0, 1, "*", 11375684814943448792ULL, 0ULL }, { 0, 1, "*", 5446681665784046351ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL } };
JOB2(prog74) { run(s, "p74_main", E74); }
static const Exp E75[] = { { 0, 1, "M13", 27127057833656970ULL, 0ULL }, { 0, 1, "M13", 27127057833656970ULL, 0ULL }, { 0, 1, "M13", 27127938238261866ULL, 0ULL }, { 0, 1, "M13", 875094781879074ULL, 0ULL }, { 0, 1, "M13", 28227942089418ULL, 0ULL }, { 0, 1, "M13", 28227942085918ULL, 0ULL }, { 0, 1, "M13", 28228859175594ULL, 0ULL }, { 0, 1, "M13", 28228859172062ULL, 0ULL }, { 0, 1, "M13", 27127057833656970ULL, 0ULL }, { 0, 1, "M13", 27127057833656970ULL, 0ULL }, { 0, 1, "M13", 27127938238261866ULL, 0ULL }, { 0, 1, "M13", 875094781879074ULL, 0ULL }, { 0, 1, "M13", 28227942089418ULL, 0ULL }, { 0, 1, "M13", 28227942085918ULL, 0ULL }, { 0, 1, "M13", 28228859175594ULL, 0ULL }, { 0, 1, "M13", 28228859172062ULL, 0ULL }, { 0, 1, "M13", 875066384572456ULL, 0ULL }, { 0, 1, "M13", 875066384572456ULL, 0ULL }, { 0, 1, "M13", 875094784690248ULL, 0ULL }, { 0, 1, "M13", 28228864021917ULL, 0ULL }, { 0, 1, "M13", 28227942089418ULL, 0ULL }, { 0, 1, "M13", 28227942085918ULL, 0ULL }, { 0, 1, "M13", 28228859175594ULL, 0ULL }, { 0, 1, "M13", 28228859172062ULL, 0ULL }, { 0, 1, "M13", 875066384572456ULL, 0ULL }, { 0, 1, "M13", 875066384572456ULL, 0ULL }, { 0, 1, "M13", 875094784690248ULL, 0ULL }, { 0, 1, "M13", 28228864021917ULL, 0ULL }, { 0, 1, "M13", 28227942089418ULL, 0ULL }, { 0, 1, "M13", 28227942085918ULL, 0ULL }, { 0, 1, "M13", 28228859175594ULL, 0ULL }, { 0, 1, "M13", 28228859172062ULL, 0ULL }, { 0, 1, "M13", 27127057833656970ULL, 0ULL }, { 0, 1, "M13", 875066381730530ULL, 0ULL }, { 0, 1, "M13", 27127938238261866ULL, 0ULL }, { 0, 1, "M13", 875094781879074ULL, 0ULL }, { 0, 1, "M13", 28227942089418ULL, 0ULL }, { 0, 1, "M13", 28227942085918ULL, 0ULL }, { 0, 1, "M13", 28228859175594ULL, 0ULL }, { 0, 1, "M13", 28228859172062ULL, 0ULL }, { 0, 1, "M13", 28227943042762ULL, 0ULL }, { 0, 1, "M13", 910578807490ULL, 0ULL }, { 0, 1, "M13", 28228859175594ULL, 0ULL }, { 0, 1, "M13", 910608360162ULL, 0ULL }, { 0, 1, "M13", 28227943042762ULL, 0ULL }, { 0, 1, "M13", 28227943039230ULL, 0ULL }, { 0, 1, "M13", 28228859175594ULL, 0ULL }, { 0, 1, "M13", 28228859172062ULL, 0ULL }, { 0, 1, "M13", 875066384572456ULL, 0ULL }, { 0, 1, "M13", 28227947889085ULL, 0ULL }, { 0, 1, "M13", 875094784690248ULL, 0ULL }, { 0, 1, "M13", 28228864021917ULL, 0ULL }, { 0, 1, "M13", 28227942089418ULL, 0ULL }, { 0, 1, "M13", 28227942085918ULL, 0ULL }, { 0, 1, "M13", 28228859175594ULL, 0ULL }, { 0, 1, "M13", 28228859172062ULL, 0ULL }, { 0, 1, "M13", 28227943042762ULL, 0ULL }, { 0, 1, "M13", 910578807490ULL, 0ULL }, { 0, 1, "M13", 28228859175594ULL, 0ULL }, { 0, 1, "M13", 910608360162ULL, 0ULL }, { 0, 1, "M13", 28227943042762ULL, 0ULL }, { 0, 1, "M13", 28227943039230ULL, 0ULL }, { 0, 1, "M13", 28228859175594ULL, 0ULL }, { 0, 1, "M13", 28228859172062ULL, 0ULL } };
JOB2(prog75) { run(s, "p75_main", E75); }
static const Exp E76[] = { { 0, 2, "M35", 18047959387228288103ULL, 0ULL }, { 0, 1, "*", 11231124686211138787ULL, 0ULL }, { 0, 2, "M35", 5278219127586070631ULL, 0ULL }, { 0, 1, "*", 3316751995158900963ULL, 0ULL }, { 0, 2, "M35", 12860829966240240714ULL, 0ULL }, { 0, 1, "*", 8237339760982302214ULL, 0ULL }, { 0, 2, "M35", 15240030863189981921ULL, 0ULL }, { 0, 2, "M35", 15240030863189981921ULL, 0ULL }, { 0, 2, "M35", 7521461576348366071ULL, 0ULL }, { 0, 1, "*", 3341480654184467955ULL, 0ULL }, { 0, 2, "M35", 687242779341970343ULL, 0ULL }, { 0, 1, "*", 9542864491528895651ULL, 0ULL }, { 0, 2, "M35", 2334332155360318682ULL, 0ULL }, { 0, 1, "*", 16145840847251062614ULL, 0ULL }, { 0, 2, "M35", 3372933205355968225ULL, 0ULL }, { 0, 2, "M35", 3372933205355968225ULL, 0ULL }, { 0, 2, "M35", 4218308794019171303ULL, 0ULL }, { 0, 1, "*", 2834897880396045411ULL, 0ULL }, { 0, 2, "M35", 577243061441683463ULL, 0ULL }, { 0, 1, "*", 7615423271454367875ULL, 0ULL }, { 0, 2, "M35", 13836857714163187690ULL, 0ULL }, { 0, 1, "*", 847169338182054ULL, 0ULL }, { 0, 2, "M35", 881549779585ULL, 0ULL }, { 0, 2, "M35", 881549779585ULL, 0ULL }, { 0, 2, "M35", 956337639310756647ULL, 0ULL }, { 0, 1, "*", 2834897880395983907ULL, 0ULL }, { 0, 2, "M35", 15762015980442820423ULL, 0ULL }, { 0, 1, "*", 7615423271454306371ULL, 0ULL }, { 0, 2, "M35", 10574886559454773034ULL, 0ULL }, { 0, 1, "*", 847169338182054ULL, 0ULL }, { 0, 2, "M35", 881549779585ULL, 0ULL }, { 0, 2, "M35", 881549779585ULL, 0ULL }, { 0, 2, "M35", 6727139941543478643ULL, 0ULL }, { 0, 1, "*", 787690105531249027ULL, 0ULL }, { 0, 2, "M35", 3606184488628469531ULL, 0ULL }, { 0, 1, "*", 814077013523283351ULL, 0ULL }, { 0, 2, "M35", 10908312589555259610ULL, 0ULL }, { 0, 1, "*", 852920621734ULL, 0ULL }, { 0, 2, "M35", 917266069ULL, 0ULL }, { 0, 2, "M35", 917266069ULL, 0ULL }, { 0, 2, "M35", 3030726258406068903ULL, 0ULL }, { 0, 1, "*", 787690105531187523ULL, 0ULL }, { 0, 2, "M35", 344213333920054875ULL, 0ULL }, { 0, 1, "*", 814077013523221847ULL, 0ULL }, { 0, 2, "M35", 7646341434846844954ULL, 0ULL }, { 0, 1, "*", 852920621734ULL, 0ULL }, { 0, 2, "M35", 917266069ULL, 0ULL }, { 0, 2, "M35", 917266069ULL, 0ULL }, { 0, 2, "M35", 15964332353077525767ULL, 0ULL }, { 0, 1, "*", 7412148633154829699ULL, 0ULL }, { 0, 2, "M35", 3606184488628469531ULL, 0ULL }, { 0, 1, "*", 814077013523283351ULL, 0ULL }, { 0, 2, "M35", 5747770335022809338ULL, 0ULL }, { 0, 1, "*", 881320739526ULL, 0ULL }, { 0, 2, "M35", 917266069ULL, 0ULL }, { 0, 2, "M35", 917266069ULL, 0ULL }, { 0, 2, "M35", 12702361198369111111ULL, 0ULL }, { 0, 1, "*", 7412148633154768195ULL, 0ULL }, { 0, 2, "M35", 344213333920054875ULL, 0ULL }, { 0, 1, "*", 814077013523221847ULL, 0ULL }, { 0, 2, "M35", 2485799180314394682ULL, 0ULL }, { 0, 1, "*", 881320739526ULL, 0ULL }, { 0, 2, "M35", 917266069ULL, 0ULL }, { 0, 2, "M35", 917266069ULL, 0ULL } };
JOB2(prog76) { run(s, "p76_main", E76); }
static const Exp E77[] = { { 0, 2, "M20", 28629166ULL, 0ULL }, { 0, 2, "M20", 28629166ULL, 0ULL }, { 0, 2, "M19", 887504164ULL, 0ULL }, { 0, 2, "M19", 27512629039ULL, 0ULL }, { 0, 2, "M20", 33788922424ULL, 0ULL }, { 0, 2, "M20", 33788922424ULL, 0ULL }, { 0, 2, "M19", 1047456595162ULL, 0ULL }, { 0, 1, "Error", 1089965239ULL, 0ULL }, { 0, 2, "M20", 28629166ULL, 0ULL }, { 0, 2, "M20", 28629166ULL, 0ULL }, { 0, 2, "M19", 887504164ULL, 0ULL }, { 7, 0, "", 887504162ULL, 0ULL }, { 0, 2, "M20", 33788931104ULL, 0ULL }, { 0, 2, "M20", 33788931104ULL, 0ULL }, { 0, 2, "M19", 1047456864242ULL, 0ULL }, { 0, 1, "M7", 1089965519ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL } };
JOB2(prog77) { run(s, "p77_main", E77); }
static const Exp E78[] = { { 0, 1, "M54", 335238123ULL, 0ULL }, { 0, 1, "M54", 28735355915ULL, 0ULL }, { 0, 1, "M54", 335238123ULL, 0ULL }, { 0, 1, "M54", 335238123ULL, 0ULL }, { 0, 1, "M54", 335238123ULL, 0ULL }, { 0, 1, "M54", 28735355915ULL, 0ULL }, { 0, 1, "M54", 335238123ULL, 0ULL }, { 0, 1, "M54", 335238123ULL, 0ULL }, { 0, 1, "M54", 12572969709407454732ULL, 0ULL }, { 0, 1, "M54", 14765542977052268076ULL, 0ULL }, { 0, 1, "M54", 7227387455203527600ULL, 0ULL }, { 0, 1, "M54", 7227387455203527600ULL, 0ULL }, { 0, 1, "M54", 14172456935300738056ULL, 0ULL }, { 0, 1, "M54", 17813522667878225896ULL, 0ULL }, { 0, 1, "M54", 2066584705312841999ULL, 0ULL }, { 0, 1, "M54", 2066584705312841999ULL, 0ULL }, { 0, 1, "M54", 335238123ULL, 0ULL }, { 0, 1, "M54", 28735355915ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M54", 335238123ULL, 0ULL }, { 0, 1, "M54", 28735355915ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M54", 8437301435185143495ULL, 0ULL }, { 0, 1, "M54", 18133459796027882436ULL, 0ULL }, { 0, 1, "*", 96ULL, 0ULL }, { 0, 1, "*", 96ULL, 0ULL }, { 0, 1, "M54", 6396365953327778550ULL, 0ULL }, { 0, 1, "M54", 1911154965986070816ULL, 0ULL }, { 0, 1, "*", 96ULL, 0ULL }, { 0, 1, "*", 96ULL, 0ULL }, { 0, 1, "M54", 276348882914ULL, 0ULL }, { 0, 1, "M54", 28735355915ULL, 0ULL }, { 0, 1, "M4", 33ULL, 0ULL }, { 0, 1, "M4", 33ULL, 0ULL }, { 0, 1, "M54", 276348882914ULL, 0ULL }, { 0, 1, "M54", 28735355915ULL, 0ULL }, { 0, 1, "M4", 33ULL, 0ULL }, { 0, 1, "M4", 33ULL, 0ULL }, { 0, 1, "M54", 1670508648977981015ULL, 0ULL }, { 0, 1, "M54", 816068148851538702ULL, 0ULL }, { 0, 1, "M54", 14164712938143719982ULL, 0ULL }, { 0, 1, "M54", 14164712938143719982ULL, 0ULL }, { 0, 1, "M54", 5586057373331612189ULL, 0ULL }, { 0, 1, "M54", 15001030671814694214ULL, 0ULL }, { 0, 1, "M54", 8498427361853238ULL, 0ULL }, { 0, 1, "M54", 8498427361853238ULL, 0ULL }, { 0, 1, "M54", 276348882914ULL, 0ULL }, { 0, 1, "M54", 28735355915ULL, 0ULL }, { 0, 1, "M4", 33ULL, 0ULL }, { 0, 1, "M4", 33ULL, 0ULL }, { 0, 1, "M54", 276348882914ULL, 0ULL }, { 0, 1, "M54", 28735355915ULL, 0ULL }, { 0, 1, "M4", 33ULL, 0ULL }, { 0, 1, "M4", 33ULL, 0ULL }, { 0, 1, "M54", 7293648462104612590ULL, 0ULL }, { 0, 1, "M54", 363233216413379941ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "M54", 5418905188511364025ULL, 0ULL }, { 0, 1, "M54", 7021917396020600098ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 0ULL } };
JOB2(prog78) { run(s, "p78_main", E78); }
static const Exp E79[] = { { 7, 0, "", 5835505283637385545ULL, 0ULL }, { 7, 0, "", 16514573377517020489ULL, 0ULL }, { 23, 0, "", 16537847316337044689ULL, 0ULL }, { 23, 0, "", 16537847316337044689ULL, 0ULL }, { 7, 0, "", 5835505283637385545ULL, 0ULL }, { 7, 0, "", 16514573377517020489ULL, 0ULL }, { 23, 0, "", 16537847316337044689ULL, 0ULL }, { 23, 0, "", 16537847316337044689ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 28, 0, "", 8374906032416657935ULL, 0ULL }, { 28, 0, "", 8374906032416657935ULL, 0ULL }, { 23, 0, "", 15409885456743875961ULL, 0ULL }, { 23, 0, "", 15409885456743875961ULL, 0ULL }, { 28, 0, "", 8374906032416657935ULL, 0ULL }, { 28, 0, "", 8374906032416657935ULL, 0ULL }, { 23, 0, "", 15409885456743875961ULL, 0ULL }, { 23, 0, "", 15409885456743875961ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 7, 0, "", 5835505283637385545ULL, 0ULL }, { 7, 0, "", 16514573377517020489ULL, 0ULL }, { 0, 1, "*", 16537847316337044689ULL, 0ULL }, { 0, 1, "*", 16537847316337044689ULL, 0ULL }, { 7, 0, "", 5835505283637385545ULL, 0ULL }, { 7, 0, "", 16514573377517020489ULL, 0ULL }, { 0, 1, "*", 16537847316337044689ULL, 0ULL }, { 0, 1, "*", 16537847316337044689ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 28, 0, "", 8374906032416657935ULL, 0ULL }, { 28, 0, "", 8374906032416657935ULL, 0ULL }, { 0, 1, "*", 15409885456743875961ULL, 0ULL }, { 0, 1, "*", 15409885456743875961ULL, 0ULL }, { 28, 0, "", 8374906032416657935ULL, 0ULL }, { 28, 0, "", 8374906032416657935ULL, 0ULL }, { 0, 1, "*", 15409885456743875961ULL, 0ULL }, { 0, 1, "*", 15409885456743875961ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 973395228ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL }, { 0, 2, "M12", 28432598662ULL, 0ULL } };
JOB2(prog79) { run(s, "p79_main", E79); }
JOB2(die_id) { c_int id = sym_int("id"); int n = vp_choice(3, "len"); char b[3]; vp_symbolic(b, n, "message"); void* m = spv_str(s, b, n); OK(CALL(s, "reset", 0));
  if (id == 0) return; set_int(0, id); ST[1].oval = m; OK(CALL(s, "dieid", 2)); vp_assert(get_int() == 1, "the exception is caught"); OK(CALL(s, "getD", 0)); vp_assert(get_long() == id, "eval_error_id is the thrown id"); void* ex = spv_exc(s); vp_assert(ex != 0 && ENV->length(ENV, ST, ex) > n && memcmp(ENV->get_chars(ENV, ST, ex), b, n) == 0 && ENV->get_chars(ENV, ST, ex)[n] == '\n', "the message is the thrown one, followed by the stack trace");
  set_int(0, id); ST[1].oval = m; int e = CALL(s, "dieid2", 2); vp_assert(e == id, "the error id reaches the native caller"); spv_clear_exc(s); }
JOB2(die_id0) { set_int(0, 0); ST[1].oval = spv_str(s, "m", 1); OK(CALL(s, "reset", 0)); int e = CALL(s, "dieid", 2); vp_observe(e); spv_clear_exc(s); }
JOB2(set_exc) { int u = vp_choice(2, "undef"); int n = vp_choice(3, "len"); char b[3]; vp_symbolic(b, n, "message"); ST[0].oval = u ? 0 : spv_str(s, b, n); void* m = ST[0].oval; OK(CALL(s, "setexc", 1)); vp_assert(get_int() == !u, "the exception variable is a variable"); void* ex = spv_exc(s); vp_assert(u ? ex == 0 : ex && ENV->length(ENV, ST, ex) == n && memcmp(ENV->get_chars(ENV, ST, ex), b, n) == 0, "and holds the assigned string"); spv_clear_exc(s); }
