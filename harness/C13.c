/*vp {"pc":"VP","time":150,"bounds":["80 random programs of 12..60 statements (nested eval, die with message, class or id, failing operators, native failures, calls, loops, next, last, return, and objects whose two reference fields are stored, weakened, unweakened, tested and read, without strong cycles left at the end) with every combination of their 6 conditions"]} */
// generated by tools/gen_*.py
#include "lang.h"

typedef struct { int ret, eid; const char* msg; uint64_t T, D; } Exp;
static void run(SPV* s, const char* m, const Exp* ex) { OK(CALL(s, "reset", 0)); OK(CALL(s, "eids", 0)); int ids[4]; memcpy(ids, ENV->get_elems_int(ENV, ST, ST[0].oval), 16); int sc = ENV->enter_scope(ENV, ST);
  c_int x = sym_int("x"); vp_assume((x >= 0) & (x < 64));
  /* the first run may enlarge the frame storage, which the stack keeps */ set_int(0, x); CALL(s, m, 1); spv_clear_exc(s); OK(CALL(s, "reset", 0)); spv_clear_exc(s); ENV->leave_scope(ENV, ST, sc); OK(CALL(s, "reset", 0));
  BAL_BEGIN set_int(0, x); int e = CALL(s, m, 1); int rv = get_int(); const Exp* E = &ex[vp_pick(x)];
  vp_assert(!e == !E->eid, "an exception leaves the method exactly when it is thrown and not caught"); vp_assert(e == ids[E->eid], "error id of the exception"); vp_assert(e || rv == E->ret, "return value");
  if (e) { vp_assert(spv_exc(s) != 0, "the exception variable is set"); const char* c = spv_exc_chars(s); if (E->msg[0] != '*') { size_t n = strlen(E->msg); vp_assert(strncmp(c, E->msg, n) == 0 && c[n] == (E->msg[0] == 'E' ? '\n' : ':'), "message of the exception"); } else vp_assert(c[0] != 0 && c[0] != 'M', "message of a built-in failure"); vp_assert(strstr(c, m) != 0, "the stack trace names the method"); }
  spv_clear_exc(s); OK(CALL(s, "getT", 0)); vp_assert((uint64_t)get_long() == E->T, "the statements executed are exactly those of the documented semantics"); OK(CALL(s, "dropG", 0)); OK(CALL(s, "getD", 0)); vp_assert((uint64_t)get_long() == E->D, "every object was destroyed exactly once"); vp_observe(get_long()); BAL_END }
static const Exp E0[] = { { 7, 0, "", 394911078519596604ULL, 1022536366869637ULL }, { 7, 0, "", 394911078519596604ULL, 1022536366869637ULL }, { 7, 0, "", 15592178027401341731ULL, 600831473959618ULL }, { 7, 0, "", 15592178027401341731ULL, 600831473959618ULL }, { 0, 1, "*", 12718065188472893687ULL, 1022536366869637ULL }, { 0, 1, "*", 12718065188472893687ULL, 1022536366869637ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 0, 1, "*", 8619102073124360188ULL, 1022536366869637ULL }, { 0, 1, "*", 8619102073124360188ULL, 1022536366869637ULL }, { 0, 1, "*", 15526065531987194627ULL, 600831473959618ULL }, { 0, 1, "*", 15526065531987194627ULL, 600831473959618ULL }, { 0, 1, "*", 12718065188472893687ULL, 1022536366869637ULL }, { 0, 1, "*", 12718065188472893687ULL, 1022536366869637ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 7, 0, "", 2373696762894456348ULL, 1022536366869637ULL }, { 7, 0, "", 2373696762894456348ULL, 1022536366869637ULL }, { 7, 0, "", 15592178027401341731ULL, 600831473959618ULL }, { 7, 0, "", 15592178027401341731ULL, 600831473959618ULL }, { 0, 1, "*", 12718911284783106263ULL, 1022536366869637ULL }, { 0, 1, "*", 12718911284783106263ULL, 1022536366869637ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 0, 1, "*", 15243561481151592412ULL, 1022536366869637ULL }, { 0, 1, "*", 15243561481151592412ULL, 1022536366869637ULL }, { 0, 1, "*", 15526065531987194627ULL, 600831473959618ULL }, { 0, 1, "*", 15526065531987194627ULL, 600831473959618ULL }, { 0, 1, "*", 12718911284783106263ULL, 1022536366869637ULL }, { 0, 1, "*", 12718911284783106263ULL, 1022536366869637ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 7, 0, "", 394911078519596604ULL, 1022536366869637ULL }, { 7, 0, "", 394911078519596604ULL, 1022536366869637ULL }, { 7, 0, "", 15592178027401341731ULL, 600831473959618ULL }, { 7, 0, "", 15592178027401341731ULL, 600831473959618ULL }, { 0, 1, "*", 12718065188472893687ULL, 1022536366869637ULL }, { 0, 1, "*", 12718065188472893687ULL, 1022536366869637ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 0, 1, "*", 8619102073124360188ULL, 1022536366869637ULL }, { 0, 1, "*", 8619102073124360188ULL, 1022536366869637ULL }, { 0, 1, "*", 15526065531987194627ULL, 600831473959618ULL }, { 0, 1, "*", 15526065531987194627ULL, 600831473959618ULL }, { 0, 1, "*", 12718065188472893687ULL, 1022536366869637ULL }, { 0, 1, "*", 12718065188472893687ULL, 1022536366869637ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 7, 0, "", 2373696762894456348ULL, 1022536366869637ULL }, { 7, 0, "", 2373696762894456348ULL, 1022536366869637ULL }, { 7, 0, "", 15592178027401341731ULL, 600831473959618ULL }, { 7, 0, "", 15592178027401341731ULL, 600831473959618ULL }, { 0, 1, "*", 12718911284783106263ULL, 1022536366869637ULL }, { 0, 1, "*", 12718911284783106263ULL, 1022536366869637ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 0, 1, "*", 15243561481151592412ULL, 1022536366869637ULL }, { 0, 1, "*", 15243561481151592412ULL, 1022536366869637ULL }, { 0, 1, "*", 15526065531987194627ULL, 600831473959618ULL }, { 0, 1, "*", 15526065531987194627ULL, 600831473959618ULL }, { 0, 1, "*", 12718911284783106263ULL, 1022536366869637ULL }, { 0, 1, "*", 12718911284783106263ULL, 1022536366869637ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL }, { 0, 1, "*", 12080923658243585ULL, 600831473959618ULL } };
JOB2(prog0) { run(s, "p0_main", E0); }
static const Exp E1[] = { { 7, 0, "", 198365122258353784ULL, 1764734902857918ULL }, { 7, 0, "", 198365122258353784ULL, 1764734902857918ULL }, { 7, 0, "", 198365122258353784ULL, 1764734902857918ULL }, { 7, 0, "", 198365122258353784ULL, 1764734902857918ULL }, { 7, 0, "", 16601517131355410308ULL, 1544911792024954ULL }, { 0, 1, "M3", 2ULL, 557232240838078ULL }, { 7, 0, "", 16601517131355410308ULL, 1544911792024954ULL }, { 0, 1, "M3", 2ULL, 557232240838078ULL }, { 7, 0, "", 198365122258353784ULL, 1764734902857918ULL }, { 7, 0, "", 198365122258353784ULL, 1764734902857918ULL }, { 7, 0, "", 198365122258353784ULL, 1764734902857918ULL }, { 7, 0, "", 198365122258353784ULL, 1764734902857918ULL }, { 7, 0, "", 16601517131355410308ULL, 1544911792024954ULL }, { 0, 1, "M3", 2ULL, 557232240838078ULL }, { 7, 0, "", 16601517131355410308ULL, 1544911792024954ULL }, { 0, 1, "M3", 2ULL, 557232240838078ULL }, { 7, 0, "", 1378673274103828600ULL, 1536318307786758ULL }, { 7, 0, "", 1378673274103828600ULL, 1536318307786758ULL }, { 7, 0, "", 1378673274103828600ULL, 1536318307786758ULL }, { 7, 0, "", 1378673274103828600ULL, 1536318307786758ULL }, { 7, 0, "", 16601288714760339148ULL, 1316495196953794ULL }, { 0, 1, "M3", 2ULL, 557232240838078ULL }, { 7, 0, "", 16601288714760339148ULL, 1316495196953794ULL }, { 0, 1, "M3", 2ULL, 557232240838078ULL }, { 7, 0, "", 1378673274103828600ULL, 1536318307786758ULL }, { 7, 0, "", 1378673274103828600ULL, 1536318307786758ULL }, { 7, 0, "", 1378673274103828600ULL, 1536318307786758ULL }, { 7, 0, "", 1378673274103828600ULL, 1536318307786758ULL }, { 7, 0, "", 16601288714760339148ULL, 1316495196953794ULL }, { 0, 1, "M3", 2ULL, 557232240838078ULL }, { 7, 0, "", 16601288714760339148ULL, 1316495196953794ULL }, { 0, 1, "M3", 2ULL, 557232240838078ULL }, { 7, 0, "", 149187425039505724ULL, 1764734902857918ULL }, { 7, 0, "", 149187425039505724ULL, 1764734902857918ULL }, { 7, 0, "", 149187425039505724ULL, 1764734902857918ULL }, { 7, 0, "", 149187425039505724ULL, 1764734902857918ULL }, { 7, 0, "", 16601517129637661248ULL, 1544911792024954ULL }, { 7, 0, "", 16601517129637661248ULL, 1544911792024954ULL }, { 7, 0, "", 16601517129637661248ULL, 1544911792024954ULL }, { 7, 0, "", 16601517129637661248ULL, 1544911792024954ULL }, { 7, 0, "", 149187425039505724ULL, 1764734902857918ULL }, { 7, 0, "", 149187425039505724ULL, 1764734902857918ULL }, { 7, 0, "", 149187425039505724ULL, 1764734902857918ULL }, { 7, 0, "", 149187425039505724ULL, 1764734902857918ULL }, { 7, 0, "", 16601517129637661248ULL, 1544911792024954ULL }, { 7, 0, "", 16601517129637661248ULL, 1544911792024954ULL }, { 7, 0, "", 16601517129637661248ULL, 1544911792024954ULL }, { 7, 0, "", 16601517129637661248ULL, 1544911792024954ULL }, { 7, 0, "", 1329495576884980540ULL, 1536318307786758ULL }, { 7, 0, "", 1329495576884980540ULL, 1536318307786758ULL }, { 7, 0, "", 1329495576884980540ULL, 1536318307786758ULL }, { 7, 0, "", 1329495576884980540ULL, 1536318307786758ULL }, { 7, 0, "", 16601288713042590088ULL, 1316495196953794ULL }, { 7, 0, "", 16601288713042590088ULL, 1316495196953794ULL }, { 7, 0, "", 16601288713042590088ULL, 1316495196953794ULL }, { 7, 0, "", 16601288713042590088ULL, 1316495196953794ULL }, { 7, 0, "", 1329495576884980540ULL, 1536318307786758ULL }, { 7, 0, "", 1329495576884980540ULL, 1536318307786758ULL }, { 7, 0, "", 1329495576884980540ULL, 1536318307786758ULL }, { 7, 0, "", 1329495576884980540ULL, 1536318307786758ULL }, { 7, 0, "", 16601288713042590088ULL, 1316495196953794ULL }, { 7, 0, "", 16601288713042590088ULL, 1316495196953794ULL }, { 7, 0, "", 16601288713042590088ULL, 1316495196953794ULL }, { 7, 0, "", 16601288713042590088ULL, 1316495196953794ULL } };
JOB2(prog1) { run(s, "p1_main", E1); }
static const Exp E2[] = { { 7, 0, "", 8276079493001551645ULL, 1518730908200322ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 7, 0, "", 149492381893970429ULL, 1119618674435157ULL }, { 7, 0, "", 149492381893970429ULL, 1119618674435157ULL }, { 0, 1, "M5", 3784825259166970400ULL, 1672484489657769ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 0, 1, "M5", 8966075426701672672ULL, 1273372255892604ULL }, { 0, 1, "M5", 8966075426701672672ULL, 1273372255892604ULL }, { 7, 0, "", 6649118591918772711ULL, 1518730908200322ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 7, 0, "", 1247177122108578599ULL, 1119618674435157ULL }, { 7, 0, "", 1247177122108578599ULL, 1119618674435157ULL }, { 0, 1, "M5", 3784825259166970400ULL, 1672484489657769ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 0, 1, "M5", 8966075426701672672ULL, 1273372255892604ULL }, { 0, 1, "M5", 8966075426701672672ULL, 1273372255892604ULL }, { 0, 1, "*", 8276079493001551645ULL, 1518730908200322ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 0, 1, "M5", 3784825259166970400ULL, 1672484489657769ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 0, 1, "*", 6649118591918772711ULL, 1518730908200322ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 0, 1, "M5", 3784825259166970400ULL, 1672484489657769ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 7, 0, "", 8276079493001551645ULL, 1518730908200322ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 7, 0, "", 149492381893970429ULL, 1119618674435157ULL }, { 7, 0, "", 149492381893970429ULL, 1119618674435157ULL }, { 0, 1, "M5", 3784825259166970400ULL, 1672484489657769ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 0, 1, "M5", 8966075426701672672ULL, 1273372255892604ULL }, { 0, 1, "M5", 8966075426701672672ULL, 1273372255892604ULL }, { 7, 0, "", 6649118591918772711ULL, 1518730908200322ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 7, 0, "", 1247177122108578599ULL, 1119618674435157ULL }, { 7, 0, "", 1247177122108578599ULL, 1119618674435157ULL }, { 0, 1, "M5", 3784825259166970400ULL, 1672484489657769ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 0, 1, "M5", 8966075426701672672ULL, 1273372255892604ULL }, { 0, 1, "M5", 8966075426701672672ULL, 1273372255892604ULL }, { 0, 1, "*", 8276079493001551645ULL, 1518730908200322ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 0, 1, "M5", 3784825259166970400ULL, 1672484489657769ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 0, 1, "*", 6649118591918772711ULL, 1518730908200322ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 0, 1, "M5", 3784825259166970400ULL, 1672484489657769ULL }, { 0, 1, "Error", 62ULL, 471023209517187ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL }, { 0, 2, "M1", 0ULL, 171699713838067ULL } };
JOB2(prog2) { run(s, "p2_main", E2); }
static const Exp E3[] = { { 7, 0, "", 2820317447565021697ULL, 1574707012555631ULL }, { 7, 0, "", 10283833465826319239ULL, 1574707012555631ULL }, { 13, 0, "", 2820317447565021697ULL, 1574707012555631ULL }, { 13, 0, "", 10283833465826319239ULL, 1574707012555631ULL }, { 0, 1, "*", 463623491380431072ULL, 1495577906848320ULL }, { 0, 1, "*", 12871594550313450470ULL, 1495577906848320ULL }, { 0, 1, "*", 463623491380431072ULL, 1495577906848320ULL }, { 0, 1, "*", 12871594550313450470ULL, 1495577906848320ULL }, { 11, 0, "", 2820317447565021697ULL, 1574707012555631ULL }, { 11, 0, "", 10283833465826319239ULL, 1574707012555631ULL }, { 11, 0, "", 2820317447565021697ULL, 1574707012555631ULL }, { 11, 0, "", 10283833465826319239ULL, 1574707012555631ULL }, { 0, 1, "*", 463623491380431072ULL, 1495577906848320ULL }, { 0, 1, "*", 12871594550313450470ULL, 1495577906848320ULL }, { 0, 1, "*", 463623491380431072ULL, 1495577906848320ULL }, { 0, 1, "*", 12871594550313450470ULL, 1495577906848320ULL }, { 7, 0, "", 2820317447565021697ULL, 1574707012555631ULL }, { 7, 0, "", 10283833465826319239ULL, 1574707012555631ULL }, { 13, 0, "", 2820317447565021697ULL, 1574707012555631ULL }, { 13, 0, "", 10283833465826319239ULL, 1574707012555631ULL }, { 0, 1, "*", 463623491380431072ULL, 1495577906848320ULL }, { 0, 1, "*", 12871594550313450470ULL, 1495577906848320ULL }, { 0, 1, "*", 463623491380431072ULL, 1495577906848320ULL }, { 0, 1, "*", 12871594550313450470ULL, 1495577906848320ULL }, { 11, 0, "", 2820317447565021697ULL, 1574707012555631ULL }, { 11, 0, "", 10283833465826319239ULL, 1574707012555631ULL }, { 11, 0, "", 2820317447565021697ULL, 1574707012555631ULL }, { 11, 0, "", 10283833465826319239ULL, 1574707012555631ULL }, { 0, 1, "*", 463623491380431072ULL, 1495577906848320ULL }, { 0, 1, "*", 12871594550313450470ULL, 1495577906848320ULL }, { 0, 1, "*", 463623491380431072ULL, 1495577906848320ULL }, { 0, 1, "*", 12871594550313450470ULL, 1495577906848320ULL }, { 7, 0, "", 2110047794506633422ULL, 1353269006252104ULL }, { 7, 0, "", 14531971796894152397ULL, 1353269006252104ULL }, { 13, 0, "", 2110047794506633422ULL, 1353269006252104ULL }, { 13, 0, "", 14531971796894152397ULL, 1353269006252104ULL }, { 2, 0, "", 31ULL, 0ULL }, { 2, 0, "", 31ULL, 0ULL }, { 2, 0, "", 31ULL, 0ULL }, { 2, 0, "", 31ULL, 0ULL }, { 11, 0, "", 2110047794506633422ULL, 1353269006252104ULL }, { 11, 0, "", 14531971796894152397ULL, 1353269006252104ULL }, { 11, 0, "", 2110047794506633422ULL, 1353269006252104ULL }, { 11, 0, "", 14531971796894152397ULL, 1353269006252104ULL }, { 2, 0, "", 31ULL, 0ULL }, { 2, 0, "", 31ULL, 0ULL }, { 2, 0, "", 31ULL, 0ULL }, { 2, 0, "", 31ULL, 0ULL }, { 7, 0, "", 2110047794506633422ULL, 1353269006252104ULL }, { 7, 0, "", 14531971796894152397ULL, 1353269006252104ULL }, { 13, 0, "", 2110047794506633422ULL, 1353269006252104ULL }, { 13, 0, "", 14531971796894152397ULL, 1353269006252104ULL }, { 2, 0, "", 31ULL, 0ULL }, { 2, 0, "", 31ULL, 0ULL }, { 2, 0, "", 31ULL, 0ULL }, { 2, 0, "", 31ULL, 0ULL }, { 11, 0, "", 2110047794506633422ULL, 1353269006252104ULL }, { 11, 0, "", 14531971796894152397ULL, 1353269006252104ULL }, { 11, 0, "", 2110047794506633422ULL, 1353269006252104ULL }, { 11, 0, "", 14531971796894152397ULL, 1353269006252104ULL }, { 2, 0, "", 31ULL, 0ULL }, { 2, 0, "", 31ULL, 0ULL }, { 2, 0, "", 31ULL, 0ULL }, { 2, 0, "", 31ULL, 0ULL } };
JOB2(prog3) { run(s, "p3_main", E3); }
static const Exp E4[] = { { 0, 1, "M12", 9787961416159132703ULL, 1225414030681001ULL }, { 0, 1, "M12", 9803922220083157599ULL, 1293071677314890ULL }, { 0, 1, "M12", 9787911150612228385ULL, 1225414030681001ULL }, { 0, 1, "M12", 8306461312256620061ULL, 1293071677314890ULL }, { 0, 1, "M12", 17138691947999562365ULL, 3655976617621171ULL }, { 0, 1, "M12", 4376883816759996647ULL, 3723634264255060ULL }, { 0, 1, "M12", 16789882220189616068ULL, 1106379714325645ULL }, { 0, 1, "M12", 13515881236085491136ULL, 1174037360959534ULL }, { 0, 1, "M12", 9787961416159132703ULL, 1225414030681001ULL }, { 0, 1, "M12", 9803922220083157599ULL, 1293071677314890ULL }, { 0, 1, "M12", 9787911150612228385ULL, 1225414030681001ULL }, { 0, 1, "M12", 8306461312256620061ULL, 1293071677314890ULL }, { 0, 1, "M12", 17138691947999562365ULL, 3655976617621171ULL }, { 0, 1, "M12", 4376883816759996647ULL, 3723634264255060ULL }, { 0, 1, "M12", 16789882220189616068ULL, 1106379714325645ULL }, { 0, 1, "M12", 13515881236085491136ULL, 1174037360959534ULL }, { 0, 1, "M12", 9787961416159132703ULL, 1225414030681001ULL }, { 0, 1, "M12", 9803922220083157599ULL, 1293071677314890ULL }, { 0, 1, "M12", 9787911150612228385ULL, 1225414030681001ULL }, { 0, 1, "M12", 8306461312256620061ULL, 1293071677314890ULL }, { 0, 1, "M12", 17138691947999562365ULL, 3655976617621171ULL }, { 0, 1, "M12", 4376883816759996647ULL, 3723634264255060ULL }, { 0, 1, "M12", 16789882220189616068ULL, 1106379714325645ULL }, { 0, 1, "M12", 13515881236085491136ULL, 1174037360959534ULL }, { 0, 1, "M12", 9787961416159132703ULL, 1225414030681001ULL }, { 0, 1, "M12", 9803922220083157599ULL, 1293071677314890ULL }, { 0, 1, "M12", 9787911150612228385ULL, 1225414030681001ULL }, { 0, 1, "M12", 8306461312256620061ULL, 1293071677314890ULL }, { 0, 1, "M12", 17138691947999562365ULL, 3655976617621171ULL }, { 0, 1, "M12", 4376883816759996647ULL, 3723634264255060ULL }, { 0, 1, "M12", 16789882220189616068ULL, 1106379714325645ULL }, { 0, 1, "M12", 13515881236085491136ULL, 1174037360959534ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136398465ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL }, { 0, 1, "M3", 228923136341828ULL, 228923136338883ULL } };
JOB2(prog4) { run(s, "p4_main", E4); }
static const Exp E5[] = { { 0, 1, "*", 11488338719492863755ULL, 1596349752875589ULL }, { 0, 1, "*", 7523847949517556206ULL, 1211903801141611ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 14142837315966124941ULL, 681228951305476ULL }, { 9, 0, "", 11488338719492863755ULL, 1596349752875589ULL }, { 9, 0, "", 7523847949517556206ULL, 1211903801141611ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 14142837315966124941ULL, 681228951305476ULL }, { 0, 1, "*", 11488338719492863755ULL, 1596349752875589ULL }, { 0, 1, "*", 7523847949517556206ULL, 1211903801141611ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 14142837315966124941ULL, 681228951305476ULL }, { 9, 0, "", 11488338719492863755ULL, 1596349752875589ULL }, { 9, 0, "", 7523847949517556206ULL, 1211903801141611ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 14142837315966124941ULL, 681228951305476ULL }, { 0, 1, "*", 11488338719492863755ULL, 1596349752875589ULL }, { 0, 1, "*", 13091935734450590120ULL, 1209628479936574ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 2171277592294273101ULL, 678953630100439ULL }, { 9, 0, "", 11488338719492863755ULL, 1596349752875589ULL }, { 9, 0, "", 13091935734450590120ULL, 1209628479936574ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 2171277592294273101ULL, 678953630100439ULL }, { 0, 1, "*", 11488338719492863755ULL, 1596349752875589ULL }, { 0, 1, "*", 13091935734450590120ULL, 1209628479936574ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 2171277592294273101ULL, 678953630100439ULL }, { 9, 0, "", 11488338719492863755ULL, 1596349752875589ULL }, { 9, 0, "", 13091935734450590120ULL, 1209628479936574ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 2171277592294273101ULL, 678953630100439ULL }, { 0, 1, "*", 11488338719492863755ULL, 1596349752875589ULL }, { 0, 1, "*", 7523847949517556206ULL, 1211903801141611ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 14142837315966124941ULL, 681228951305476ULL }, { 9, 0, "", 11488338719492863755ULL, 1596349752875589ULL }, { 9, 0, "", 7523847949517556206ULL, 1211903801141611ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 14142837315966124941ULL, 681228951305476ULL }, { 0, 1, "*", 11488338719492863755ULL, 1596349752875589ULL }, { 0, 1, "*", 7523847949517556206ULL, 1211903801141611ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 14142837315966124941ULL, 681228951305476ULL }, { 9, 0, "", 11488338719492863755ULL, 1596349752875589ULL }, { 9, 0, "", 7523847949517556206ULL, 1211903801141611ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 14142837315966124941ULL, 681228951305476ULL }, { 0, 1, "*", 11488338719492863755ULL, 1596349752875589ULL }, { 0, 1, "*", 13091935734450590120ULL, 1209628479936574ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 2171277592294273101ULL, 678953630100439ULL }, { 9, 0, "", 11488338719492863755ULL, 1596349752875589ULL }, { 9, 0, "", 13091935734450590120ULL, 1209628479936574ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 2171277592294273101ULL, 678953630100439ULL }, { 0, 1, "*", 11488338719492863755ULL, 1596349752875589ULL }, { 0, 1, "*", 13091935734450590120ULL, 1209628479936574ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 2171277592294273101ULL, 678953630100439ULL }, { 9, 0, "", 11488338719492863755ULL, 1596349752875589ULL }, { 9, 0, "", 13091935734450590120ULL, 1209628479936574ULL }, { 0, 2, "M1", 3685682153308442720ULL, 796530095878637ULL }, { 0, 2, "M1", 2171277592294273101ULL, 678953630100439ULL } };
JOB2(prog5) { run(s, "p5_main", E5); }
static const Exp E6[] = { { 0, 1, "*", 6242610311056106880ULL, 4596256866772309ULL }, { 0, 1, "*", 6421390143139131458ULL, 4596256866772309ULL }, { 0, 1, "*", 517497491963774058ULL, 4344360445382870ULL }, { 0, 1, "*", 517497491963774058ULL, 4344360445382870ULL }, { 0, 1, "*", 6242610311057060192ULL, 4596256866772309ULL }, { 0, 1, "*", 6421390143140084770ULL, 4596256866772309ULL }, { 0, 1, "*", 517497491964727370ULL, 4344360445382870ULL }, { 0, 1, "*", 517497491964727370ULL, 4344360445382870ULL }, { 7, 0, "", 3707080137803291499ULL, 5059646497850120ULL }, { 7, 0, "", 4556845928962424297ULL, 5059646497850120ULL }, { 7, 0, "", 17037628302536581891ULL, 4807750076460681ULL }, { 7, 0, "", 17037628302536581891ULL, 4807750076460681ULL }, { 7, 0, "", 6417230755719186176ULL, 5059646497850120ULL }, { 7, 0, "", 7266996546878318974ULL, 5059646497850120ULL }, { 7, 0, "", 1016553881945727256ULL, 4807750076460681ULL }, { 7, 0, "", 1016553881945727256ULL, 4807750076460681ULL }, { 0, 1, "*", 15275908813887220157ULL, 1822110411169298ULL }, { 0, 1, "*", 15275830399416541755ULL, 1822110411169298ULL }, { 0, 1, "*", 472125454306546952ULL, 1570213989779859ULL }, { 0, 1, "*", 472125454306546952ULL, 1570213989779859ULL }, { 0, 1, "*", 15275908813887220157ULL, 1822110411169298ULL }, { 0, 1, "*", 15275830399416541755ULL, 1822110411169298ULL }, { 0, 1, "*", 472125454306546952ULL, 1570213989779859ULL }, { 0, 1, "*", 472125454306546952ULL, 1570213989779859ULL }, { 7, 0, "", 7392602008926634079ULL, 2285500042247109ULL }, { 7, 0, "", 2313542292251420253ULL, 2285500042247109ULL }, { 7, 0, "", 14839271699987993609ULL, 2033603620857670ULL }, { 7, 0, "", 14839271699987993609ULL, 2033603620857670ULL }, { 7, 0, "", 7392602008926634079ULL, 2285500042247109ULL }, { 7, 0, "", 2313542292251420253ULL, 2285500042247109ULL }, { 7, 0, "", 14839271699987993609ULL, 2033603620857670ULL }, { 7, 0, "", 14839271699987993609ULL, 2033603620857670ULL }, { 0, 1, "*", 6812250996596955872ULL, 4596256866772309ULL }, { 0, 1, "*", 17677012625683000866ULL, 4596256866772309ULL }, { 0, 1, "*", 517497491963774058ULL, 4344360445382870ULL }, { 0, 1, "*", 517497491963774058ULL, 4344360445382870ULL }, { 0, 1, "*", 6812250996597909184ULL, 4596256866772309ULL }, { 0, 1, "*", 17677012625683954178ULL, 4596256866772309ULL }, { 0, 1, "*", 517497491964727370ULL, 4344360445382870ULL }, { 0, 1, "*", 517497491964727370ULL, 4344360445382870ULL }, { 7, 0, "", 17949388414614716939ULL, 5059646497850120ULL }, { 7, 0, "", 12095686877996346377ULL, 5059646497850120ULL }, { 7, 0, "", 17037628302536581891ULL, 4807750076460681ULL }, { 7, 0, "", 17037628302536581891ULL, 4807750076460681ULL }, { 7, 0, "", 2212794958821060000ULL, 5059646497850120ULL }, { 7, 0, "", 14805837495912241054ULL, 5059646497850120ULL }, { 7, 0, "", 1016553881945727256ULL, 4807750076460681ULL }, { 7, 0, "", 1016553881945727256ULL, 4807750076460681ULL }, { 0, 1, "*", 15275908813887220157ULL, 1822110411169298ULL }, { 0, 1, "*", 15275830399416541755ULL, 1822110411169298ULL }, { 0, 1, "*", 472125454306546952ULL, 1570213989779859ULL }, { 0, 1, "*", 472125454306546952ULL, 1570213989779859ULL }, { 0, 1, "*", 15275908813887220157ULL, 1822110411169298ULL }, { 0, 1, "*", 15275830399416541755ULL, 1822110411169298ULL }, { 0, 1, "*", 472125454306546952ULL, 1570213989779859ULL }, { 0, 1, "*", 472125454306546952ULL, 1570213989779859ULL }, { 7, 0, "", 7392602008926634079ULL, 2285500042247109ULL }, { 7, 0, "", 2313542292251420253ULL, 2285500042247109ULL }, { 7, 0, "", 14839271699987993609ULL, 2033603620857670ULL }, { 7, 0, "", 14839271699987993609ULL, 2033603620857670ULL }, { 7, 0, "", 7392602008926634079ULL, 2285500042247109ULL }, { 7, 0, "", 2313542292251420253ULL, 2285500042247109ULL }, { 7, 0, "", 14839271699987993609ULL, 2033603620857670ULL }, { 7, 0, "", 14839271699987993609ULL, 2033603620857670ULL } };
JOB2(prog6) { run(s, "p6_main", E6); }
static const Exp E7[] = { { 7, 0, "", 11454546940798909075ULL, 1240144214425066ULL }, { 7, 0, "", 14560128879024954002ULL, 1240144214425066ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 7, 0, "", 11948807740610313931ULL, 1249896403096066ULL }, { 7, 0, "", 135413236692749914ULL, 1249896403096066ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 7, 0, "", 11454546940798909075ULL, 1240144214425066ULL }, { 7, 0, "", 14560128879024954002ULL, 1240144214425066ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 7, 0, "", 11948807740610313931ULL, 1249896403096066ULL }, { 7, 0, "", 135413236692749914ULL, 1249896403096066ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 7, 0, "", 16743333767571859774ULL, 1240144214425066ULL }, { 7, 0, "", 720607645009324039ULL, 1240144214425066ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 7, 0, "", 7593780250228132158ULL, 1249896403096066ULL }, { 7, 0, "", 13909261734101617415ULL, 1249896403096066ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 7, 0, "", 16743333767571859774ULL, 1240144214425066ULL }, { 7, 0, "", 720607645009324039ULL, 1240144214425066ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 7, 0, "", 7593780250228132158ULL, 1249896403096066ULL }, { 7, 0, "", 13909261734101617415ULL, 1249896403096066ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 7, 0, "", 16743333767543230623ULL, 1240144214425066ULL }, { 7, 0, "", 720606792118286598ULL, 1240144214425066ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 7, 0, "", 7593780250199503007ULL, 1249896403096066ULL }, { 7, 0, "", 13909260881210579974ULL, 1249896403096066ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 7, 0, "", 16743333767543230623ULL, 1240144214425066ULL }, { 7, 0, "", 720606792118286598ULL, 1240144214425066ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 7, 0, "", 7593780250199503007ULL, 1249896403096066ULL }, { 7, 0, "", 13909260881210579974ULL, 1249896403096066ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 7, 0, "", 16743333767543230623ULL, 1240144214425066ULL }, { 7, 0, "", 720606792118286598ULL, 1240144214425066ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 7, 0, "", 7593780250199503007ULL, 1249896403096066ULL }, { 7, 0, "", 13909260881210579974ULL, 1249896403096066ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 7, 0, "", 16743333767543230623ULL, 1240144214425066ULL }, { 7, 0, "", 720606792118286598ULL, 1240144214425066ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 0, 1, "*", 0ULL, 776872381623291ULL }, { 7, 0, "", 7593780250199503007ULL, 1249896403096066ULL }, { 7, 0, "", 13909260881210579974ULL, 1249896403096066ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL }, { 0, 1, "*", 0ULL, 786624570294291ULL } };
JOB2(prog7) { run(s, "p7_main", E7); }
static const Exp E8[] = { { 0, 1, "M10", 976143106293795490ULL, 1838813137278223ULL }, { 0, 1, "M10", 976143106293795490ULL, 1838813137278223ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 1, "M10", 8449360381957596978ULL, 1991531139934512ULL }, { 0, 1, "M10", 8449360381957596978ULL, 1991531139934512ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 1, "M10", 7203575664084841410ULL, 1838813137278223ULL }, { 0, 1, "M10", 7203575664084841410ULL, 1838813137278223ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 1, "M10", 4868749560075586002ULL, 1991531139934512ULL }, { 0, 1, "M10", 4868749560075586002ULL, 1991531139934512ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 2, "M6", 18320925910966580546ULL, 932461963112561ULL }, { 0, 2, "M6", 18320925910966580546ULL, 932461963112561ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 2, "M6", 4382943445885549330ULL, 1085179965768850ULL }, { 0, 2, "M6", 4382943445885549330ULL, 1085179965768850ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 2, "M6", 18320929350158784546ULL, 932461963112561ULL }, { 0, 2, "M6", 18320929350158784546ULL, 932461963112561ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 2, "M6", 7559003058051593330ULL, 1085179965768850ULL }, { 0, 2, "M6", 7559003058051593330ULL, 1085179965768850ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 1, "M10", 976143106293795490ULL, 1838813137278223ULL }, { 0, 1, "M10", 976143106293795490ULL, 1838813137278223ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 1, "M10", 8449360381957596978ULL, 1991531139934512ULL }, { 0, 1, "M10", 8449360381957596978ULL, 1991531139934512ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 1, "M10", 7203575664084841410ULL, 1838813137278223ULL }, { 0, 1, "M10", 7203575664084841410ULL, 1838813137278223ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 1, "M10", 4868749560075586002ULL, 1991531139934512ULL }, { 0, 1, "M10", 4868749560075586002ULL, 1991531139934512ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 1, "M10", 5032297050075945823ULL, 1075149924085265ULL }, { 0, 2, "M6", 18320925910966580546ULL, 932461963112561ULL }, { 0, 2, "M6", 18320925910966580546ULL, 932461963112561ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 2, "M6", 4382943445885549330ULL, 1085179965768850ULL }, { 0, 2, "M6", 4382943445885549330ULL, 1085179965768850ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 2, "M6", 18320929350158784546ULL, 932461963112561ULL }, { 0, 2, "M6", 18320929350158784546ULL, 932461963112561ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 2, "M6", 7559003058051593330ULL, 1085179965768850ULL }, { 0, 2, "M6", 7559003058051593330ULL, 1085179965768850ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL }, { 0, 2, "M6", 88662821ULL, 168798749919603ULL } };
JOB2(prog8) { run(s, "p8_main", E8); }
static const Exp E9[] = { { 7, 0, "", 1193931838577601345ULL, 1527875127573296ULL }, { 0, 1, "M6", 198167701965649926ULL, 1281003521614379ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 7, 0, "", 1193931838577601345ULL, 1527875127573296ULL }, { 0, 1, "M6", 198167701965649926ULL, 1281003521614379ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 7, 0, "", 1193931838577601345ULL, 1527875127573296ULL }, { 0, 1, "M6", 198167701965649926ULL, 1281003521614379ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 7, 0, "", 1193931838577601345ULL, 1527875127573296ULL }, { 0, 1, "M6", 198167701965649926ULL, 1281003521614379ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 7, 0, "", 1193931838577601345ULL, 1527875127573296ULL }, { 0, 1, "M6", 198167701965649926ULL, 1281003521614379ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 7, 0, "", 1193931838577601345ULL, 1527875127573296ULL }, { 0, 1, "M6", 198167701965649926ULL, 1281003521614379ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 7, 0, "", 1193931838577601345ULL, 1527875127573296ULL }, { 0, 1, "M6", 198167701965649926ULL, 1281003521614379ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 7, 0, "", 1193931838577601345ULL, 1527875127573296ULL }, { 0, 1, "M6", 198167701965649926ULL, 1281003521614379ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 7, 0, "", 15273396336990486965ULL, 1415625049393397ULL }, { 0, 1, "M6", 6139918460124717084ULL, 1168753443434480ULL }, { 7, 0, "", 14481632869017633664ULL, 1535916435155807ULL }, { 0, 1, "M6", 5715113186104179717ULL, 1289044829196890ULL }, { 7, 0, "", 15273396336990486965ULL, 1415625049393397ULL }, { 0, 1, "M6", 6139918460124717084ULL, 1168753443434480ULL }, { 7, 0, "", 14481632869017633664ULL, 1535916435155807ULL }, { 0, 1, "M6", 5715113186104179717ULL, 1289044829196890ULL }, { 7, 0, "", 5347299858762845062ULL, 1415625049393397ULL }, { 0, 1, "M6", 5870230978383859691ULL, 1168753443434480ULL }, { 7, 0, "", 17808111779168299673ULL, 1535916435155807ULL }, { 0, 1, "M6", 11148131848842515340ULL, 1289044829196890ULL }, { 7, 0, "", 5347299858762845062ULL, 1415625049393397ULL }, { 0, 1, "M6", 5870230978383859691ULL, 1168753443434480ULL }, { 7, 0, "", 17808111779168299673ULL, 1535916435155807ULL }, { 0, 1, "M6", 11148131848842515340ULL, 1289044829196890ULL }, { 7, 0, "", 15273396336990486965ULL, 1415625049393397ULL }, { 0, 1, "M6", 6139918460124717084ULL, 1168753443434480ULL }, { 7, 0, "", 14481632869017633664ULL, 1535916435155807ULL }, { 0, 1, "M6", 5715113186104179717ULL, 1289044829196890ULL }, { 7, 0, "", 15273396336990486965ULL, 1415625049393397ULL }, { 0, 1, "M6", 6139918460124717084ULL, 1168753443434480ULL }, { 7, 0, "", 14481632869017633664ULL, 1535916435155807ULL }, { 0, 1, "M6", 5715113186104179717ULL, 1289044829196890ULL }, { 7, 0, "", 5347299858762845062ULL, 1415625049393397ULL }, { 0, 1, "M6", 5870230978383859691ULL, 1168753443434480ULL }, { 7, 0, "", 17808111779168299673ULL, 1535916435155807ULL }, { 0, 1, "M6", 11148131848842515340ULL, 1289044829196890ULL }, { 7, 0, "", 5347299858762845062ULL, 1415625049393397ULL }, { 0, 1, "M6", 5870230978383859691ULL, 1168753443434480ULL }, { 7, 0, "", 17808111779168299673ULL, 1535916435155807ULL }, { 0, 1, "M6", 11148131848842515340ULL, 1289044829196890ULL } };
JOB2(prog9) { run(s, "p9_main", E9); }
static const Exp E10[] = { { 0, 1, "*", 4473162687943995211ULL, 2684834461051562ULL }, { 7, 0, "", 5719746660119685315ULL, 1716234940959509ULL }, { 0, 3, "M2", 547238632245907ULL, 787588019120806ULL }, { 0, 3, "M2", 547238632245907ULL, 787588019120806ULL }, { 0, 1, "*", 13126976669609662035ULL, 2474637929626862ULL }, { 7, 0, "", 1603560762977916731ULL, 1506038409534809ULL }, { 0, 3, "M2", 337042100821207ULL, 577391487696106ULL }, { 0, 3, "M2", 337042100821207ULL, 577391487696106ULL }, { 0, 1, "*", 4473162687943995211ULL, 2684834461051562ULL }, { 7, 0, "", 5719746660119685315ULL, 1716234940959509ULL }, { 0, 3, "M2", 547238632245907ULL, 787588019120806ULL }, { 0, 3, "M2", 547238632245907ULL, 787588019120806ULL }, { 0, 1, "*", 13126976669609662035ULL, 2474637929626862ULL }, { 7, 0, "", 1603560762977916731ULL, 1506038409534809ULL }, { 0, 3, "M2", 337042100821207ULL, 577391487696106ULL }, { 0, 3, "M2", 337042100821207ULL, 577391487696106ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 0, 1, "*", 4473162687943995211ULL, 2684834461051562ULL }, { 7, 0, "", 5719746660119685315ULL, 1716234940959509ULL }, { 0, 3, "M2", 547238632245907ULL, 787588019120806ULL }, { 0, 3, "M2", 547238632245907ULL, 787588019120806ULL }, { 0, 1, "*", 13126976669609662035ULL, 2474637929626862ULL }, { 7, 0, "", 1603560762977916731ULL, 1506038409534809ULL }, { 0, 3, "M2", 337042100821207ULL, 577391487696106ULL }, { 0, 3, "M2", 337042100821207ULL, 577391487696106ULL }, { 0, 1, "*", 4473162687943995211ULL, 2684834461051562ULL }, { 7, 0, "", 5719746660119685315ULL, 1716234940959509ULL }, { 0, 3, "M2", 547238632245907ULL, 787588019120806ULL }, { 0, 3, "M2", 547238632245907ULL, 787588019120806ULL }, { 0, 1, "*", 13126976669609662035ULL, 2474637929626862ULL }, { 7, 0, "", 1603560762977916731ULL, 1506038409534809ULL }, { 0, 3, "M2", 337042100821207ULL, 577391487696106ULL }, { 0, 3, "M2", 337042100821207ULL, 577391487696106ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 547238632245907ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 1, 0, "", 0ULL, 337042100821207ULL }, { 1, 0, "", 0ULL, 337042100821207ULL } };
JOB2(prog10) { run(s, "p10_main", E10); }
static const Exp E11[] = { { 0, 1, "*", 11839615606392551624ULL, 1458529196343337ULL }, { 8, 0, "", 1259970143041863080ULL, 1458529196343337ULL }, { 0, 1, "*", 11839615606392551624ULL, 1458529196343337ULL }, { 8, 0, "", 1259970143041863080ULL, 1458529196343337ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 2624345538554989953ULL, 1458529196343337ULL }, { 8, 0, "", 9020325980128216613ULL, 1458529196343337ULL }, { 0, 1, "*", 2624345538554989953ULL, 1458529196343337ULL }, { 8, 0, "", 9020325980128216613ULL, 1458529196343337ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 10492684186816349988ULL, 949640265052536ULL }, { 8, 0, "", 8687191068694122788ULL, 949640265052536ULL }, { 0, 1, "*", 10492684186816349988ULL, 949640265052536ULL }, { 8, 0, "", 8687191068694122788ULL, 949640265052536ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 13765754973087954763ULL, 949640265052536ULL }, { 8, 0, "", 10127637648839460103ULL, 949640265052536ULL }, { 0, 1, "*", 13765754973087954763ULL, 949640265052536ULL }, { 8, 0, "", 10127637648839460103ULL, 949640265052536ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 11839615606392551624ULL, 1458529196343337ULL }, { 8, 0, "", 1259970143041863080ULL, 1458529196343337ULL }, { 0, 1, "*", 11839615606392551624ULL, 1458529196343337ULL }, { 8, 0, "", 1259970143041863080ULL, 1458529196343337ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 2624345538554989953ULL, 1458529196343337ULL }, { 8, 0, "", 9020325980128216613ULL, 1458529196343337ULL }, { 0, 1, "*", 2624345538554989953ULL, 1458529196343337ULL }, { 8, 0, "", 9020325980128216613ULL, 1458529196343337ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 10492684186816349988ULL, 949640265052536ULL }, { 8, 0, "", 8687191068694122788ULL, 949640265052536ULL }, { 0, 1, "*", 10492684186816349988ULL, 949640265052536ULL }, { 8, 0, "", 8687191068694122788ULL, 949640265052536ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 13765754973087954763ULL, 949640265052536ULL }, { 8, 0, "", 10127637648839460103ULL, 949640265052536ULL }, { 0, 1, "*", 13765754973087954763ULL, 949640265052536ULL }, { 8, 0, "", 10127637648839460103ULL, 949640265052536ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL }, { 0, 1, "*", 7661156677059311645ULL, 316342005079074ULL }, { 8, 0, "", 1006120422024759069ULL, 316342005079074ULL } };
JOB2(prog11) { run(s, "p11_main", E11); }
static const Exp E12[] = { { 7, 0, "", 478097334188506273ULL, 1131700929286012ULL }, { 7, 0, "", 11585053655540551ULL, 661900042538395ULL }, { 0, 1, "Error", 15395661302427575ULL, 998104271926041ULL }, { 0, 1, "Error", 362032926743120ULL, 528303385178424ULL }, { 7, 0, "", 478097334188506273ULL, 1131700929286012ULL }, { 7, 0, "", 11585053655540551ULL, 661900042538395ULL }, { 0, 1, "Error", 15395661302427575ULL, 998104271926041ULL }, { 0, 1, "Error", 362032926743120ULL, 528303385178424ULL }, { 7, 0, "", 478097334188506273ULL, 1131700929286012ULL }, { 7, 0, "", 11585053655540551ULL, 661900042538395ULL }, { 0, 1, "Error", 15395661302427575ULL, 998104271926041ULL }, { 0, 1, "Error", 362032926743120ULL, 528303385178424ULL }, { 7, 0, "", 478097334188506273ULL, 1131700929286012ULL }, { 7, 0, "", 11585053655540551ULL, 661900042538395ULL }, { 0, 1, "Error", 15395661302427575ULL, 998104271926041ULL }, { 0, 1, "Error", 362032926743120ULL, 528303385178424ULL }, { 7, 0, "", 260821917942777596ULL, 949095731277109ULL }, { 7, 0, "", 260821917942777596ULL, 949095731277109ULL }, { 0, 1, "Error", 8392667397662421ULL, 815499073917138ULL }, { 0, 1, "Error", 8392667397662421ULL, 815499073917138ULL }, { 7, 0, "", 15891703874501548511ULL, 1178367726685496ULL }, { 7, 0, "", 15891703874501548511ULL, 1178367726685496ULL }, { 0, 1, "Error", 14198901260297115637ULL, 1044771069325525ULL }, { 0, 1, "Error", 14198901260297115637ULL, 1044771069325525ULL }, { 7, 0, "", 260821917942777596ULL, 949095731277109ULL }, { 7, 0, "", 260821917942777596ULL, 949095731277109ULL }, { 0, 1, "Error", 8392667397662421ULL, 815499073917138ULL }, { 0, 1, "Error", 8392667397662421ULL, 815499073917138ULL }, { 7, 0, "", 15891703874501548511ULL, 1178367726685496ULL }, { 7, 0, "", 15891703874501548511ULL, 1178367726685496ULL }, { 0, 1, "Error", 14198901260297115637ULL, 1044771069325525ULL }, { 0, 1, "Error", 14198901260297115637ULL, 1044771069325525ULL }, { 7, 0, "", 478097334188506273ULL, 1131700929286012ULL }, { 7, 0, "", 11585053655540551ULL, 661900042538395ULL }, { 0, 1, "Error", 15395661302427575ULL, 998104271926041ULL }, { 0, 1, "Error", 362032926743120ULL, 528303385178424ULL }, { 7, 0, "", 478097334188506273ULL, 1131700929286012ULL }, { 7, 0, "", 11585053655540551ULL, 661900042538395ULL }, { 0, 1, "Error", 15395661302427575ULL, 998104271926041ULL }, { 0, 1, "Error", 362032926743120ULL, 528303385178424ULL }, { 7, 0, "", 478097334188506273ULL, 1131700929286012ULL }, { 7, 0, "", 11585053655540551ULL, 661900042538395ULL }, { 0, 1, "Error", 15395661302427575ULL, 998104271926041ULL }, { 0, 1, "Error", 362032926743120ULL, 528303385178424ULL }, { 7, 0, "", 478097334188506273ULL, 1131700929286012ULL }, { 7, 0, "", 11585053655540551ULL, 661900042538395ULL }, { 0, 1, "Error", 15395661302427575ULL, 998104271926041ULL }, { 0, 1, "Error", 362032926743120ULL, 528303385178424ULL }, { 7, 0, "", 260821917942777596ULL, 949095731277109ULL }, { 7, 0, "", 260821917942777596ULL, 949095731277109ULL }, { 0, 1, "Error", 8392667397662421ULL, 815499073917138ULL }, { 0, 1, "Error", 8392667397662421ULL, 815499073917138ULL }, { 7, 0, "", 15891703874501548511ULL, 1178367726685496ULL }, { 7, 0, "", 15891703874501548511ULL, 1178367726685496ULL }, { 0, 1, "Error", 14198901260297115637ULL, 1044771069325525ULL }, { 0, 1, "Error", 14198901260297115637ULL, 1044771069325525ULL }, { 7, 0, "", 260821917942777596ULL, 949095731277109ULL }, { 7, 0, "", 260821917942777596ULL, 949095731277109ULL }, { 0, 1, "Error", 8392667397662421ULL, 815499073917138ULL }, { 0, 1, "Error", 8392667397662421ULL, 815499073917138ULL }, { 7, 0, "", 15891703874501548511ULL, 1178367726685496ULL }, { 7, 0, "", 15891703874501548511ULL, 1178367726685496ULL }, { 0, 1, "Error", 14198901260297115637ULL, 1044771069325525ULL }, { 0, 1, "Error", 14198901260297115637ULL, 1044771069325525ULL } };
JOB2(prog12) { run(s, "p12_main", E12); }
static const Exp E13[] = { { 7, 0, "", 1650939623633858566ULL, 3272132939041002ULL }, { 7, 0, "", 12587037035458252102ULL, 3636128634859917ULL }, { 7, 0, "", 1650939623633858566ULL, 3272132939041002ULL }, { 7, 0, "", 12587037035458252102ULL, 3636128634859917ULL }, { 7, 0, "", 256596781541228842ULL, 2435481590247458ULL }, { 7, 0, "", 7137452000145224912ULL, 2799477286066373ULL }, { 7, 0, "", 256596781541228842ULL, 2435481590247458ULL }, { 7, 0, "", 7137452000145224912ULL, 2799477286066373ULL }, { 7, 0, "", 16725606749406066601ULL, 1928860891452080ULL }, { 7, 0, "", 8721552698825560745ULL, 2292856587270995ULL }, { 7, 0, "", 16725606749406066601ULL, 1928860891452080ULL }, { 7, 0, "", 8721552698825560745ULL, 2292856587270995ULL }, { 7, 0, "", 256596781541228842ULL, 2435481590247458ULL }, { 7, 0, "", 7137452000145224912ULL, 2799477286066373ULL }, { 7, 0, "", 256596781541228842ULL, 2435481590247458ULL }, { 7, 0, "", 7137452000145224912ULL, 2799477286066373ULL }, { 7, 0, "", 1650939623633858566ULL, 3272132939041002ULL }, { 7, 0, "", 12587037035458252102ULL, 3636128634859917ULL }, { 7, 0, "", 1650939623633858566ULL, 3272132939041002ULL }, { 7, 0, "", 12587037035458252102ULL, 3636128634859917ULL }, { 7, 0, "", 256596781541228842ULL, 2435481590247458ULL }, { 7, 0, "", 7137452000145224912ULL, 2799477286066373ULL }, { 7, 0, "", 256596781541228842ULL, 2435481590247458ULL }, { 7, 0, "", 7137452000145224912ULL, 2799477286066373ULL }, { 7, 0, "", 16725606749406066601ULL, 1928860891452080ULL }, { 7, 0, "", 8721552698825560745ULL, 2292856587270995ULL }, { 7, 0, "", 16725606749406066601ULL, 1928860891452080ULL }, { 7, 0, "", 8721552698825560745ULL, 2292856587270995ULL }, { 7, 0, "", 256596781541228842ULL, 2435481590247458ULL }, { 7, 0, "", 7137452000145224912ULL, 2799477286066373ULL }, { 7, 0, "", 256596781541228842ULL, 2435481590247458ULL }, { 7, 0, "", 7137452000145224912ULL, 2799477286066373ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 363995695818915ULL } };
JOB2(prog13) { run(s, "p13_main", E13); }
static const Exp E14[] = { { 7, 0, "", 299670835974771562ULL, 405029954261511ULL }, { 7, 0, "", 299670830455095082ULL, 405029954261511ULL }, { 0, 1, "*", 0ULL, 43840178095359ULL }, { 0, 1, "*", 0ULL, 43840178095359ULL }, { 7, 0, "", 299670835974771562ULL, 405029954261511ULL }, { 7, 0, "", 299670830455095082ULL, 405029954261511ULL }, { 0, 1, "*", 0ULL, 43840178095359ULL }, { 0, 1, "*", 0ULL, 43840178095359ULL }, { 7, 0, "", 299670835974771562ULL, 405029954261511ULL }, { 7, 0, "", 299670830455095082ULL, 405029954261511ULL }, { 0, 1, "*", 0ULL, 43840178095359ULL }, { 0, 1, "*", 0ULL, 43840178095359ULL }, { 7, 0, "", 299670835974771562ULL, 405029954261511ULL }, { 7, 0, "", 299670830455095082ULL, 405029954261511ULL }, { 0, 1, "*", 0ULL, 43840178095359ULL }, { 0, 1, "*", 0ULL, 43840178095359ULL }, { 7, 0, "", 9387279434229494158ULL, 666254528736660ULL }, { 8, 0, "", 1438707313238410378ULL, 616897042320087ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 7, 0, "", 9387279434229494158ULL, 666254528736660ULL }, { 8, 0, "", 1438707313238410378ULL, 616897042320087ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 7, 0, "", 9387279434229494158ULL, 666254528736660ULL }, { 8, 0, "", 1438707313238410378ULL, 616897042320087ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 7, 0, "", 9387279434229494158ULL, 666254528736660ULL }, { 8, 0, "", 1438707313238410378ULL, 616897042320087ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 7, 0, "", 299676008346224430ULL, 405029954261511ULL }, { 7, 0, "", 299670835837375470ULL, 405029954261511ULL }, { 0, 1, "*", 188ULL, 43840178095359ULL }, { 0, 1, "*", 188ULL, 43840178095359ULL }, { 7, 0, "", 299676008346224430ULL, 405029954261511ULL }, { 7, 0, "", 299670835837375470ULL, 405029954261511ULL }, { 0, 1, "*", 188ULL, 43840178095359ULL }, { 0, 1, "*", 188ULL, 43840178095359ULL }, { 7, 0, "", 299676008346224430ULL, 405029954261511ULL }, { 7, 0, "", 299670835837375470ULL, 405029954261511ULL }, { 0, 1, "*", 188ULL, 43840178095359ULL }, { 0, 1, "*", 188ULL, 43840178095359ULL }, { 7, 0, "", 299676008346224430ULL, 405029954261511ULL }, { 7, 0, "", 299670835837375470ULL, 405029954261511ULL }, { 0, 1, "*", 188ULL, 43840178095359ULL }, { 0, 1, "*", 188ULL, 43840178095359ULL }, { 7, 0, "", 9387284606600947026ULL, 666254528736660ULL }, { 8, 0, "", 1438707313238591046ULL, 616897042320087ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 7, 0, "", 9387284606600947026ULL, 666254528736660ULL }, { 8, 0, "", 1438707313238591046ULL, 616897042320087ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 7, 0, "", 9387284606600947026ULL, 666254528736660ULL }, { 8, 0, "", 1438707313238591046ULL, 616897042320087ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 7, 0, "", 9387284606600947026ULL, 666254528736660ULL }, { 8, 0, "", 1438707313238591046ULL, 616897042320087ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL }, { 0, 1, "*", 1ULL, 305064752570508ULL } };
JOB2(prog14) { run(s, "p14_main", E14); }
static const Exp E15[] = { { 0, 1, "*", 6389146988885102751ULL, 901894224010191ULL }, { 0, 1, "*", 787662783794090919ULL, 435322336085158ULL }, { 9, 0, "", 801593098548815943ULL, 435322336085158ULL }, { 0, 1, "*", 787662783794090919ULL, 435322336085158ULL }, { 0, 1, "M4", 1ULL, 406723767040045ULL }, { 0, 1, "M4", 1ULL, 406723767040045ULL }, { 0, 1, "M4", 1ULL, 406723767040045ULL }, { 0, 1, "M4", 1ULL, 406723767040045ULL }, { 0, 1, "*", 6389146988885102751ULL, 901894224010191ULL }, { 0, 1, "*", 787662783794090919ULL, 435322336085158ULL }, { 9, 0, "", 801593098548815943ULL, 435322336085158ULL }, { 0, 1, "*", 787662783794090919ULL, 435322336085158ULL }, { 0, 1, "M4", 1ULL, 406723767040045ULL }, { 0, 1, "M4", 1ULL, 406723767040045ULL }, { 0, 1, "M4", 1ULL, 406723767040045ULL }, { 0, 1, "M4", 1ULL, 406723767040045ULL }, { 0, 1, "*", 418344766037115457ULL, 901894224010191ULL }, { 0, 1, "*", 34170309ULL, 435322336085158ULL }, { 9, 0, "", 13930314788895333ULL, 435322336085158ULL }, { 0, 1, "*", 34170309ULL, 435322336085158ULL }, { 0, 1, "*", 418344766037115457ULL, 901894224010191ULL }, { 0, 1, "*", 34170309ULL, 435322336085158ULL }, { 9, 0, "", 13930314788895333ULL, 435322336085158ULL }, { 0, 1, "*", 34170309ULL, 435322336085158ULL }, { 0, 1, "*", 418344766037115457ULL, 901894224010191ULL }, { 0, 1, "*", 34170309ULL, 435322336085158ULL }, { 9, 0, "", 13930314788895333ULL, 435322336085158ULL }, { 0, 1, "*", 34170309ULL, 435322336085158ULL }, { 0, 1, "*", 418344766037115457ULL, 901894224010191ULL }, { 0, 1, "*", 34170309ULL, 435322336085158ULL }, { 9, 0, "", 13930314788895333ULL, 435322336085158ULL }, { 0, 1, "*", 34170309ULL, 435322336085158ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL }, { 2, 0, "", 1ULL, 406723767040045ULL } };
JOB2(prog15) { run(s, "p15_main", E15); }
static const Exp E16[] = { { 0, 1, "M10", 5418100238266847817ULL, 4638406648006615ULL }, { 0, 1, "M10", 6720396291905545664ULL, 4808572924474151ULL }, { 0, 1, "M10", 5418100238266847817ULL, 4638406648006615ULL }, { 0, 1, "M10", 6720396291905545664ULL, 4808572924474151ULL }, { 7, 0, "", 9045293185038537989ULL, 6349783792924987ULL }, { 7, 0, "", 9045293185038537989ULL, 6349783792924987ULL }, { 7, 0, "", 9045293185038537989ULL, 6349783792924987ULL }, { 7, 0, "", 9045293185038537989ULL, 6349783792924987ULL }, { 0, 1, "M10", 5418100238266847817ULL, 4638406648006615ULL }, { 0, 1, "M10", 6720396291905545664ULL, 4808572924474151ULL }, { 0, 1, "M10", 5418100238266847817ULL, 4638406648006615ULL }, { 0, 1, "M10", 6720396291905545664ULL, 4808572924474151ULL }, { 7, 0, "", 9045293185038537989ULL, 6349783792924987ULL }, { 7, 0, "", 9045293185038537989ULL, 6349783792924987ULL }, { 7, 0, "", 9045293185038537989ULL, 6349783792924987ULL }, { 7, 0, "", 9045293185038537989ULL, 6349783792924987ULL }, { 0, 1, "M10", 5418100238266847817ULL, 4638406648006615ULL }, { 0, 1, "M10", 6720396291905545664ULL, 4808572924474151ULL }, { 0, 1, "M10", 5418100238266847817ULL, 4638406648006615ULL }, { 0, 1, "M10", 6720396291905545664ULL, 4808572924474151ULL }, { 0, 1, "*", 9045293185038537989ULL, 6349783792924987ULL }, { 0, 1, "*", 9045293185038537989ULL, 6349783792924987ULL }, { 0, 1, "*", 9045293185038537989ULL, 6349783792924987ULL }, { 0, 1, "*", 9045293185038537989ULL, 6349783792924987ULL }, { 0, 1, "M10", 5418100238266847817ULL, 4638406648006615ULL }, { 0, 1, "M10", 6720396291905545664ULL, 4808572924474151ULL }, { 0, 1, "M10", 5418100238266847817ULL, 4638406648006615ULL }, { 0, 1, "M10", 6720396291905545664ULL, 4808572924474151ULL }, { 0, 1, "*", 9045293185038537989ULL, 6349783792924987ULL }, { 0, 1, "*", 9045293185038537989ULL, 6349783792924987ULL }, { 0, 1, "*", 9045293185038537989ULL, 6349783792924987ULL }, { 0, 1, "*", 9045293185038537989ULL, 6349783792924987ULL }, { 0, 1, "M10", 14878536007975000646ULL, 4358918412777634ULL }, { 0, 1, "M10", 12976134243737922083ULL, 4529084689245170ULL }, { 0, 1, "M10", 14878536007975000646ULL, 4358918412777634ULL }, { 0, 1, "M10", 12976134243737922083ULL, 4529084689245170ULL }, { 7, 0, "", 7010715137230154003ULL, 6070295557696006ULL }, { 7, 0, "", 7010715137230154003ULL, 6070295557696006ULL }, { 7, 0, "", 7010715137230154003ULL, 6070295557696006ULL }, { 7, 0, "", 7010715137230154003ULL, 6070295557696006ULL }, { 0, 1, "M10", 14878536007975000646ULL, 4358918412777634ULL }, { 0, 1, "M10", 12976134243737922083ULL, 4529084689245170ULL }, { 0, 1, "M10", 14878536007975000646ULL, 4358918412777634ULL }, { 0, 1, "M10", 12976134243737922083ULL, 4529084689245170ULL }, { 7, 0, "", 7010715137230154003ULL, 6070295557696006ULL }, { 7, 0, "", 7010715137230154003ULL, 6070295557696006ULL }, { 7, 0, "", 7010715137230154003ULL, 6070295557696006ULL }, { 7, 0, "", 7010715137230154003ULL, 6070295557696006ULL }, { 0, 1, "M10", 14878536007975000646ULL, 4358918412777634ULL }, { 0, 1, "M10", 12976134243737922083ULL, 4529084689245170ULL }, { 0, 1, "M10", 14878536007975000646ULL, 4358918412777634ULL }, { 0, 1, "M10", 12976134243737922083ULL, 4529084689245170ULL }, { 0, 1, "*", 7010715137230154003ULL, 6070295557696006ULL }, { 0, 1, "*", 7010715137230154003ULL, 6070295557696006ULL }, { 0, 1, "*", 7010715137230154003ULL, 6070295557696006ULL }, { 0, 1, "*", 7010715137230154003ULL, 6070295557696006ULL }, { 0, 1, "M10", 14878536007975000646ULL, 4358918412777634ULL }, { 0, 1, "M10", 12976134243737922083ULL, 4529084689245170ULL }, { 0, 1, "M10", 14878536007975000646ULL, 4358918412777634ULL }, { 0, 1, "M10", 12976134243737922083ULL, 4529084689245170ULL }, { 0, 1, "*", 7010715137230154003ULL, 6070295557696006ULL }, { 0, 1, "*", 7010715137230154003ULL, 6070295557696006ULL }, { 0, 1, "*", 7010715137230154003ULL, 6070295557696006ULL }, { 0, 1, "*", 7010715137230154003ULL, 6070295557696006ULL } };
JOB2(prog16) { run(s, "p16_main", E16); }
static const Exp E17[] = { { 0, 2, "M9", 6356696331842124883ULL, 745271911628284ULL }, { 0, 2, "M9", 1173690795788061906ULL, 745271911628284ULL }, { 0, 2, "M9", 1173584184408381781ULL, 745271911628284ULL }, { 0, 2, "M9", 1173690795788061906ULL, 745271911628284ULL }, { 0, 1, "Error", 6356696331842124883ULL, 745271911628284ULL }, { 0, 1, "Error", 1173690795788061906ULL, 745271911628284ULL }, { 0, 1, "Error", 1173584184408381781ULL, 745271911628284ULL }, { 0, 1, "Error", 1173690795788061906ULL, 745271911628284ULL }, { 0, 2, "M9", 6356696331842124883ULL, 745271911628284ULL }, { 0, 2, "M9", 1173690795788061906ULL, 745271911628284ULL }, { 0, 2, "M9", 1173584184408381781ULL, 745271911628284ULL }, { 0, 2, "M9", 1173690795788061906ULL, 745271911628284ULL }, { 0, 1, "Error", 6356696331842124883ULL, 745271911628284ULL }, { 0, 1, "Error", 1173690795788061906ULL, 745271911628284ULL }, { 0, 1, "Error", 1173584184408381781ULL, 745271911628284ULL }, { 0, 1, "Error", 1173690795788061906ULL, 745271911628284ULL }, { 0, 1, "M6", 27512614111ULL, 417159554385262ULL }, { 0, 1, "M6", 887654558ULL, 417159554385262ULL }, { 0, 1, "M6", 887534433ULL, 417159554385262ULL }, { 0, 1, "M6", 887654558ULL, 417159554385262ULL }, { 0, 1, "M6", 27512614111ULL, 417159554385262ULL }, { 0, 1, "M6", 887654558ULL, 417159554385262ULL }, { 0, 1, "M6", 887534433ULL, 417159554385262ULL }, { 0, 1, "M6", 887654558ULL, 417159554385262ULL }, { 0, 1, "M6", 27512614111ULL, 417159554385262ULL }, { 0, 1, "M6", 887654558ULL, 417159554385262ULL }, { 0, 1, "M6", 887534433ULL, 417159554385262ULL }, { 0, 1, "M6", 887654558ULL, 417159554385262ULL }, { 0, 1, "M6", 27512614111ULL, 417159554385262ULL }, { 0, 1, "M6", 887654558ULL, 417159554385262ULL }, { 0, 1, "M6", 887534433ULL, 417159554385262ULL }, { 0, 1, "M6", 887654558ULL, 417159554385262ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 2, "M9", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL }, { 0, 1, "Error", 1173609771139445429ULL, 745271911628284ULL } };
JOB2(prog17) { run(s, "p17_main", E17); }
static const Exp E18[] = { { 7, 0, "", 10390381552812245289ULL, 1607095742538166ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 6464800978405973898ULL, 1607095742538166ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 10390381552812245289ULL, 1476843593995081ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 6464800978405973898ULL, 1476843593995081ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 4238376788250080979ULL, 2132591118323095ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 4016021859694321386ULL, 2572774797717154ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 4238376788250080979ULL, 2002338969780010ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 4016021859694321386ULL, 2442522649174069ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 10390381552812245289ULL, 1607095742538166ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 6464800978405973898ULL, 1607095742538166ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 10390381552812245289ULL, 1476843593995081ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 6464800978405973898ULL, 1476843593995081ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 4238376788250080979ULL, 2132591118323095ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 4016021859694321386ULL, 2572774797717154ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 4238376788250080979ULL, 2002338969780010ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 4016021859694321386ULL, 2442522649174069ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 9489257997712823993ULL, 1607095742538166ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 9489257997712823993ULL, 1607095742538166ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 9489257997712823993ULL, 1476843593995081ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 9489257997712823993ULL, 1476843593995081ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 11393954231668913060ULL, 2132591118323095ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 183228107243693957ULL, 2572774797717154ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 11393954231668913060ULL, 2002338969780010ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 183228107243693957ULL, 2442522649174069ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 9489257997712823993ULL, 1607095742538166ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 9489257997712823993ULL, 1607095742538166ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 9489257997712823993ULL, 1476843593995081ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 9489257997712823993ULL, 1476843593995081ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 11393954231668913060ULL, 2132591118323095ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 7, 0, "", 183228107243693957ULL, 2572774797717154ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 11393954231668913060ULL, 2002338969780010ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL }, { 0, 1, "M13", 183228107243693957ULL, 2442522649174069ULL }, { 0, 2, "M4", 193293561026277ULL, 407955586574467ULL } };
JOB2(prog18) { run(s, "p18_main", E18); }
static const Exp E19[] = { { 7, 0, "", 10561895414552171303ULL, 827205706265531ULL }, { 0, 1, "*", 2457936751667064067ULL, 827205706265531ULL }, { 7, 0, "", 10561895414552171303ULL, 827205706265531ULL }, { 0, 1, "*", 2457936751667064067ULL, 827205706265531ULL }, { 7, 0, "", 9122108034758640177ULL, 827205706265531ULL }, { 0, 1, "*", 1515305034452316429ULL, 827205706265531ULL }, { 7, 0, "", 9122108034758640177ULL, 827205706265531ULL }, { 0, 1, "*", 1515305034452316429ULL, 827205706265531ULL }, { 7, 0, "", 10561895414552171303ULL, 827205706265531ULL }, { 0, 1, "*", 2457936751667064067ULL, 827205706265531ULL }, { 7, 0, "", 10561895414552171303ULL, 827205706265531ULL }, { 0, 1, "*", 2457936751667064067ULL, 827205706265531ULL }, { 7, 0, "", 9122108034758640177ULL, 827205706265531ULL }, { 0, 1, "*", 1515305034452316429ULL, 827205706265531ULL }, { 7, 0, "", 9122108034758640177ULL, 827205706265531ULL }, { 0, 1, "*", 1515305034452316429ULL, 827205706265531ULL }, { 7, 0, "", 10561895414552171303ULL, 827205706265531ULL }, { 0, 1, "*", 2457936751667064067ULL, 827205706265531ULL }, { 7, 0, "", 10561895414552171303ULL, 827205706265531ULL }, { 0, 1, "*", 2457936751667064067ULL, 827205706265531ULL }, { 7, 0, "", 9122108034758640177ULL, 827205706265531ULL }, { 0, 1, "*", 1515305034452316429ULL, 827205706265531ULL }, { 7, 0, "", 9122108034758640177ULL, 827205706265531ULL }, { 0, 1, "*", 1515305034452316429ULL, 827205706265531ULL }, { 7, 0, "", 10561895414552171303ULL, 827205706265531ULL }, { 0, 1, "*", 2457936751667064067ULL, 827205706265531ULL }, { 7, 0, "", 10561895414552171303ULL, 827205706265531ULL }, { 0, 1, "*", 2457936751667064067ULL, 827205706265531ULL }, { 7, 0, "", 9122108034758640177ULL, 827205706265531ULL }, { 0, 1, "*", 1515305034452316429ULL, 827205706265531ULL }, { 7, 0, "", 9122108034758640177ULL, 827205706265531ULL }, { 0, 1, "*", 1515305034452316429ULL, 827205706265531ULL }, { 7, 0, "", 4368200784029017962ULL, 827205706265531ULL }, { 0, 1, "*", 14481917563257035462ULL, 827205706265531ULL }, { 7, 0, "", 4368200784029017962ULL, 827205706265531ULL }, { 0, 1, "*", 14481917563257035462ULL, 827205706265531ULL }, { 7, 0, "", 16817937499129245472ULL, 827205706265531ULL }, { 0, 1, "*", 15641622609392659836ULL, 827205706265531ULL }, { 7, 0, "", 16817937499129245472ULL, 827205706265531ULL }, { 0, 1, "*", 15641622609392659836ULL, 827205706265531ULL }, { 7, 0, "", 4368200784029017962ULL, 827205706265531ULL }, { 0, 1, "*", 14481917563257035462ULL, 827205706265531ULL }, { 7, 0, "", 4368200784029017962ULL, 827205706265531ULL }, { 0, 1, "*", 14481917563257035462ULL, 827205706265531ULL }, { 7, 0, "", 16817937499129245472ULL, 827205706265531ULL }, { 0, 1, "*", 15641622609392659836ULL, 827205706265531ULL }, { 7, 0, "", 16817937499129245472ULL, 827205706265531ULL }, { 0, 1, "*", 15641622609392659836ULL, 827205706265531ULL }, { 7, 0, "", 4368200784029017962ULL, 827205706265531ULL }, { 0, 1, "*", 14481917563257035462ULL, 827205706265531ULL }, { 7, 0, "", 4368200784029017962ULL, 827205706265531ULL }, { 0, 1, "*", 14481917563257035462ULL, 827205706265531ULL }, { 7, 0, "", 16817937499129245472ULL, 827205706265531ULL }, { 0, 1, "*", 15641622609392659836ULL, 827205706265531ULL }, { 7, 0, "", 16817937499129245472ULL, 827205706265531ULL }, { 0, 1, "*", 15641622609392659836ULL, 827205706265531ULL }, { 7, 0, "", 4368200784029017962ULL, 827205706265531ULL }, { 0, 1, "*", 14481917563257035462ULL, 827205706265531ULL }, { 7, 0, "", 4368200784029017962ULL, 827205706265531ULL }, { 0, 1, "*", 14481917563257035462ULL, 827205706265531ULL }, { 7, 0, "", 16817937499129245472ULL, 827205706265531ULL }, { 0, 1, "*", 15641622609392659836ULL, 827205706265531ULL }, { 7, 0, "", 16817937499129245472ULL, 827205706265531ULL }, { 0, 1, "*", 15641622609392659836ULL, 827205706265531ULL } };
JOB2(prog19) { run(s, "p19_main", E19); }
static const Exp E20[] = { { 0, 1, "*", 18244498033185084389ULL, 1072513634367305ULL }, { 0, 1, "*", 11083449235357855248ULL, 1348804612149598ULL }, { 0, 1, "*", 18244498033185084389ULL, 1072513634367305ULL }, { 0, 1, "*", 18168251466992038060ULL, 693356472050357ULL }, { 0, 1, "*", 18244498033185084389ULL, 1072513634367305ULL }, { 0, 1, "*", 11083449235357855248ULL, 1348804612149598ULL }, { 0, 1, "*", 18244498033185084389ULL, 1072513634367305ULL }, { 0, 1, "*", 18168251466992038060ULL, 693356472050357ULL }, { 0, 1, "*", 2186153373923313321ULL, 1072513634367305ULL }, { 0, 1, "*", 492277305981009876ULL, 1348804612149598ULL }, { 0, 1, "*", 2186153373923313321ULL, 1072513634367305ULL }, { 0, 1, "*", 18168251467078849128ULL, 693356472050357ULL }, { 0, 1, "*", 2186153373923313321ULL, 1072513634367305ULL }, { 0, 1, "*", 492277305981009876ULL, 1348804612149598ULL }, { 0, 1, "*", 2186153373923313321ULL, 1072513634367305ULL }, { 0, 1, "*", 18168251467078849128ULL, 693356472050357ULL }, { 0, 1, "*", 18244498033185084389ULL, 1072513634367305ULL }, { 0, 1, "*", 11083449235357855248ULL, 1348804612149598ULL }, { 0, 1, "*", 18244498033185084389ULL, 1072513634367305ULL }, { 0, 1, "*", 18168251466992038060ULL, 693356472050357ULL }, { 0, 1, "*", 18244498033185084389ULL, 1072513634367305ULL }, { 0, 1, "*", 11083449235357855248ULL, 1348804612149598ULL }, { 0, 1, "*", 18244498033185084389ULL, 1072513634367305ULL }, { 0, 1, "*", 18168251466992038060ULL, 693356472050357ULL }, { 0, 1, "*", 2186153373923313321ULL, 1072513634367305ULL }, { 0, 1, "*", 492277305981009876ULL, 1348804612149598ULL }, { 0, 1, "*", 2186153373923313321ULL, 1072513634367305ULL }, { 0, 1, "*", 18168251467078849128ULL, 693356472050357ULL }, { 0, 1, "*", 2186153373923313321ULL, 1072513634367305ULL }, { 0, 1, "*", 492277305981009876ULL, 1348804612149598ULL }, { 0, 1, "*", 2186153373923313321ULL, 1072513634367305ULL }, { 0, 1, "*", 18168251467078849128ULL, 693356472050357ULL }, { 6, 0, "", 4875315418165799897ULL, 911315587215528ULL }, { 6, 0, "", 392931755381539897ULL, 1187606564997821ULL }, { 6, 0, "", 4875315418165799897ULL, 911315587215528ULL }, { 6, 0, "", 392931755381539897ULL, 1187606564997821ULL }, { 6, 0, "", 4875315418165799897ULL, 911315587215528ULL }, { 0, 2, "M3", 9813890330960899444ULL, 693356472050357ULL }, { 6, 0, "", 4875315418165799897ULL, 911315587215528ULL }, { 0, 2, "M3", 9813890330960899444ULL, 693356472050357ULL }, { 6, 0, "", 4875318004354326685ULL, 911315587215528ULL }, { 6, 0, "", 395417082555783165ULL, 1187606564997821ULL }, { 6, 0, "", 4875318004354326685ULL, 911315587215528ULL }, { 6, 0, "", 395417082555783165ULL, 1187606564997821ULL }, { 6, 0, "", 4875318004354326685ULL, 911315587215528ULL }, { 0, 2, "M3", 9813890333652042552ULL, 693356472050357ULL }, { 6, 0, "", 4875318004354326685ULL, 911315587215528ULL }, { 0, 2, "M3", 9813890333652042552ULL, 693356472050357ULL }, { 6, 0, "", 4875315418165799897ULL, 911315587215528ULL }, { 6, 0, "", 392931755381539897ULL, 1187606564997821ULL }, { 6, 0, "", 4875315418165799897ULL, 911315587215528ULL }, { 6, 0, "", 392931755381539897ULL, 1187606564997821ULL }, { 6, 0, "", 4875315418165799897ULL, 911315587215528ULL }, { 0, 2, "M3", 9813890330960899444ULL, 693356472050357ULL }, { 6, 0, "", 4875315418165799897ULL, 911315587215528ULL }, { 0, 2, "M3", 9813890330960899444ULL, 693356472050357ULL }, { 6, 0, "", 4875318004354326685ULL, 911315587215528ULL }, { 6, 0, "", 395417082555783165ULL, 1187606564997821ULL }, { 6, 0, "", 4875318004354326685ULL, 911315587215528ULL }, { 6, 0, "", 395417082555783165ULL, 1187606564997821ULL }, { 6, 0, "", 4875318004354326685ULL, 911315587215528ULL }, { 0, 2, "M3", 9813890333652042552ULL, 693356472050357ULL }, { 6, 0, "", 4875318004354326685ULL, 911315587215528ULL }, { 0, 2, "M3", 9813890333652042552ULL, 693356472050357ULL } };
JOB2(prog20) { run(s, "p20_main", E20); }
static const Exp E21[] = { { 0, 1, "*", 12778084774352478576ULL, 1342526643112312ULL }, { 0, 1, "*", 12778084774352478576ULL, 1342526643112312ULL }, { 7, 0, "", 10351439147240845361ULL, 627523455742526ULL }, { 7, 0, "", 10351439147240845361ULL, 627523455742526ULL }, { 0, 1, "*", 8360852652063240183ULL, 1342526643112312ULL }, { 0, 1, "*", 8360852652063240183ULL, 1342526643112312ULL }, { 7, 0, "", 7309589519199979572ULL, 627523455742526ULL }, { 7, 0, "", 7309589519199979572ULL, 627523455742526ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 0, 1, "*", 17545487811739209726ULL, 958644707718777ULL }, { 0, 1, "*", 17545487811739209726ULL, 958644707718777ULL }, { 0, 1, "*", 5811603510752638588ULL, 958644707718777ULL }, { 0, 1, "*", 5811603510752638588ULL, 958644707718777ULL }, { 0, 1, "*", 9738500536739680855ULL, 958644707718777ULL }, { 0, 1, "*", 9738500536739680855ULL, 958644707718777ULL }, { 0, 1, "*", 14922968680347007897ULL, 958644707718777ULL }, { 0, 1, "*", 14922968680347007897ULL, 958644707718777ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 0, 1, "*", 12778084774352478576ULL, 1342526643112312ULL }, { 0, 1, "*", 12778084774352478576ULL, 1342526643112312ULL }, { 7, 0, "", 10351439147240845361ULL, 627523455742526ULL }, { 7, 0, "", 10351439147240845361ULL, 627523455742526ULL }, { 0, 1, "Error", 298720077778334613ULL, 627523455742526ULL }, { 0, 1, "Error", 298720077778334613ULL, 627523455742526ULL }, { 0, 1, "Error", 298691961545356887ULL, 627523455742526ULL }, { 0, 1, "Error", 298691961545356887ULL, 627523455742526ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 0, 1, "*", 17545487811739209726ULL, 958644707718777ULL }, { 0, 1, "*", 17545487811739209726ULL, 958644707718777ULL }, { 0, 1, "*", 5811603510752638588ULL, 958644707718777ULL }, { 0, 1, "*", 5811603510752638588ULL, 958644707718777ULL }, { 0, 1, "Error", 298720077778334613ULL, 627523455742526ULL }, { 0, 1, "Error", 298720077778334613ULL, 627523455742526ULL }, { 0, 1, "Error", 298691961545356887ULL, 627523455742526ULL }, { 0, 1, "Error", 298691961545356887ULL, 627523455742526ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 30476322ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL }, { 6, 0, "", 31716ULL, 310490574069393ULL } };
JOB2(prog21) { run(s, "p21_main", E21); }
static const Exp E22[] = { { 7, 0, "", 11872775993138132927ULL, 3212471418173028ULL }, { 7, 0, "", 8485495374825845347ULL, 3212471418173028ULL }, { 7, 0, "", 4766470383200356150ULL, 2699796385774269ULL }, { 7, 0, "", 4766470383200356150ULL, 2699796385774269ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 11872775993138132927ULL, 3212471418173028ULL }, { 7, 0, "", 8485495374825845347ULL, 3212471418173028ULL }, { 7, 0, "", 4766470383200356150ULL, 2699796385774269ULL }, { 7, 0, "", 4766470383200356150ULL, 2699796385774269ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 11872775993138132927ULL, 3212471418173028ULL }, { 8, 0, "", 0ULL, 227871986475411ULL }, { 7, 0, "", 4766470383200356150ULL, 2699796385774269ULL }, { 7, 0, "", 4766470383200356150ULL, 2699796385774269ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 11872775993138132927ULL, 3212471418173028ULL }, { 8, 0, "", 0ULL, 227871986475411ULL }, { 7, 0, "", 4766470383200356150ULL, 2699796385774269ULL }, { 7, 0, "", 4766470383200356150ULL, 2699796385774269ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 11581509281697949720ULL, 2473564878438381ULL }, { 7, 0, "", 10325153953518679674ULL, 2473564878438381ULL }, { 7, 0, "", 11895302043121929110ULL, 1960889846039622ULL }, { 7, 0, "", 11895302043121929110ULL, 1960889846039622ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 871313130660476ULL, 1460599979272119ULL }, { 7, 0, "", 871313130660476ULL, 1460599979272119ULL }, { 7, 0, "", 871313130660476ULL, 1460599979272119ULL }, { 7, 0, "", 871313130660476ULL, 1460599979272119ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 11581509281697949720ULL, 2473564878438381ULL }, { 8, 0, "", 1776858409ULL, 500289866767503ULL }, { 7, 0, "", 11895302043121929110ULL, 1960889846039622ULL }, { 7, 0, "", 11895302043121929110ULL, 1960889846039622ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 871313130660476ULL, 1460599979272119ULL }, { 7, 0, "", 871313130660476ULL, 1460599979272119ULL }, { 7, 0, "", 871313130660476ULL, 1460599979272119ULL }, { 7, 0, "", 871313130660476ULL, 1460599979272119ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL } };
JOB2(prog22) { run(s, "p22_main", E22); }
static const Exp E23[] = { { 7, 0, "", 18298562686321167620ULL, 887846808315060ULL }, { 5, 0, "", 31ULL, 218196200557833ULL }, { 7, 0, "", 18298562686321167620ULL, 887846808315060ULL }, { 7, 0, "", 1178257644585755645ULL, 971648563492679ULL }, { 7, 0, "", 5797212359450702148ULL, 887846808315060ULL }, { 7, 0, "", 6082165923195058591ULL, 1099700777867441ULL }, { 7, 0, "", 5797212359450702148ULL, 887846808315060ULL }, { 7, 0, "", 6082165923195058591ULL, 1099700777867441ULL }, { 7, 0, "", 18298562686321167620ULL, 887846808315060ULL }, { 5, 0, "", 31ULL, 218196200557833ULL }, { 7, 0, "", 18298562686321167620ULL, 887846808315060ULL }, { 7, 0, "", 1178257644585755645ULL, 971648563492679ULL }, { 7, 0, "", 614205970505601730ULL, 887846808315060ULL }, { 7, 0, "", 2934004107050018273ULL, 1099700777867441ULL }, { 7, 0, "", 614205970505601730ULL, 887846808315060ULL }, { 7, 0, "", 2934004107050018273ULL, 1099700777867441ULL }, { 7, 0, "", 17042398205082166383ULL, 739275148851355ULL }, { 5, 0, "", 31ULL, 218196200557833ULL }, { 7, 0, "", 17042398205082166383ULL, 739275148851355ULL }, { 7, 0, "", 17042398205082166383ULL, 739275148851355ULL }, { 7, 0, "", 17829241360583735343ULL, 739275148851355ULL }, { 7, 0, "", 17829241360583735343ULL, 739275148851355ULL }, { 7, 0, "", 17829241360583735343ULL, 739275148851355ULL }, { 7, 0, "", 17829241360583735343ULL, 739275148851355ULL }, { 7, 0, "", 17042398205082166383ULL, 739275148851355ULL }, { 5, 0, "", 31ULL, 218196200557833ULL }, { 7, 0, "", 17042398205082166383ULL, 739275148851355ULL }, { 7, 0, "", 17042398205082166383ULL, 739275148851355ULL }, { 7, 0, "", 17066991345659391729ULL, 739275148851355ULL }, { 7, 0, "", 17066991345659391729ULL, 739275148851355ULL }, { 7, 0, "", 17066991345659391729ULL, 739275148851355ULL }, { 7, 0, "", 17066991345659391729ULL, 739275148851355ULL }, { 7, 0, "", 18298562686321167620ULL, 887846808315060ULL }, { 5, 0, "", 31ULL, 218196200557833ULL }, { 7, 0, "", 18298562686321167620ULL, 887846808315060ULL }, { 7, 0, "", 1178257644585755645ULL, 971648563492679ULL }, { 7, 0, "", 614072919503760934ULL, 887846808315060ULL }, { 7, 0, "", 9362276076440197885ULL, 1099700777867441ULL }, { 7, 0, "", 614072919503760934ULL, 887846808315060ULL }, { 7, 0, "", 9362276076440197885ULL, 1099700777867441ULL }, { 7, 0, "", 18298562686321167620ULL, 887846808315060ULL }, { 5, 0, "", 31ULL, 218196200557833ULL }, { 7, 0, "", 18298562686321167620ULL, 887846808315060ULL }, { 7, 0, "", 1178257644585755645ULL, 971648563492679ULL }, { 7, 0, "", 614100212016959046ULL, 887846808315060ULL }, { 7, 0, "", 8516649623070662365ULL, 1099700777867441ULL }, { 7, 0, "", 614100212016959046ULL, 887846808315060ULL }, { 7, 0, "", 8516649623070662365ULL, 1099700777867441ULL }, { 7, 0, "", 17042398205082166383ULL, 739275148851355ULL }, { 5, 0, "", 31ULL, 218196200557833ULL }, { 7, 0, "", 17042398205082166383ULL, 739275148851355ULL }, { 7, 0, "", 17042398205082166383ULL, 739275148851355ULL }, { 7, 0, "", 17066987053691590413ULL, 739275148851355ULL }, { 7, 0, "", 17066987053691590413ULL, 739275148851355ULL }, { 7, 0, "", 17066987053691590413ULL, 739275148851355ULL }, { 7, 0, "", 17066987053691590413ULL, 739275148851355ULL }, { 7, 0, "", 17042398205082166383ULL, 739275148851355ULL }, { 5, 0, "", 31ULL, 218196200557833ULL }, { 7, 0, "", 17042398205082166383ULL, 739275148851355ULL }, { 7, 0, "", 17042398205082166383ULL, 739275148851355ULL }, { 7, 0, "", 17066987934095241965ULL, 739275148851355ULL }, { 7, 0, "", 17066987934095241965ULL, 739275148851355ULL }, { 7, 0, "", 17066987934095241965ULL, 739275148851355ULL }, { 7, 0, "", 17066987934095241965ULL, 739275148851355ULL } };
JOB2(prog23) { run(s, "p23_main", E23); }
static const Exp E24[] = { { 7, 0, "", 5983ULL, 205005317306315ULL }, { 7, 0, "", 5983ULL, 205005317306315ULL }, { 7, 0, "", 217ULL, 205005317306315ULL }, { 0, 1, "*", 0ULL, 205005317306315ULL }, { 7, 0, "", 1983921915378403870ULL, 205005317306315ULL }, { 7, 0, "", 1983921915378403870ULL, 205005317306315ULL }, { 7, 0, "", 217ULL, 205005317306315ULL }, { 0, 1, "*", 0ULL, 205005317306315ULL }, { 0, 2, "M8", 193ULL, 205005317306315ULL }, { 0, 2, "M8", 193ULL, 205005317306315ULL }, { 0, 2, "M8", 7ULL, 205005317306315ULL }, { 0, 1, "*", 0ULL, 205005317306315ULL }, { 0, 2, "M8", 17915685294408546850ULL, 205005317306315ULL }, { 0, 2, "M8", 17915685294408546850ULL, 205005317306315ULL }, { 0, 2, "M8", 7ULL, 205005317306315ULL }, { 0, 1, "*", 0ULL, 205005317306315ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 5983ULL, 205005317306315ULL }, { 7, 0, "", 5983ULL, 205005317306315ULL }, { 7, 0, "", 217ULL, 205005317306315ULL }, { 0, 1, "*", 0ULL, 205005317306315ULL }, { 7, 0, "", 1983921915378403870ULL, 205005317306315ULL }, { 7, 0, "", 1983921915378403870ULL, 205005317306315ULL }, { 7, 0, "", 217ULL, 205005317306315ULL }, { 0, 1, "*", 0ULL, 205005317306315ULL }, { 0, 2, "M8", 193ULL, 205005317306315ULL }, { 0, 2, "M8", 193ULL, 205005317306315ULL }, { 0, 2, "M8", 7ULL, 205005317306315ULL }, { 0, 1, "*", 0ULL, 205005317306315ULL }, { 0, 2, "M8", 17915685294408546850ULL, 205005317306315ULL }, { 0, 2, "M8", 17915685294408546850ULL, 205005317306315ULL }, { 0, 2, "M8", 7ULL, 205005317306315ULL }, { 0, 1, "*", 0ULL, 205005317306315ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL } };
JOB2(prog24) { run(s, "p24_main", E24); }
static const Exp E25[] = { { 7, 0, "", 2604965097540791312ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389722050371205990ULL, 449440186975217ULL }, { 7, 0, "", 2604965097540791312ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389722050371205990ULL, 449440186975217ULL }, { 0, 1, "*", 5444963341540535647ULL, 1307596637905885ULL }, { 0, 1, "*", 0ULL, 449440186975217ULL }, { 0, 1, "*", 5444963341540535647ULL, 1307596637905885ULL }, { 0, 1, "*", 0ULL, 449440186975217ULL }, { 7, 0, "", 2604965097540791312ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389722050371205990ULL, 449440186975217ULL }, { 7, 0, "", 2604965097540791312ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389722050371205990ULL, 449440186975217ULL }, { 0, 1, "*", 5444963341540535647ULL, 1307596637905885ULL }, { 0, 1, "*", 0ULL, 449440186975217ULL }, { 0, 1, "*", 5444963341540535647ULL, 1307596637905885ULL }, { 0, 1, "*", 0ULL, 449440186975217ULL }, { 7, 0, "", 2604965097540791312ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389722050371205990ULL, 449440186975217ULL }, { 7, 0, "", 2604965097540791312ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389722050371205990ULL, 449440186975217ULL }, { 0, 1, "*", 5444963341540535647ULL, 1307596637905885ULL }, { 0, 1, "*", 0ULL, 449440186975217ULL }, { 0, 1, "*", 5444963341540535647ULL, 1307596637905885ULL }, { 0, 1, "*", 0ULL, 449440186975217ULL }, { 7, 0, "", 2604965097540791312ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389722050371205990ULL, 449440186975217ULL }, { 7, 0, "", 2604965097540791312ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389722050371205990ULL, 449440186975217ULL }, { 0, 1, "*", 5444963341540535647ULL, 1307596637905885ULL }, { 0, 1, "*", 0ULL, 449440186975217ULL }, { 0, 1, "*", 5444963341540535647ULL, 1307596637905885ULL }, { 0, 1, "*", 0ULL, 449440186975217ULL }, { 7, 0, "", 1202325813255459182ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389802222128725444ULL, 449440186975217ULL }, { 7, 0, "", 1202325813255459182ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389802222128725444ULL, 449440186975217ULL }, { 0, 1, "*", 7833360169802589761ULL, 1307596637905885ULL }, { 0, 1, "*", 2800354ULL, 449440186975217ULL }, { 0, 1, "*", 7833360169802589761ULL, 1307596637905885ULL }, { 0, 1, "*", 2800354ULL, 449440186975217ULL }, { 7, 0, "", 1202325813255459182ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389802222128725444ULL, 449440186975217ULL }, { 7, 0, "", 1202325813255459182ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389802222128725444ULL, 449440186975217ULL }, { 0, 1, "*", 7833360169802589761ULL, 1307596637905885ULL }, { 0, 1, "*", 2800354ULL, 449440186975217ULL }, { 0, 1, "*", 7833360169802589761ULL, 1307596637905885ULL }, { 0, 1, "*", 2800354ULL, 449440186975217ULL }, { 7, 0, "", 1202325813255459182ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389802222128725444ULL, 449440186975217ULL }, { 7, 0, "", 1202325813255459182ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389802222128725444ULL, 449440186975217ULL }, { 0, 1, "*", 7833360169802589761ULL, 1307596637905885ULL }, { 0, 1, "*", 2800354ULL, 449440186975217ULL }, { 0, 1, "*", 7833360169802589761ULL, 1307596637905885ULL }, { 0, 1, "*", 2800354ULL, 449440186975217ULL }, { 7, 0, "", 1202325813255459182ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389802222128725444ULL, 449440186975217ULL }, { 7, 0, "", 1202325813255459182ULL, 1307596637905885ULL }, { 0, 1, "M7", 13389802222128725444ULL, 449440186975217ULL }, { 0, 1, "*", 7833360169802589761ULL, 1307596637905885ULL }, { 0, 1, "*", 2800354ULL, 449440186975217ULL }, { 0, 1, "*", 7833360169802589761ULL, 1307596637905885ULL }, { 0, 1, "*", 2800354ULL, 449440186975217ULL } };
JOB2(prog25) { run(s, "p25_main", E25); }
static const Exp E26[] = { { 0, 1, "*", 11792614954805120631ULL, 904467938114337ULL }, { 0, 1, "*", 6813315566985380693ULL, 518417931777730ULL }, { 0, 1, "M23", 917711755ULL, 491066025746755ULL }, { 0, 1, "*", 30805ULL, 491066025746755ULL }, { 0, 1, "*", 10695320486318666028ULL, 904467938114337ULL }, { 0, 1, "*", 6813315566985380693ULL, 518417931777730ULL }, { 0, 1, "M23", 917711755ULL, 491066025746755ULL }, { 0, 1, "*", 30805ULL, 491066025746755ULL }, { 0, 1, "*", 15421544704229026392ULL, 518417931777730ULL }, { 0, 1, "*", 6813315566985380693ULL, 518417931777730ULL }, { 0, 1, "M23", 917711755ULL, 491066025746755ULL }, { 0, 1, "*", 30805ULL, 491066025746755ULL }, { 0, 1, "*", 15421544704229026392ULL, 518417931777730ULL }, { 0, 1, "*", 6813315566985380693ULL, 518417931777730ULL }, { 0, 1, "M23", 917711755ULL, 491066025746755ULL }, { 0, 1, "*", 30805ULL, 491066025746755ULL }, { 0, 1, "*", 27053786257555460ULL, 491066025746755ULL }, { 0, 1, "*", 944973621ULL, 491066025746755ULL }, { 0, 1, "M23", 7848262561143086596ULL, 491066025746755ULL }, { 0, 1, "M23", 872702983439541ULL, 491066025746755ULL }, { 0, 1, "*", 27053786257555460ULL, 491066025746755ULL }, { 0, 1, "*", 944973621ULL, 491066025746755ULL }, { 0, 1, "M23", 7848262561143773711ULL, 491066025746755ULL }, { 0, 1, "M23", 872702984126656ULL, 491066025746755ULL }, { 0, 1, "*", 27053786246443417ULL, 491066025746755ULL }, { 0, 1, "*", 944973621ULL, 491066025746755ULL }, { 0, 1, "M23", 7848252298938023193ULL, 491066025746755ULL }, { 0, 1, "M23", 872702983439541ULL, 491066025746755ULL }, { 0, 1, "*", 27053786246443417ULL, 491066025746755ULL }, { 0, 1, "*", 944973621ULL, 491066025746755ULL }, { 0, 1, "M23", 7848252298938710308ULL, 491066025746755ULL }, { 0, 1, "M23", 872702984126656ULL, 491066025746755ULL }, { 0, 1, "*", 11792614954805120631ULL, 904467938114337ULL }, { 0, 1, "*", 6813315566985380693ULL, 518417931777730ULL }, { 0, 1, "M23", 917711755ULL, 491066025746755ULL }, { 0, 1, "*", 30805ULL, 491066025746755ULL }, { 0, 1, "*", 10695320486318666028ULL, 904467938114337ULL }, { 0, 1, "*", 6813315566985380693ULL, 518417931777730ULL }, { 0, 1, "M23", 917711755ULL, 491066025746755ULL }, { 0, 1, "*", 30805ULL, 491066025746755ULL }, { 0, 1, "*", 15421544704229026392ULL, 518417931777730ULL }, { 0, 1, "*", 6813315566985380693ULL, 518417931777730ULL }, { 0, 1, "M23", 917711755ULL, 491066025746755ULL }, { 0, 1, "*", 30805ULL, 491066025746755ULL }, { 0, 1, "*", 15421544704229026392ULL, 518417931777730ULL }, { 0, 1, "*", 6813315566985380693ULL, 518417931777730ULL }, { 0, 1, "M23", 917711755ULL, 491066025746755ULL }, { 0, 1, "*", 30805ULL, 491066025746755ULL }, { 0, 1, "*", 27053786257555460ULL, 491066025746755ULL }, { 0, 1, "*", 944973621ULL, 491066025746755ULL }, { 0, 1, "M23", 7848262561143086596ULL, 491066025746755ULL }, { 0, 1, "M23", 872702983439541ULL, 491066025746755ULL }, { 0, 1, "*", 27053786257555460ULL, 491066025746755ULL }, { 0, 1, "*", 944973621ULL, 491066025746755ULL }, { 0, 1, "M23", 7848262561143773711ULL, 491066025746755ULL }, { 0, 1, "M23", 872702984126656ULL, 491066025746755ULL }, { 0, 1, "*", 27053786246443417ULL, 491066025746755ULL }, { 0, 1, "*", 944973621ULL, 491066025746755ULL }, { 0, 1, "M23", 7848252298938023193ULL, 491066025746755ULL }, { 0, 1, "M23", 872702983439541ULL, 491066025746755ULL }, { 0, 1, "*", 27053786246443417ULL, 491066025746755ULL }, { 0, 1, "*", 944973621ULL, 491066025746755ULL }, { 0, 1, "M23", 7848252298938710308ULL, 491066025746755ULL }, { 0, 1, "M23", 872702984126656ULL, 491066025746755ULL } };
JOB2(prog26) { run(s, "p26_main", E26); }
static const Exp E27[] = { { 7, 0, "", 5171235756089848324ULL, 1050220293787115ULL }, { 7, 0, "", 12806245730522997560ULL, 1253905137918751ULL }, { 7, 0, "", 8524223296449127015ULL, 1050220293787115ULL }, { 7, 0, "", 15394257668913598311ULL, 1253905137918751ULL }, { 7, 0, "", 5171235756089848324ULL, 1050220293787115ULL }, { 7, 0, "", 12806245730522997560ULL, 1253905137918751ULL }, { 7, 0, "", 8524223296449127015ULL, 1050220293787115ULL }, { 7, 0, "", 15394257668913598311ULL, 1253905137918751ULL }, { 7, 0, "", 5171235756089848324ULL, 1050220293787115ULL }, { 7, 0, "", 12806245730522997560ULL, 1253905137918751ULL }, { 7, 0, "", 8524223296449127015ULL, 1050220293787115ULL }, { 7, 0, "", 15394257668913598311ULL, 1253905137918751ULL }, { 7, 0, "", 5171235756089848324ULL, 1050220293787115ULL }, { 7, 0, "", 12806245730522997560ULL, 1253905137918751ULL }, { 7, 0, "", 8524223296449127015ULL, 1050220293787115ULL }, { 7, 0, "", 15394257668913598311ULL, 1253905137918751ULL }, { 7, 0, "", 5171235841290201700ULL, 1050220293787115ULL }, { 7, 0, "", 12806245815723350936ULL, 1253905137918751ULL }, { 7, 0, "", 8524223299197525511ULL, 1050220293787115ULL }, { 7, 0, "", 15394257671661996807ULL, 1253905137918751ULL }, { 7, 0, "", 5171235841290201700ULL, 1050220293787115ULL }, { 7, 0, "", 12806245815723350936ULL, 1253905137918751ULL }, { 7, 0, "", 8524223299197525511ULL, 1050220293787115ULL }, { 7, 0, "", 15394257671661996807ULL, 1253905137918751ULL }, { 7, 0, "", 5171235841290201700ULL, 1050220293787115ULL }, { 7, 0, "", 12806245815723350936ULL, 1253905137918751ULL }, { 7, 0, "", 8524223299197525511ULL, 1050220293787115ULL }, { 7, 0, "", 15394257671661996807ULL, 1253905137918751ULL }, { 7, 0, "", 5171235841290201700ULL, 1050220293787115ULL }, { 7, 0, "", 12806245815723350936ULL, 1253905137918751ULL }, { 7, 0, "", 8524223299197525511ULL, 1050220293787115ULL }, { 7, 0, "", 15394257671661996807ULL, 1253905137918751ULL }, { 7, 0, "", 5171235756089848324ULL, 1050220293787115ULL }, { 7, 0, "", 12806245730522997560ULL, 1253905137918751ULL }, { 7, 0, "", 8524223296449127015ULL, 1050220293787115ULL }, { 7, 0, "", 15394257668913598311ULL, 1253905137918751ULL }, { 7, 0, "", 5171235756089848324ULL, 1050220293787115ULL }, { 7, 0, "", 12806245730522997560ULL, 1253905137918751ULL }, { 7, 0, "", 8524223296449127015ULL, 1050220293787115ULL }, { 7, 0, "", 15394257668913598311ULL, 1253905137918751ULL }, { 7, 0, "", 5171235756089848324ULL, 1050220293787115ULL }, { 7, 0, "", 12806245730522997560ULL, 1253905137918751ULL }, { 7, 0, "", 8524223296449127015ULL, 1050220293787115ULL }, { 7, 0, "", 15394257668913598311ULL, 1253905137918751ULL }, { 7, 0, "", 5171235756089848324ULL, 1050220293787115ULL }, { 7, 0, "", 12806245730522997560ULL, 1253905137918751ULL }, { 7, 0, "", 8524223296449127015ULL, 1050220293787115ULL }, { 7, 0, "", 15394257668913598311ULL, 1253905137918751ULL }, { 7, 0, "", 5171235841290201700ULL, 1050220293787115ULL }, { 7, 0, "", 12806245815723350936ULL, 1253905137918751ULL }, { 7, 0, "", 8524223299197525511ULL, 1050220293787115ULL }, { 7, 0, "", 15394257671661996807ULL, 1253905137918751ULL }, { 7, 0, "", 5171235841290201700ULL, 1050220293787115ULL }, { 7, 0, "", 12806245815723350936ULL, 1253905137918751ULL }, { 7, 0, "", 8524223299197525511ULL, 1050220293787115ULL }, { 7, 0, "", 15394257671661996807ULL, 1253905137918751ULL }, { 7, 0, "", 5171235841290201700ULL, 1050220293787115ULL }, { 7, 0, "", 12806245815723350936ULL, 1253905137918751ULL }, { 7, 0, "", 8524223299197525511ULL, 1050220293787115ULL }, { 7, 0, "", 15394257671661996807ULL, 1253905137918751ULL }, { 7, 0, "", 5171235841290201700ULL, 1050220293787115ULL }, { 7, 0, "", 12806245815723350936ULL, 1253905137918751ULL }, { 7, 0, "", 8524223299197525511ULL, 1050220293787115ULL }, { 7, 0, "", 15394257671661996807ULL, 1253905137918751ULL } };
JOB2(prog27) { run(s, "p27_main", E27); }
static const Exp E28[] = { { 7, 0, "", 5742905847400918955ULL, 1849283152894833ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 1, "*", 5580019780539148876ULL, 1204317101564813ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 7, 0, "", 5742905847400918955ULL, 1849283152894833ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 1, "*", 5580019780539148876ULL, 1204317101564813ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 0, 2, "M7", 16452588614019199002ULL, 1115468524018655ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 2, "M7", 187265133031973ULL, 676356444237800ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 0, 2, "M7", 11949365728168413392ULL, 1115468524018655ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 2, "M7", 187265248554775ULL, 676356444237800ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 7, 0, "", 5742905847400918955ULL, 1849283152894833ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 1, "*", 5580019780539148876ULL, 1204317101564813ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 7, 0, "", 5742905847400918955ULL, 1849283152894833ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 1, "*", 5580019780539148876ULL, 1204317101564813ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 0, 2, "M7", 16452588614019199002ULL, 1115468524018655ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 2, "M7", 187265133031973ULL, 676356444237800ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 0, 2, "M7", 11949365728168413392ULL, 1115468524018655ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 2, "M7", 187265248554775ULL, 676356444237800ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 7, 0, "", 5742905847400918955ULL, 1849283152894833ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 1, "*", 5580019780539148876ULL, 1204317101564813ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 7, 0, "", 5742905847400918955ULL, 1849283152894833ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 1, "*", 5580019780539148876ULL, 1204317101564813ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 0, 2, "M7", 16452588614019199002ULL, 1115468524018655ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 2, "M7", 187265133031973ULL, 676356444237800ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 0, 2, "M7", 11949365728168413392ULL, 1115468524018655ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 2, "M7", 187265248554775ULL, 676356444237800ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 7, 0, "", 5742905847400918955ULL, 1849283152894833ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 1, "*", 5580019780539148876ULL, 1204317101564813ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 7, 0, "", 5742905847400918955ULL, 1849283152894833ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 1, "*", 5580019780539148876ULL, 1204317101564813ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 0, 2, "M7", 16452588614019199002ULL, 1115468524018655ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 2, "M7", 187265133031973ULL, 676356444237800ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL }, { 0, 2, "M7", 11949365728168413392ULL, 1115468524018655ULL }, { 0, 1, "Error", 490956896333457218ULL, 626377208962070ULL }, { 0, 2, "M7", 187265248554775ULL, 676356444237800ULL }, { 0, 1, "Error", 0ULL, 187265129181215ULL } };
JOB2(prog28) { run(s, "p28_main", E28); }
static const Exp E29[] = { { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 224519292458881254ULL, 233630008109029ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 224519292458881254ULL, 233630008109029ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 224519292458881254ULL, 233630008109029ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 224519292458881254ULL, 233630008109029ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 7, 0, "", 14546314444194084156ULL, 1257363263448033ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 0, 1, "M9", 469221069532753782ULL, 461288678716914ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 7, 0, "", 14546314444194084156ULL, 1257363263448033ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 0, 1, "M9", 469221069532753782ULL, 461288678716914ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 224519292458881254ULL, 233630008109029ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 224519292458881254ULL, 233630008109029ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 224519292458881254ULL, 233630008109029ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 224519292458881254ULL, 233630008109029ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 7, 0, "", 14546314444194084156ULL, 1257363263448033ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 0, 1, "M9", 469221069532753782ULL, 461288678716914ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 7, 0, "", 14546314444194084156ULL, 1257363263448033ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 0, 1, "M9", 469221069532753782ULL, 461288678716914ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 10940363119933245694ULL, 233630008109029ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 12849088872187926471ULL, 233630008109029ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 10940363119933245694ULL, 233630008109029ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 12849088872187926471ULL, 233630008109029ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 7, 0, "", 8259530717899917730ULL, 1257363263448033ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 0, 1, "*", 854666194843ULL, 233630008109029ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 7, 0, "", 8259530717899917730ULL, 1257363263448033ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 0, 1, "*", 854666194843ULL, 233630008109029ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 10940363119933245694ULL, 233630008109029ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 12849088872187926471ULL, 233630008109029ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 10940363119933245694ULL, 233630008109029ULL }, { 0, 2, "M6", 224519292458881254ULL, 233630008109029ULL }, { 0, 1, "*", 12849088872187926471ULL, 233630008109029ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 7, 0, "", 8259530717899917730ULL, 1257363263448033ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 0, 1, "*", 854666194843ULL, 233630008109029ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 7, 0, "", 8259530717899917730ULL, 1257363263448033ULL }, { 0, 2, "M6", 889350879ULL, 233630008109029ULL }, { 0, 1, "*", 854666194843ULL, 233630008109029ULL } };
JOB2(prog29) { run(s, "p29_main", E29); }
static const Exp E30[] = { { 7, 0, "", 3322556967148526123ULL, 1805834054835779ULL }, { 7, 0, "", 3322556967148526123ULL, 1805834054835779ULL }, { 7, 0, "", 3893907285905920409ULL, 2609773028660538ULL }, { 7, 0, "", 3893907285905920409ULL, 2609773028660538ULL }, { 7, 0, "", 12817710182697131758ULL, 1805834054835779ULL }, { 7, 0, "", 12817710182697131758ULL, 1805834054835779ULL }, { 7, 0, "", 13729586527382178183ULL, 2900984902869505ULL }, { 7, 0, "", 13729586527382178183ULL, 2900984902869505ULL }, { 7, 0, "", 5385891400001844699ULL, 1314697181543461ULL }, { 7, 0, "", 5385891400001844699ULL, 1314697181543461ULL }, { 7, 0, "", 13249466514379302661ULL, 2292929932559927ULL }, { 7, 0, "", 13249466514379302661ULL, 2292929932559927ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 7, 0, "", 3322556967148526123ULL, 1805834054835779ULL }, { 7, 0, "", 3322556967148526123ULL, 1805834054835779ULL }, { 7, 0, "", 3893907285905920409ULL, 2609773028660538ULL }, { 7, 0, "", 3893907285905920409ULL, 2609773028660538ULL }, { 7, 0, "", 12817710182697131758ULL, 1805834054835779ULL }, { 7, 0, "", 12817710182697131758ULL, 1805834054835779ULL }, { 7, 0, "", 13729586527382178183ULL, 2900984902869505ULL }, { 7, 0, "", 13729586527382178183ULL, 2900984902869505ULL }, { 7, 0, "", 5385891400001844699ULL, 1314697181543461ULL }, { 7, 0, "", 5385891400001844699ULL, 1314697181543461ULL }, { 7, 0, "", 13249466514379302661ULL, 2292929932559927ULL }, { 7, 0, "", 13249466514379302661ULL, 2292929932559927ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 18, 0, "", 8308769420083581361ULL, 1190076859432728ULL }, { 18, 0, "", 8308769420083581361ULL, 1190076859432728ULL }, { 18, 0, "", 16553858971905236973ULL, 1994015833257487ULL }, { 18, 0, "", 16553858971905236973ULL, 1994015833257487ULL }, { 18, 0, "", 8308798390866240244ULL, 1190076859432728ULL }, { 18, 0, "", 8308798390866240244ULL, 1190076859432728ULL }, { 18, 0, "", 13424075816629561748ULL, 2285227707466454ULL }, { 18, 0, "", 13424075816629561748ULL, 2285227707466454ULL }, { 18, 0, "", 28630143ULL, 698939986140410ULL }, { 18, 0, "", 28630143ULL, 698939986140410ULL }, { 18, 0, "", 6407090177777444572ULL, 1677172737156876ULL }, { 18, 0, "", 6407090177777444572ULL, 1677172737156876ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 18, 0, "", 8308769420083581361ULL, 1190076859432728ULL }, { 18, 0, "", 8308769420083581361ULL, 1190076859432728ULL }, { 18, 0, "", 16553858971905236973ULL, 1994015833257487ULL }, { 18, 0, "", 16553858971905236973ULL, 1994015833257487ULL }, { 18, 0, "", 8308798390866240244ULL, 1190076859432728ULL }, { 18, 0, "", 8308798390866240244ULL, 1190076859432728ULL }, { 18, 0, "", 13424075816629561748ULL, 2285227707466454ULL }, { 18, 0, "", 13424075816629561748ULL, 2285227707466454ULL }, { 18, 0, "", 28630143ULL, 698939986140410ULL }, { 18, 0, "", 28630143ULL, 698939986140410ULL }, { 18, 0, "", 6407090177777444572ULL, 1677172737156876ULL }, { 18, 0, "", 6407090177777444572ULL, 1677172737156876ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL } };
JOB2(prog30) { run(s, "p30_main", E30); }
static const Exp E31[] = { { 7, 0, "", 14777257350564178417ULL, 828705285770255ULL }, { 7, 0, "", 14777257350564178417ULL, 828705285770255ULL }, { 7, 0, "", 14777257350564178417ULL, 828705285770255ULL }, { 7, 0, "", 14777257350564178417ULL, 828705285770255ULL }, { 7, 0, "", 14777257349676674736ULL, 828705285770255ULL }, { 7, 0, "", 14777257349676674736ULL, 828705285770255ULL }, { 7, 0, "", 14777257349676674736ULL, 828705285770255ULL }, { 7, 0, "", 14777257349676674736ULL, 828705285770255ULL }, { 7, 0, "", 987911862254225521ULL, 1277047430141002ULL }, { 7, 0, "", 987911862254225521ULL, 1277047430141002ULL }, { 7, 0, "", 987911862254225521ULL, 1277047430141002ULL }, { 7, 0, "", 987911862254225521ULL, 1277047430141002ULL }, { 7, 0, "", 987911861366721840ULL, 1277047430141002ULL }, { 7, 0, "", 987911861366721840ULL, 1277047430141002ULL }, { 7, 0, "", 987911861366721840ULL, 1277047430141002ULL }, { 7, 0, "", 987911861366721840ULL, 1277047430141002ULL }, { 5, 0, "", 303289693396697057ULL, 549132321986480ULL }, { 5, 0, "", 303289693396697057ULL, 549132321986480ULL }, { 5, 0, "", 303289693396697057ULL, 549132321986480ULL }, { 5, 0, "", 303289693396697057ULL, 549132321986480ULL }, { 5, 0, "", 303289693395773536ULL, 549132321986480ULL }, { 5, 0, "", 303289693395773536ULL, 549132321986480ULL }, { 5, 0, "", 303289693395773536ULL, 549132321986480ULL }, { 5, 0, "", 303289693395773536ULL, 549132321986480ULL }, { 5, 0, "", 6489028602567768572ULL, 997474466357227ULL }, { 5, 0, "", 6489028602567768572ULL, 997474466357227ULL }, { 5, 0, "", 6489028602567768572ULL, 997474466357227ULL }, { 5, 0, "", 6489028602567768572ULL, 997474466357227ULL }, { 5, 0, "", 6489028602566845051ULL, 997474466357227ULL }, { 5, 0, "", 6489028602566845051ULL, 997474466357227ULL }, { 5, 0, "", 6489028602566845051ULL, 997474466357227ULL }, { 5, 0, "", 6489028602566845051ULL, 997474466357227ULL }, { 7, 0, "", 14777257350564178417ULL, 828705285770255ULL }, { 7, 0, "", 14777257350564178417ULL, 828705285770255ULL }, { 7, 0, "", 14777257350564178417ULL, 828705285770255ULL }, { 7, 0, "", 14777257350564178417ULL, 828705285770255ULL }, { 7, 0, "", 14777257349676674736ULL, 828705285770255ULL }, { 7, 0, "", 14777257349676674736ULL, 828705285770255ULL }, { 7, 0, "", 14777257349676674736ULL, 828705285770255ULL }, { 7, 0, "", 14777257349676674736ULL, 828705285770255ULL }, { 7, 0, "", 987911862254225521ULL, 1277047430141002ULL }, { 7, 0, "", 987911862254225521ULL, 1277047430141002ULL }, { 7, 0, "", 987911862254225521ULL, 1277047430141002ULL }, { 7, 0, "", 987911862254225521ULL, 1277047430141002ULL }, { 7, 0, "", 987911861366721840ULL, 1277047430141002ULL }, { 7, 0, "", 987911861366721840ULL, 1277047430141002ULL }, { 7, 0, "", 987911861366721840ULL, 1277047430141002ULL }, { 7, 0, "", 987911861366721840ULL, 1277047430141002ULL }, { 5, 0, "", 303289693396697057ULL, 549132321986480ULL }, { 5, 0, "", 303289693396697057ULL, 549132321986480ULL }, { 5, 0, "", 303289693396697057ULL, 549132321986480ULL }, { 5, 0, "", 303289693396697057ULL, 549132321986480ULL }, { 5, 0, "", 303289693395773536ULL, 549132321986480ULL }, { 5, 0, "", 303289693395773536ULL, 549132321986480ULL }, { 5, 0, "", 303289693395773536ULL, 549132321986480ULL }, { 5, 0, "", 303289693395773536ULL, 549132321986480ULL }, { 5, 0, "", 6489028602567768572ULL, 997474466357227ULL }, { 5, 0, "", 6489028602567768572ULL, 997474466357227ULL }, { 5, 0, "", 6489028602567768572ULL, 997474466357227ULL }, { 5, 0, "", 6489028602567768572ULL, 997474466357227ULL }, { 5, 0, "", 6489028602566845051ULL, 997474466357227ULL }, { 5, 0, "", 6489028602566845051ULL, 997474466357227ULL }, { 5, 0, "", 6489028602566845051ULL, 997474466357227ULL }, { 5, 0, "", 6489028602566845051ULL, 997474466357227ULL } };
JOB2(prog31) { run(s, "p31_main", E31); }
static const Exp E32[] = { { 7, 0, "", 15076006664149636264ULL, 1507521382764451ULL }, { 7, 0, "", 15076006664149636264ULL, 1507521382764451ULL }, { 7, 0, "", 15076006664149636264ULL, 1507521382764451ULL }, { 7, 0, "", 15076006664149636264ULL, 1507521382764451ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 7, 0, "", 6338551023769543887ULL, 2913003424202235ULL }, { 7, 0, "", 6338551023769543887ULL, 2913003424202235ULL }, { 7, 0, "", 9599856229106029249ULL, 2314421972016292ULL }, { 7, 0, "", 9599856229106029249ULL, 2314421972016292ULL }, { 0, 1, "*", 4624908284157575768ULL, 1649399681655702ULL }, { 0, 1, "*", 4624908284157575768ULL, 1649399681655702ULL }, { 0, 1, "*", 5160033955646518886ULL, 1050818229469759ULL }, { 0, 1, "*", 5160033955646518886ULL, 1050818229469759ULL }, { 7, 0, "", 15076006664149636264ULL, 1507521382764451ULL }, { 7, 0, "", 15076006664149636264ULL, 1507521382764451ULL }, { 7, 0, "", 15076006664149636264ULL, 1507521382764451ULL }, { 7, 0, "", 15076006664149636264ULL, 1507521382764451ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 7, 0, "", 6338551023769543887ULL, 2913003424202235ULL }, { 7, 0, "", 6338551023769543887ULL, 2913003424202235ULL }, { 7, 0, "", 9599856229106029249ULL, 2314421972016292ULL }, { 7, 0, "", 9599856229106029249ULL, 2314421972016292ULL }, { 0, 1, "*", 4624908284157575768ULL, 1649399681655702ULL }, { 0, 1, "*", 4624908284157575768ULL, 1649399681655702ULL }, { 0, 1, "*", 5160033955646518886ULL, 1050818229469759ULL }, { 0, 1, "*", 5160033955646518886ULL, 1050818229469759ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 7, 0, "", 1965359287583589296ULL, 3801456814024773ULL }, { 0, 1, "M2", 4712925303329044269ULL, 1135681624909455ULL }, { 7, 0, "", 15535372688996814014ULL, 3202875361838830ULL }, { 0, 1, "M2", 117202426124709631ULL, 537100172723512ULL }, { 0, 1, "M4", 4712925303329044269ULL, 1569196527485858ULL }, { 0, 1, "M2", 4712925303329044269ULL, 1135681624909455ULL }, { 0, 1, "M4", 117202426124709631ULL, 970615075299915ULL }, { 0, 1, "M2", 117202426124709631ULL, 537100172723512ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 0, 1, "*", 121958820108959ULL, 243917640217918ULL }, { 7, 0, "", 1965359287583589296ULL, 3801456814024773ULL }, { 0, 1, "M2", 4712925303329044269ULL, 1135681624909455ULL }, { 7, 0, "", 15535372688996814014ULL, 3202875361838830ULL }, { 0, 1, "M2", 117202426124709631ULL, 537100172723512ULL }, { 0, 1, "M4", 4712925303329044269ULL, 1569196527485858ULL }, { 0, 1, "M2", 4712925303329044269ULL, 1135681624909455ULL }, { 0, 1, "M4", 117202426124709631ULL, 970615075299915ULL }, { 0, 1, "M2", 117202426124709631ULL, 537100172723512ULL } };
JOB2(prog32) { run(s, "p32_main", E32); }
static const Exp E33[] = { { 7, 0, "", 3291039482405704352ULL, 816107994913437ULL }, { 7, 0, "", 3291039482405704352ULL, 816107994913437ULL }, { 7, 0, "", 3291039482405704352ULL, 816107994913437ULL }, { 7, 0, "", 3291039482405704352ULL, 816107994913437ULL }, { 7, 0, "", 489803614605756253ULL, 2334833759069264ULL }, { 0, 1, "*", 2210872936280052669ULL, 816107994913437ULL }, { 7, 0, "", 489803614605756253ULL, 2334833759069264ULL }, { 0, 1, "*", 2210872936280052669ULL, 816107994913437ULL }, { 8, 0, "", 7292332621885433995ULL, 685413105239879ULL }, { 8, 0, "", 7292332621885433995ULL, 685413105239879ULL }, { 8, 0, "", 7292332621885433995ULL, 685413105239879ULL }, { 8, 0, "", 7292332621885433995ULL, 685413105239879ULL }, { 8, 0, "", 7292332621885433995ULL, 685413105239879ULL }, { 8, 0, "", 7292332621885433995ULL, 685413105239879ULL }, { 8, 0, "", 7292332621885433995ULL, 685413105239879ULL }, { 8, 0, "", 7292332621885433995ULL, 685413105239879ULL }, { 7, 0, "", 16914866519203789050ULL, 1846112349458231ULL }, { 7, 0, "", 16914866519203789050ULL, 1846112349458231ULL }, { 7, 0, "", 16914866519203789050ULL, 1846112349458231ULL }, { 7, 0, "", 16914866519203789050ULL, 1846112349458231ULL }, { 7, 0, "", 11258888312374779332ULL, 3364838113614058ULL }, { 0, 1, "*", 12436966286106050692ULL, 1846112349458231ULL }, { 7, 0, "", 11258888312374779332ULL, 3364838113614058ULL }, { 0, 1, "*", 12436966286106050692ULL, 1846112349458231ULL }, { 8, 0, "", 12463194419689554148ULL, 1846112349458231ULL }, { 8, 0, "", 12463194419689554148ULL, 1846112349458231ULL }, { 8, 0, "", 12463194419689554148ULL, 1846112349458231ULL }, { 8, 0, "", 12463194419689554148ULL, 1846112349458231ULL }, { 8, 0, "", 12463194419689554148ULL, 1846112349458231ULL }, { 8, 0, "", 12463194419689554148ULL, 1846112349458231ULL }, { 8, 0, "", 12463194419689554148ULL, 1846112349458231ULL }, { 8, 0, "", 12463194419689554148ULL, 1846112349458231ULL }, { 7, 0, "", 12903641355695108427ULL, 736167083807964ULL }, { 7, 0, "", 12903641355695108427ULL, 736167083807964ULL }, { 7, 0, "", 12903641355695108427ULL, 736167083807964ULL }, { 7, 0, "", 12903641355695108427ULL, 736167083807964ULL }, { 7, 0, "", 9710428139028865389ULL, 2254892847963791ULL }, { 0, 1, "*", 17078089370299539271ULL, 736167083807964ULL }, { 7, 0, "", 9710428139028865389ULL, 2254892847963791ULL }, { 0, 1, "*", 17078089370299539271ULL, 736167083807964ULL }, { 8, 0, "", 27628085269ULL, 605472194134406ULL }, { 8, 0, "", 27628085269ULL, 605472194134406ULL }, { 8, 0, "", 27628085269ULL, 605472194134406ULL }, { 8, 0, "", 27628085269ULL, 605472194134406ULL }, { 8, 0, "", 27628085269ULL, 605472194134406ULL }, { 8, 0, "", 27628085269ULL, 605472194134406ULL }, { 8, 0, "", 27628085269ULL, 605472194134406ULL }, { 8, 0, "", 27628085269ULL, 605472194134406ULL }, { 7, 0, "", 11213034609526870ULL, 605472194134406ULL }, { 7, 0, "", 11213034609526870ULL, 605472194134406ULL }, { 7, 0, "", 11213034609526870ULL, 605472194134406ULL }, { 7, 0, "", 11213034609526870ULL, 605472194134406ULL }, { 7, 0, "", 11705273747426956610ULL, 2124197958290233ULL }, { 0, 1, "*", 27628054268ULL, 605472194134406ULL }, { 7, 0, "", 11705273747426956610ULL, 2124197958290233ULL }, { 0, 1, "*", 27628054268ULL, 605472194134406ULL }, { 8, 0, "", 27628085020ULL, 605472194134406ULL }, { 8, 0, "", 27628085020ULL, 605472194134406ULL }, { 8, 0, "", 27628085020ULL, 605472194134406ULL }, { 8, 0, "", 27628085020ULL, 605472194134406ULL }, { 8, 0, "", 27628085020ULL, 605472194134406ULL }, { 8, 0, "", 27628085020ULL, 605472194134406ULL }, { 8, 0, "", 27628085020ULL, 605472194134406ULL }, { 8, 0, "", 27628085020ULL, 605472194134406ULL } };
JOB2(prog33) { run(s, "p33_main", E33); }
static const Exp E34[] = { { 0, 1, "*", 6122604622101575777ULL, 1170213055241276ULL }, { 0, 1, "*", 683468773694823521ULL, 1170213055241276ULL }, { 0, 1, "*", 14429353778141578951ULL, 1686663813227286ULL }, { 0, 1, "*", 7093217580545083271ULL, 1686663813227286ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 11, 0, "", 10037656192706336776ULL, 1170213055241276ULL }, { 11, 0, "", 1212159900681094411ULL, 1170213055241276ULL }, { 11, 0, "", 17760861278842031956ULL, 1686663813227286ULL }, { 11, 0, "", 15105219981396253989ULL, 1686663813227286ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 11954392355376788102ULL, 1170213055241276ULL }, { 0, 1, "*", 683468773694823521ULL, 1170213055241276ULL }, { 0, 1, "*", 11566077067359167674ULL, 1686663813227286ULL }, { 0, 1, "*", 7093217580545083271ULL, 1686663813227286ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 11, 0, "", 10037656192706336776ULL, 1170213055241276ULL }, { 11, 0, "", 1212159900681094411ULL, 1170213055241276ULL }, { 11, 0, "", 17760861278842031956ULL, 1686663813227286ULL }, { 11, 0, "", 15105219981396253989ULL, 1686663813227286ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 2, "M3", 35417909869236896ULL, 1163821122430621ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL }, { 0, 1, "*", 0ULL, 422324442212476ULL } };
JOB2(prog34) { run(s, "p34_main", E34); }
static const Exp E35[] = { { 7, 0, "", 18274515648637787238ULL, 1514695294642550ULL }, { 0, 1, "M9", 5349919400573022653ULL, 966820550497923ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M10", 18274515648637787238ULL, 1514695294642550ULL }, { 0, 1, "M9", 5349919400573022653ULL, 966820550497923ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 7, 0, "", 16065019121522320072ULL, 1444141161261175ULL }, { 0, 1, "M9", 8253928897204173372ULL, 896266417116548ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M10", 16065019121522320072ULL, 1444141161261175ULL }, { 0, 1, "M9", 8253928897204173372ULL, 896266417116548ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 7, 0, "", 8308286593482542857ULL, 1514695294642550ULL }, { 0, 1, "M9", 11574047005593984698ULL, 966820550497923ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M10", 8308286593482542857ULL, 1514695294642550ULL }, { 0, 1, "M9", 11574047005593984698ULL, 966820550497923ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 7, 0, "", 16068324074292403947ULL, 1444141161261175ULL }, { 0, 1, "M9", 8254035508583853497ULL, 896266417116548ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M10", 16068324074292403947ULL, 1444141161261175ULL }, { 0, 1, "M9", 8254035508583853497ULL, 896266417116548ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 7, 0, "", 511520583667799ULL, 1059256733137914ULL }, { 0, 1, "M9", 4470795952ULL, 511381988993287ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M10", 511520583667799ULL, 1059256733137914ULL }, { 0, 1, "M9", 4470795952ULL, 511381988993287ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 7, 0, "", 511520583667799ULL, 1059256733137914ULL }, { 0, 1, "M9", 4470795952ULL, 511381988993287ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M10", 511520583667799ULL, 1059256733137914ULL }, { 0, 1, "M9", 4470795952ULL, 511381988993287ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 7, 0, "", 618131963347924ULL, 1059256733137914ULL }, { 0, 1, "M9", 3443547559827ULL, 511381988993287ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M10", 618131963347924ULL, 1059256733137914ULL }, { 0, 1, "M9", 3443547559827ULL, 511381988993287ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 7, 0, "", 618131963347924ULL, 1059256733137914ULL }, { 0, 1, "M9", 3443547559827ULL, 511381988993287ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M10", 618131963347924ULL, 1059256733137914ULL }, { 0, 1, "M9", 3443547559827ULL, 511381988993287ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL } };
JOB2(prog35) { run(s, "p35_main", E35); }
static const Exp E36[] = { { 7, 0, "", 734622924568231ULL, 1546688540266019ULL }, { 7, 0, "", 734622924568231ULL, 1546688540266019ULL }, { 7, 0, "", 734622924568231ULL, 1546688540266019ULL }, { 7, 0, "", 734622924568231ULL, 1546688540266019ULL }, { 7, 0, "", 734622924568231ULL, 1546688540266019ULL }, { 7, 0, "", 734622924568231ULL, 1546688540266019ULL }, { 7, 0, "", 734622924568231ULL, 1546688540266019ULL }, { 7, 0, "", 734622924568231ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896625ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896625ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896625ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896625ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896625ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896625ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896625ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896625ULL, 1546688540266019ULL }, { 7, 0, "", 735448302991561ULL, 2062364671819648ULL }, { 7, 0, "", 735448302991561ULL, 2062364671819648ULL }, { 7, 0, "", 735448302991561ULL, 2062364671819648ULL }, { 7, 0, "", 735448302991561ULL, 2062364671819648ULL }, { 7, 0, "", 735448302991561ULL, 2062364671819648ULL }, { 7, 0, "", 735448302991561ULL, 2062364671819648ULL }, { 7, 0, "", 735448302991561ULL, 2062364671819648ULL }, { 7, 0, "", 735448302991561ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007055ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007055ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007055ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007055ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007055ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007055ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007055ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007055ULL, 2062364671819648ULL }, { 7, 0, "", 734622924568231ULL, 1546688540266019ULL }, { 7, 0, "", 734622924568231ULL, 1546688540266019ULL }, { 7, 0, "", 734622924568200ULL, 1546688540266019ULL }, { 7, 0, "", 734622924568200ULL, 1546688540266019ULL }, { 7, 0, "", 734622924568231ULL, 1546688540266019ULL }, { 7, 0, "", 734622924568231ULL, 1546688540266019ULL }, { 7, 0, "", 734622924568200ULL, 1546688540266019ULL }, { 7, 0, "", 734622924568200ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896625ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896625ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896594ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896594ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896625ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896625ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896594ULL, 1546688540266019ULL }, { 7, 0, "", 734596243896594ULL, 1546688540266019ULL }, { 7, 0, "", 735448302991561ULL, 2062364671819648ULL }, { 7, 0, "", 735448302991561ULL, 2062364671819648ULL }, { 7, 0, "", 735448302991530ULL, 2062364671819648ULL }, { 7, 0, "", 735448302991530ULL, 2062364671819648ULL }, { 7, 0, "", 735448302991561ULL, 2062364671819648ULL }, { 7, 0, "", 735448302991561ULL, 2062364671819648ULL }, { 7, 0, "", 735448302991530ULL, 2062364671819648ULL }, { 7, 0, "", 735448302991530ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007055ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007055ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007024ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007024ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007055ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007055ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007024ULL, 2062364671819648ULL }, { 7, 0, "", 734622869007024ULL, 2062364671819648ULL } };
JOB2(prog36) { run(s, "p36_main", E36); }
static const Exp E37[] = { { 0, 2, "M23", 13751374649533988ULL, 535296136750598ULL }, { 0, 2, "M23", 13751374649533987ULL, 535296136750598ULL }, { 0, 2, "M23", 11220503268813742749ULL, 964357606484079ULL }, { 0, 2, "M23", 11220503268813742748ULL, 964357606484079ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 2, "M23", 13751374649533988ULL, 535296136750598ULL }, { 0, 2, "M23", 13751374649533987ULL, 535296136750598ULL }, { 0, 2, "M23", 11220503268813742749ULL, 964357606484079ULL }, { 0, 2, "M23", 11220503268813742748ULL, 964357606484079ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 1, "*", 357664014227ULL, 535296136750598ULL }, { 0, 1, "*", 357664014227ULL, 535296136750598ULL }, { 0, 2, "M23", 3639589384897800522ULL, 1475384454793772ULL }, { 0, 2, "M23", 3639589384897800521ULL, 1475384454793772ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 1, "*", 357664014227ULL, 535296136750598ULL }, { 0, 1, "*", 357664014227ULL, 535296136750598ULL }, { 0, 2, "M23", 3639589384897800522ULL, 1475384454793772ULL }, { 0, 2, "M23", 3639589384897800521ULL, 1475384454793772ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 0, 1, "*", 0ULL, 461951475460718ULL }, { 7, 0, "", 15733414657703994753ULL, 535296136750598ULL }, { 7, 0, "", 15733414657675365602ULL, 535296136750598ULL }, { 7, 0, "", 8979054952936003231ULL, 964357606484079ULL }, { 7, 0, "", 8979054952907374080ULL, 964357606484079ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 7, 0, "", 15733414657703994753ULL, 535296136750598ULL }, { 7, 0, "", 15733414657675365602ULL, 535296136750598ULL }, { 7, 0, "", 8979054952936003231ULL, 964357606484079ULL }, { 7, 0, "", 8979054952907374080ULL, 964357606484079ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 0, 1, "*", 357664014227ULL, 535296136750598ULL }, { 0, 1, "*", 357664014227ULL, 535296136750598ULL }, { 7, 0, "", 7833124185627483349ULL, 1475384454793772ULL }, { 7, 0, "", 7833124185598854198ULL, 1475384454793772ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 0, 1, "*", 357664014227ULL, 535296136750598ULL }, { 0, 1, "*", 357664014227ULL, 535296136750598ULL }, { 7, 0, "", 7833124185627483349ULL, 1475384454793772ULL }, { 7, 0, "", 7833124185598854198ULL, 1475384454793772ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL }, { 0, 1, "*", 32ULL, 461951475460718ULL } };
JOB2(prog37) { run(s, "p37_main", E37); }
static const Exp E38[] = { { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 137789325806075ULL, 137789325775075ULL }, { 2, 0, "", 0ULL, 137789325775075ULL }, { 7, 0, "", 451500774455704315ULL, 260155333313826ULL }, { 2, 0, "", 260155333313857ULL, 260155333313826ULL }, { 7, 0, "", 16571009276220164605ULL, 137789325775075ULL }, { 2, 0, "", 137789325775106ULL, 137789325775075ULL }, { 7, 0, "", 451500774455704315ULL, 260155333313826ULL }, { 2, 0, "", 260155333313857ULL, 260155333313826ULL }, { 7, 0, "", 16571009276220164605ULL, 137789325775075ULL }, { 2, 0, "", 137789325775106ULL, 137789325775075ULL }, { 7, 0, "", 451500774455704315ULL, 260155333313826ULL }, { 2, 0, "", 260155333313857ULL, 260155333313826ULL }, { 7, 0, "", 16571009276220164605ULL, 137789325775075ULL }, { 2, 0, "", 137789325775106ULL, 137789325775075ULL }, { 7, 0, "", 451500774455704315ULL, 260155333313826ULL }, { 2, 0, "", 260155333313857ULL, 260155333313826ULL }, { 7, 0, "", 16571009276220164605ULL, 137789325775075ULL }, { 2, 0, "", 137789325775106ULL, 137789325775075ULL }, { 0, 1, "*", 1ULL, 260155333313826ULL }, { 0, 1, "*", 1ULL, 260155333313826ULL }, { 0, 1, "*", 1ULL, 137789325775075ULL }, { 0, 1, "*", 1ULL, 137789325775075ULL }, { 0, 1, "*", 1ULL, 260155333313826ULL }, { 0, 1, "*", 1ULL, 260155333313826ULL }, { 0, 1, "*", 1ULL, 137789325775075ULL }, { 0, 1, "*", 1ULL, 137789325775075ULL }, { 0, 1, "*", 1ULL, 260155333313826ULL }, { 0, 1, "*", 1ULL, 260155333313826ULL }, { 0, 1, "*", 1ULL, 137789325775075ULL }, { 0, 1, "*", 1ULL, 137789325775075ULL }, { 0, 1, "*", 1ULL, 260155333313826ULL }, { 0, 1, "*", 1ULL, 260155333313826ULL }, { 0, 1, "*", 1ULL, 137789325775075ULL }, { 0, 1, "*", 1ULL, 137789325775075ULL } };
JOB2(prog38) { run(s, "p38_main", E38); }
static const Exp E39[] = { { 7, 0, "", 506447ULL, 410579834677435ULL }, { 7, 0, "", 6122318348523720979ULL, 1081484731749567ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 7, 0, "", 506447ULL, 410579834677435ULL }, { 7, 0, "", 916639279ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 7, 0, "", 506447ULL, 410579834677435ULL }, { 7, 0, "", 16059140928625893900ULL, 1263296370810698ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 7, 0, "", 506447ULL, 410579834677435ULL }, { 7, 0, "", 916639279ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 7117167723706611ULL, 1081484731749567ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 992ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 7974301709707853806ULL, 1263296370810698ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 992ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 7, 0, "", 506447ULL, 410579834677435ULL }, { 7, 0, "", 6122318348523720979ULL, 1081484731749567ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 7, 0, "", 506447ULL, 410579834677435ULL }, { 7, 0, "", 916639279ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 7, 0, "", 506447ULL, 410579834677435ULL }, { 7, 0, "", 7462130035073459443ULL, 1081484731749567ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 7, 0, "", 506447ULL, 410579834677435ULL }, { 7, 0, "", 916639279ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 7117167723706611ULL, 1081484731749567ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 992ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 14507367554589015968ULL, 1081484731749567ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 0ULL, 410579834677435ULL }, { 0, 2, "M16", 992ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL }, { 1, 0, "", 0ULL, 410579834677435ULL } };
JOB2(prog39) { run(s, "p39_main", E39); }
static const Exp E40[] = { { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 7, 0, "", 505061417376089ULL, 914048206542828ULL }, { 7, 0, "", 505064137145434ULL, 914048206542828ULL }, { 8, 0, "", 3725890ULL, 156456083262231ULL }, { 8, 0, "", 2832160ULL, 156456083262231ULL }, { 8, 0, "", 3725890ULL, 156456083262231ULL }, { 8, 0, "", 2832160ULL, 156456083262231ULL }, { 8, 0, "", 3725890ULL, 156456083262231ULL }, { 8, 0, "", 2832160ULL, 156456083262231ULL }, { 8, 0, "", 3725890ULL, 156456083262231ULL }, { 8, 0, "", 2832160ULL, 156456083262231ULL }, { 7, 0, "", 18322873940470074712ULL, 1421864009499053ULL }, { 7, 0, "", 17560619633577929782ULL, 1421864009499053ULL }, { 7, 0, "", 1385235202627592497ULL, 1908919041642260ULL }, { 0, 1, "*", 2832160ULL, 643511115405438ULL }, { 7, 0, "", 18322873940470074712ULL, 1421864009499053ULL }, { 7, 0, "", 17560619633577929782ULL, 1421864009499053ULL }, { 7, 0, "", 1385235202627592497ULL, 1908919041642260ULL }, { 0, 1, "*", 2832160ULL, 643511115405438ULL }, { 8, 0, "", 3725890ULL, 156456083262231ULL }, { 8, 0, "", 2832160ULL, 156456083262231ULL }, { 8, 0, "", 3725890ULL, 156456083262231ULL }, { 8, 0, "", 2832160ULL, 156456083262231ULL }, { 8, 0, "", 3725890ULL, 156456083262231ULL }, { 8, 0, "", 2832160ULL, 156456083262231ULL }, { 8, 0, "", 3725890ULL, 156456083262231ULL }, { 8, 0, "", 2832160ULL, 156456083262231ULL }, { 0, 1, "*", 3725890ULL, 156456083262231ULL }, { 0, 1, "*", 2832160ULL, 156456083262231ULL }, { 5, 0, "", 3725890ULL, 643511115405438ULL }, { 0, 1, "*", 2832160ULL, 643511115405438ULL }, { 0, 1, "*", 3725890ULL, 156456083262231ULL }, { 0, 1, "*", 2832160ULL, 156456083262231ULL }, { 5, 0, "", 3725890ULL, 643511115405438ULL }, { 0, 1, "*", 2832160ULL, 643511115405438ULL } };
JOB2(prog40) { run(s, "p40_main", E40); }
static const Exp E41[] = { { 0, 2, "M8", 22302756835370085ULL, 1318048255439853ULL }, { 0, 2, "M8", 15544540458130785ULL, 1106853993646440ULL }, { 0, 2, "M8", 22302756835370085ULL, 1318048255439853ULL }, { 0, 2, "M8", 15544540458130785ULL, 1106853993646440ULL }, { 0, 2, "M8", 22302756835370085ULL, 1318048255439853ULL }, { 0, 2, "M8", 15544540458130785ULL, 1106853993646440ULL }, { 0, 2, "M8", 22302756835370085ULL, 1318048255439853ULL }, { 0, 2, "M8", 15544540458130785ULL, 1106853993646440ULL }, { 0, 2, "M8", 7418989751742294700ULL, 1318048255439853ULL }, { 0, 2, "M8", 7951912498058174458ULL, 1106853993646440ULL }, { 0, 1, "Error", 3439192207875ULL, 485766889311752ULL }, { 0, 1, "Error", 3439192207875ULL, 485766889311752ULL }, { 0, 2, "M8", 7418989751742294700ULL, 1318048255439853ULL }, { 0, 2, "M8", 7951912498058174458ULL, 1106853993646440ULL }, { 0, 1, "Error", 3439192207875ULL, 485766889311752ULL }, { 0, 1, "Error", 3439192207875ULL, 485766889311752ULL }, { 0, 2, "M8", 48531742451959941ULL, 1318048255439853ULL }, { 0, 2, "M8", 828643094572416321ULL, 1106853993646440ULL }, { 0, 2, "M8", 48531742451959941ULL, 1318048255439853ULL }, { 0, 2, "M8", 828643094572416321ULL, 1106853993646440ULL }, { 0, 2, "M8", 48531742451959941ULL, 1318048255439853ULL }, { 0, 2, "M8", 828643094572416321ULL, 1106853993646440ULL }, { 0, 2, "M8", 48531742451959941ULL, 1318048255439853ULL }, { 0, 2, "M8", 828643094572416321ULL, 1106853993646440ULL }, { 0, 2, "M8", 1620709260555917385ULL, 1318048255439853ULL }, { 0, 2, "M8", 12672658008375993853ULL, 1106853993646440ULL }, { 0, 1, "Error", 880433205216ULL, 485766889311752ULL }, { 0, 1, "Error", 880433205216ULL, 485766889311752ULL }, { 0, 2, "M8", 1620709260555917385ULL, 1318048255439853ULL }, { 0, 2, "M8", 12672658008375993853ULL, 1106853993646440ULL }, { 0, 1, "Error", 880433205216ULL, 485766889311752ULL }, { 0, 1, "Error", 880433205216ULL, 485766889311752ULL }, { 0, 1, "Error", 5ULL, 971326851903882ULL }, { 0, 1, "Error", 161ULL, 760132590110469ULL }, { 0, 1, "Error", 5ULL, 971326851903882ULL }, { 0, 1, "Error", 161ULL, 760132590110469ULL }, { 0, 1, "Error", 5ULL, 971326851903882ULL }, { 0, 1, "Error", 161ULL, 760132590110469ULL }, { 0, 1, "Error", 5ULL, 971326851903882ULL }, { 0, 1, "Error", 161ULL, 760132590110469ULL }, { 0, 1, "Error", 2541484812408499212ULL, 971326851903882ULL }, { 0, 1, "Error", 4999052889825269114ULL, 760132590110469ULL }, { 0, 1, "Error", 3439192207875ULL, 485766889311752ULL }, { 0, 1, "Error", 3439192207875ULL, 485766889311752ULL }, { 0, 1, "Error", 2541484812408499212ULL, 971326851903882ULL }, { 0, 1, "Error", 4999052889825269114ULL, 760132590110469ULL }, { 0, 1, "Error", 3439192207875ULL, 485766889311752ULL }, { 0, 1, "Error", 3439192207875ULL, 485766889311752ULL }, { 0, 1, "*", 27293429361701ULL, 971326851903882ULL }, { 0, 1, "*", 846096310212737ULL, 760132590110469ULL }, { 0, 1, "*", 27293429361701ULL, 971326851903882ULL }, { 0, 1, "*", 846096310212737ULL, 760132590110469ULL }, { 0, 1, "*", 27293429361701ULL, 971326851903882ULL }, { 0, 1, "*", 846096310212737ULL, 760132590110469ULL }, { 0, 1, "*", 27293429361701ULL, 971326851903882ULL }, { 0, 1, "*", 846096310212737ULL, 760132590110469ULL }, { 0, 1, "Error", 1978785687924874473ULL, 971326851903882ULL }, { 0, 1, "Error", 6002124104542453821ULL, 760132590110469ULL }, { 0, 1, "Error", 880433205216ULL, 485766889311752ULL }, { 0, 1, "Error", 880433205216ULL, 485766889311752ULL }, { 0, 1, "Error", 1978785687924874473ULL, 971326851903882ULL }, { 0, 1, "Error", 6002124104542453821ULL, 760132590110469ULL }, { 0, 1, "Error", 880433205216ULL, 485766889311752ULL }, { 0, 1, "Error", 880433205216ULL, 485766889311752ULL } };
JOB2(prog41) { run(s, "p41_main", E41); }
static const Exp E42[] = { { 7, 0, "", 9312937259373369850ULL, 3006824479198047ULL }, { 7, 0, "", 2771363462462737846ULL, 3721487315365088ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 7, 0, "", 9312937259373369850ULL, 3006824479198047ULL }, { 7, 0, "", 1584046488852808438ULL, 3348031259741253ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 7, 0, "", 9312937259373369850ULL, 3006824479198047ULL }, { 7, 0, "", 2771363462462737846ULL, 3721487315365088ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 7, 0, "", 9312937259373369850ULL, 3006824479198047ULL }, { 7, 0, "", 8675344263880992083ULL, 3287337034999942ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 7, 0, "", 9312937259373369850ULL, 3006824479198047ULL }, { 7, 0, "", 2771363462462737846ULL, 3721487315365088ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 7, 0, "", 9312937259373369850ULL, 3006824479198047ULL }, { 7, 0, "", 3582979546230663148ULL, 3721487315365088ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 7, 0, "", 9312937259373369850ULL, 3006824479198047ULL }, { 7, 0, "", 2771363462462737846ULL, 3721487315365088ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 7, 0, "", 9312937259373369850ULL, 3006824479198047ULL }, { 7, 0, "", 8675344263880992083ULL, 3287337034999942ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 0, 1, "M7", 5766ULL, 0ULL }, { 7, 0, "", 12942799294434029835ULL, 2637525256168620ULL }, { 7, 0, "", 10785502084569281208ULL, 3352188092335661ULL }, { 0, 1, "*", 93ULL, 0ULL }, { 2, 0, "", 31ULL, 23936660013771ULL }, { 7, 0, "", 12942799294434029835ULL, 2637525256168620ULL }, { 7, 0, "", 5992133297916563591ULL, 2978732036711826ULL }, { 0, 1, "*", 93ULL, 0ULL }, { 2, 0, "", 31ULL, 23936660013771ULL }, { 7, 0, "", 12942799294434029835ULL, 2637525256168620ULL }, { 7, 0, "", 10785502084569281208ULL, 3352188092335661ULL }, { 0, 1, "*", 93ULL, 0ULL }, { 2, 0, "", 31ULL, 23936660013771ULL }, { 7, 0, "", 12942799294434029835ULL, 2637525256168620ULL }, { 7, 0, "", 14348344997518990466ULL, 2918037811970515ULL }, { 0, 1, "*", 93ULL, 0ULL }, { 2, 0, "", 31ULL, 23936660013771ULL }, { 7, 0, "", 12942799294434029835ULL, 2637525256168620ULL }, { 7, 0, "", 10785502084569281208ULL, 3352188092335661ULL }, { 0, 1, "*", 93ULL, 0ULL }, { 2, 0, "", 31ULL, 23936660013771ULL }, { 7, 0, "", 12942799294434029835ULL, 2637525256168620ULL }, { 7, 0, "", 16374506462734997764ULL, 3352188092335661ULL }, { 0, 1, "*", 93ULL, 0ULL }, { 2, 0, "", 31ULL, 23936660013771ULL }, { 7, 0, "", 12942799294434029835ULL, 2637525256168620ULL }, { 7, 0, "", 10785502084569281208ULL, 3352188092335661ULL }, { 0, 1, "*", 93ULL, 0ULL }, { 2, 0, "", 31ULL, 23936660013771ULL }, { 7, 0, "", 12942799294434029835ULL, 2637525256168620ULL }, { 7, 0, "", 14348344997518990466ULL, 2918037811970515ULL }, { 0, 1, "*", 93ULL, 0ULL }, { 2, 0, "", 31ULL, 23936660013771ULL } };
JOB2(prog42) { run(s, "p42_main", E42); }
static const Exp E43[] = { { 7, 0, "", 14923829923815522430ULL, 1787215551774006ULL }, { 7, 0, "", 2086590238661704133ULL, 1787215551774006ULL }, { 7, 0, "", 14923829923815522430ULL, 1787215551774006ULL }, { 7, 0, "", 2086590238661704133ULL, 1787215551774006ULL }, { 7, 0, "", 14923829923815522430ULL, 1787215551774006ULL }, { 7, 0, "", 2086590238661704133ULL, 1787215551774006ULL }, { 7, 0, "", 14923829923815522430ULL, 1787215551774006ULL }, { 7, 0, "", 2086590238661704133ULL, 1787215551774006ULL }, { 7, 0, "", 14923829923815522430ULL, 1787215551774006ULL }, { 7, 0, "", 2086590238661704133ULL, 1787215551774006ULL }, { 7, 0, "", 14923829923815522430ULL, 1787215551774006ULL }, { 7, 0, "", 2086590238661704133ULL, 1787215551774006ULL }, { 7, 0, "", 14923829923815522430ULL, 1787215551774006ULL }, { 7, 0, "", 2086590238661704133ULL, 1787215551774006ULL }, { 7, 0, "", 14923829923815522430ULL, 1787215551774006ULL }, { 7, 0, "", 2086590238661704133ULL, 1787215551774006ULL }, { 7, 0, "", 15952644550148304099ULL, 1787215551774006ULL }, { 2, 0, "", 388318629834862590ULL, 1245174657931587ULL }, { 7, 0, "", 15952644550148304099ULL, 1787215551774006ULL }, { 2, 0, "", 388318629834862590ULL, 1245174657931587ULL }, { 7, 0, "", 15952644550148304099ULL, 1787215551774006ULL }, { 2, 0, "", 388318629834862590ULL, 1245174657931587ULL }, { 7, 0, "", 15952644550148304099ULL, 1787215551774006ULL }, { 2, 0, "", 388318629834862590ULL, 1245174657931587ULL }, { 7, 0, "", 15952644550148304099ULL, 1787215551774006ULL }, { 2, 0, "", 388318629834862590ULL, 1245174657931587ULL }, { 7, 0, "", 15952644550148304099ULL, 1787215551774006ULL }, { 2, 0, "", 388318629834862590ULL, 1245174657931587ULL }, { 7, 0, "", 15952644550148304099ULL, 1787215551774006ULL }, { 2, 0, "", 388318629834862590ULL, 1245174657931587ULL }, { 7, 0, "", 15952644550148304099ULL, 1787215551774006ULL }, { 2, 0, "", 388318629834862590ULL, 1245174657931587ULL }, { 7, 0, "", 0ULL, 979900313034008ULL }, { 7, 0, "", 5797ULL, 979900313034008ULL }, { 7, 0, "", 0ULL, 979900313034008ULL }, { 7, 0, "", 5797ULL, 979900313034008ULL }, { 7, 0, "", 0ULL, 979900313034008ULL }, { 7, 0, "", 5797ULL, 979900313034008ULL }, { 7, 0, "", 0ULL, 979900313034008ULL }, { 7, 0, "", 5797ULL, 979900313034008ULL }, { 7, 0, "", 0ULL, 979900313034008ULL }, { 7, 0, "", 5797ULL, 979900313034008ULL }, { 7, 0, "", 0ULL, 979900313034008ULL }, { 7, 0, "", 5797ULL, 979900313034008ULL }, { 7, 0, "", 0ULL, 979900313034008ULL }, { 7, 0, "", 5797ULL, 979900313034008ULL }, { 7, 0, "", 0ULL, 979900313034008ULL }, { 7, 0, "", 5797ULL, 979900313034008ULL }, { 7, 0, "", 2662511043ULL, 979900313034008ULL }, { 2, 0, "", 0ULL, 437859419191589ULL }, { 7, 0, "", 2662511043ULL, 979900313034008ULL }, { 2, 0, "", 0ULL, 437859419191589ULL }, { 7, 0, "", 2662511043ULL, 979900313034008ULL }, { 2, 0, "", 0ULL, 437859419191589ULL }, { 7, 0, "", 2662511043ULL, 979900313034008ULL }, { 2, 0, "", 0ULL, 437859419191589ULL }, { 7, 0, "", 2662511043ULL, 979900313034008ULL }, { 2, 0, "", 0ULL, 437859419191589ULL }, { 7, 0, "", 2662511043ULL, 979900313034008ULL }, { 2, 0, "", 0ULL, 437859419191589ULL }, { 7, 0, "", 2662511043ULL, 979900313034008ULL }, { 2, 0, "", 0ULL, 437859419191589ULL }, { 7, 0, "", 2662511043ULL, 979900313034008ULL }, { 2, 0, "", 0ULL, 437859419191589ULL } };
JOB2(prog43) { run(s, "p43_main", E43); }
static const Exp E44[] = { { 0, 1, "*", 15325905361797501049ULL, 908974561039011ULL }, { 7, 0, "", 15325905361797501049ULL, 908974561039011ULL }, { 0, 1, "M2", 0ULL, 886003869915549ULL }, { 0, 1, "M2", 0ULL, 886003869915549ULL }, { 0, 1, "*", 15325905361797501049ULL, 908974561039011ULL }, { 7, 0, "", 15325905361797501049ULL, 908974561039011ULL }, { 0, 1, "M2", 0ULL, 886003869915549ULL }, { 0, 1, "M2", 0ULL, 886003869915549ULL }, { 0, 1, "*", 13879630779622097817ULL, 487961017535152ULL }, { 7, 0, "", 13879630779622097817ULL, 487961017535152ULL }, { 0, 1, "M2", 0ULL, 464990326411690ULL }, { 0, 1, "M2", 0ULL, 464990326411690ULL }, { 0, 1, "*", 13879630779622097817ULL, 487961017535152ULL }, { 7, 0, "", 13879630779622097817ULL, 487961017535152ULL }, { 0, 1, "M2", 0ULL, 464990326411690ULL }, { 0, 1, "M2", 0ULL, 464990326411690ULL }, { 0, 1, "*", 1950707842823687129ULL, 874518524353818ULL }, { 7, 0, "", 1950707842823687129ULL, 874518524353818ULL }, { 0, 1, "*", 1950707842823687129ULL, 874518524353818ULL }, { 7, 0, "", 1950707842823687129ULL, 874518524353818ULL }, { 0, 1, "*", 1950707842823687129ULL, 874518524353818ULL }, { 7, 0, "", 1950707842823687129ULL, 874518524353818ULL }, { 0, 1, "*", 1950707842823687129ULL, 874518524353818ULL }, { 7, 0, "", 1950707842823687129ULL, 874518524353818ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "*", 15325905361797501049ULL, 908974561039011ULL }, { 7, 0, "", 15325905361797501049ULL, 908974561039011ULL }, { 0, 1, "M2", 0ULL, 886003869915549ULL }, { 0, 1, "M2", 0ULL, 886003869915549ULL }, { 0, 1, "*", 15325905361797501049ULL, 908974561039011ULL }, { 7, 0, "", 15325905361797501049ULL, 908974561039011ULL }, { 0, 1, "M2", 0ULL, 886003869915549ULL }, { 0, 1, "M2", 0ULL, 886003869915549ULL }, { 0, 1, "*", 13879630779622097817ULL, 487961017535152ULL }, { 7, 0, "", 13879630779622097817ULL, 487961017535152ULL }, { 0, 1, "M2", 0ULL, 464990326411690ULL }, { 0, 1, "M2", 0ULL, 464990326411690ULL }, { 0, 1, "*", 13879630779622097817ULL, 487961017535152ULL }, { 7, 0, "", 13879630779622097817ULL, 487961017535152ULL }, { 0, 1, "M2", 0ULL, 464990326411690ULL }, { 0, 1, "M2", 0ULL, 464990326411690ULL }, { 0, 1, "*", 1950707842823687129ULL, 874518524353818ULL }, { 7, 0, "", 1950707842823687129ULL, 874518524353818ULL }, { 0, 1, "*", 1950707842823687129ULL, 874518524353818ULL }, { 7, 0, "", 1950707842823687129ULL, 874518524353818ULL }, { 0, 1, "*", 1950707842823687129ULL, 874518524353818ULL }, { 7, 0, "", 1950707842823687129ULL, 874518524353818ULL }, { 0, 1, "*", 1950707842823687129ULL, 874518524353818ULL }, { 7, 0, "", 1950707842823687129ULL, 874518524353818ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL }, { 0, 1, "Error", 0ULL, 453504980849959ULL } };
JOB2(prog44) { run(s, "p44_main", E44); }
static const Exp E45[] = { { 7, 0, "", 9617933505002340131ULL, 2367390330607325ULL }, { 0, 1, "*", 2014950845481786270ULL, 3114113566468715ULL }, { 7, 0, "", 9617933505002340131ULL, 2367390330607325ULL }, { 0, 1, "*", 2014950845481786270ULL, 3114113566468715ULL }, { 7, 0, "", 2199093760622190349ULL, 887998657655414ULL }, { 0, 1, "*", 14556443128911587491ULL, 1406929144994200ULL }, { 7, 0, "", 2199093760622190349ULL, 887998657655414ULL }, { 0, 1, "*", 14556443128911587491ULL, 1406929144994200ULL }, { 7, 0, "", 14299790677733919544ULL, 887998657655414ULL }, { 0, 1, "*", 470131022014260255ULL, 1634721893516804ULL }, { 7, 0, "", 14299790677733919544ULL, 887998657655414ULL }, { 0, 1, "*", 470131022014260255ULL, 1634721893516804ULL }, { 7, 0, "", 33995537875561684ULL, 979922522371453ULL }, { 0, 1, "*", 14556443128911587491ULL, 1406929144994200ULL }, { 7, 0, "", 33995537875561684ULL, 979922522371453ULL }, { 0, 1, "*", 14556443128911587491ULL, 1406929144994200ULL }, { 7, 0, "", 9617933505002340131ULL, 2367390330607325ULL }, { 0, 1, "*", 2014950845481786270ULL, 3114113566468715ULL }, { 7, 0, "", 9617933505002340131ULL, 2367390330607325ULL }, { 0, 1, "*", 2014950845481786270ULL, 3114113566468715ULL }, { 7, 0, "", 2199093760622190349ULL, 887998657655414ULL }, { 0, 1, "*", 14556443128911587491ULL, 1406929144994200ULL }, { 7, 0, "", 2199093760622190349ULL, 887998657655414ULL }, { 0, 1, "*", 14556443128911587491ULL, 1406929144994200ULL }, { 7, 0, "", 14299790677733919544ULL, 887998657655414ULL }, { 0, 1, "*", 470131022014260255ULL, 1634721893516804ULL }, { 7, 0, "", 14299790677733919544ULL, 887998657655414ULL }, { 0, 1, "*", 470131022014260255ULL, 1634721893516804ULL }, { 7, 0, "", 33995537875561684ULL, 979922522371453ULL }, { 0, 1, "*", 14556443128911587491ULL, 1406929144994200ULL }, { 7, 0, "", 33995537875561684ULL, 979922522371453ULL }, { 0, 1, "*", 14556443128911587491ULL, 1406929144994200ULL }, { 7, 0, "", 661968556985558202ULL, 887998657655414ULL }, { 0, 1, "*", 16901785062927170384ULL, 3114113566468715ULL }, { 7, 0, "", 661968556985558202ULL, 887998657655414ULL }, { 0, 1, "*", 16901785062927170384ULL, 3114113566468715ULL }, { 0, 1, "*", 823067535526433ULL, 887998657655414ULL }, { 14, 0, "", 14380432157298163781ULL, 1406929144994200ULL }, { 0, 1, "*", 823067535526433ULL, 887998657655414ULL }, { 14, 0, "", 14380432157298163781ULL, 1406929144994200ULL }, { 7, 0, "", 661968556985558202ULL, 887998657655414ULL }, { 0, 1, "*", 7227424195502880280ULL, 1634721893516804ULL }, { 7, 0, "", 661968556985558202ULL, 887998657655414ULL }, { 0, 1, "*", 7227424195502880280ULL, 1634721893516804ULL }, { 0, 1, "M11", 25983288572702628ULL, 887998657655414ULL }, { 14, 0, "", 14380432157298163781ULL, 1406929144994200ULL }, { 0, 1, "M11", 25983288572702628ULL, 887998657655414ULL }, { 14, 0, "", 14380432157298163781ULL, 1406929144994200ULL }, { 7, 0, "", 661968556985558202ULL, 887998657655414ULL }, { 0, 1, "*", 16901785062927170384ULL, 3114113566468715ULL }, { 7, 0, "", 661968556985558202ULL, 887998657655414ULL }, { 0, 1, "*", 16901785062927170384ULL, 3114113566468715ULL }, { 0, 1, "*", 823067535526433ULL, 887998657655414ULL }, { 14, 0, "", 14380432157298163781ULL, 1406929144994200ULL }, { 0, 1, "*", 823067535526433ULL, 887998657655414ULL }, { 14, 0, "", 14380432157298163781ULL, 1406929144994200ULL }, { 7, 0, "", 661968556985558202ULL, 887998657655414ULL }, { 0, 1, "*", 7227424195502880280ULL, 1634721893516804ULL }, { 7, 0, "", 661968556985558202ULL, 887998657655414ULL }, { 0, 1, "*", 7227424195502880280ULL, 1634721893516804ULL }, { 0, 1, "M11", 25983288572702628ULL, 887998657655414ULL }, { 14, 0, "", 14380432157298163781ULL, 1406929144994200ULL }, { 0, 1, "M11", 25983288572702628ULL, 887998657655414ULL }, { 14, 0, "", 14380432157298163781ULL, 1406929144994200ULL } };
JOB2(prog45) { run(s, "p45_main", E45); }
static const Exp E46[] = { { 0, 1, "M4", 0ULL, 29542092648255ULL }, { 0, 1, "M4", 961ULL, 29542092648255ULL }, { 0, 1, "M4", 0ULL, 29542092648255ULL }, { 0, 1, "M4", 961ULL, 29542092648255ULL }, { 0, 1, "M4", 0ULL, 29542092648255ULL }, { 0, 1, "M4", 961ULL, 29542092648255ULL }, { 0, 1, "M4", 0ULL, 29542092648255ULL }, { 0, 1, "M4", 961ULL, 29542092648255ULL }, { 0, 1, "M4", 0ULL, 29542092648255ULL }, { 0, 1, "M4", 961ULL, 29542092648255ULL }, { 0, 1, "M4", 0ULL, 29542092648255ULL }, { 0, 1, "M4", 961ULL, 29542092648255ULL }, { 0, 1, "M4", 0ULL, 29542092648255ULL }, { 0, 1, "M4", 961ULL, 29542092648255ULL }, { 0, 1, "M4", 0ULL, 29542092648255ULL }, { 0, 1, "M4", 961ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 7, 0, "", 13713965723704689030ULL, 1005484424239998ULL }, { 7, 0, "", 13739374200601093861ULL, 1005484424239998ULL }, { 7, 0, "", 1632034755660662621ULL, 1005484424239998ULL }, { 7, 0, "", 1632854383947643422ULL, 1005484424239998ULL }, { 7, 0, "", 13713965723704689030ULL, 1005484424239998ULL }, { 7, 0, "", 13739374200601093861ULL, 1005484424239998ULL }, { 7, 0, "", 1632034755660662621ULL, 1005484424239998ULL }, { 7, 0, "", 1632854383947643422ULL, 1005484424239998ULL }, { 7, 0, "", 13713965723704689030ULL, 1005484424239998ULL }, { 7, 0, "", 13739374200601093861ULL, 1005484424239998ULL }, { 7, 0, "", 1632034755660662621ULL, 1005484424239998ULL }, { 7, 0, "", 1632854383947643422ULL, 1005484424239998ULL }, { 7, 0, "", 13713965723704689030ULL, 1005484424239998ULL }, { 7, 0, "", 13739374200601093861ULL, 1005484424239998ULL }, { 7, 0, "", 1632034755660662621ULL, 1005484424239998ULL }, { 7, 0, "", 1632854383947643422ULL, 1005484424239998ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL }, { 2, 0, "", 0ULL, 29542092648255ULL }, { 2, 0, "", 1ULL, 29542092648255ULL } };
JOB2(prog46) { run(s, "p46_main", E46); }
static const Exp E47[] = { { 0, 2, "M6", 15073542859533949888ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838865668096ULL, 819450774659744ULL }, { 5, 0, "", 505941965963622ULL, 505941078459817ULL }, { 5, 0, "", 954397ULL, 0ULL }, { 0, 2, "M6", 15073542859533949888ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838865668096ULL, 819450774659744ULL }, { 5, 0, "", 505941965963622ULL, 505941078459817ULL }, { 5, 0, "", 954397ULL, 0ULL }, { 0, 2, "M6", 15073542859533026367ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838864744575ULL, 819450774659744ULL }, { 5, 0, "", 505941965963591ULL, 505941078459817ULL }, { 5, 0, "", 954366ULL, 0ULL }, { 0, 2, "M6", 15073542859533026367ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838864744575ULL, 819450774659744ULL }, { 5, 0, "", 505941965963591ULL, 505941078459817ULL }, { 5, 0, "", 954366ULL, 0ULL }, { 0, 2, "M6", 15073542859533949888ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838865668096ULL, 819450774659744ULL }, { 5, 0, "", 505941965963622ULL, 505941078459817ULL }, { 5, 0, "", 954397ULL, 0ULL }, { 0, 2, "M6", 15073542859533949888ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838865668096ULL, 819450774659744ULL }, { 5, 0, "", 505941965963622ULL, 505941078459817ULL }, { 5, 0, "", 954397ULL, 0ULL }, { 0, 2, "M6", 15073542859533026367ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838864744575ULL, 819450774659744ULL }, { 5, 0, "", 505941965963591ULL, 505941078459817ULL }, { 5, 0, "", 954366ULL, 0ULL }, { 0, 2, "M6", 15073542859533026367ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838864744575ULL, 819450774659744ULL }, { 5, 0, "", 505941965963591ULL, 505941078459817ULL }, { 5, 0, "", 954366ULL, 0ULL }, { 0, 2, "M6", 15073542859533949888ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838865668096ULL, 819450774659744ULL }, { 5, 0, "", 505941965963622ULL, 505941078459817ULL }, { 5, 0, "", 954397ULL, 0ULL }, { 0, 2, "M6", 15073542859533949888ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838865668096ULL, 819450774659744ULL }, { 5, 0, "", 505941965963622ULL, 505941078459817ULL }, { 5, 0, "", 954397ULL, 0ULL }, { 0, 2, "M6", 15073542859533026367ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838864744575ULL, 819450774659744ULL }, { 5, 0, "", 505941965963591ULL, 505941078459817ULL }, { 5, 0, "", 954366ULL, 0ULL }, { 0, 2, "M6", 15073542859533026367ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838864744575ULL, 819450774659744ULL }, { 5, 0, "", 505941965963591ULL, 505941078459817ULL }, { 5, 0, "", 954366ULL, 0ULL }, { 0, 2, "M6", 15073542859533949888ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838865668096ULL, 819450774659744ULL }, { 5, 0, "", 505941965963622ULL, 505941078459817ULL }, { 5, 0, "", 954397ULL, 0ULL }, { 0, 2, "M6", 15073542859533949888ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838865668096ULL, 819450774659744ULL }, { 5, 0, "", 505941965963622ULL, 505941078459817ULL }, { 5, 0, "", 954397ULL, 0ULL }, { 0, 2, "M6", 15073542859533026367ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838864744575ULL, 819450774659744ULL }, { 5, 0, "", 505941965963591ULL, 505941078459817ULL }, { 5, 0, "", 954366ULL, 0ULL }, { 0, 2, "M6", 15073542859533026367ULL, 1325391853119561ULL }, { 0, 2, "M6", 519838864744575ULL, 819450774659744ULL }, { 5, 0, "", 505941965963591ULL, 505941078459817ULL }, { 5, 0, "", 954366ULL, 0ULL } };
JOB2(prog47) { run(s, "p47_main", E47); }
static const Exp E48[] = { { 7, 0, "", 2587566268830012060ULL, 1484236698673515ULL }, { 7, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 7, 0, "", 2587566268830012060ULL, 1484236698673515ULL }, { 7, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 7, 0, "", 2587566268830012060ULL, 1484236698673515ULL }, { 7, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 7, 0, "", 2587566268830012060ULL, 1484236698673515ULL }, { 7, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 7, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 7, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 7, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 7, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 13, 0, "", 2587566268830012060ULL, 1484236698673515ULL }, { 13, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 13, 0, "", 2587566268830012060ULL, 1484236698673515ULL }, { 13, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 13, 0, "", 2587566268830012060ULL, 1484236698673515ULL }, { 13, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 13, 0, "", 2587566268830012060ULL, 1484236698673515ULL }, { 13, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 13, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 13, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 13, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 13, 0, "", 2892502501930590925ULL, 560884704458330ULL }, { 14, 0, "", 7251252044976975857ULL, 1227067476323988ULL }, { 14, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 14, 0, "", 7251252044976975857ULL, 1227067476323988ULL }, { 14, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 14, 0, "", 7251252044976975857ULL, 1227067476323988ULL }, { 14, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 14, 0, "", 7251252044976975857ULL, 1227067476323988ULL }, { 14, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 14, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 14, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 14, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 14, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 13, 0, "", 7251252044976975857ULL, 1227067476323988ULL }, { 13, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 13, 0, "", 7251252044976975857ULL, 1227067476323988ULL }, { 13, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 13, 0, "", 7251252044976975857ULL, 1227067476323988ULL }, { 13, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 13, 0, "", 7251252044976975857ULL, 1227067476323988ULL }, { 13, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 13, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 13, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 13, 0, "", 7622903543069388791ULL, 303715482108803ULL }, { 3, 0, "", 29791ULL, 300469528206922ULL }, { 13, 0, "", 7622903543069388791ULL, 303715482108803ULL } };
JOB2(prog48) { run(s, "p48_main", E48); }
static const Exp E49[] = { { 0, 2, "M24", 18367021141751006110ULL, 3969979426960536ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "*", 8050246646564749558ULL, 2318576358130569ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 2, "M24", 5359685824588583781ULL, 3847126706658935ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "*", 8050246646564749558ULL, 2318576358130569ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "*", 1937610303432373924ULL, 1724705352965785ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "*", 3902851904479236215ULL, 694267632199358ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 2, "M24", 17502076597607300270ULL, 2222817980727724ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "*", 3902851904479236215ULL, 694267632199358ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 2, "M24", 18367021141751006110ULL, 3969979426960536ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "*", 8050246646564749558ULL, 2318576358130569ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 2, "M24", 5359685824588583781ULL, 3847126706658935ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "*", 8050246646564749558ULL, 2318576358130569ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "*", 1937610303432373924ULL, 1724705352965785ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "*", 3902851904479236215ULL, 694267632199358ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 2, "M24", 17502076597607300270ULL, 2222817980727724ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "*", 3902851904479236215ULL, 694267632199358ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 2, "M24", 5470598690785775042ULL, 5172831777722128ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "*", 12204895935862817714ULL, 3521428708892161ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 2, "M8", 13945904573081493747ULL, 2290132936776147ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 2, "M8", 13945904573081493747ULL, 2290132936776147ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "*", 10364867617080535216ULL, 2927557703727377ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "*", 9550745448943199723ULL, 1897119982960950ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 2, "M8", 390093494520901ULL, 785796684445869ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 2, "M8", 390093494520901ULL, 785796684445869ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "Error", 13945904573081493747ULL, 2290132936776147ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "Error", 13945904573081493747ULL, 2290132936776147ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "Error", 13945904573081493747ULL, 2290132936776147ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "Error", 13945904573081493747ULL, 2290132936776147ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "Error", 390093494520901ULL, 785796684445869ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "Error", 390093494520901ULL, 785796684445869ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "Error", 390093494520901ULL, 785796684445869ULL }, { 2, 0, "", 31ULL, 0ULL }, { 0, 1, "Error", 390093494520901ULL, 785796684445869ULL }, { 2, 0, "", 31ULL, 0ULL } };
JOB2(prog49) { run(s, "p49_main", E49); }
static const Exp E50[] = { { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 1347990981410507657ULL, 1126263509919323ULL }, { 7, 0, "", 1347990981410507689ULL, 1126263509919323ULL }, { 7, 0, "", 1348041301981716676ULL, 1126263509919323ULL }, { 7, 0, "", 1348041301981716708ULL, 1126263509919323ULL }, { 7, 0, "", 1347990981410507657ULL, 1126263509919323ULL }, { 7, 0, "", 1347990981410507689ULL, 1126263509919323ULL }, { 7, 0, "", 1348041301981716676ULL, 1126263509919323ULL }, { 7, 0, "", 1348041301981716708ULL, 1126263509919323ULL }, { 7, 0, "", 1347990981410507657ULL, 1126263509919323ULL }, { 7, 0, "", 1347990981410507689ULL, 1126263509919323ULL }, { 7, 0, "", 1348041301981716676ULL, 1126263509919323ULL }, { 7, 0, "", 1348041301981716708ULL, 1126263509919323ULL }, { 7, 0, "", 1347990981410507657ULL, 1126263509919323ULL }, { 7, 0, "", 1347990981410507689ULL, 1126263509919323ULL }, { 7, 0, "", 1348041301981716676ULL, 1126263509919323ULL }, { 7, 0, "", 1348041301981716708ULL, 1126263509919323ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 4803078ULL, 975848750301422ULL }, { 7, 0, "", 4803110ULL, 975848750301422ULL }, { 7, 0, "", 1347990981410507657ULL, 1126263509919323ULL }, { 7, 0, "", 1347990981410507689ULL, 1126263509919323ULL }, { 7, 0, "", 1347988451137513126ULL, 1126263509919323ULL }, { 7, 0, "", 1347988451137513158ULL, 1126263509919323ULL }, { 7, 0, "", 1347990981410507657ULL, 1126263509919323ULL }, { 7, 0, "", 1347990981410507689ULL, 1126263509919323ULL }, { 7, 0, "", 1347988451137513126ULL, 1126263509919323ULL }, { 7, 0, "", 1347988451137513158ULL, 1126263509919323ULL }, { 7, 0, "", 1347990981410507657ULL, 1126263509919323ULL }, { 7, 0, "", 1347990981410507689ULL, 1126263509919323ULL }, { 7, 0, "", 1347988451137513126ULL, 1126263509919323ULL }, { 7, 0, "", 1347988451137513158ULL, 1126263509919323ULL }, { 7, 0, "", 1347990981410507657ULL, 1126263509919323ULL }, { 7, 0, "", 1347990981410507689ULL, 1126263509919323ULL }, { 7, 0, "", 1347988451137513126ULL, 1126263509919323ULL }, { 7, 0, "", 1347988451137513158ULL, 1126263509919323ULL } };
JOB2(prog50) { run(s, "p50_main", E50); }
static const Exp E51[] = { { 7, 0, "", 1775007362ULL, 98402952132587ULL }, { 7, 0, "", 1775007362ULL, 98402952132587ULL }, { 5, 0, "", 57258302ULL, 98402952132587ULL }, { 5, 0, "", 57258302ULL, 98402952132587ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 7, 0, "", 10243224479380209093ULL, 647419706181720ULL }, { 7, 0, "", 10243224479380209093ULL, 647419706181720ULL }, { 5, 0, "", 6876027750755846056ULL, 647419706181720ULL }, { 5, 0, "", 6876027750755846056ULL, 647419706181720ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 7, 0, "", 1775007362ULL, 98402952132587ULL }, { 7, 0, "", 1775007362ULL, 98402952132587ULL }, { 5, 0, "", 57258302ULL, 98402952132587ULL }, { 5, 0, "", 57258302ULL, 98402952132587ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 7, 0, "", 10243224479380209093ULL, 647419706181720ULL }, { 7, 0, "", 10243224479380209093ULL, 647419706181720ULL }, { 5, 0, "", 6876027750755846056ULL, 647419706181720ULL }, { 5, 0, "", 6876027750755846056ULL, 647419706181720ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 7, 0, "", 1775007362ULL, 98402952132587ULL }, { 7, 0, "", 1775007362ULL, 98402952132587ULL }, { 5, 0, "", 57258302ULL, 98402952132587ULL }, { 5, 0, "", 57258302ULL, 98402952132587ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 7, 0, "", 17570244574188933ULL, 647419706181720ULL }, { 7, 0, "", 17570244574188933ULL, 647419706181720ULL }, { 5, 0, "", 549071865165800ULL, 647419706181720ULL }, { 5, 0, "", 549071865165800ULL, 647419706181720ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 7, 0, "", 1775007362ULL, 98402952132587ULL }, { 7, 0, "", 1775007362ULL, 98402952132587ULL }, { 5, 0, "", 57258302ULL, 98402952132587ULL }, { 5, 0, "", 57258302ULL, 98402952132587ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 7, 0, "", 17570244574188933ULL, 647419706181720ULL }, { 7, 0, "", 17570244574188933ULL, 647419706181720ULL }, { 5, 0, "", 549071865165800ULL, 647419706181720ULL }, { 5, 0, "", 549071865165800ULL, 647419706181720ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 7, 0, "", 30752ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL }, { 5, 0, "", 992ULL, 98402952132587ULL } };
JOB2(prog51) { run(s, "p51_main", E51); }
static const Exp E52[] = { { 7, 0, "", 11273967782119922333ULL, 2045295340685192ULL }, { 7, 0, "", 11641752559097139839ULL, 770188438746564ULL }, { 0, 3, "M3", 292056588778803ULL, 819525441714194ULL }, { 7, 0, "", 11641779851610337951ULL, 770188438746564ULL }, { 0, 3, "M4", 9345810810415712ULL, 292056587825491ULL }, { 7, 0, "", 11641752559097139839ULL, 770188438746564ULL }, { 0, 3, "M4", 9345810839968384ULL, 292056587825491ULL }, { 7, 0, "", 11641779851610337951ULL, 770188438746564ULL }, { 7, 0, "", 11273967782119922333ULL, 2045295340685192ULL }, { 7, 0, "", 11641752559097139839ULL, 770188438746564ULL }, { 0, 3, "M3", 292056588778803ULL, 819525441714194ULL }, { 7, 0, "", 11641779851610337951ULL, 770188438746564ULL }, { 0, 3, "M4", 9345810810415712ULL, 292056587825491ULL }, { 7, 0, "", 11641752559097139839ULL, 770188438746564ULL }, { 0, 3, "M4", 9345810839968384ULL, 292056587825491ULL }, { 7, 0, "", 11641779851610337951ULL, 770188438746564ULL }, { 7, 0, "", 8755932836117001266ULL, 2045295340685192ULL }, { 7, 0, "", 8715129415254965170ULL, 770188438746564ULL }, { 0, 3, "M3", 292056588778803ULL, 819525441714194ULL }, { 7, 0, "", 8715129443655082962ULL, 770188438746564ULL }, { 0, 1, "M2", 292056587825491ULL, 292056587825491ULL }, { 7, 0, "", 8715129415254965170ULL, 770188438746564ULL }, { 0, 1, "M2", 292056588778803ULL, 292056587825491ULL }, { 7, 0, "", 8715129443655082962ULL, 770188438746564ULL }, { 7, 0, "", 8755932836117001266ULL, 2045295340685192ULL }, { 7, 0, "", 8715129415254965170ULL, 770188438746564ULL }, { 0, 3, "M3", 292056588778803ULL, 819525441714194ULL }, { 7, 0, "", 8715129443655082962ULL, 770188438746564ULL }, { 0, 1, "M2", 292056587825491ULL, 292056587825491ULL }, { 7, 0, "", 8715129415254965170ULL, 770188438746564ULL }, { 0, 1, "M2", 292056588778803ULL, 292056587825491ULL }, { 7, 0, "", 8715129443655082962ULL, 770188438746564ULL }, { 7, 0, "", 11274007218120154856ULL, 2084731340917715ULL }, { 7, 0, "", 11641791995097372362ULL, 809624438979087ULL }, { 0, 3, "M3", 292056588778803ULL, 819525441714194ULL }, { 7, 0, "", 11641819287610570474ULL, 809624438979087ULL }, { 0, 3, "M4", 9345810810415712ULL, 292056587825491ULL }, { 7, 0, "", 11641791995097372362ULL, 809624438979087ULL }, { 0, 3, "M4", 9345810839968384ULL, 292056587825491ULL }, { 7, 0, "", 11641819287610570474ULL, 809624438979087ULL }, { 0, 1, "*", 11274325168829346483ULL, 2084731340917715ULL }, { 0, 1, "*", 11642109945806563989ULL, 809624438979087ULL }, { 0, 3, "M3", 292056588778803ULL, 819525441714194ULL }, { 0, 1, "*", 11642137238319762101ULL, 809624438979087ULL }, { 0, 3, "M4", 9345810810415712ULL, 292056587825491ULL }, { 0, 1, "*", 11642109945806563989ULL, 809624438979087ULL }, { 0, 3, "M4", 9345810839968384ULL, 292056587825491ULL }, { 0, 1, "*", 11642137238319762101ULL, 809624438979087ULL }, { 7, 0, "", 8755972272117233789ULL, 2084731340917715ULL }, { 7, 0, "", 8715168851255197693ULL, 809624438979087ULL }, { 0, 3, "M3", 292056588778803ULL, 819525441714194ULL }, { 7, 0, "", 8715168879655315485ULL, 809624438979087ULL }, { 0, 1, "M2", 292056587825491ULL, 292056587825491ULL }, { 7, 0, "", 8715168851255197693ULL, 809624438979087ULL }, { 0, 1, "M2", 292056588778803ULL, 292056587825491ULL }, { 7, 0, "", 8715168879655315485ULL, 809624438979087ULL }, { 0, 1, "*", 8756290222826425416ULL, 2084731340917715ULL }, { 0, 1, "*", 8715486801964389320ULL, 809624438979087ULL }, { 0, 3, "M3", 292056588778803ULL, 819525441714194ULL }, { 0, 1, "*", 8715486830364507112ULL, 809624438979087ULL }, { 0, 1, "M2", 292056587825491ULL, 292056587825491ULL }, { 0, 1, "*", 8715486801964389320ULL, 809624438979087ULL }, { 0, 1, "M2", 292056588778803ULL, 292056587825491ULL }, { 0, 1, "*", 8715486830364507112ULL, 809624438979087ULL } };
JOB2(prog52) { run(s, "p52_main", E52); }
static const Exp E53[] = { { 7, 0, "", 11319062068218843653ULL, 1254224272863550ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 7, 0, "", 18382978518897263328ULL, 1509998529934841ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 7, 0, "", 11319062068218843653ULL, 1254224272863550ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 7, 0, "", 365679834632706341ULL, 1254224272863550ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 7, 0, "", 11319062068218843653ULL, 1254224272863550ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 3, 0, "", 11111012041731040ULL, 632520790481240ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 7, 0, "", 11319062068218843653ULL, 1254224272863550ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 3, 0, "", 11111012041731040ULL, 632520790481240ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 7, 0, "", 7478934989796272840ULL, 989607412394709ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 0, 1, "*", 6013722112560243030ULL, 1245381669466000ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 7, 0, "", 7478934989796272840ULL, 989607412394709ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 0, 1, "*", 15150254257618409691ULL, 989607412394709ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 7, 0, "", 7478934989796272840ULL, 989607412394709ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 3, 0, "", 4659565934109281ULL, 430886446773140ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 7, 0, "", 7478934989796272840ULL, 989607412394709ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 3, 0, "", 4659565934109281ULL, 430886446773140ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 7, 0, "", 11319062068218843653ULL, 1254224272863550ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 7, 0, "", 18382978518897263328ULL, 1509998529934841ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 7, 0, "", 11319062068218843653ULL, 1254224272863550ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 7, 0, "", 365679834632706341ULL, 1254224272863550ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 7, 0, "", 11319062068218843653ULL, 1254224272863550ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 3, 0, "", 11111012041731040ULL, 632520790481240ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 7, 0, "", 11319062068218843653ULL, 1254224272863550ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 3, 0, "", 11111012041731040ULL, 632520790481240ULL }, { 0, 1, "Error", 347219126304095ULL, 632520790481240ULL }, { 7, 0, "", 7478934989796272840ULL, 989607412394709ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 0, 1, "*", 6013722112560243030ULL, 1245381669466000ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 7, 0, "", 7478934989796272840ULL, 989607412394709ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 0, 1, "*", 15150254257618409691ULL, 989607412394709ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 7, 0, "", 7478934989796272840ULL, 989607412394709ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 3, 0, "", 4659565934109281ULL, 430886446773140ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 7, 0, "", 7478934989796272840ULL, 989607412394709ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL }, { 3, 0, "", 4659565934109281ULL, 430886446773140ULL }, { 0, 1, "Error", 145612295210106ULL, 430886446773140ULL } };
JOB2(prog53) { run(s, "p53_main", E53); }
static const Exp E54[] = { { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "*", 3927354815050693281ULL, 748422949045452ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "*", 3927354815050693281ULL, 748422949045452ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "*", 3927354815050693281ULL, 748422949045452ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "*", 3927354815050693281ULL, 748422949045452ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 8, 0, "", 16407830298024085057ULL, 81923990520850ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 8, 0, "", 16407830298024085057ULL, 81923990520850ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 8, 0, "", 16407830298024085057ULL, 81923990520850ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 8, 0, "", 16407830298024085057ULL, 81923990520850ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "*", 16403748436497241728ULL, 748422949045452ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "*", 16403748436497241728ULL, 748422949045452ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "*", 16403748436497241728ULL, 748422949045452ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "*", 16403748436497241728ULL, 748422949045452ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 8, 0, "", 16407830298024092838ULL, 81923990520850ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 8, 0, "", 16407830298024092838ULL, 81923990520850ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 8, 0, "", 16407830298024092838ULL, 81923990520850ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 8, 0, "", 16407830298024092838ULL, 81923990520850ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "M7", 13310677607978434209ULL, 81923990520850ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "M7", 13310677607978434209ULL, 81923990520850ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "M7", 13310677607978434209ULL, 81923990520850ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "M7", 13310677607978434209ULL, 81923990520850ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 0, 1, "M7", 13025463674901101553ULL, 81923990520850ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 0, 1, "M7", 13025463674901101553ULL, 81923990520850ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 0, 1, "M7", 13025463674901101553ULL, 81923990520850ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 0, 1, "M7", 13025463674901101553ULL, 81923990520850ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "M7", 6528795507893019136ULL, 81923990520850ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "M7", 6528795507893019136ULL, 81923990520850ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "M7", 6528795507893019136ULL, 81923990520850ULL }, { 0, 1, "*", 394608420987944384ULL, 679317579268753ULL }, { 0, 1, "M7", 6528795507893019136ULL, 81923990520850ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 0, 1, "M7", 13025463674901101804ULL, 81923990520850ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 0, 1, "M7", 13025463674901101804ULL, 81923990520850ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 0, 1, "M7", 13025463674901101804ULL, 81923990520850ULL }, { 8, 0, "", 12818620744151ULL, 12818620744151ULL }, { 0, 1, "M7", 13025463674901101804ULL, 81923990520850ULL } };
JOB2(prog54) { run(s, "p54_main", E54); }
static const Exp E55[] = { { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 18242795409879619722ULL, 1710404816561296ULL }, { 0, 1, "*", 1804763821366405808ULL, 1305104946420060ULL }, { 0, 1, "*", 7908563524720614734ULL, 1305104946420060ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 18242795409879619722ULL, 1710404816561296ULL }, { 0, 1, "*", 1804763821366405808ULL, 1305104946420060ULL }, { 0, 1, "*", 7908563524720614734ULL, 1305104946420060ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 13415075237764882207ULL, 1710404816561296ULL }, { 0, 1, "*", 1804763821366405808ULL, 1305104946420060ULL }, { 0, 1, "*", 7794202148947898587ULL, 1305104946420060ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 13415075237764882207ULL, 1710404816561296ULL }, { 0, 1, "*", 1804763821366405808ULL, 1305104946420060ULL }, { 0, 1, "*", 7794202148947898587ULL, 1305104946420060ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 18242795409879619722ULL, 1710404816561296ULL }, { 0, 1, "*", 1804763821366405808ULL, 1305104946420060ULL }, { 0, 1, "*", 7908563524720614734ULL, 1305104946420060ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 18242795409879619722ULL, 1710404816561296ULL }, { 0, 1, "*", 1804763821366405808ULL, 1305104946420060ULL }, { 0, 1, "*", 7908563524720614734ULL, 1305104946420060ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 13415075237764882207ULL, 1710404816561296ULL }, { 0, 1, "*", 1804763821366405808ULL, 1305104946420060ULL }, { 0, 1, "*", 7794202148947898587ULL, 1305104946420060ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 13415075237764882207ULL, 1710404816561296ULL }, { 0, 1, "*", 1804763821366405808ULL, 1305104946420060ULL }, { 0, 1, "*", 7794202148947898587ULL, 1305104946420060ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 18242795409879619722ULL, 1710404816561296ULL }, { 0, 1, "*", 15454614039018420330ULL, 1116072577650446ULL }, { 0, 1, "*", 9961041461942293932ULL, 1058547782472468ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 18242795409879619722ULL, 1710404816561296ULL }, { 0, 1, "*", 15454614039018420330ULL, 1116072577650446ULL }, { 0, 1, "*", 9961041461942293932ULL, 1058547782472468ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 13415075237764882207ULL, 1710404816561296ULL }, { 0, 1, "*", 15454614039018420330ULL, 1116072577650446ULL }, { 0, 1, "*", 10031459670221096253ULL, 1058547782472468ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 13415075237764882207ULL, 1710404816561296ULL }, { 0, 1, "*", 15454614039018420330ULL, 1116072577650446ULL }, { 0, 1, "*", 10031459670221096253ULL, 1058547782472468ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 18242795409879619722ULL, 1710404816561296ULL }, { 0, 1, "*", 15454614039018420330ULL, 1116072577650446ULL }, { 0, 1, "Error", 31ULL, 6018248651717ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 18242795409879619722ULL, 1710404816561296ULL }, { 0, 1, "*", 15454614039018420330ULL, 1116072577650446ULL }, { 0, 1, "Error", 31ULL, 6018248651717ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 13415075237764882207ULL, 1710404816561296ULL }, { 0, 1, "*", 15454614039018420330ULL, 1116072577650446ULL }, { 0, 1, "Error", 31ULL, 6018248651717ULL }, { 0, 1, "*", 10018568615332555168ULL, 1710404816561296ULL }, { 0, 1, "*", 13415075237764882207ULL, 1710404816561296ULL }, { 0, 1, "*", 15454614039018420330ULL, 1116072577650446ULL }, { 0, 1, "Error", 31ULL, 6018248651717ULL } };
JOB2(prog55) { run(s, "p55_main", E55); }
static const Exp E56[] = { { 7, 0, "", 1432446743722201693ULL, 761397889715544ULL }, { 0, 1, "Error", 0ULL, 761397889715544ULL }, { 7, 0, "", 1798539825691316221ULL, 761397889715544ULL }, { 0, 1, "Error", 0ULL, 761397889715544ULL }, { 7, 0, "", 16451557821330278516ULL, 761397889715544ULL }, { 0, 1, "Error", 0ULL, 761397889715544ULL }, { 7, 0, "", 1798539825691316221ULL, 761397889715544ULL }, { 0, 1, "Error", 0ULL, 761397889715544ULL }, { 4, 0, "", 62ULL, 761397889715544ULL }, { 0, 1, "Error", 62ULL, 761397889715544ULL }, { 4, 0, "", 62ULL, 761397889715544ULL }, { 0, 1, "Error", 62ULL, 761397889715544ULL }, { 4, 0, "", 62ULL, 761397889715544ULL }, { 0, 1, "Error", 62ULL, 761397889715544ULL }, { 4, 0, "", 62ULL, 761397889715544ULL }, { 0, 1, "Error", 62ULL, 761397889715544ULL }, { 7, 0, "", 13133205687866822555ULL, 761397889715544ULL }, { 0, 1, "Error", 1847042ULL, 761397889715544ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 7, 0, "", 5950256570008210482ULL, 761397889715544ULL }, { 0, 1, "Error", 1847042ULL, 761397889715544ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 4, 0, "", 1847104ULL, 761397889715544ULL }, { 0, 1, "Error", 1847104ULL, 761397889715544ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 4, 0, "", 1847104ULL, 761397889715544ULL }, { 0, 1, "Error", 1847104ULL, 761397889715544ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 7, 0, "", 1432446743722201693ULL, 761397889715544ULL }, { 0, 1, "Error", 0ULL, 761397889715544ULL }, { 7, 0, "", 1798539825691316221ULL, 761397889715544ULL }, { 0, 1, "Error", 0ULL, 761397889715544ULL }, { 7, 0, "", 16451557821330278516ULL, 761397889715544ULL }, { 0, 1, "Error", 0ULL, 761397889715544ULL }, { 7, 0, "", 1798539825691316221ULL, 761397889715544ULL }, { 0, 1, "Error", 0ULL, 761397889715544ULL }, { 4, 0, "", 62ULL, 761397889715544ULL }, { 0, 1, "Error", 62ULL, 761397889715544ULL }, { 4, 0, "", 62ULL, 761397889715544ULL }, { 0, 1, "Error", 62ULL, 761397889715544ULL }, { 4, 0, "", 62ULL, 761397889715544ULL }, { 0, 1, "Error", 62ULL, 761397889715544ULL }, { 4, 0, "", 62ULL, 761397889715544ULL }, { 0, 1, "Error", 62ULL, 761397889715544ULL }, { 7, 0, "", 13133205687866822555ULL, 761397889715544ULL }, { 0, 1, "Error", 1847042ULL, 761397889715544ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 7, 0, "", 5950256570008210482ULL, 761397889715544ULL }, { 0, 1, "Error", 1847042ULL, 761397889715544ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 4, 0, "", 1847104ULL, 761397889715544ULL }, { 0, 1, "Error", 1847104ULL, 761397889715544ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 4, 0, "", 1847104ULL, 761397889715544ULL }, { 0, 1, "Error", 1847104ULL, 761397889715544ULL }, { 1, 0, "", 0ULL, 217625256345963ULL }, { 1, 0, "", 0ULL, 217625256345963ULL } };
JOB2(prog56) { run(s, "p56_main", E56); }
static const Exp E57[] = { { 0, 2, "M9", 10280023111734129133ULL, 431886124530528ULL }, { 0, 2, "M9", 10280023111734129133ULL, 431886124530528ULL }, { 0, 2, "M9", 12338133751898217690ULL, 431886124530528ULL }, { 0, 2, "M9", 12338133751898217690ULL, 431886124530528ULL }, { 0, 2, "M9", 10280023111734129133ULL, 431886124530528ULL }, { 0, 2, "M9", 10280023111734129133ULL, 431886124530528ULL }, { 0, 2, "M9", 11328959639294946752ULL, 431886124530528ULL }, { 0, 2, "M9", 11328959639294946752ULL, 431886124530528ULL }, { 0, 2, "M9", 2512347130988079629ULL, 431886124530528ULL }, { 0, 2, "M9", 2512347130988079629ULL, 431886124530528ULL }, { 0, 2, "M9", 1460651958952915130ULL, 431886124530528ULL }, { 0, 2, "M9", 1460651958952915130ULL, 431886124530528ULL }, { 0, 2, "M9", 2512347130988079629ULL, 431886124530528ULL }, { 0, 2, "M9", 2512347130988079629ULL, 431886124530528ULL }, { 0, 2, "M9", 451477846349644192ULL, 431886124530528ULL }, { 0, 2, "M9", 451477846349644192ULL, 431886124530528ULL }, { 8, 0, "", 12576153439954822812ULL, 431886124530528ULL }, { 8, 0, "", 12576153439954822812ULL, 431886124530528ULL }, { 8, 0, "", 1398247667625002509ULL, 431886124530528ULL }, { 8, 0, "", 1398247667625002509ULL, 431886124530528ULL }, { 8, 0, "", 12576153439954822812ULL, 431886124530528ULL }, { 8, 0, "", 12576153439954822812ULL, 431886124530528ULL }, { 8, 0, "", 12197501231729772007ULL, 431886124530528ULL }, { 8, 0, "", 12197501231729772007ULL, 431886124530528ULL }, { 8, 0, "", 12576153440870955644ULL, 431886124530528ULL }, { 8, 0, "", 12576153440870955644ULL, 431886124530528ULL }, { 8, 0, "", 1398247696025120301ULL, 431886124530528ULL }, { 8, 0, "", 1398247696025120301ULL, 431886124530528ULL }, { 8, 0, "", 12576153440870955644ULL, 431886124530528ULL }, { 8, 0, "", 12576153440870955644ULL, 431886124530528ULL }, { 8, 0, "", 12197501260129889799ULL, 431886124530528ULL }, { 8, 0, "", 12197501260129889799ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 16936941642826735084ULL, 431886124530528ULL }, { 4, 0, "", 16936941642826735084ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 286061703405098950ULL, 431886124530528ULL }, { 4, 0, "", 286061703405098950ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 16936941642826735084ULL, 431886124530528ULL }, { 4, 0, "", 16936941642826735084ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 286061703405098950ULL, 431886124530528ULL }, { 4, 0, "", 286061703405098950ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 16936941642826735084ULL, 431886124530528ULL }, { 4, 0, "", 16936941642826735084ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 286061703405098950ULL, 431886124530528ULL }, { 4, 0, "", 286061703405098950ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 16936941642826735084ULL, 431886124530528ULL }, { 4, 0, "", 16936941642826735084ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 16936967229557858314ULL, 431886124530528ULL }, { 4, 0, "", 286061703405098950ULL, 431886124530528ULL }, { 4, 0, "", 286061703405098950ULL, 431886124530528ULL } };
JOB2(prog57) { run(s, "p57_main", E57); }
static const Exp E58[] = { { 0, 1, "*", 11827343660413452067ULL, 765971733336906ULL }, { 0, 1, "Error", 31ULL, 117879979437823ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 11827343660413452067ULL, 765971733336906ULL }, { 0, 1, "Error", 31ULL, 117879979437823ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 12791534489527743649ULL, 271545309827592ULL }, { 0, 1, "Error", 31ULL, 117879979437823ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 12791534489527743649ULL, 271545309827592ULL }, { 0, 1, "Error", 31ULL, 117879979437823ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 2600619232306309150ULL, 765971733336906ULL }, { 0, 1, "*", 2600619232306309150ULL, 765971733336906ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "*", 2600619232306309150ULL, 765971733336906ULL }, { 0, 1, "*", 2600619232306309150ULL, 765971733336906ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "*", 12791613808394225662ULL, 271545309827592ULL }, { 0, 1, "*", 12791613808394225662ULL, 271545309827592ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "*", 12791613808394225662ULL, 271545309827592ULL }, { 0, 1, "*", 12791613808394225662ULL, 271545309827592ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "*", 33930852338835546ULL, 765971733336906ULL }, { 0, 1, "Error", 31ULL, 117879979437823ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 33930852338835546ULL, 765971733336906ULL }, { 0, 1, "Error", 31ULL, 117879979437823ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 33930852338835546ULL, 765971733336906ULL }, { 0, 1, "Error", 31ULL, 117879979437823ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 33930852338835546ULL, 765971733336906ULL }, { 0, 1, "Error", 31ULL, 117879979437823ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 4763658079749794ULL, 271545309827592ULL }, { 0, 1, "*", 9253950497941244245ULL, 765971733336906ULL }, { 0, 1, "*", 9253950497941244245ULL, 765971733336906ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "*", 9253950497941244245ULL, 765971733336906ULL }, { 0, 1, "*", 9253950497941244245ULL, 765971733336906ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "*", 9253950497941244245ULL, 765971733336906ULL }, { 0, 1, "*", 9253950497941244245ULL, 765971733336906ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "*", 9253950497941244245ULL, 765971733336906ULL }, { 0, 1, "*", 9253950497941244245ULL, 765971733336906ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL }, { 0, 1, "M2", 1ULL, 117879979437823ULL } };
JOB2(prog58) { run(s, "p58_main", E58); }
static const Exp E59[] = { { 7, 0, "", 3506876917326752280ULL, 450752595684199ULL }, { 7, 0, "", 113120050679127666ULL, 450752595684199ULL }, { 7, 0, "", 3506876917326752280ULL, 450752595684199ULL }, { 7, 0, "", 113120050679127666ULL, 450752595684199ULL }, { 7, 0, "", 3506876917326752280ULL, 450752595684199ULL }, { 7, 0, "", 113120050679127666ULL, 450752595684199ULL }, { 7, 0, "", 3506876917326752280ULL, 450752595684199ULL }, { 7, 0, "", 113120050679127666ULL, 450752595684199ULL }, { 7, 0, "", 1535341085472144162ULL, 1010662221287650ULL }, { 7, 0, "", 3619841621671937283ULL, 1010662221287650ULL }, { 7, 0, "", 1535341085472144162ULL, 1010662221287650ULL }, { 7, 0, "", 3619841621671937283ULL, 1010662221287650ULL }, { 7, 0, "", 1535341085472144162ULL, 1010662221287650ULL }, { 7, 0, "", 3619841621671937283ULL, 1010662221287650ULL }, { 7, 0, "", 1535341085472144162ULL, 1010662221287650ULL }, { 7, 0, "", 3619841621671937283ULL, 1010662221287650ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 1976358329883483147ULL, 1420769771803009ULL }, { 7, 0, "", 11964842401310471033ULL, 1420769771803009ULL }, { 7, 0, "", 1976358329883483147ULL, 1420769771803009ULL }, { 7, 0, "", 11964842401310471033ULL, 1420769771803009ULL }, { 7, 0, "", 1976358329883483147ULL, 1420769771803009ULL }, { 7, 0, "", 11964842401310471033ULL, 1420769771803009ULL }, { 7, 0, "", 1976358329883483147ULL, 1420769771803009ULL }, { 7, 0, "", 11964842401310471033ULL, 1420769771803009ULL }, { 7, 0, "", 1404690126912257065ULL, 1980679397406460ULL }, { 7, 0, "", 3020539523302725750ULL, 1980679397406460ULL }, { 7, 0, "", 1404690126912257065ULL, 1980679397406460ULL }, { 7, 0, "", 3020539523302725750ULL, 1980679397406460ULL }, { 7, 0, "", 1404690126912257065ULL, 1980679397406460ULL }, { 7, 0, "", 3020539523302725750ULL, 1980679397406460ULL }, { 7, 0, "", 1404690126912257065ULL, 1980679397406460ULL }, { 7, 0, "", 3020539523302725750ULL, 1980679397406460ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL } };
JOB2(prog59) { run(s, "p59_main", E59); }
static const Exp E60[] = { { 7, 0, "", 2593431212302543329ULL, 1357457965977295ULL }, { 7, 0, "", 2593431212302543329ULL, 1357457965977295ULL }, { 0, 1, "*", 0ULL, 483823688003574ULL }, { 0, 1, "*", 0ULL, 483823688003574ULL }, { 7, 0, "", 8998114531394387098ULL, 1072402325237288ULL }, { 7, 0, "", 8998114531394387098ULL, 1072402325237288ULL }, { 0, 1, "*", 32ULL, 198768047263567ULL }, { 0, 1, "*", 32ULL, 198768047263567ULL }, { 7, 0, "", 2593431212302543329ULL, 1357457965977295ULL }, { 7, 0, "", 2593431212302543329ULL, 1357457965977295ULL }, { 0, 1, "*", 0ULL, 483823688003574ULL }, { 0, 1, "*", 0ULL, 483823688003574ULL }, { 7, 0, "", 8998114531394387098ULL, 1072402325237288ULL }, { 7, 0, "", 8998114531394387098ULL, 1072402325237288ULL }, { 0, 1, "*", 32ULL, 198768047263567ULL }, { 0, 1, "*", 32ULL, 198768047263567ULL }, { 7, 0, "", 2593431294840385662ULL, 1357457965977295ULL }, { 7, 0, "", 2593431294840385662ULL, 1357457965977295ULL }, { 0, 1, "*", 3ULL, 483823688003574ULL }, { 0, 1, "*", 3ULL, 483823688003574ULL }, { 7, 0, "", 8998141026041775991ULL, 1072402325237288ULL }, { 7, 0, "", 8998141026041775991ULL, 1072402325237288ULL }, { 0, 1, "*", 995ULL, 198768047263567ULL }, { 0, 1, "*", 995ULL, 198768047263567ULL }, { 7, 0, "", 2593431294840385662ULL, 1357457965977295ULL }, { 7, 0, "", 2593431294840385662ULL, 1357457965977295ULL }, { 0, 1, "*", 3ULL, 483823688003574ULL }, { 0, 1, "*", 3ULL, 483823688003574ULL }, { 7, 0, "", 8998141026041775991ULL, 1072402325237288ULL }, { 7, 0, "", 8998141026041775991ULL, 1072402325237288ULL }, { 0, 1, "*", 995ULL, 198768047263567ULL }, { 0, 1, "*", 995ULL, 198768047263567ULL }, { 7, 0, "", 2593431212302543329ULL, 1357457965977295ULL }, { 7, 0, "", 2593431212302543329ULL, 1357457965977295ULL }, { 0, 1, "*", 0ULL, 483823688003574ULL }, { 0, 1, "*", 0ULL, 483823688003574ULL }, { 7, 0, "", 8998114531394387098ULL, 1072402325237288ULL }, { 7, 0, "", 8998114531394387098ULL, 1072402325237288ULL }, { 0, 1, "*", 32ULL, 198768047263567ULL }, { 0, 1, "*", 32ULL, 198768047263567ULL }, { 7, 0, "", 2593431212302543329ULL, 1357457965977295ULL }, { 7, 0, "", 2593431212302543329ULL, 1357457965977295ULL }, { 0, 1, "*", 0ULL, 483823688003574ULL }, { 0, 1, "*", 0ULL, 483823688003574ULL }, { 7, 0, "", 8998114531394387098ULL, 1072402325237288ULL }, { 7, 0, "", 8998114531394387098ULL, 1072402325237288ULL }, { 0, 1, "*", 32ULL, 198768047263567ULL }, { 0, 1, "*", 32ULL, 198768047263567ULL }, { 7, 0, "", 2593431294840385662ULL, 1357457965977295ULL }, { 7, 0, "", 2593431294840385662ULL, 1357457965977295ULL }, { 0, 1, "*", 3ULL, 483823688003574ULL }, { 0, 1, "*", 3ULL, 483823688003574ULL }, { 7, 0, "", 8998141026041775991ULL, 1072402325237288ULL }, { 7, 0, "", 8998141026041775991ULL, 1072402325237288ULL }, { 0, 1, "*", 995ULL, 198768047263567ULL }, { 0, 1, "*", 995ULL, 198768047263567ULL }, { 7, 0, "", 2593431294840385662ULL, 1357457965977295ULL }, { 7, 0, "", 2593431294840385662ULL, 1357457965977295ULL }, { 0, 1, "*", 3ULL, 483823688003574ULL }, { 0, 1, "*", 3ULL, 483823688003574ULL }, { 7, 0, "", 8998141026041775991ULL, 1072402325237288ULL }, { 7, 0, "", 8998141026041775991ULL, 1072402325237288ULL }, { 0, 1, "*", 995ULL, 198768047263567ULL }, { 0, 1, "*", 995ULL, 198768047263567ULL } };
JOB2(prog60) { run(s, "p60_main", E60); }
static const Exp E61[] = { { 7, 0, "", 7738806192959365785ULL, 898063411891742ULL }, { 7, 0, "", 7738806192959365785ULL, 898063411891742ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 7, 0, "", 7738806192959365785ULL, 898063411891742ULL }, { 7, 0, "", 14170855471803819547ULL, 898063411891742ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 7, 0, "", 13946843310179660336ULL, 883352467265099ULL }, { 7, 0, "", 13946843310179660336ULL, 883352467265099ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 7, 0, "", 13946843310179660336ULL, 883352467265099ULL }, { 7, 0, "", 15953903482452209134ULL, 883352467265099ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 7, 0, "", 7626990830851817703ULL, 364965446491000ULL }, { 7, 0, "", 7626990830851817703ULL, 364965446491000ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 4, 0, "", 0ULL, 47583588129543ULL }, { 7, 0, "", 9634051003124366501ULL, 364965446491000ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 7, 0, "", 7626990830851817703ULL, 364965446491000ULL }, { 7, 0, "", 7626990830851817703ULL, 364965446491000ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 4, 0, "", 0ULL, 47583588129543ULL }, { 7, 0, "", 8881847228261225833ULL, 364965446491000ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 0, 1, "*", 0ULL, 47583588129543ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL }, { 1, 0, "", 0ULL, 514952530516812ULL } };
JOB2(prog61) { run(s, "p61_main", E61); }
static const Exp E62[] = { { 0, 1, "*", 475622935488276411ULL, 791063366672014ULL }, { 0, 1, "*", 475622935488276411ULL, 791063366672014ULL }, { 0, 1, "*", 14416212224322819426ULL, 791063366672014ULL }, { 0, 1, "*", 14416212224322819426ULL, 791063366672014ULL }, { 0, 1, "*", 475622935488276411ULL, 791063366672014ULL }, { 0, 1, "*", 475622935488276411ULL, 791063366672014ULL }, { 0, 1, "*", 14416212224322819426ULL, 791063366672014ULL }, { 0, 1, "*", 14416212224322819426ULL, 791063366672014ULL }, { 7, 0, "", 11454499995217850104ULL, 2035724496187720ULL }, { 7, 0, "", 11454499995217850104ULL, 2035724496187720ULL }, { 0, 1, "*", 14416212224322819426ULL, 791063366672014ULL }, { 0, 1, "*", 14416212224322819426ULL, 791063366672014ULL }, { 7, 0, "", 11454499995217850104ULL, 2035724496187720ULL }, { 7, 0, "", 11454499995217850104ULL, 2035724496187720ULL }, { 0, 1, "*", 14416212224322819426ULL, 791063366672014ULL }, { 0, 1, "*", 14416212224322819426ULL, 791063366672014ULL }, { 0, 1, "*", 4171862811411861890ULL, 1103275217760437ULL }, { 0, 1, "*", 4171862811411861890ULL, 1103275217760437ULL }, { 0, 1, "*", 6415591671697626370ULL, 1103275217760437ULL }, { 0, 1, "*", 6415591671697626370ULL, 1103275217760437ULL }, { 0, 1, "*", 4171862811411861890ULL, 1103275217760437ULL }, { 0, 1, "*", 4171862811411861890ULL, 1103275217760437ULL }, { 0, 1, "*", 6415591671697626370ULL, 1103275217760437ULL }, { 0, 1, "*", 6415591671697626370ULL, 1103275217760437ULL }, { 7, 0, "", 18007034181839957212ULL, 2347936347276143ULL }, { 7, 0, "", 18007034181839957212ULL, 2347936347276143ULL }, { 0, 1, "*", 6415591671697626370ULL, 1103275217760437ULL }, { 0, 1, "*", 6415591671697626370ULL, 1103275217760437ULL }, { 7, 0, "", 18007034181839957212ULL, 2347936347276143ULL }, { 7, 0, "", 18007034181839957212ULL, 2347936347276143ULL }, { 0, 1, "*", 6415591671697626370ULL, 1103275217760437ULL }, { 0, 1, "*", 6415591671697626370ULL, 1103275217760437ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 14142772798674637378ULL, 474717132071517ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL }, { 0, 1, "M2", 4997444192620936450ULL, 786928983159940ULL } };
JOB2(prog62) { run(s, "p62_main", E62); }
static const Exp E63[] = { { 7, 0, "", 13726541821117879258ULL, 984673181084843ULL }, { 0, 1, "M13", 7917793457181541465ULL, 984673181084843ULL }, { 7, 0, "", 11491257972901535723ULL, 984673181084843ULL }, { 0, 1, "M13", 8291020023481199708ULL, 984673181084843ULL }, { 7, 0, "", 1338803723370725673ULL, 984673181084843ULL }, { 7, 0, "", 469371216289804233ULL, 1083470796360388ULL }, { 7, 0, "", 11500082211482127610ULL, 984673181084843ULL }, { 7, 0, "", 14322075476258448614ULL, 1083470796360388ULL }, { 7, 0, "", 13726541821117879258ULL, 984673181084843ULL }, { 0, 1, "M13", 7917793457181541465ULL, 984673181084843ULL }, { 7, 0, "", 18397906890165555629ULL, 984673181084843ULL }, { 0, 1, "M13", 10709409551478022037ULL, 984673181084843ULL }, { 7, 0, "", 14093483247408259348ULL, 984673181084843ULL }, { 7, 0, "", 9210107837109422367ULL, 1083470796360388ULL }, { 7, 0, "", 14150691058785947425ULL, 984673181084843ULL }, { 7, 0, "", 8316838063602304859ULL, 1083470796360388ULL }, { 7, 0, "", 13726541821117879258ULL, 984673181084843ULL }, { 0, 1, "M13", 7917793457181541465ULL, 984673181084843ULL }, { 7, 0, "", 11491257972901535723ULL, 984673181084843ULL }, { 0, 1, "M13", 8291020023481199708ULL, 984673181084843ULL }, { 0, 1, "*", 4608157751279854536ULL, 984673181084843ULL }, { 7, 0, "", 469371216289804233ULL, 1083470796360388ULL }, { 0, 1, "*", 4536051820692230551ULL, 984673181084843ULL }, { 7, 0, "", 14322075476258448614ULL, 1083470796360388ULL }, { 7, 0, "", 13726541821117879258ULL, 984673181084843ULL }, { 0, 1, "M13", 7917793457181541465ULL, 984673181084843ULL }, { 7, 0, "", 18397906890165555629ULL, 984673181084843ULL }, { 0, 1, "M13", 10709409551478022037ULL, 984673181084843ULL }, { 0, 1, "*", 4608157751279854536ULL, 984673181084843ULL }, { 7, 0, "", 9210107837109422367ULL, 1083470796360388ULL }, { 0, 1, "*", 10709409551478022037ULL, 984673181084843ULL }, { 7, 0, "", 8316838063602304859ULL, 1083470796360388ULL }, { 7, 0, "", 13727026126721416853ULL, 1468978784622438ULL }, { 0, 1, "M13", 7917793457181541465ULL, 984673181084843ULL }, { 7, 0, "", 11491742278505073318ULL, 1468978784622438ULL }, { 0, 1, "M13", 8291020023481199708ULL, 984673181084843ULL }, { 7, 0, "", 1339288028974263268ULL, 1468978784622438ULL }, { 7, 0, "", 469855521893341828ULL, 1567776399897983ULL }, { 7, 0, "", 11500566517085665205ULL, 1468978784622438ULL }, { 7, 0, "", 14322559781861986209ULL, 1567776399897983ULL }, { 7, 0, "", 13727026126721416853ULL, 1468978784622438ULL }, { 0, 1, "M13", 7917793457181541465ULL, 984673181084843ULL }, { 7, 0, "", 18398391195769093224ULL, 1468978784622438ULL }, { 0, 1, "M13", 10709409551478022037ULL, 984673181084843ULL }, { 7, 0, "", 14093967553011796943ULL, 1468978784622438ULL }, { 7, 0, "", 9210592142712959962ULL, 1567776399897983ULL }, { 7, 0, "", 14151175364389485020ULL, 1468978784622438ULL }, { 7, 0, "", 8317322369205842454ULL, 1567776399897983ULL }, { 7, 0, "", 13727026126721416853ULL, 1468978784622438ULL }, { 0, 1, "M13", 7917793457181541465ULL, 984673181084843ULL }, { 7, 0, "", 11491742278505073318ULL, 1468978784622438ULL }, { 0, 1, "M13", 8291020023481199708ULL, 984673181084843ULL }, { 0, 1, "*", 4608157751279854536ULL, 984673181084843ULL }, { 7, 0, "", 469855521893341828ULL, 1567776399897983ULL }, { 0, 1, "*", 4536051820692230551ULL, 984673181084843ULL }, { 7, 0, "", 14322559781861986209ULL, 1567776399897983ULL }, { 7, 0, "", 13727026126721416853ULL, 1468978784622438ULL }, { 0, 1, "M13", 7917793457181541465ULL, 984673181084843ULL }, { 7, 0, "", 18398391195769093224ULL, 1468978784622438ULL }, { 0, 1, "M13", 10709409551478022037ULL, 984673181084843ULL }, { 0, 1, "*", 4608157751279854536ULL, 984673181084843ULL }, { 7, 0, "", 9210592142712959962ULL, 1567776399897983ULL }, { 0, 1, "*", 10709409551478022037ULL, 984673181084843ULL }, { 7, 0, "", 8317322369205842454ULL, 1567776399897983ULL } };
JOB2(prog63) { run(s, "p63_main", E63); }
static const Exp E64[] = { { 0, 2, "M4", 561485052827087ULL, 561485052827025ULL }, { 0, 2, "M4", 13631151547911ULL, 13631151547849ULL }, { 0, 1, "*", 561485052827087ULL, 561485052827025ULL }, { 0, 1, "*", 13631151547911ULL, 13631151547849ULL }, { 0, 2, "M4", 561485052827087ULL, 561485052827025ULL }, { 0, 2, "M4", 13631151547911ULL, 13631151547849ULL }, { 0, 1, "*", 561485052827087ULL, 561485052827025ULL }, { 0, 1, "*", 13631151547911ULL, 13631151547849ULL }, { 7, 0, "", 7251692241109375296ULL, 1372553571985197ULL }, { 7, 0, "", 12929357063287281416ULL, 824699670706021ULL }, { 7, 0, "", 7251692241109375296ULL, 1372553571985197ULL }, { 7, 0, "", 12929357063287281416ULL, 824699670706021ULL }, { 7, 0, "", 7251692241109375296ULL, 1372553571985197ULL }, { 7, 0, "", 12929357063287281416ULL, 824699670706021ULL }, { 7, 0, "", 7251692241109375296ULL, 1372553571985197ULL }, { 7, 0, "", 12929357063287281416ULL, 824699670706021ULL }, { 0, 2, "M4", 561485052827087ULL, 561485052827025ULL }, { 0, 2, "M4", 13631151547911ULL, 13631151547849ULL }, { 0, 1, "*", 561485052827087ULL, 561485052827025ULL }, { 0, 1, "*", 13631151547911ULL, 13631151547849ULL }, { 0, 2, "M4", 561485052827087ULL, 561485052827025ULL }, { 0, 2, "M4", 13631151547911ULL, 13631151547849ULL }, { 0, 1, "*", 561485052827087ULL, 561485052827025ULL }, { 0, 1, "*", 13631151547911ULL, 13631151547849ULL }, { 7, 0, "", 7251692241109375296ULL, 1372553571985197ULL }, { 7, 0, "", 12929357063287281416ULL, 824699670706021ULL }, { 7, 0, "", 7251692241109375296ULL, 1372553571985197ULL }, { 7, 0, "", 12929357063287281416ULL, 824699670706021ULL }, { 7, 0, "", 7251692241109375296ULL, 1372553571985197ULL }, { 7, 0, "", 12929357063287281416ULL, 824699670706021ULL }, { 7, 0, "", 7251692241109375296ULL, 1372553571985197ULL }, { 7, 0, "", 12929357063287281416ULL, 824699670706021ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL }, { 0, 1, "*", 0ULL, 561485052827025ULL }, { 0, 1, "*", 0ULL, 13631151547849ULL } };
JOB2(prog64) { run(s, "p64_main", E64); }
static const Exp E65[] = { { 0, 1, "*", 570723345019699281ULL, 625555579803720ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 570723345936785425ULL, 625555579803720ULL }, { 1, 0, "", 0ULL, 0ULL }, { 6, 0, "", 305678523131567ULL, 305678523131567ULL }, { 1, 0, "", 0ULL, 0ULL }, { 6, 0, "", 305678524085871ULL, 305678523131567ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 574746571016817ULL, 574746571016817ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 574746571971121ULL, 574746571016817ULL }, { 1, 0, "", 0ULL, 0ULL }, { 6, 0, "", 305678523131567ULL, 305678523131567ULL }, { 1, 0, "", 0ULL, 0ULL }, { 6, 0, "", 305678524085871ULL, 305678523131567ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 10075532422985260963ULL, 603819155575779ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 10075532422985260963ULL, 603819155575779ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 10075532422985260963ULL, 603819155575779ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 10075532422985260963ULL, 603819155575779ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 2851379770038815459ULL, 553010146788876ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 2851379770038815459ULL, 553010146788876ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 2851379770038815459ULL, 553010146788876ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 2851379770038815459ULL, 553010146788876ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 570723345019699281ULL, 625555579803720ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 570723345936785425ULL, 625555579803720ULL }, { 1, 0, "", 0ULL, 0ULL }, { 6, 0, "", 305678523131567ULL, 305678523131567ULL }, { 1, 0, "", 0ULL, 0ULL }, { 6, 0, "", 305678524085871ULL, 305678523131567ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 574746571016817ULL, 574746571016817ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 574746571971121ULL, 574746571016817ULL }, { 1, 0, "", 0ULL, 0ULL }, { 6, 0, "", 305678523131567ULL, 305678523131567ULL }, { 1, 0, "", 0ULL, 0ULL }, { 6, 0, "", 305678524085871ULL, 305678523131567ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 10075532422985260963ULL, 603819155575779ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 10075532422985260963ULL, 603819155575779ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 10075532422985260963ULL, 603819155575779ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 1, "*", 10075532422985260963ULL, 603819155575779ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 2851379770038815459ULL, 553010146788876ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 2851379770038815459ULL, 553010146788876ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 2851379770038815459ULL, 553010146788876ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 2851379770038815459ULL, 553010146788876ULL }, { 1, 0, "", 0ULL, 0ULL } };
JOB2(prog65) { run(s, "p65_main", E65); }
static const Exp E66[] = { { 7, 0, "", 16004626492112599683ULL, 990336635152379ULL }, { 10, 0, "", 6855321777267803576ULL, 446624912663309ULL }, { 7, 0, "", 12210090235586024890ULL, 990336635152379ULL }, { 10, 0, "", 5154786261537909167ULL, 446624912663309ULL }, { 7, 0, "", 11536745082386580340ULL, 990336635152379ULL }, { 10, 0, "", 4762207202101029175ULL, 446624912663309ULL }, { 7, 0, "", 4868721822150075741ULL, 990336635152379ULL }, { 10, 0, "", 8872745040818350688ULL, 446624912663309ULL }, { 7, 0, "", 16004626492112599683ULL, 990336635152379ULL }, { 10, 0, "", 6855321777267803576ULL, 446624912663309ULL }, { 7, 0, "", 12210090235586024890ULL, 990336635152379ULL }, { 10, 0, "", 5154786261537909167ULL, 446624912663309ULL }, { 7, 0, "", 11536745082386580340ULL, 990336635152379ULL }, { 10, 0, "", 4762207202101029175ULL, 446624912663309ULL }, { 7, 0, "", 4868721822150075741ULL, 990336635152379ULL }, { 10, 0, "", 8872745040818350688ULL, 446624912663309ULL }, { 7, 0, "", 15056274264553213501ULL, 1156780502246674ULL }, { 10, 0, "", 6855321777267803576ULL, 446624912663309ULL }, { 7, 0, "", 2515514263296505780ULL, 1156780502246674ULL }, { 10, 0, "", 5154786261537909167ULL, 446624912663309ULL }, { 0, 1, "*", 16438672099114337870ULL, 990336635152379ULL }, { 10, 0, "", 4762207202101029175ULL, 446624912663309ULL }, { 0, 1, "*", 11463124491052630853ULL, 990336635152379ULL }, { 10, 0, "", 8872745040818350688ULL, 446624912663309ULL }, { 7, 0, "", 15056274264553213501ULL, 1156780502246674ULL }, { 10, 0, "", 6855321777267803576ULL, 446624912663309ULL }, { 7, 0, "", 2515514263296505780ULL, 1156780502246674ULL }, { 10, 0, "", 5154786261537909167ULL, 446624912663309ULL }, { 0, 1, "*", 16438672099114337870ULL, 990336635152379ULL }, { 10, 0, "", 4762207202101029175ULL, 446624912663309ULL }, { 0, 1, "*", 11463124491052630853ULL, 990336635152379ULL }, { 10, 0, "", 8872745040818350688ULL, 446624912663309ULL }, { 7, 0, "", 16004626492112599683ULL, 990336635152379ULL }, { 10, 0, "", 6855321777267803576ULL, 446624912663309ULL }, { 7, 0, "", 12210090235586024890ULL, 990336635152379ULL }, { 10, 0, "", 5154786261537909167ULL, 446624912663309ULL }, { 7, 0, "", 11536745082386580340ULL, 990336635152379ULL }, { 10, 0, "", 4762207202101029175ULL, 446624912663309ULL }, { 7, 0, "", 4868721822150075741ULL, 990336635152379ULL }, { 10, 0, "", 8872745040818350688ULL, 446624912663309ULL }, { 7, 0, "", 16004626492112599683ULL, 990336635152379ULL }, { 10, 0, "", 6855321777267803576ULL, 446624912663309ULL }, { 7, 0, "", 12210090235586024890ULL, 990336635152379ULL }, { 10, 0, "", 5154786261537909167ULL, 446624912663309ULL }, { 7, 0, "", 11536745082386580340ULL, 990336635152379ULL }, { 10, 0, "", 4762207202101029175ULL, 446624912663309ULL }, { 7, 0, "", 4868721822150075741ULL, 990336635152379ULL }, { 10, 0, "", 8872745040818350688ULL, 446624912663309ULL }, { 7, 0, "", 15056274264553213501ULL, 1156780502246674ULL }, { 10, 0, "", 6855321777267803576ULL, 446624912663309ULL }, { 7, 0, "", 2515514263296505780ULL, 1156780502246674ULL }, { 10, 0, "", 5154786261537909167ULL, 446624912663309ULL }, { 0, 1, "*", 16438672099114337870ULL, 990336635152379ULL }, { 10, 0, "", 4762207202101029175ULL, 446624912663309ULL }, { 0, 1, "*", 11463124491052630853ULL, 990336635152379ULL }, { 10, 0, "", 8872745040818350688ULL, 446624912663309ULL }, { 7, 0, "", 15056274264553213501ULL, 1156780502246674ULL }, { 10, 0, "", 6855321777267803576ULL, 446624912663309ULL }, { 7, 0, "", 2515514263296505780ULL, 1156780502246674ULL }, { 10, 0, "", 5154786261537909167ULL, 446624912663309ULL }, { 0, 1, "*", 16438672099114337870ULL, 990336635152379ULL }, { 10, 0, "", 4762207202101029175ULL, 446624912663309ULL }, { 0, 1, "*", 11463124491052630853ULL, 990336635152379ULL }, { 10, 0, "", 8872745040818350688ULL, 446624912663309ULL } };
JOB2(prog66) { run(s, "p66_main", E66); }
static const Exp E67[] = { { 7, 0, "", 712296004700822199ULL, 490962372214406ULL }, { 7, 0, "", 712296004700822199ULL, 490962372214406ULL }, { 0, 2, "M5", 3937ULL, 164499006413217ULL }, { 0, 2, "M5", 3937ULL, 164499006413217ULL }, { 7, 0, "", 712296004700822199ULL, 490962372214406ULL }, { 7, 0, "", 712296004700822199ULL, 490962372214406ULL }, { 0, 2, "M5", 3937ULL, 164499006413217ULL }, { 0, 2, "M5", 3937ULL, 164499006413217ULL }, { 7, 0, "", 350637458907410275ULL, 471375491182025ULL }, { 7, 0, "", 350637458907410275ULL, 471375491182025ULL }, { 0, 2, "M5", 2976ULL, 164499006413217ULL }, { 0, 2, "M5", 2976ULL, 164499006413217ULL }, { 7, 0, "", 350637458907410275ULL, 471375491182025ULL }, { 7, 0, "", 350637458907410275ULL, 471375491182025ULL }, { 0, 2, "M5", 2976ULL, 164499006413217ULL }, { 0, 2, "M5", 2976ULL, 164499006413217ULL }, { 7, 0, "", 7619894162414047016ULL, 767207919248483ULL }, { 7, 0, "", 7619894162414047016ULL, 767207919248483ULL }, { 0, 2, "M5", 4420867186119364491ULL, 460331434479675ULL }, { 0, 2, "M5", 4420867186119364491ULL, 460331434479675ULL }, { 7, 0, "", 7619894162414047016ULL, 767207919248483ULL }, { 7, 0, "", 7619894162414047016ULL, 767207919248483ULL }, { 0, 2, "M5", 4420867186119364491ULL, 460331434479675ULL }, { 0, 2, "M5", 4420867186119364491ULL, 460331434479675ULL }, { 7, 0, "", 7619894162414047016ULL, 767207919248483ULL }, { 7, 0, "", 7619894162414047016ULL, 767207919248483ULL }, { 0, 2, "M5", 4420867186119364491ULL, 460331434479675ULL }, { 0, 2, "M5", 4420867186119364491ULL, 460331434479675ULL }, { 7, 0, "", 7619894162414047016ULL, 767207919248483ULL }, { 7, 0, "", 7619894162414047016ULL, 767207919248483ULL }, { 0, 2, "M5", 4420867186119364491ULL, 460331434479675ULL }, { 0, 2, "M5", 4420867186119364491ULL, 460331434479675ULL }, { 7, 0, "", 712296004643563897ULL, 490962372214406ULL }, { 7, 0, "", 712296004643563897ULL, 490962372214406ULL }, { 7, 0, "", 350638311741189414ULL, 471375491182025ULL }, { 7, 0, "", 350638311741189414ULL, 471375491182025ULL }, { 7, 0, "", 712296004643563897ULL, 490962372214406ULL }, { 7, 0, "", 712296004643563897ULL, 490962372214406ULL }, { 7, 0, "", 350638311741189414ULL, 471375491182025ULL }, { 7, 0, "", 350638311741189414ULL, 471375491182025ULL }, { 7, 0, "", 350637458850151973ULL, 471375491182025ULL }, { 7, 0, "", 350637458850151973ULL, 471375491182025ULL }, { 7, 0, "", 350637458850151973ULL, 471375491182025ULL }, { 7, 0, "", 350637458850151973ULL, 471375491182025ULL }, { 7, 0, "", 350637458850151973ULL, 471375491182025ULL }, { 7, 0, "", 350637458850151973ULL, 471375491182025ULL }, { 7, 0, "", 350637458850151973ULL, 471375491182025ULL }, { 7, 0, "", 350637458850151973ULL, 471375491182025ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL }, { 7, 0, "", 7619894162356788714ULL, 767207919248483ULL } };
JOB2(prog67) { run(s, "p67_main", E67); }
static const Exp E68[] = { { 7, 0, "", 16875898100096891940ULL, 1445087222335119ULL }, { 7, 0, "", 15908220217021072718ULL, 1445087222335119ULL }, { 7, 0, "", 16875898100096891940ULL, 1445087222335119ULL }, { 7, 0, "", 15908220217021072718ULL, 1445087222335119ULL }, { 4, 0, "", 375635611060412ULL, 976595929386929ULL }, { 4, 0, "", 375635611060412ULL, 976595929386929ULL }, { 4, 0, "", 375635611060412ULL, 976595929386929ULL }, { 4, 0, "", 375635611060412ULL, 976595929386929ULL }, { 7, 0, "", 11550389904556822447ULL, 1908204882717764ULL }, { 7, 0, "", 2302841206606303588ULL, 1908204882717764ULL }, { 7, 0, "", 11550389904556822447ULL, 1908204882717764ULL }, { 7, 0, "", 2302841206606303588ULL, 1908204882717764ULL }, { 4, 0, "", 838753271443057ULL, 1439713589769574ULL }, { 4, 0, "", 838753271443057ULL, 1439713589769574ULL }, { 4, 0, "", 838753271443057ULL, 1439713589769574ULL }, { 4, 0, "", 838753271443057ULL, 1439713589769574ULL }, { 7, 0, "", 11540076668875163981ULL, 1311826677797864ULL }, { 7, 0, "", 16131993050360373342ULL, 1311826677797864ULL }, { 7, 0, "", 11540076668875163981ULL, 1311826677797864ULL }, { 7, 0, "", 16131993050360373342ULL, 1311826677797864ULL }, { 7, 0, "", 11540076668875163981ULL, 1311826677797864ULL }, { 7, 0, "", 16131993050360373342ULL, 1311826677797864ULL }, { 7, 0, "", 11540076668875163981ULL, 1311826677797864ULL }, { 7, 0, "", 16131993050360373342ULL, 1311826677797864ULL }, { 7, 0, "", 7386411224333760696ULL, 1774944338180509ULL }, { 7, 0, "", 3698456790944270420ULL, 1774944338180509ULL }, { 7, 0, "", 7386411224333760696ULL, 1774944338180509ULL }, { 7, 0, "", 3698456790944270420ULL, 1774944338180509ULL }, { 7, 0, "", 7386411224333760696ULL, 1774944338180509ULL }, { 7, 0, "", 3698456790944270420ULL, 1774944338180509ULL }, { 7, 0, "", 7386411224333760696ULL, 1774944338180509ULL }, { 7, 0, "", 3698456790944270420ULL, 1774944338180509ULL }, { 7, 0, "", 16875898100096891940ULL, 1445087222335119ULL }, { 7, 0, "", 15908220217021072718ULL, 1445087222335119ULL }, { 7, 0, "", 16875898100096891940ULL, 1445087222335119ULL }, { 7, 0, "", 15908220217021072718ULL, 1445087222335119ULL }, { 4, 0, "", 375635611060412ULL, 976595929386929ULL }, { 4, 0, "", 375635611060412ULL, 976595929386929ULL }, { 4, 0, "", 375635611060412ULL, 976595929386929ULL }, { 4, 0, "", 375635611060412ULL, 976595929386929ULL }, { 7, 0, "", 11550389904556822447ULL, 1908204882717764ULL }, { 7, 0, "", 2302841206606303588ULL, 1908204882717764ULL }, { 7, 0, "", 11550389904556822447ULL, 1908204882717764ULL }, { 7, 0, "", 2302841206606303588ULL, 1908204882717764ULL }, { 4, 0, "", 838753271443057ULL, 1439713589769574ULL }, { 4, 0, "", 838753271443057ULL, 1439713589769574ULL }, { 4, 0, "", 838753271443057ULL, 1439713589769574ULL }, { 4, 0, "", 838753271443057ULL, 1439713589769574ULL }, { 7, 0, "", 11540076668875163981ULL, 1311826677797864ULL }, { 7, 0, "", 16131993050360373342ULL, 1311826677797864ULL }, { 7, 0, "", 11540076668875163981ULL, 1311826677797864ULL }, { 7, 0, "", 16131993050360373342ULL, 1311826677797864ULL }, { 7, 0, "", 11540076668875163981ULL, 1311826677797864ULL }, { 7, 0, "", 16131993050360373342ULL, 1311826677797864ULL }, { 7, 0, "", 11540076668875163981ULL, 1311826677797864ULL }, { 7, 0, "", 16131993050360373342ULL, 1311826677797864ULL }, { 7, 0, "", 7386411224333760696ULL, 1774944338180509ULL }, { 7, 0, "", 3698456790944270420ULL, 1774944338180509ULL }, { 7, 0, "", 7386411224333760696ULL, 1774944338180509ULL }, { 7, 0, "", 3698456790944270420ULL, 1774944338180509ULL }, { 7, 0, "", 7386411224333760696ULL, 1774944338180509ULL }, { 7, 0, "", 3698456790944270420ULL, 1774944338180509ULL }, { 7, 0, "", 7386411224333760696ULL, 1774944338180509ULL }, { 7, 0, "", 3698456790944270420ULL, 1774944338180509ULL } };
JOB2(prog68) { run(s, "p68_main", E68); }
static const Exp E69[] = { { 7, 0, "", 0ULL, 836013054810486ULL }, { 7, 0, "", 0ULL, 543462766808283ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 0ULL, 543462766808283ULL }, { 0, 1, "Error", 0ULL, 836013054810486ULL }, { 0, 1, "Error", 0ULL, 543462766808283ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 0ULL, 543462766808283ULL }, { 7, 0, "", 0ULL, 836013054810486ULL }, { 7, 0, "", 0ULL, 543462766808283ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 0ULL, 543462766808283ULL }, { 0, 1, "Error", 0ULL, 836013054810486ULL }, { 0, 1, "Error", 0ULL, 543462766808283ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 0ULL, 543462766808283ULL }, { 7, 0, "", 0ULL, 836013054810486ULL }, { 7, 0, "", 1ULL, 543462766808283ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 1ULL, 543462766808283ULL }, { 0, 1, "Error", 0ULL, 836013054810486ULL }, { 0, 1, "Error", 961ULL, 543462766808283ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 1ULL, 543462766808283ULL }, { 7, 0, "", 0ULL, 836013054810486ULL }, { 7, 0, "", 1ULL, 543462766808283ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 1ULL, 543462766808283ULL }, { 0, 1, "Error", 0ULL, 836013054810486ULL }, { 0, 1, "Error", 961ULL, 543462766808283ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 1ULL, 543462766808283ULL }, { 7, 0, "", 0ULL, 836013054810486ULL }, { 7, 0, "", 0ULL, 543462766808283ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 0ULL, 543462766808283ULL }, { 0, 1, "Error", 0ULL, 1365766295356199ULL }, { 0, 1, "Error", 0ULL, 1073216007353996ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 0ULL, 543462766808283ULL }, { 7, 0, "", 0ULL, 836013054810486ULL }, { 7, 0, "", 0ULL, 543462766808283ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 0ULL, 543462766808283ULL }, { 0, 1, "Error", 0ULL, 1365766295356199ULL }, { 0, 1, "Error", 0ULL, 1073216007353996ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 0ULL, 543462766808283ULL }, { 7, 0, "", 0ULL, 836013054810486ULL }, { 7, 0, "", 1ULL, 543462766808283ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 1ULL, 543462766808283ULL }, { 0, 1, "Error", 0ULL, 1365766295356199ULL }, { 0, 1, "Error", 961ULL, 1073216007353996ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 1ULL, 543462766808283ULL }, { 7, 0, "", 0ULL, 836013054810486ULL }, { 7, 0, "", 1ULL, 543462766808283ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 1ULL, 543462766808283ULL }, { 0, 1, "Error", 0ULL, 1365766295356199ULL }, { 0, 1, "Error", 961ULL, 1073216007353996ULL }, { 0, 3, "M2", 0ULL, 836013054810486ULL }, { 0, 3, "M2", 1ULL, 543462766808283ULL } };
JOB2(prog69) { run(s, "p69_main", E69); }
static const Exp E70[] = { { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 17639507039491323301ULL, 719289484250197ULL }, { 0, 1, "*", 17639507039491323301ULL, 719289484250197ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 9601478725648225798ULL, 2542334231604833ULL }, { 7, 0, "", 9601478725648225798ULL, 2542334231604833ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 1103608102294524856ULL, 408680888766496ULL }, { 0, 1, "*", 1103608102294524856ULL, 408680888766496ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 13930269154360511332ULL, 2231725636121132ULL }, { 7, 0, "", 13930269154360511332ULL, 2231725636121132ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 17639507039491323301ULL, 719289484250197ULL }, { 0, 1, "*", 17639507039491323301ULL, 719289484250197ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 9601478725648225798ULL, 2542334231604833ULL }, { 7, 0, "", 9601478725648225798ULL, 2542334231604833ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 1103608102294524856ULL, 408680888766496ULL }, { 0, 1, "*", 1103608102294524856ULL, 408680888766496ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 13930269154360511332ULL, 2231725636121132ULL }, { 7, 0, "", 13930269154360511332ULL, 2231725636121132ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 17793757500958931543ULL, 719289484250197ULL }, { 0, 1, "*", 17793757500958931543ULL, 719289484250197ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 6579478002269440184ULL, 2542334231604833ULL }, { 7, 0, "", 6579478002269440184ULL, 2542334231604833ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 1103608102294524856ULL, 408680888766496ULL }, { 0, 1, "*", 1103608102294524856ULL, 408680888766496ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 13930269154360511332ULL, 2231725636121132ULL }, { 7, 0, "", 13930269154360511332ULL, 2231725636121132ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 17793757500958931543ULL, 719289484250197ULL }, { 0, 1, "*", 17793757500958931543ULL, 719289484250197ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 6579478002269440184ULL, 2542334231604833ULL }, { 7, 0, "", 6579478002269440184ULL, 2542334231604833ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 8031776422107719489ULL, 240490370833095ULL }, { 0, 1, "*", 1103608102294524856ULL, 408680888766496ULL }, { 0, 1, "*", 1103608102294524856ULL, 408680888766496ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 4098829499009657108ULL, 2063535118187731ULL }, { 7, 0, "", 13930269154360511332ULL, 2231725636121132ULL }, { 7, 0, "", 13930269154360511332ULL, 2231725636121132ULL } };
JOB2(prog70) { run(s, "p70_main", E70); }
static const Exp E71[] = { { 7, 0, "", 4069724703464533182ULL, 2088523939124742ULL }, { 7, 0, "", 15592087855496225020ULL, 1657609484856387ULL }, { 15, 0, "", 8317750729754754445ULL, 1004949328025581ULL }, { 15, 0, "", 7903211024748567144ULL, 574034873757226ULL }, { 0, 1, "*", 15490609934942367309ULL, 2088523939124742ULL }, { 0, 1, "*", 3748555259279513612ULL, 1657609484856387ULL }, { 7, 0, "", 8317750729754754445ULL, 1004949328025581ULL }, { 7, 0, "", 7903211024748567144ULL, 574034873757226ULL }, { 7, 0, "", 18387913527203859295ULL, 2088523939124742ULL }, { 7, 0, "", 14922055428250056190ULL, 1657609484856387ULL }, { 0, 1, "*", 10979302635139457253ULL, 1004949328025581ULL }, { 0, 1, "*", 10965944287057137287ULL, 574034873757226ULL }, { 0, 1, "*", 16632605701832238028ULL, 2088523939124742ULL }, { 0, 1, "*", 1424294088357831498ULL, 1657609484856387ULL }, { 0, 1, "*", 10979302635139457253ULL, 1004949328025581ULL }, { 0, 1, "*", 10965944287057137287ULL, 574034873757226ULL }, { 7, 0, "", 6772350656551697438ULL, 1563422263990341ULL }, { 7, 0, "", 18294713808583389276ULL, 1132507809721986ULL }, { 15, 0, "", 8317750729754754445ULL, 1004949328025581ULL }, { 15, 0, "", 7903211024748567144ULL, 574034873757226ULL }, { 0, 1, "*", 7037769010421566764ULL, 1563422263990341ULL }, { 0, 1, "*", 13742458408468264683ULL, 1132507809721986ULL }, { 7, 0, "", 8317750729754754445ULL, 1004949328025581ULL }, { 7, 0, "", 7903211024748567144ULL, 574034873757226ULL }, { 7, 0, "", 4349324778212816510ULL, 1563422263990341ULL }, { 7, 0, "", 883466679259013405ULL, 1132507809721986ULL }, { 0, 1, "*", 10979302635139457253ULL, 1004949328025581ULL }, { 0, 1, "*", 10965944287057137287ULL, 574034873757226ULL }, { 0, 1, "*", 5710943076754464460ULL, 1563422263990341ULL }, { 0, 1, "*", 8949375536989609546ULL, 1132507809721986ULL }, { 0, 1, "*", 10979302635139457253ULL, 1004949328025581ULL }, { 0, 1, "*", 10965944287057137287ULL, 574034873757226ULL }, { 14, 0, "", 8335325419965587770ULL, 2506275126726740ULL }, { 14, 0, "", 10492197235695091481ULL, 2075360672458385ULL }, { 14, 0, "", 9412621899467959364ULL, 1422700515627579ULL }, { 14, 0, "", 9399263551385639398ULL, 991786061359224ULL }, { 14, 0, "", 143177262126224986ULL, 2506275126726740ULL }, { 14, 0, "", 11665540414157916824ULL, 2075360672458385ULL }, { 14, 0, "", 9412621899467959364ULL, 1422700515627579ULL }, { 14, 0, "", 9399263551385639398ULL, 991786061359224ULL }, { 14, 0, "", 15947350973951137677ULL, 2506275126726740ULL }, { 14, 0, "", 17025675521142091499ULL, 2075360672458385ULL }, { 0, 1, "*", 9412621899467959364ULL, 1422700515627579ULL }, { 0, 1, "*", 9399263551385639398ULL, 991786061359224ULL }, { 14, 0, "", 14755040551163652711ULL, 2506275126726740ULL }, { 14, 0, "", 11289182452209849606ULL, 2075360672458385ULL }, { 0, 1, "*", 9412621899467959364ULL, 1422700515627579ULL }, { 0, 1, "*", 9399263551385639398ULL, 991786061359224ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL }, { 0, 1, "*", 1ULL, 0ULL } };
JOB2(prog71) { run(s, "p71_main", E71); }
static const Exp E72[] = { { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 13729939163749ULL, 13729939163749ULL }, { 0, 2, "M3", 13729939163749ULL, 13729939163749ULL }, { 0, 2, "M3", 409042347566410208ULL, 13729939163749ULL }, { 0, 2, "M3", 409042347566410208ULL, 13729939163749ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 13729939163749ULL, 13729939163749ULL }, { 0, 2, "M3", 13729939163749ULL, 13729939163749ULL }, { 0, 2, "M3", 409042347566410208ULL, 13729939163749ULL }, { 0, 2, "M3", 409042347566410208ULL, 13729939163749ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 7, 0, "", 16167228820384068453ULL, 1275146674316727ULL }, { 7, 0, "", 3332882941284927025ULL, 1275146674316727ULL }, { 0, 1, "*", 409042347566410208ULL, 219437564554324ULL }, { 0, 1, "*", 409042347566410208ULL, 219437564554324ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 7, 0, "", 16167228820384068453ULL, 1275146674316727ULL }, { 7, 0, "", 3332882941284927025ULL, 1275146674316727ULL }, { 0, 1, "*", 409042347566410208ULL, 219437564554324ULL }, { 0, 1, "*", 409042347566410208ULL, 219437564554324ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 13729939163749ULL, 13729939163749ULL }, { 0, 2, "M3", 13729939163749ULL, 13729939163749ULL }, { 0, 2, "M3", 409042347566410208ULL, 13729939163749ULL }, { 0, 2, "M3", 409042347566410208ULL, 13729939163749ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 450092502651701ULL, 450092502651701ULL }, { 0, 2, "M3", 13729939163749ULL, 13729939163749ULL }, { 0, 2, "M3", 13729939163749ULL, 13729939163749ULL }, { 0, 2, "M3", 409042347566410208ULL, 13729939163749ULL }, { 0, 2, "M3", 409042347566410208ULL, 13729939163749ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 7, 0, "", 16167228820384068453ULL, 1275146674316727ULL }, { 0, 1, "Error", 13300014701173146500ULL, 365046522288939ULL }, { 0, 1, "*", 409042347566410208ULL, 219437564554324ULL }, { 0, 1, "*", 409042347566410208ULL, 219437564554324ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 0, 1, "M2", 450092502651701ULL, 655800128042276ULL }, { 7, 0, "", 16167228820384068453ULL, 1275146674316727ULL }, { 0, 1, "Error", 13300014701173146500ULL, 365046522288939ULL }, { 0, 1, "*", 409042347566410208ULL, 219437564554324ULL }, { 0, 1, "*", 409042347566410208ULL, 219437564554324ULL } };
JOB2(prog72) { run(s, "p72_main", E72); }
static const Exp E73[] = { { 7, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 7, 0, "", 195956103725865314ULL, 1487120609947669ULL }, { 7, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 7, 0, "", 195956103725865314ULL, 1487120609947669ULL }, { 8, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 0, 1, "*", 6286230555260481ULL, 709852249780608ULL }, { 8, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 0, 1, "*", 6286230555260481ULL, 709852249780608ULL }, { 7, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 7, 0, "", 195956103725865314ULL, 1487120609947669ULL }, { 7, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 7, 0, "", 195956103725865314ULL, 1487120609947669ULL }, { 8, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 2, 0, "", 196444704851891ULL, 196444704851860ULL }, { 8, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 2, 0, "", 196444704851891ULL, 196444704851860ULL }, { 7, 0, "", 5609088065550573495ULL, 817319557043600ULL }, { 0, 1, "Error", 13165769603719678ULL, 542723622637134ULL }, { 7, 0, "", 5609088065550573495ULL, 817319557043600ULL }, { 0, 1, "Error", 13165769603719678ULL, 542723622637134ULL }, { 8, 0, "", 576239727890818767ULL, 882507440383688ULL }, { 0, 1, "Error", 5397603719692159518ULL, 607911505977222ULL }, { 8, 0, "", 576239727890818767ULL, 882507440383688ULL }, { 0, 1, "Error", 5397603719692159518ULL, 607911505977222ULL }, { 7, 0, "", 5609088065550573495ULL, 817319557043600ULL }, { 0, 1, "Error", 13165769603719678ULL, 542723622637134ULL }, { 7, 0, "", 5609088065550573495ULL, 817319557043600ULL }, { 0, 1, "Error", 13165769603719678ULL, 542723622637134ULL }, { 8, 0, "", 576239727890818767ULL, 882507440383688ULL }, { 2, 0, "", 5397603719692159518ULL, 607911505977222ULL }, { 8, 0, "", 576239727890818767ULL, 882507440383688ULL }, { 2, 0, "", 5397603719692159518ULL, 607911505977222ULL }, { 7, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 7, 0, "", 195076612607304866ULL, 607629491387221ULL }, { 7, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 7, 0, "", 195076612607304866ULL, 607629491387221ULL }, { 8, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 8, 0, "", 195076612607304866ULL, 607629491387221ULL }, { 8, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 8, 0, "", 195076612607304866ULL, 607629491387221ULL }, { 7, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 3, 0, "", 196444704851891ULL, 196444704851860ULL }, { 7, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 3, 0, "", 196444704851891ULL, 196444704851860ULL }, { 8, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 2, 0, "", 196444704851891ULL, 196444704851860ULL }, { 8, 0, "", 6288781511289266600ULL, 471040639258326ULL }, { 2, 0, "", 196444704851891ULL, 196444704851860ULL }, { 7, 0, "", 5609088065550573495ULL, 817319557043600ULL }, { 7, 0, "", 12669678765788376941ULL, 953908409172495ULL }, { 7, 0, "", 5609088065550573495ULL, 817319557043600ULL }, { 7, 0, "", 12669678765788376941ULL, 953908409172495ULL }, { 8, 0, "", 576239727890818767ULL, 882507440383688ULL }, { 8, 0, "", 3581550100661941901ULL, 1019096292512583ULL }, { 8, 0, "", 576239727890818767ULL, 882507440383688ULL }, { 8, 0, "", 3581550100661941901ULL, 1019096292512583ULL }, { 7, 0, "", 5609088065550573495ULL, 817319557043600ULL }, { 3, 0, "", 13165769603719678ULL, 542723622637134ULL }, { 7, 0, "", 5609088065550573495ULL, 817319557043600ULL }, { 3, 0, "", 13165769603719678ULL, 542723622637134ULL }, { 8, 0, "", 576239727890818767ULL, 882507440383688ULL }, { 2, 0, "", 5397603719692159518ULL, 607911505977222ULL }, { 8, 0, "", 576239727890818767ULL, 882507440383688ULL }, { 2, 0, "", 5397603719692159518ULL, 607911505977222ULL } };
JOB2(prog73) { run(s, "p73_main", E73); }
static const Exp E74[] = { { 7, 0, "", 973399111ULL, 530922641083147ULL }, { 7, 0, "", 973399111ULL, 530922641083147ULL }, { 7, 0, "", 977093195ULL, 530922641083147ULL }, { 7, 0, "", 977093195ULL, 530922641083147ULL }, { 7, 0, "", 973399111ULL, 530922641083147ULL }, { 7, 0, "", 973399111ULL, 530922641083147ULL }, { 7, 0, "", 977093195ULL, 530922641083147ULL }, { 7, 0, "", 977093195ULL, 530922641083147ULL }, { 7, 0, "", 29136030126432ULL, 530922641083147ULL }, { 7, 0, "", 29136030126432ULL, 530922641083147ULL }, { 7, 0, "", 977093195ULL, 530922641083147ULL }, { 7, 0, "", 977093195ULL, 530922641083147ULL }, { 7, 0, "", 29136030126432ULL, 530922641083147ULL }, { 7, 0, "", 29136030126432ULL, 530922641083147ULL }, { 7, 0, "", 977093195ULL, 530922641083147ULL }, { 7, 0, "", 977093195ULL, 530922641083147ULL }, { 0, 1, "Error", 1054ULL, 0ULL }, { 0, 1, "Error", 1054ULL, 0ULL }, { 0, 1, "Error", 1058ULL, 0ULL }, { 0, 1, "Error", 1058ULL, 0ULL }, { 0, 1, "Error", 1054ULL, 0ULL }, { 0, 1, "Error", 1054ULL, 0ULL }, { 0, 1, "Error", 1058ULL, 0ULL }, { 0, 1, "Error", 1058ULL, 0ULL }, { 0, 1, "Error", 31548855ULL, 0ULL }, { 0, 1, "Error", 31548855ULL, 0ULL }, { 0, 1, "Error", 1058ULL, 0ULL }, { 0, 1, "Error", 1058ULL, 0ULL }, { 0, 1, "Error", 31548855ULL, 0ULL }, { 0, 1, "Error", 31548855ULL, 0ULL }, { 0, 1, "Error", 1058ULL, 0ULL }, { 0, 1, "Error", 1058ULL, 0ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 7, 0, "", 4545613158828338199ULL, 683506077620476ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL }, { 0, 1, "Error", 1023ULL, 152583436537329ULL } };
JOB2(prog74) { run(s, "p74_main", E74); }
static const Exp E75[] = { { 7, 0, "", 14082008881061461853ULL, 1626208695102639ULL }, { 7, 0, "", 4300291933518760935ULL, 1738546297447185ULL }, { 10, 0, "", 432752901094990ULL, 918520283932866ULL }, { 10, 0, "", 432752901094990ULL, 918520283932866ULL }, { 0, 1, "*", 10026614131156588536ULL, 1421593336535708ULL }, { 0, 1, "*", 14806546810936278386ULL, 1533930938880254ULL }, { 10, 0, "", 432752901094990ULL, 918520283932866ULL }, { 10, 0, "", 432752901094990ULL, 918520283932866ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 5, 0, "", 2770563ULL, 918520283932866ULL }, { 7, 0, "", 14155404581864246102ULL, 1477527340092222ULL }, { 5, 0, "", 2770563ULL, 918520283932866ULL }, { 10, 0, "", 429726104174315728ULL, 918520283932866ULL }, { 5, 0, "", 2770563ULL, 918520283932866ULL }, { 0, 1, "*", 8943012180841815869ULL, 1272911981525291ULL }, { 5, 0, "", 2770563ULL, 918520283932866ULL }, { 10, 0, "", 429726104174315728ULL, 918520283932866ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 1, "M2", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL } };
JOB2(prog75) { run(s, "p75_main", E75); }
static const Exp E76[] = { { 7, 0, "", 185505ULL, 211050905558955ULL }, { 7, 0, "", 3876ULL, 211050905558955ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 211050905558955ULL }, { 0, 1, "*", 0ULL, 211050905558955ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 7, 0, "", 185505ULL, 211050905558955ULL }, { 7, 0, "", 3876ULL, 211050905558955ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 211050905558955ULL }, { 0, 1, "*", 0ULL, 211050905558955ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 7, 0, "", 185505ULL, 211050905558955ULL }, { 7, 0, "", 3876ULL, 211050905558955ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 211050905558955ULL }, { 0, 1, "*", 0ULL, 211050905558955ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 7, 0, "", 185505ULL, 211050905558955ULL }, { 7, 0, "", 3876ULL, 211050905558955ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 0, 1, "*", 0ULL, 211050905558955ULL }, { 0, 1, "*", 0ULL, 211050905558955ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 0, 2, "M2", 0ULL, 0ULL }, { 7, 0, "", 25582345172506386ULL, 985880141788131ULL }, { 7, 0, "", 13459984550583925693ULL, 985880141788131ULL }, { 0, 2, "M2", 248511463263463ULL, 774829236229176ULL }, { 0, 2, "M2", 248511463264455ULL, 774829236229176ULL }, { 0, 1, "*", 8478684597396529ULL, 985880141788131ULL }, { 0, 1, "*", 8478684597427281ULL, 985880141788131ULL }, { 0, 2, "M2", 248511463263463ULL, 774829236229176ULL }, { 0, 2, "M2", 248511463264455ULL, 774829236229176ULL }, { 7, 0, "", 25582345172506386ULL, 985880141788131ULL }, { 7, 0, "", 13459984550583925693ULL, 985880141788131ULL }, { 0, 2, "M2", 248511463263463ULL, 774829236229176ULL }, { 0, 2, "M2", 248511463264455ULL, 774829236229176ULL }, { 0, 1, "*", 8478684597396529ULL, 985880141788131ULL }, { 0, 1, "*", 8478684597427281ULL, 985880141788131ULL }, { 0, 2, "M2", 248511463263463ULL, 774829236229176ULL }, { 0, 2, "M2", 248511463264455ULL, 774829236229176ULL }, { 7, 0, "", 25582345172506386ULL, 985880141788131ULL }, { 7, 0, "", 13459984550583925693ULL, 985880141788131ULL }, { 0, 2, "M2", 248511463263463ULL, 774829236229176ULL }, { 0, 2, "M2", 248511463264455ULL, 774829236229176ULL }, { 0, 1, "*", 8478684597396529ULL, 985880141788131ULL }, { 0, 1, "*", 8478684597427281ULL, 985880141788131ULL }, { 0, 2, "M2", 248511463263463ULL, 774829236229176ULL }, { 0, 2, "M2", 248511463264455ULL, 774829236229176ULL }, { 7, 0, "", 25582345172506386ULL, 985880141788131ULL }, { 7, 0, "", 13459984550583925693ULL, 985880141788131ULL }, { 0, 2, "M2", 248511463263463ULL, 774829236229176ULL }, { 0, 2, "M2", 248511463264455ULL, 774829236229176ULL }, { 0, 1, "*", 8478684597396529ULL, 985880141788131ULL }, { 0, 1, "*", 8478684597427281ULL, 985880141788131ULL }, { 0, 2, "M2", 248511463263463ULL, 774829236229176ULL }, { 0, 2, "M2", 248511463264455ULL, 774829236229176ULL } };
JOB2(prog76) { run(s, "p76_main", E76); }
static const Exp E77[] = { { 7, 0, "", 4568931334900902382ULL, 1516227383042835ULL }, { 7, 0, "", 5636254347462077362ULL, 1516227383042835ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 1, "Error", 402778919010339965ULL, 765430593139785ULL }, { 0, 1, "Error", 402778919010339965ULL, 765430593139785ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 7, 0, "", 6003846985502280829ULL, 2247769566107549ULL }, { 7, 0, "", 7774182035988645963ULL, 2247769566107549ULL }, { 7, 0, "", 14858410895422734345ULL, 1482338972967764ULL }, { 7, 0, "", 15893167145901766094ULL, 1482338972967764ULL }, { 0, 1, "Error", 9725005276393122315ULL, 1496972776204499ULL }, { 0, 1, "Error", 9725005276393122315ULL, 1496972776204499ULL }, { 0, 1, "Error", 31ULL, 731542183064714ULL }, { 0, 1, "Error", 31ULL, 731542183064714ULL }, { 7, 0, "", 3022761677720001067ULL, 1516227383042835ULL }, { 7, 0, "", 4090084690281176047ULL, 1516227383042835ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 1, "Error", 402778919010339965ULL, 765430593139785ULL }, { 0, 1, "Error", 402778919010339965ULL, 765430593139785ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 7, 0, "", 6003846985502280829ULL, 2247769566107549ULL }, { 7, 0, "", 7774182035988645963ULL, 2247769566107549ULL }, { 7, 0, "", 14858410895422734345ULL, 1482338972967764ULL }, { 7, 0, "", 15893167145901766094ULL, 1482338972967764ULL }, { 0, 1, "Error", 9725005276393122315ULL, 1496972776204499ULL }, { 0, 1, "Error", 9725005276393122315ULL, 1496972776204499ULL }, { 0, 1, "Error", 31ULL, 731542183064714ULL }, { 0, 1, "Error", 31ULL, 731542183064714ULL }, { 7, 0, "", 4568931334900902382ULL, 1516227383042835ULL }, { 7, 0, "", 5636254347462077362ULL, 1516227383042835ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 1, "Error", 402778919010339965ULL, 765430593139785ULL }, { 0, 1, "Error", 402778919010339965ULL, 765430593139785ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 7, 0, "", 6003846985502280829ULL, 2247769566107549ULL }, { 7, 0, "", 7774182035988645963ULL, 2247769566107549ULL }, { 7, 0, "", 14858410895422734345ULL, 1482338972967764ULL }, { 7, 0, "", 15893167145901766094ULL, 1482338972967764ULL }, { 0, 1, "Error", 9725005276393122315ULL, 1496972776204499ULL }, { 0, 1, "Error", 9725005276393122315ULL, 1496972776204499ULL }, { 0, 1, "Error", 31ULL, 731542183064714ULL }, { 0, 1, "Error", 31ULL, 731542183064714ULL }, { 7, 0, "", 3022761677720001067ULL, 1516227383042835ULL }, { 7, 0, "", 4090084690281176047ULL, 1516227383042835ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 0, 1, "Error", 402778919010339965ULL, 765430593139785ULL }, { 0, 1, "Error", 402778919010339965ULL, 765430593139785ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 7, 0, "", 6003846985502280829ULL, 2247769566107549ULL }, { 7, 0, "", 7774182035988645963ULL, 2247769566107549ULL }, { 7, 0, "", 14858410895422734345ULL, 1482338972967764ULL }, { 7, 0, "", 15893167145901766094ULL, 1482338972967764ULL }, { 0, 1, "Error", 9725005276393122315ULL, 1496972776204499ULL }, { 0, 1, "Error", 9725005276393122315ULL, 1496972776204499ULL }, { 0, 1, "Error", 31ULL, 731542183064714ULL }, { 0, 1, "Error", 31ULL, 731542183064714ULL } };
JOB2(prog77) { run(s, "p77_main", E77); }
static const Exp E78[] = { { 0, 1, "*", 6389841696652365308ULL, 1961554399193141ULL }, { 0, 1, "*", 6389841696652365308ULL, 1961554399193141ULL }, { 7, 0, "", 2882562786082423891ULL, 1160703565671496ULL }, { 7, 0, "", 2882562786082423891ULL, 1160703565671496ULL }, { 0, 1, "*", 6389841696652365308ULL, 1961554399193141ULL }, { 0, 1, "*", 6389841696652365308ULL, 1961554399193141ULL }, { 0, 2, "M8", 3842040964162542195ULL, 1160703565671496ULL }, { 0, 2, "M8", 3842040964162542195ULL, 1160703565671496ULL }, { 0, 1, "*", 2975216737671792809ULL, 1924303175841818ULL }, { 0, 1, "*", 2975216737671792809ULL, 1924303175841818ULL }, { 7, 0, "", 2882562786082423891ULL, 1160703565671496ULL }, { 7, 0, "", 2882562786082423891ULL, 1160703565671496ULL }, { 0, 1, "*", 2975216737671792809ULL, 1924303175841818ULL }, { 0, 1, "*", 2975216737671792809ULL, 1924303175841818ULL }, { 7, 0, "", 2259970460131964263ULL, 1160703565671496ULL }, { 7, 0, "", 2259970460131964263ULL, 1160703565671496ULL }, { 0, 1, "*", 6389841696652365308ULL, 1961554399193141ULL }, { 0, 1, "*", 6389841696652365308ULL, 1961554399193141ULL }, { 7, 0, "", 2882562786082423891ULL, 1160703565671496ULL }, { 7, 0, "", 2882562786082423891ULL, 1160703565671496ULL }, { 0, 1, "*", 6389841696652365308ULL, 1961554399193141ULL }, { 0, 1, "*", 6389841696652365308ULL, 1961554399193141ULL }, { 0, 2, "M8", 3842040964162542195ULL, 1160703565671496ULL }, { 0, 2, "M8", 3842040964162542195ULL, 1160703565671496ULL }, { 0, 1, "*", 2975216737671792809ULL, 1924303175841818ULL }, { 0, 1, "*", 2975216737671792809ULL, 1924303175841818ULL }, { 7, 0, "", 2882562786082423891ULL, 1160703565671496ULL }, { 7, 0, "", 2882562786082423891ULL, 1160703565671496ULL }, { 0, 1, "*", 2975216737671792809ULL, 1924303175841818ULL }, { 0, 1, "*", 2975216737671792809ULL, 1924303175841818ULL }, { 7, 0, "", 2259970460131964263ULL, 1160703565671496ULL }, { 7, 0, "", 2259970460131964263ULL, 1160703565671496ULL }, { 0, 1, "*", 16200003434479528711ULL, 1543866465857455ULL }, { 0, 1, "*", 16200003434479528711ULL, 1543866465857455ULL }, { 7, 0, "", 7494133395174708809ULL, 743015632335810ULL }, { 7, 0, "", 7494133395174708809ULL, 743015632335810ULL }, { 0, 1, "*", 16200003434479528711ULL, 1543866465857455ULL }, { 0, 1, "*", 16200003434479528711ULL, 1543866465857455ULL }, { 0, 2, "M8", 5497654831968973481ULL, 743015632335810ULL }, { 0, 2, "M8", 5497654831968973481ULL, 743015632335810ULL }, { 0, 1, "*", 14123950392534941716ULL, 1506615242506132ULL }, { 0, 1, "*", 14123950392534941716ULL, 1506615242506132ULL }, { 7, 0, "", 7494133395174708809ULL, 743015632335810ULL }, { 7, 0, "", 7494133395174708809ULL, 743015632335810ULL }, { 0, 1, "*", 14123950392534941716ULL, 1506615242506132ULL }, { 0, 1, "*", 14123950392534941716ULL, 1506615242506132ULL }, { 7, 0, "", 7148780197594234915ULL, 743015632335810ULL }, { 7, 0, "", 7148780197594234915ULL, 743015632335810ULL }, { 0, 1, "*", 16200003434479528711ULL, 1543866465857455ULL }, { 0, 1, "*", 16200003434479528711ULL, 1543866465857455ULL }, { 7, 0, "", 7494133395174708809ULL, 743015632335810ULL }, { 7, 0, "", 7494133395174708809ULL, 743015632335810ULL }, { 0, 1, "*", 16200003434479528711ULL, 1543866465857455ULL }, { 0, 1, "*", 16200003434479528711ULL, 1543866465857455ULL }, { 0, 2, "M8", 5497654831968973481ULL, 743015632335810ULL }, { 0, 2, "M8", 5497654831968973481ULL, 743015632335810ULL }, { 0, 1, "*", 14123950392534941716ULL, 1506615242506132ULL }, { 0, 1, "*", 14123950392534941716ULL, 1506615242506132ULL }, { 7, 0, "", 7494133395174708809ULL, 743015632335810ULL }, { 7, 0, "", 7494133395174708809ULL, 743015632335810ULL }, { 0, 1, "*", 14123950392534941716ULL, 1506615242506132ULL }, { 0, 1, "*", 14123950392534941716ULL, 1506615242506132ULL }, { 7, 0, "", 7148780197594234915ULL, 743015632335810ULL }, { 7, 0, "", 7148780197594234915ULL, 743015632335810ULL } };
JOB2(prog78) { run(s, "p78_main", E78); }
static const Exp E79[] = { { 7, 0, "", 15094601380594644706ULL, 742448133891193ULL }, { 7, 0, "", 181009ULL, 47333712431065ULL }, { 7, 0, "", 7853950607712503503ULL, 455324894105030ULL }, { 7, 0, "", 181009ULL, 47333712431065ULL }, { 7, 0, "", 11950002149632602598ULL, 1288617826797146ULL }, { 7, 0, "", 6337637142678575826ULL, 593503405337018ULL }, { 7, 0, "", 4164034763085784816ULL, 1001494587010983ULL }, { 7, 0, "", 6337637142678575826ULL, 593503405337018ULL }, { 7, 0, "", 12133020139074133311ULL, 742448133891193ULL }, { 7, 0, "", 2558673293332ULL, 47333712431065ULL }, { 7, 0, "", 10216938959078152786ULL, 455324894105030ULL }, { 7, 0, "", 2558673293332ULL, 47333712431065ULL }, { 7, 0, "", 2904368416228466021ULL, 1288617826797146ULL }, { 7, 0, "", 18320016567188452467ULL, 593503405337018ULL }, { 7, 0, "", 2783648073371338769ULL, 1001494587010983ULL }, { 7, 0, "", 18320016567188452467ULL, 593503405337018ULL }, { 7, 0, "", 6651748665536173852ULL, 334456952217228ULL }, { 7, 0, "", 181009ULL, 47333712431065ULL }, { 7, 0, "", 4609324404ULL, 47333712431065ULL }, { 7, 0, "", 181009ULL, 47333712431065ULL }, { 7, 0, "", 2013775289808824703ULL, 880626645123181ULL }, { 7, 0, "", 6337637142678575826ULL, 593503405337018ULL }, { 7, 0, "", 10635963013490466518ULL, 593503405337018ULL }, { 7, 0, "", 6337637142678575826ULL, 593503405337018ULL }, { 7, 0, "", 7746326307661934879ULL, 334456952217228ULL }, { 7, 0, "", 2558673293332ULL, 47333712431065ULL }, { 7, 0, "", 76225435298538897ULL, 47333712431065ULL }, { 7, 0, "", 2558673293332ULL, 47333712431065ULL }, { 7, 0, "", 3507149434574131744ULL, 880626645123181ULL }, { 7, 0, "", 18320016567188452467ULL, 593503405337018ULL }, { 7, 0, "", 14756828233692157333ULL, 593503405337018ULL }, { 7, 0, "", 18320016567188452467ULL, 593503405337018ULL }, { 7, 0, "", 407991181705058ULL, 455324894105030ULL }, { 7, 0, "", 181009ULL, 47333712431065ULL }, { 7, 0, "", 407991181705058ULL, 455324894105030ULL }, { 7, 0, "", 181009ULL, 47333712431065ULL }, { 7, 0, "", 6818159835008619652ULL, 1001494587010983ULL }, { 7, 0, "", 6337637142678575826ULL, 593503405337018ULL }, { 7, 0, "", 6818159835008619652ULL, 1001494587010983ULL }, { 7, 0, "", 6337637142678575826ULL, 593503405337018ULL }, { 7, 0, "", 76633421870919551ULL, 455324894105030ULL }, { 7, 0, "", 2558673293332ULL, 47333712431065ULL }, { 7, 0, "", 76633421870919551ULL, 455324894105030ULL }, { 7, 0, "", 2558673293332ULL, 47333712431065ULL }, { 7, 0, "", 10939025055210310467ULL, 1001494587010983ULL }, { 7, 0, "", 18320016567188452467ULL, 593503405337018ULL }, { 7, 0, "", 10939025055210310467ULL, 1001494587010983ULL }, { 7, 0, "", 18320016567188452467ULL, 593503405337018ULL }, { 7, 0, "", 148717974ULL, 47333712431065ULL }, { 7, 0, "", 181009ULL, 47333712431065ULL }, { 7, 0, "", 148717974ULL, 47333712431065ULL }, { 7, 0, "", 181009ULL, 47333712431065ULL }, { 7, 0, "", 2519426884744388951ULL, 593503405337018ULL }, { 7, 0, "", 6337637142678575826ULL, 593503405337018ULL }, { 7, 0, "", 2519426884744388951ULL, 593503405337018ULL }, { 7, 0, "", 6337637142678575826ULL, 593503405337018ULL }, { 7, 0, "", 2458885009660377ULL, 47333712431065ULL }, { 7, 0, "", 2558673293332ULL, 47333712431065ULL }, { 7, 0, "", 2458885009660377ULL, 47333712431065ULL }, { 7, 0, "", 2558673293332ULL, 47333712431065ULL }, { 7, 0, "", 6817751843975632568ULL, 593503405337018ULL }, { 7, 0, "", 18320016567188452467ULL, 593503405337018ULL }, { 7, 0, "", 6817751843975632568ULL, 593503405337018ULL }, { 7, 0, "", 18320016567188452467ULL, 593503405337018ULL } };
JOB2(prog79) { run(s, "p79_main", E79); }
