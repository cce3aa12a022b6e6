/*vp {"pc":"VP","time":150,"bounds":["80 random programs of 12..60 statements (nested eval, die with message, class or id, failing operators, native failures, calls, loops, next, last, return, and objects held by variables, fields, elements, a class variable, arguments and return values, with a destructor that itself throws and catches) with every combination of their 6 conditions"]} */
// generated by tools/gen_*.py
#include "lang.h"

typedef struct { int ret, eid; const char* msg; uint64_t T, D; } Exp;
static void run(SPV* s, const char* m, const Exp* ex) { OK(CALL(s, "reset", 0)); OK(CALL(s, "eids", 0)); int ids[4]; memcpy(ids, ENV->get_elems_int(ENV, ST, ST[0].oval), 16); int sc = ENV->enter_scope(ENV, ST);
  c_int x = sym_int("x"); vp_assume((x >= 0) & (x < 64));
  /* the first run may enlarge the frame storage, which the stack keeps */ set_int(0, x); CALL(s, m, 1); spv_clear_exc(s); OK(CALL(s, "reset", 0)); spv_clear_exc(s); ENV->leave_scope(ENV, ST, sc); OK(CALL(s, "reset", 0));
  BAL_BEGIN set_int(0, x); int e = CALL(s, m, 1); int rv = get_int(); const Exp* E = &ex[vp_pick(x)];
  vp_assert(!e == !E->eid, "an exception leaves the method exactly when it is thrown and not caught"); vp_assert(e == ids[E->eid], "error id of the exception"); vp_assert(e || rv == E->ret, "return value");
  if (e) { vp_assert(spv_exc(s) != 0, "the exception variable is set"); const char* c = spv_exc_chars(s); if (E->msg[0] != '*') { size_t n = strlen(E->msg); vp_assert(strncmp(c, E->msg, n) == 0 && c[n] == (E->msg[0] == 'E' ? '\n' : ':'), "message of the exception"); } else vp_assert(c[0] != 0 && c[0] != 'M', "message of a built-in failure"); vp_assert(strstr(c, m) != 0, "the stack trace names the method"); }
  spv_clear_exc(s); OK(CALL(s, "getT", 0)); vp_assert((uint64_t)get_long() == E->T, "the statements executed are exactly those of the documented semantics"); OK(CALL(s, "dropG", 0)); OK(CALL(s, "getD", 0)); vp_assert((uint64_t)get_long() == E->D, "every object was destroyed exactly once"); vp_observe(get_long()); BAL_END }
static const Exp E0[] = { { 7, 0, "", 12369540585254644530ULL, 2257539557724860ULL }, { 7, 0, "", 4665994068264857751ULL, 1082171185562777ULL }, { 7, 0, "", 12369540585254644530ULL, 2257539557724860ULL }, { 7, 0, "", 4665994068264857751ULL, 1082171185562777ULL }, { 7, 0, "", 4676651717742097603ULL, 1425966329997588ULL }, { 7, 0, "", 4676651717742097603ULL, 1425966329997588ULL }, { 7, 0, "", 4676651717742097603ULL, 1425966329997588ULL }, { 7, 0, "", 4676651717742097603ULL, 1425966329997588ULL }, { 7, 0, "", 5148655797771043256ULL, 2257539557724860ULL }, { 7, 0, "", 17736939238576081873ULL, 1082171185562777ULL }, { 7, 0, "", 5148655797771043256ULL, 2257539557724860ULL }, { 7, 0, "", 17736939238576081873ULL, 1082171185562777ULL }, { 7, 0, "", 17747596888053321725ULL, 1425966329997588ULL }, { 7, 0, "", 17747596888053321725ULL, 1425966329997588ULL }, { 7, 0, "", 17747596888053321725ULL, 1425966329997588ULL }, { 7, 0, "", 17747596888053321725ULL, 1425966329997588ULL }, { 7, 0, "", 10195374718964845049ULL, 1558711099331820ULL }, { 7, 0, "", 4422913886845889834ULL, 1082171185562777ULL }, { 7, 0, "", 10195374718964845049ULL, 1558711099331820ULL }, { 7, 0, "", 4422913886845889834ULL, 1082171185562777ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 10195374718964845049ULL, 1558711099331820ULL }, { 7, 0, "", 4422913886845889834ULL, 1082171185562777ULL }, { 7, 0, "", 10195374718964845049ULL, 1558711099331820ULL }, { 7, 0, "", 4422913886845889834ULL, 1082171185562777ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 12369540585254644530ULL, 2257539557724860ULL }, { 7, 0, "", 4665994068264857751ULL, 1082171185562777ULL }, { 7, 0, "", 12369540585254644530ULL, 2257539557724860ULL }, { 7, 0, "", 4665994068264857751ULL, 1082171185562777ULL }, { 7, 0, "", 4676651717742097603ULL, 1425966329997588ULL }, { 7, 0, "", 4676651717742097603ULL, 1425966329997588ULL }, { 7, 0, "", 4676651717742097603ULL, 1425966329997588ULL }, { 7, 0, "", 4676651717742097603ULL, 1425966329997588ULL }, { 7, 0, "", 5148655797771043256ULL, 2257539557724860ULL }, { 7, 0, "", 17736939238576081873ULL, 1082171185562777ULL }, { 7, 0, "", 5148655797771043256ULL, 2257539557724860ULL }, { 7, 0, "", 17736939238576081873ULL, 1082171185562777ULL }, { 7, 0, "", 17747596888053321725ULL, 1425966329997588ULL }, { 7, 0, "", 17747596888053321725ULL, 1425966329997588ULL }, { 7, 0, "", 17747596888053321725ULL, 1425966329997588ULL }, { 7, 0, "", 17747596888053321725ULL, 1425966329997588ULL }, { 7, 0, "", 10195374718964845049ULL, 1558711099331820ULL }, { 7, 0, "", 4422913886845889834ULL, 1082171185562777ULL }, { 7, 0, "", 10195374718964845049ULL, 1558711099331820ULL }, { 7, 0, "", 4422913886845889834ULL, 1082171185562777ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 10195374718964845049ULL, 1558711099331820ULL }, { 7, 0, "", 4422913886845889834ULL, 1082171185562777ULL }, { 7, 0, "", 10195374718964845049ULL, 1558711099331820ULL }, { 7, 0, "", 4422913886845889834ULL, 1082171185562777ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL }, { 7, 0, "", 8055811622043205141ULL, 1902506243766631ULL } };
JOB2(prog0) { run(s, "p0_main", E0); }
static const Exp E1[] = { { 7, 0, "", 113449281554764ULL, 900873763440610ULL }, { 7, 0, "", 5231554863769201981ULL, 1725451317609769ULL }, { 0, 1, "*", 11ULL, 787424481896851ULL }, { 0, 1, "*", 8956963515217178024ULL, 1125099782477121ULL }, { 7, 0, "", 113449281554764ULL, 900873763440610ULL }, { 7, 0, "", 5231554863769201981ULL, 1725451317609769ULL }, { 0, 1, "*", 11ULL, 787424481896851ULL }, { 0, 1, "*", 8956963515217178024ULL, 1125099782477121ULL }, { 7, 0, "", 113449281554764ULL, 900873763440610ULL }, { 7, 0, "", 5231554863769201981ULL, 1725451317609769ULL }, { 0, 1, "*", 11ULL, 787424481896851ULL }, { 0, 1, "*", 8956963515217178024ULL, 1125099782477121ULL }, { 7, 0, "", 113449281554764ULL, 900873763440610ULL }, { 7, 0, "", 5231554863769201981ULL, 1725451317609769ULL }, { 0, 1, "*", 11ULL, 787424481896851ULL }, { 0, 1, "*", 8956963515217178024ULL, 1125099782477121ULL }, { 7, 0, "", 113449281554764ULL, 900873763440610ULL }, { 7, 0, "", 5231554863769201981ULL, 1725451317609769ULL }, { 0, 1, "*", 11ULL, 787424481896851ULL }, { 0, 1, "*", 8956963515217178024ULL, 1125099782477121ULL }, { 7, 0, "", 113449281554764ULL, 900873763440610ULL }, { 7, 0, "", 5231554863769201981ULL, 1725451317609769ULL }, { 0, 1, "*", 11ULL, 787424481896851ULL }, { 0, 1, "*", 8956963515217178024ULL, 1125099782477121ULL }, { 7, 0, "", 113449281554764ULL, 900873763440610ULL }, { 7, 0, "", 5231554863769201981ULL, 1725451317609769ULL }, { 0, 1, "*", 11ULL, 787424481896851ULL }, { 0, 1, "*", 8956963515217178024ULL, 1125099782477121ULL }, { 7, 0, "", 113449281554764ULL, 900873763440610ULL }, { 7, 0, "", 5231554863769201981ULL, 1725451317609769ULL }, { 0, 1, "*", 11ULL, 787424481896851ULL }, { 0, 1, "*", 8956963515217178024ULL, 1125099782477121ULL }, { 0, 3, "M13", 29583435ULL, 787424481896851ULL }, { 0, 3, "M13", 77127793847154490ULL, 787424481896851ULL }, { 0, 1, "*", 29583435ULL, 787424481896851ULL }, { 0, 1, "*", 77127793847154490ULL, 787424481896851ULL }, { 0, 3, "M13", 29583435ULL, 787424481896851ULL }, { 0, 3, "M13", 77127793847154490ULL, 787424481896851ULL }, { 0, 1, "*", 29583435ULL, 787424481896851ULL }, { 0, 1, "*", 77127793847154490ULL, 787424481896851ULL }, { 0, 3, "M13", 29583435ULL, 787424481896851ULL }, { 0, 3, "M13", 77127793847154490ULL, 787424481896851ULL }, { 0, 1, "*", 29583435ULL, 787424481896851ULL }, { 0, 1, "*", 77127793847154490ULL, 787424481896851ULL }, { 0, 3, "M13", 29583435ULL, 787424481896851ULL }, { 0, 3, "M13", 77127793847154490ULL, 787424481896851ULL }, { 0, 1, "*", 29583435ULL, 787424481896851ULL }, { 0, 1, "*", 77127793847154490ULL, 787424481896851ULL }, { 0, 3, "M13", 29583435ULL, 787424481896851ULL }, { 0, 3, "M13", 77127793847154490ULL, 787424481896851ULL }, { 0, 1, "*", 29583435ULL, 787424481896851ULL }, { 0, 1, "*", 77127793847154490ULL, 787424481896851ULL }, { 0, 3, "M13", 29583435ULL, 787424481896851ULL }, { 0, 3, "M13", 77127793847154490ULL, 787424481896851ULL }, { 0, 1, "*", 29583435ULL, 787424481896851ULL }, { 0, 1, "*", 77127793847154490ULL, 787424481896851ULL }, { 0, 3, "M13", 29583435ULL, 787424481896851ULL }, { 0, 3, "M13", 77127793847154490ULL, 787424481896851ULL }, { 0, 1, "*", 29583435ULL, 787424481896851ULL }, { 0, 1, "*", 77127793847154490ULL, 787424481896851ULL }, { 0, 3, "M13", 29583435ULL, 787424481896851ULL }, { 0, 3, "M13", 77127793847154490ULL, 787424481896851ULL }, { 0, 1, "*", 29583435ULL, 787424481896851ULL }, { 0, 1, "*", 77127793847154490ULL, 787424481896851ULL } };
JOB2(prog1) { run(s, "p1_main", E1); }
static const Exp E2[] = { { 0, 1, "*", 14825266339115543266ULL, 2303820515778601ULL }, { 0, 1, "*", 14825266339115543266ULL, 2303820515778601ULL }, { 0, 1, "*", 11906127764611399407ULL, 2303820515778601ULL }, { 0, 1, "*", 11906127764611399407ULL, 2303820515778601ULL }, { 4, 0, "", 11365793307354299974ULL, 1764375719253064ULL }, { 4, 0, "", 11365793307354299974ULL, 1764375719253064ULL }, { 4, 0, "", 14909245412283117273ULL, 1764375719253064ULL }, { 4, 0, "", 14909245412283117273ULL, 1764375719253064ULL }, { 0, 1, "*", 770125734915221916ULL, 2757301033068082ULL }, { 0, 1, "*", 770125734915221916ULL, 2757301033068082ULL }, { 0, 1, "*", 770125734915221916ULL, 2757301033068082ULL }, { 0, 1, "*", 770125734915221916ULL, 2757301033068082ULL }, { 4, 0, "", 9972592909661778773ULL, 2217856236542545ULL }, { 4, 0, "", 9972592909661778773ULL, 2217856236542545ULL }, { 4, 0, "", 9972592909661778773ULL, 2217856236542545ULL }, { 4, 0, "", 9972592909661778773ULL, 2217856236542545ULL }, { 0, 1, "*", 14825266339115543266ULL, 2303820515778601ULL }, { 0, 1, "*", 14825266339115543266ULL, 2303820515778601ULL }, { 0, 1, "*", 11906127764611399407ULL, 2303820515778601ULL }, { 0, 1, "*", 11906127764611399407ULL, 2303820515778601ULL }, { 4, 0, "", 11365793307354299974ULL, 1764375719253064ULL }, { 4, 0, "", 11365793307354299974ULL, 1764375719253064ULL }, { 4, 0, "", 14909245412283117273ULL, 1764375719253064ULL }, { 4, 0, "", 14909245412283117273ULL, 1764375719253064ULL }, { 0, 1, "*", 770125734915221916ULL, 2757301033068082ULL }, { 0, 1, "*", 770125734915221916ULL, 2757301033068082ULL }, { 0, 1, "*", 770125734915221916ULL, 2757301033068082ULL }, { 0, 1, "*", 770125734915221916ULL, 2757301033068082ULL }, { 4, 0, "", 9972592909661778773ULL, 2217856236542545ULL }, { 4, 0, "", 9972592909661778773ULL, 2217856236542545ULL }, { 4, 0, "", 9972592909661778773ULL, 2217856236542545ULL }, { 4, 0, "", 9972592909661778773ULL, 2217856236542545ULL }, { 0, 1, "*", 13088966361253309491ULL, 2303820515778601ULL }, { 0, 1, "*", 13088966361253309491ULL, 2303820515778601ULL }, { 0, 1, "*", 13088966361253309491ULL, 2303820515778601ULL }, { 0, 1, "*", 13088966361253309491ULL, 2303820515778601ULL }, { 4, 0, "", 12199242496818423317ULL, 1764375719253064ULL }, { 4, 0, "", 12199242496818423317ULL, 1764375719253064ULL }, { 4, 0, "", 12199242496818423317ULL, 1764375719253064ULL }, { 4, 0, "", 12199242496818423317ULL, 1764375719253064ULL }, { 0, 1, "*", 3689397360421206571ULL, 2757301033068082ULL }, { 0, 1, "*", 3689397360421206571ULL, 2757301033068082ULL }, { 0, 1, "*", 3689397360421206571ULL, 2757301033068082ULL }, { 0, 1, "*", 3689397360421206571ULL, 2757301033068082ULL }, { 4, 0, "", 6429140804732966310ULL, 2217856236542545ULL }, { 4, 0, "", 6429140804732966310ULL, 2217856236542545ULL }, { 4, 0, "", 6429140804732966310ULL, 2217856236542545ULL }, { 4, 0, "", 6429140804732966310ULL, 2217856236542545ULL }, { 0, 1, "*", 13088966361253309491ULL, 2303820515778601ULL }, { 0, 1, "*", 13088966361253309491ULL, 2303820515778601ULL }, { 0, 1, "*", 13088966361253309491ULL, 2303820515778601ULL }, { 0, 1, "*", 13088966361253309491ULL, 2303820515778601ULL }, { 4, 0, "", 12199242496818423317ULL, 1764375719253064ULL }, { 4, 0, "", 12199242496818423317ULL, 1764375719253064ULL }, { 4, 0, "", 12199242496818423317ULL, 1764375719253064ULL }, { 4, 0, "", 12199242496818423317ULL, 1764375719253064ULL }, { 0, 1, "*", 3689397360421206571ULL, 2757301033068082ULL }, { 0, 1, "*", 3689397360421206571ULL, 2757301033068082ULL }, { 0, 1, "*", 3689397360421206571ULL, 2757301033068082ULL }, { 0, 1, "*", 3689397360421206571ULL, 2757301033068082ULL }, { 4, 0, "", 6429140804732966310ULL, 2217856236542545ULL }, { 4, 0, "", 6429140804732966310ULL, 2217856236542545ULL }, { 4, 0, "", 6429140804732966310ULL, 2217856236542545ULL }, { 4, 0, "", 6429140804732966310ULL, 2217856236542545ULL } };
JOB2(prog2) { run(s, "p2_main", E2); }
static const Exp E3[] = { { 7, 0, "", 9902411787222672314ULL, 1796919578397565ULL }, { 7, 0, "", 17633878025474062369ULL, 1413387981707894ULL }, { 7, 0, "", 9902411787222672314ULL, 1796919578397565ULL }, { 7, 0, "", 17633878025474062369ULL, 1413387981707894ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 7, 0, "", 9902411787222672314ULL, 1796919578397565ULL }, { 7, 0, "", 17633878025474062369ULL, 1413387981707894ULL }, { 7, 0, "", 9902411787222672314ULL, 1796919578397565ULL }, { 7, 0, "", 17633878025474062369ULL, 1413387981707894ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 7, 0, "", 993599543345699014ULL, 1796919578397565ULL }, { 7, 0, "", 12298938521286658965ULL, 1413387981707894ULL }, { 7, 0, "", 993599543345699014ULL, 1796919578397565ULL }, { 7, 0, "", 12298938521286658965ULL, 1413387981707894ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 7, 0, "", 993599543345699014ULL, 1796919578397565ULL }, { 7, 0, "", 12298938521286658965ULL, 1413387981707894ULL }, { 7, 0, "", 993599543345699014ULL, 1796919578397565ULL }, { 7, 0, "", 12298938521286658965ULL, 1413387981707894ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 7, 0, "", 7295958575230604040ULL, 1981304076486481ULL }, { 7, 0, "", 12122443785769635647ULL, 1597772479796810ULL }, { 7, 0, "", 7295958575230604040ULL, 1981304076486481ULL }, { 7, 0, "", 12122443785769635647ULL, 1597772479796810ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 7, 0, "", 7295958575230604040ULL, 1981304076486481ULL }, { 7, 0, "", 12122443785769635647ULL, 1597772479796810ULL }, { 7, 0, "", 7295958575230604040ULL, 1981304076486481ULL }, { 7, 0, "", 12122443785769635647ULL, 1597772479796810ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 7, 0, "", 13377310878429203740ULL, 1534680376573606ULL }, { 7, 0, "", 11076849862603561131ULL, 1151148779883935ULL }, { 7, 0, "", 13377310878429203740ULL, 1534680376573606ULL }, { 7, 0, "", 11076849862603561131ULL, 1151148779883935ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 7, 0, "", 13377310878429203740ULL, 1534680376573606ULL }, { 7, 0, "", 11076849862603561131ULL, 1151148779883935ULL }, { 7, 0, "", 13377310878429203740ULL, 1534680376573606ULL }, { 7, 0, "", 11076849862603561131ULL, 1151148779883935ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL }, { 0, 1, "Error", 1ULL, 337942357583029ULL } };
JOB2(prog3) { run(s, "p3_main", E3); }
static const Exp E4[] = { { 7, 0, "", 9306090791436650095ULL, 5666913187705585ULL }, { 7, 0, "", 15867292734699996481ULL, 6711874602557296ULL }, { 7, 0, "", 9306090791436650095ULL, 5666913187705585ULL }, { 7, 0, "", 8425838469600169654ULL, 5666913187705585ULL }, { 0, 1, "Error", 13201629684540831611ULL, 2835070800237382ULL }, { 0, 1, "Error", 1483932851324579394ULL, 3880032215089093ULL }, { 0, 1, "Error", 13201629684540831611ULL, 2835070800237382ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 7, 0, "", 2304551407623416970ULL, 4617297879611936ULL }, { 7, 0, "", 14628091369578215932ULL, 4965618351229173ULL }, { 7, 0, "", 2304551407623416970ULL, 4617297879611936ULL }, { 7, 0, "", 8425838469600169654ULL, 5666913187705585ULL }, { 0, 1, "Error", 11874765347060957468ULL, 1785455492143733ULL }, { 0, 1, "Error", 1388044865302464561ULL, 2133775963760970ULL }, { 0, 1, "Error", 11874765347060957468ULL, 1785455492143733ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 7, 0, "", 12274859790661857679ULL, 5666913187705585ULL }, { 7, 0, "", 16066985437897380865ULL, 6711874602557296ULL }, { 7, 0, "", 12274859790661857679ULL, 5666913187705585ULL }, { 7, 0, "", 8425838469600169654ULL, 5666913187705585ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 0, 1, "Error", 5948724203368938754ULL, 3880032215089093ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 7, 0, "", 12274859790661857679ULL, 5666913187705585ULL }, { 7, 0, "", 16066985437897380865ULL, 6711874602557296ULL }, { 7, 0, "", 12274859790661857679ULL, 5666913187705585ULL }, { 7, 0, "", 8425838469600169654ULL, 5666913187705585ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 0, 1, "Error", 5948724203368938754ULL, 3880032215089093ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 7, 0, "", 9306090791436650095ULL, 5666913187705585ULL }, { 7, 0, "", 15867292734699996481ULL, 6711874602557296ULL }, { 7, 0, "", 9306090791436650095ULL, 5666913187705585ULL }, { 7, 0, "", 8425838469600169654ULL, 5666913187705585ULL }, { 0, 1, "Error", 13201629684540831611ULL, 2835070800237382ULL }, { 0, 1, "Error", 1483932851324579394ULL, 3880032215089093ULL }, { 0, 1, "Error", 13201629684540831611ULL, 2835070800237382ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 7, 0, "", 2304551407623416970ULL, 4617297879611936ULL }, { 7, 0, "", 14628091369578215932ULL, 4965618351229173ULL }, { 7, 0, "", 2304551407623416970ULL, 4617297879611936ULL }, { 7, 0, "", 8425838469600169654ULL, 5666913187705585ULL }, { 0, 1, "Error", 11874765347060957468ULL, 1785455492143733ULL }, { 0, 1, "Error", 1388044865302464561ULL, 2133775963760970ULL }, { 0, 1, "Error", 11874765347060957468ULL, 1785455492143733ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 7, 0, "", 12274859790661857679ULL, 5666913187705585ULL }, { 7, 0, "", 16066985437897380865ULL, 6711874602557296ULL }, { 7, 0, "", 12274859790661857679ULL, 5666913187705585ULL }, { 7, 0, "", 8425838469600169654ULL, 5666913187705585ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 0, 1, "Error", 5948724203368938754ULL, 3880032215089093ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 7, 0, "", 12274859790661857679ULL, 5666913187705585ULL }, { 7, 0, "", 16066985437897380865ULL, 6711874602557296ULL }, { 7, 0, "", 12274859790661857679ULL, 5666913187705585ULL }, { 7, 0, "", 8425838469600169654ULL, 5666913187705585ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 0, 1, "Error", 5948724203368938754ULL, 3880032215089093ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL }, { 0, 1, "Error", 2923672766834245723ULL, 2835070800237382ULL } };
JOB2(prog4) { run(s, "p4_main", E4); }
static const Exp E5[] = { { 7, 0, "", 18213530921870541154ULL, 1864188537204149ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 7, 0, "", 18214376989779682626ULL, 1864188537204149ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 0, 1, "*", 1577822636680959827ULL, 1008081789380514ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 0, 1, "*", 1577822636710512499ULL, 1008081789380514ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 0, 1, "*", 6104606967995676166ULL, 151975041556879ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 0, 1, "*", 6104606968025228838ULL, 151975041556879ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 0, 1, "*", 6104606967995676166ULL, 151975041556879ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 0, 1, "*", 6104606968025228838ULL, 151975041556879ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 0, 1, "*", 7133091985294787251ULL, 1864188537204149ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 0, 1, "*", 7133119277807985363ULL, 1864188537204149ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 0, 1, "*", 1577822636680959827ULL, 1008081789380514ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 0, 1, "*", 1577822636710512499ULL, 1008081789380514ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 0, 1, "*", 6104606967995676166ULL, 151975041556879ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 0, 1, "*", 6104606968025228838ULL, 151975041556879ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 0, 1, "*", 6104606967995676166ULL, 151975041556879ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 0, 1, "*", 6104606968025228838ULL, 151975041556879ULL }, { 3, 0, "", 57317946ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL }, { 1, 0, "", 0ULL, 151975041556879ULL } };
JOB2(prog5) { run(s, "p5_main", E5); }
static const Exp E6[] = { { 7, 0, "", 16112309657878110547ULL, 4340259895922386ULL }, { 7, 0, "", 6631862107370312054ULL, 4275935302089605ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 7, 0, "", 16112309657878110547ULL, 4340259895922386ULL }, { 7, 0, "", 6631862107370312054ULL, 4275935302089605ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 7, 0, "", 1224403448971534820ULL, 3401668578107669ULL }, { 7, 0, "", 8766841307334726205ULL, 3337343984274888ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 7, 0, "", 12775367775199244400ULL, 3411411172868650ULL }, { 0, 1, "*", 6861981589715387427ULL, 781588443092527ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 7, 0, "", 2866311962539540502ULL, 4658980271546837ULL }, { 7, 0, "", 6631862107370312054ULL, 4275935302089605ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 7, 0, "", 2866311962539540502ULL, 4658980271546837ULL }, { 7, 0, "", 6631862107370312054ULL, 4275935302089605ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 7, 0, "", 15022097096716350667ULL, 2000450834497158ULL }, { 7, 0, "", 13360647496099820537ULL, 2000450834497158ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 7, 0, "", 12815504094496626194ULL, 2010193429258139ULL }, { 0, 1, "*", 6861981589715387427ULL, 781588443092527ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 7, 0, "", 5491946498866250199ULL, 4407560150813108ULL }, { 7, 0, "", 14008105469970363928ULL, 4343235556980327ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 2, 0, "", 0ULL, 839146103222268ULL }, { 2, 0, "", 0ULL, 839146103222268ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 7, 0, "", 4150634806807846549ULL, 3468968832998391ULL }, { 7, 0, "", 235104451208359519ULL, 3404644239165610ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 2, 0, "", 0ULL, 839146103222268ULL }, { 2, 0, "", 0ULL, 839146103222268ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 7, 0, "", 10692692877237231770ULL, 4726280526437559ULL }, { 7, 0, "", 14008105469970363928ULL, 4343235556980327ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 2, 0, "", 0ULL, 839146103222268ULL }, { 2, 0, "", 0ULL, 839146103222268ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 7, 0, "", 14676501630016996519ULL, 2067751089387880ULL }, { 7, 0, "", 9434276608613054813ULL, 2067751089387880ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 2, 0, "", 0ULL, 839146103222268ULL }, { 2, 0, "", 0ULL, 839146103222268ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL }, { 0, 1, "M1", 0ULL, 541516176281579ULL } };
JOB2(prog6) { run(s, "p6_main", E6); }
static const Exp E7[] = { { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 2207907178979608181ULL, 1304520631641077ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 2207907178979608181ULL, 1304520631641077ULL }, { 7, 0, "", 472535150253572095ULL, 958406571589799ULL }, { 7, 0, "", 18353802512504474503ULL, 958406571589799ULL }, { 0, 1, "Error", 475657695121358ULL, 682717580688640ULL }, { 0, 1, "Error", 2207354005005360470ULL, 682717580688640ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 2207907178979608181ULL, 1304520631641077ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 2207907178979608181ULL, 1304520631641077ULL }, { 7, 0, "", 472535150253572095ULL, 958406571589799ULL }, { 7, 0, "", 18353802512504474503ULL, 958406571589799ULL }, { 0, 1, "Error", 475657695121358ULL, 682717580688640ULL }, { 0, 1, "Error", 2207354005005360470ULL, 682717580688640ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 2207907178979608181ULL, 1304520631641077ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 2207907178979608181ULL, 1304520631641077ULL }, { 7, 0, "", 472535150253572095ULL, 958406571589799ULL }, { 7, 0, "", 18353802512504474503ULL, 958406571589799ULL }, { 0, 1, "Error", 475657695121358ULL, 682717580688640ULL }, { 0, 1, "Error", 2207354005005360470ULL, 682717580688640ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 2207907178979608181ULL, 1304520631641077ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 2207907178979608181ULL, 1304520631641077ULL }, { 7, 0, "", 472535150253572095ULL, 958406571589799ULL }, { 7, 0, "", 18353802512504474503ULL, 958406571589799ULL }, { 0, 1, "Error", 475657695121358ULL, 682717580688640ULL }, { 0, 1, "Error", 2207354005005360470ULL, 682717580688640ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 790335164143756821ULL, 1304520631641077ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 790335164143756821ULL, 1304520631641077ULL }, { 7, 0, "", 472535150253572095ULL, 958406571589799ULL }, { 7, 0, "", 2679413636048585511ULL, 958406571589799ULL }, { 0, 1, "Error", 475657695121358ULL, 682717580688640ULL }, { 0, 1, "Error", 789781990169509110ULL, 682717580688640ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 790335164143756821ULL, 1304520631641077ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 790335164143756821ULL, 1304520631641077ULL }, { 7, 0, "", 472535150253572095ULL, 958406571589799ULL }, { 7, 0, "", 2679413636048585511ULL, 958406571589799ULL }, { 0, 1, "Error", 475657695121358ULL, 682717580688640ULL }, { 0, 1, "Error", 789781990169509110ULL, 682717580688640ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 790335164143756821ULL, 1304520631641077ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 790335164143756821ULL, 1304520631641077ULL }, { 7, 0, "", 472535150253572095ULL, 958406571589799ULL }, { 7, 0, "", 2679413636048585511ULL, 958406571589799ULL }, { 0, 1, "Error", 475657695121358ULL, 682717580688640ULL }, { 0, 1, "Error", 789781990169509110ULL, 682717580688640ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 790335164143756821ULL, 1304520631641077ULL }, { 7, 0, "", 1028831669369069ULL, 1304520631641077ULL }, { 7, 0, "", 790335164143756821ULL, 1304520631641077ULL }, { 7, 0, "", 472535150253572095ULL, 958406571589799ULL }, { 7, 0, "", 2679413636048585511ULL, 958406571589799ULL }, { 0, 1, "Error", 475657695121358ULL, 682717580688640ULL }, { 0, 1, "Error", 789781990169509110ULL, 682717580688640ULL } };
JOB2(prog7) { run(s, "p7_main", E7); }
static const Exp E8[] = { { 0, 1, "*", 801165658866500349ULL, 953724989391815ULL }, { 0, 1, "*", 801165658866500349ULL, 953724989391815ULL }, { 0, 1, "*", 16370581958374400250ULL, 561502704651846ULL }, { 0, 1, "*", 16370581958374400250ULL, 561502704651846ULL }, { 7, 0, "", 10687454499877365557ULL, 1138002712854828ULL }, { 7, 0, "", 10687454499877365557ULL, 1138002712854828ULL }, { 7, 0, "", 10687454499877365557ULL, 1138002712854828ULL }, { 7, 0, "", 10687454499877365557ULL, 1138002712854828ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 0, 1, "*", 15290573647256323831ULL, 608136183753781ULL }, { 0, 1, "*", 15290573647256323831ULL, 608136183753781ULL }, { 0, 1, "*", 1098440092991442423ULL, 608136183753781ULL }, { 0, 1, "*", 1098440092991442423ULL, 608136183753781ULL }, { 0, 2, "M19", 12900512323061341847ULL, 561502704651846ULL }, { 0, 2, "M19", 12900512323061341847ULL, 561502704651846ULL }, { 0, 2, "M19", 12900512323061341847ULL, 561502704651846ULL }, { 0, 2, "M19", 12900512323061341847ULL, 561502704651846ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 1, "*", 801165658866500349ULL, 953724989391815ULL }, { 0, 1, "*", 801165658866500349ULL, 953724989391815ULL }, { 0, 1, "*", 16370581958374400250ULL, 561502704651846ULL }, { 0, 1, "*", 16370581958374400250ULL, 561502704651846ULL }, { 7, 0, "", 10687454499877365557ULL, 1138002712854828ULL }, { 7, 0, "", 10687454499877365557ULL, 1138002712854828ULL }, { 7, 0, "", 10687454499877365557ULL, 1138002712854828ULL }, { 7, 0, "", 10687454499877365557ULL, 1138002712854828ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 7, 0, "", 13988604281631997408ULL, 1084085759187531ULL }, { 0, 1, "*", 15290573675656441623ULL, 608136183753781ULL }, { 0, 1, "*", 15290573675656441623ULL, 608136183753781ULL }, { 0, 1, "*", 1098440121391560215ULL, 608136183753781ULL }, { 0, 1, "*", 1098440121391560215ULL, 608136183753781ULL }, { 0, 2, "M19", 12900512323061341847ULL, 561502704651846ULL }, { 0, 2, "M19", 12900512323061341847ULL, 561502704651846ULL }, { 0, 2, "M19", 12900512323061341847ULL, 561502704651846ULL }, { 0, 2, "M19", 12900512323061341847ULL, 561502704651846ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL }, { 0, 2, "M19", 507585750984580ULL, 507585750984549ULL } };
JOB2(prog8) { run(s, "p8_main", E8); }
static const Exp E9[] = { { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 1450797132444466413ULL, 1468579218253324ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 7692708143051513306ULL, 1400310810050911ULL }, { 7, 0, "", 842587859850036272ULL, 259249097602212ULL }, { 0, 1, "M3", 31ULL, 0ULL }, { 7, 0, "", 25435770325766527ULL, 190980689399799ULL }, { 0, 1, "M3", 31ULL, 0ULL }, { 7, 0, "", 10628004010775161996ULL, 1120823186959842ULL }, { 0, 1, "*", 31ULL, 0ULL }, { 7, 0, "", 17092749311713172381ULL, 1052554778757429ULL }, { 0, 1, "*", 31ULL, 0ULL }, { 7, 0, "", 842587859850036272ULL, 259249097602212ULL }, { 0, 1, "M3", 31ULL, 0ULL }, { 7, 0, "", 25435770325766527ULL, 190980689399799ULL }, { 0, 1, "M3", 31ULL, 0ULL }, { 7, 0, "", 10628004010775161996ULL, 1120823186959842ULL }, { 0, 1, "*", 31ULL, 0ULL }, { 7, 0, "", 17092749311713172381ULL, 1052554778757429ULL }, { 0, 1, "*", 31ULL, 0ULL }, { 7, 0, "", 842587859850036272ULL, 259249097602212ULL }, { 0, 1, "M3", 31ULL, 0ULL }, { 7, 0, "", 25435770325766527ULL, 190980689399799ULL }, { 0, 1, "M3", 31ULL, 0ULL }, { 7, 0, "", 10628004010775161996ULL, 1120823186959842ULL }, { 0, 1, "*", 31ULL, 0ULL }, { 7, 0, "", 17092749311713172381ULL, 1052554778757429ULL }, { 0, 1, "*", 31ULL, 0ULL }, { 7, 0, "", 842587859850036272ULL, 259249097602212ULL }, { 0, 1, "M3", 31ULL, 0ULL }, { 7, 0, "", 25435770325766527ULL, 190980689399799ULL }, { 0, 1, "M3", 31ULL, 0ULL }, { 7, 0, "", 10628004010775161996ULL, 1120823186959842ULL }, { 0, 1, "*", 31ULL, 0ULL }, { 7, 0, "", 17092749311713172381ULL, 1052554778757429ULL }, { 0, 1, "*", 31ULL, 0ULL } };
JOB2(prog9) { run(s, "p9_main", E9); }
static const Exp E10[] = { { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 17412726252993911818ULL, 2560773586489973ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 14436281260430378950ULL, 2560773586489973ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 17412726252993911818ULL, 2560773586489973ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 14436281260430378950ULL, 2560773586489973ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 10708718745895572318ULL, 1769579210732415ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 5069650368724302332ULL, 1769579210732415ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 10708718745895572318ULL, 1769579210732415ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 5069650368724302332ULL, 1769579210732415ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 8297349627020373963ULL, 2560773586489973ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 4630997709768088719ULL, 2560773586489973ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 8297349627020373963ULL, 2560773586489973ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 4630997709768088719ULL, 2560773586489973ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 9271229363623487553ULL, 1769579210732415ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 9684380192544077283ULL, 1769579210732415ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 9271229363623487553ULL, 1769579210732415ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 9684380192544077283ULL, 1769579210732415ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 17412726252993911818ULL, 2560773586489973ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 14436281260430378950ULL, 2560773586489973ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 17412726252993911818ULL, 2560773586489973ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 14436281260430378950ULL, 2560773586489973ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 10708718745895572318ULL, 1769579210732415ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 5069650368724302332ULL, 1769579210732415ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 10708718745895572318ULL, 1769579210732415ULL }, { 7, 0, "", 15857051138587233886ULL, 973994443304142ULL }, { 4, 0, "", 5069650368724302332ULL, 1769579210732415ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 8297349627020373963ULL, 2560773586489973ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 4630997709768088719ULL, 2560773586489973ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 8297349627020373963ULL, 2560773586489973ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 4630997709768088719ULL, 2560773586489973ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 9271229363623487553ULL, 1769579210732415ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 9684380192544077283ULL, 1769579210732415ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 9271229363623487553ULL, 1769579210732415ULL }, { 3, 0, "", 6045338757712763ULL, 591302260833305ULL }, { 3, 0, "", 9684380192544077283ULL, 1769579210732415ULL } };
JOB2(prog10) { run(s, "p10_main", E10); }
static const Exp E11[] = { { 7, 0, "", 16549083217028848676ULL, 1962336205956357ULL }, { 0, 1, "Error", 17925200707341729310ULL, 2574851567832927ULL }, { 7, 0, "", 16549083217028848676ULL, 1962336205956357ULL }, { 0, 1, "Error", 17925200707341729310ULL, 2574851567832927ULL }, { 7, 0, "", 14579693673570363045ULL, 1962336205956357ULL }, { 0, 1, "Error", 6909744962111302751ULL, 2574851567832927ULL }, { 7, 0, "", 14579693673570363045ULL, 1962336205956357ULL }, { 0, 1, "Error", 6909744962111302751ULL, 2574851567832927ULL }, { 7, 0, "", 16549083217028848676ULL, 1962336205956357ULL }, { 0, 1, "Error", 17925200707341729310ULL, 2574851567832927ULL }, { 7, 0, "", 16549083217028848676ULL, 1962336205956357ULL }, { 0, 1, "Error", 17925200707341729310ULL, 2574851567832927ULL }, { 7, 0, "", 14579693673570363045ULL, 1962336205956357ULL }, { 0, 1, "Error", 6909744962111302751ULL, 2574851567832927ULL }, { 7, 0, "", 14579693673570363045ULL, 1962336205956357ULL }, { 0, 1, "Error", 6909744962111302751ULL, 2574851567832927ULL }, { 7, 0, "", 15309959041466270854ULL, 2149519481484285ULL }, { 0, 1, "M14", 15095048741270247796ULL, 2762034843360855ULL }, { 7, 0, "", 15309959041466270854ULL, 2149519481484285ULL }, { 0, 1, "M14", 15095048741270247796ULL, 2762034843360855ULL }, { 9, 0, "", 25461442235286205ULL, 230266319941546ULL }, { 9, 0, "", 17998244272621464989ULL, 842781681818116ULL }, { 9, 0, "", 25461442235286205ULL, 230266319941546ULL }, { 9, 0, "", 17998244272621464989ULL, 842781681818116ULL }, { 0, 2, "M10", 27519317086ULL, 230266319941546ULL }, { 0, 2, "M10", 11976568804284693246ULL, 842781681818116ULL }, { 0, 2, "M10", 27519317086ULL, 230266319941546ULL }, { 0, 2, "M10", 11976568804284693246ULL, 842781681818116ULL }, { 9, 0, "", 25461442235286205ULL, 230266319941546ULL }, { 9, 0, "", 17998244272621464989ULL, 842781681818116ULL }, { 9, 0, "", 25461442235286205ULL, 230266319941546ULL }, { 9, 0, "", 17998244272621464989ULL, 842781681818116ULL }, { 7, 0, "", 6768134532024040432ULL, 2697471081055929ULL }, { 0, 1, "Error", 13054595349417424120ULL, 3309986442932499ULL }, { 7, 0, "", 14948199049414810738ULL, 2697471081055929ULL }, { 0, 1, "Error", 11196315630021243860ULL, 3309986442932499ULL }, { 7, 0, "", 7894718357958253903ULL, 2697471081055929ULL }, { 0, 1, "Error", 7343751723333024407ULL, 3309986442932499ULL }, { 7, 0, "", 4868584035636482867ULL, 2697471081055929ULL }, { 0, 1, "Error", 9226926086562758229ULL, 3309986442932499ULL }, { 7, 0, "", 1829508333019284404ULL, 2219762795795240ULL }, { 0, 1, "M17", 10595608030695807624ULL, 2832278157671810ULL }, { 7, 0, "", 17720541465486980406ULL, 2219762795795240ULL }, { 0, 1, "M17", 6361999744375727972ULL, 2832278157671810ULL }, { 7, 0, "", 10231785445745437843ULL, 2219762795795240ULL }, { 0, 1, "M17", 5510009075745654695ULL, 2832278157671810ULL }, { 7, 0, "", 15611357620902720631ULL, 2219762795795240ULL }, { 0, 1, "M17", 8578173206952761957ULL, 2832278157671810ULL }, { 7, 0, "", 10226743696495575731ULL, 2884654356583857ULL }, { 0, 1, "M14", 13010864842771334215ULL, 3497169718460427ULL }, { 7, 0, "", 2592823508047362801ULL, 2884654356583857ULL }, { 0, 1, "M14", 11678709513529608171ULL, 3497169718460427ULL }, { 9, 0, "", 26494736970430ULL, 588269745074631ULL }, { 9, 0, "", 414789777095075614ULL, 1200785106951201ULL }, { 9, 0, "", 854668934562ULL, 588269745074631ULL }, { 9, 0, "", 589448599614233692ULL, 1200785106951201ULL }, { 0, 2, "M10", 28629151ULL, 588269745074631ULL }, { 0, 2, "M10", 389328362379106495ULL, 1200785106951201ULL }, { 0, 2, "M10", 923553ULL, 588269745074631ULL }, { 0, 2, "M10", 588627263655654043ULL, 1200785106951201ULL }, { 9, 0, "", 26494736970430ULL, 588269745074631ULL }, { 9, 0, "", 414789777095075614ULL, 1200785106951201ULL }, { 9, 0, "", 854668934562ULL, 588269745074631ULL }, { 9, 0, "", 589448599614233692ULL, 1200785106951201ULL } };
JOB2(prog11) { run(s, "p11_main", E11); }
static const Exp E12[] = { { 7, 0, "", 9315846697182827459ULL, 2208494394857390ULL }, { 7, 0, "", 4524159834032328561ULL, 2208494394857390ULL }, { 7, 0, "", 9315846697182827459ULL, 2208494394857390ULL }, { 7, 0, "", 4524159834032328561ULL, 2208494394857390ULL }, { 7, 0, "", 5091336792338955507ULL, 1891606124608183ULL }, { 7, 0, "", 18351960219082159585ULL, 1891606124608183ULL }, { 7, 0, "", 5091336792338955507ULL, 1891606124608183ULL }, { 7, 0, "", 18351960219082159585ULL, 1891606124608183ULL }, { 7, 0, "", 14087955207415023667ULL, 2655833612777973ULL }, { 7, 0, "", 10763033385865794209ULL, 2655833612777973ULL }, { 7, 0, "", 14087955207415023667ULL, 2655833612777973ULL }, { 7, 0, "", 10763033385865794209ULL, 2655833612777973ULL }, { 7, 0, "", 11491026590027169075ULL, 2249309014097993ULL }, { 7, 0, "", 6779463673756936353ULL, 2249309014097993ULL }, { 7, 0, "", 11491026590027169075ULL, 2249309014097993ULL }, { 7, 0, "", 6779463673756936353ULL, 2249309014097993ULL }, { 7, 0, "", 9315846697182827459ULL, 2208494394857390ULL }, { 7, 0, "", 4524159834032328561ULL, 2208494394857390ULL }, { 7, 0, "", 9315846697182827459ULL, 2208494394857390ULL }, { 7, 0, "", 4524159834032328561ULL, 2208494394857390ULL }, { 7, 0, "", 5091336792338955507ULL, 1891606124608183ULL }, { 7, 0, "", 18351960219082159585ULL, 1891606124608183ULL }, { 7, 0, "", 5091336792338955507ULL, 1891606124608183ULL }, { 7, 0, "", 18351960219082159585ULL, 1891606124608183ULL }, { 7, 0, "", 14087955207415023667ULL, 2655833612777973ULL }, { 7, 0, "", 10763033385865794209ULL, 2655833612777973ULL }, { 7, 0, "", 14087955207415023667ULL, 2655833612777973ULL }, { 7, 0, "", 10763033385865794209ULL, 2655833612777973ULL }, { 7, 0, "", 11491026590027169075ULL, 2249309014097993ULL }, { 7, 0, "", 6779463673756936353ULL, 2249309014097993ULL }, { 7, 0, "", 11491026590027169075ULL, 2249309014097993ULL }, { 7, 0, "", 6779463673756936353ULL, 2249309014097993ULL }, { 7, 0, "", 9315846697182827459ULL, 2208494394857390ULL }, { 7, 0, "", 4524159834032328561ULL, 2208494394857390ULL }, { 7, 0, "", 9315846697182827459ULL, 2208494394857390ULL }, { 7, 0, "", 4524159834032328561ULL, 2208494394857390ULL }, { 7, 0, "", 5091336792338955507ULL, 1891606124608183ULL }, { 7, 0, "", 18351960219082159585ULL, 1891606124608183ULL }, { 7, 0, "", 5091336792338955507ULL, 1891606124608183ULL }, { 7, 0, "", 18351960219082159585ULL, 1891606124608183ULL }, { 7, 0, "", 14681202834125986508ULL, 2208494394857390ULL }, { 7, 0, "", 14093343160605236666ULL, 2208494394857390ULL }, { 7, 0, "", 14681202834125986508ULL, 2208494394857390ULL }, { 7, 0, "", 14093343160605236666ULL, 2208494394857390ULL }, { 7, 0, "", 13511149911501606227ULL, 1801969796177410ULL }, { 7, 0, "", 13764381379162824193ULL, 1801969796177410ULL }, { 7, 0, "", 13511149911501606227ULL, 1801969796177410ULL }, { 7, 0, "", 13764381379162824193ULL, 1801969796177410ULL }, { 7, 0, "", 9315846697182827459ULL, 2208494394857390ULL }, { 7, 0, "", 4524159834032328561ULL, 2208494394857390ULL }, { 7, 0, "", 9315846697182827459ULL, 2208494394857390ULL }, { 7, 0, "", 4524159834032328561ULL, 2208494394857390ULL }, { 7, 0, "", 5091336792338955507ULL, 1891606124608183ULL }, { 7, 0, "", 18351960219082159585ULL, 1891606124608183ULL }, { 7, 0, "", 5091336792338955507ULL, 1891606124608183ULL }, { 7, 0, "", 18351960219082159585ULL, 1891606124608183ULL }, { 7, 0, "", 14681202834125986508ULL, 2208494394857390ULL }, { 7, 0, "", 14093343160605236666ULL, 2208494394857390ULL }, { 7, 0, "", 14681202834125986508ULL, 2208494394857390ULL }, { 7, 0, "", 14093343160605236666ULL, 2208494394857390ULL }, { 7, 0, "", 13511149911501606227ULL, 1801969796177410ULL }, { 7, 0, "", 13764381379162824193ULL, 1801969796177410ULL }, { 7, 0, "", 13511149911501606227ULL, 1801969796177410ULL }, { 7, 0, "", 13764381379162824193ULL, 1801969796177410ULL } };
JOB2(prog12) { run(s, "p12_main", E12); }
static const Exp E13[] = { { 0, 1, "M4", 5619252200841142398ULL, 2301653315440073ULL }, { 0, 3, "M3", 9910595638941199166ULL, 2301653315440073ULL }, { 0, 1, "*", 438080968586259130ULL, 879918815324938ULL }, { 0, 1, "*", 438080968586259130ULL, 879918815324938ULL }, { 0, 1, "M4", 5619252200841142398ULL, 2301653315440073ULL }, { 0, 3, "M3", 9910595638941199166ULL, 2301653315440073ULL }, { 0, 1, "*", 438080968586259130ULL, 879918815324938ULL }, { 0, 1, "*", 438080968586259130ULL, 879918815324938ULL }, { 0, 1, "M4", 5619252200841142398ULL, 2301653315440073ULL }, { 0, 3, "M3", 9910595638941199166ULL, 2301653315440073ULL }, { 0, 1, "*", 438080968586259130ULL, 879918815324938ULL }, { 0, 1, "*", 438080968586259130ULL, 879918815324938ULL }, { 0, 1, "M4", 5619252200841142398ULL, 2301653315440073ULL }, { 0, 3, "M3", 9910595638941199166ULL, 2301653315440073ULL }, { 0, 1, "*", 438080968586259130ULL, 879918815324938ULL }, { 0, 1, "*", 438080968586259130ULL, 879918815324938ULL }, { 0, 1, "M4", 9926885589184947881ULL, 2073820076354842ULL }, { 0, 3, "M3", 18418631589727178249ULL, 2073820076354842ULL }, { 0, 1, "*", 4930467520853856ULL, 430484563252886ULL }, { 0, 1, "*", 4930467520853856ULL, 430484563252886ULL }, { 0, 1, "M4", 9926885589184947881ULL, 2073820076354842ULL }, { 0, 3, "M3", 18418631589727178249ULL, 2073820076354842ULL }, { 0, 1, "*", 4930467520853856ULL, 430484563252886ULL }, { 0, 1, "*", 4930467520853856ULL, 430484563252886ULL }, { 0, 1, "M4", 9926885589184947881ULL, 2073820076354842ULL }, { 0, 3, "M3", 18418631589727178249ULL, 2073820076354842ULL }, { 0, 1, "*", 4930467520853856ULL, 430484563252886ULL }, { 0, 1, "*", 4930467520853856ULL, 430484563252886ULL }, { 0, 1, "M4", 9926885589184947881ULL, 2073820076354842ULL }, { 0, 3, "M3", 18418631589727178249ULL, 2073820076354842ULL }, { 0, 1, "*", 4930467520853856ULL, 430484563252886ULL }, { 0, 1, "*", 4930467520853856ULL, 430484563252886ULL }, { 0, 1, "M4", 9853410708344909881ULL, 2401953721722399ULL }, { 0, 3, "M3", 3503746969092616953ULL, 2401953721722399ULL }, { 1, 0, "", 438080968586259130ULL, 980219221607264ULL }, { 1, 0, "", 438080968586259130ULL, 980219221607264ULL }, { 0, 1, "M4", 9853410708344909881ULL, 2401953721722399ULL }, { 0, 3, "M3", 3503746969092616953ULL, 2401953721722399ULL }, { 1, 0, "", 438080968586259130ULL, 980219221607264ULL }, { 1, 0, "", 438080968586259130ULL, 980219221607264ULL }, { 0, 1, "M4", 9853410708344909881ULL, 2401953721722399ULL }, { 0, 3, "M3", 3503746969092616953ULL, 2401953721722399ULL }, { 1, 0, "", 438080968586259130ULL, 980219221607264ULL }, { 1, 0, "", 438080968586259130ULL, 980219221607264ULL }, { 0, 1, "M4", 9853410708344909881ULL, 2401953721722399ULL }, { 0, 3, "M3", 3503746969092616953ULL, 2401953721722399ULL }, { 1, 0, "", 438080968586259130ULL, 980219221607264ULL }, { 1, 0, "", 438080968586259130ULL, 980219221607264ULL }, { 0, 1, "M4", 15693708201223270244ULL, 2174120482637168ULL }, { 0, 3, "M3", 2396500800394776260ULL, 2174120482637168ULL }, { 1, 0, "", 4930467520853856ULL, 530784969535212ULL }, { 1, 0, "", 4930467520853856ULL, 530784969535212ULL }, { 0, 1, "M4", 15693708201223270244ULL, 2174120482637168ULL }, { 0, 3, "M3", 2396500800394776260ULL, 2174120482637168ULL }, { 1, 0, "", 4930467520853856ULL, 530784969535212ULL }, { 1, 0, "", 4930467520853856ULL, 530784969535212ULL }, { 0, 1, "M4", 15693708201223270244ULL, 2174120482637168ULL }, { 0, 3, "M3", 2396500800394776260ULL, 2174120482637168ULL }, { 1, 0, "", 4930467520853856ULL, 530784969535212ULL }, { 1, 0, "", 4930467520853856ULL, 530784969535212ULL }, { 0, 1, "M4", 15693708201223270244ULL, 2174120482637168ULL }, { 0, 3, "M3", 2396500800394776260ULL, 2174120482637168ULL }, { 1, 0, "", 4930467520853856ULL, 530784969535212ULL }, { 1, 0, "", 4930467520853856ULL, 530784969535212ULL } };
JOB2(prog13) { run(s, "p13_main", E13); }
static const Exp E14[] = { { 7, 0, "", 6292705493360719989ULL, 1475144857994913ULL }, { 0, 1, "*", 203900117695539ULL, 684029518339400ULL }, { 7, 0, "", 6292705493360719989ULL, 1475144857994913ULL }, { 0, 1, "*", 203900117695539ULL, 684029518339400ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 7, 0, "", 371197926309501790ULL, 7021253399758580ULL }, { 0, 1, "*", 3981310126850715389ULL, 6230138060103067ULL }, { 7, 0, "", 3081674581856762331ULL, 6159193615887857ULL }, { 0, 1, "*", 5276188055089029085ULL, 5368078276232344ULL }, { 0, 1, "Error", 853554261430070ULL, 1899981892072359ULL }, { 0, 1, "Error", 853554261430070ULL, 1899981892072359ULL }, { 0, 1, "Error", 853554261430070ULL, 1899981892072359ULL }, { 0, 1, "Error", 853554261430070ULL, 1899981892072359ULL }, { 7, 0, "", 6292705493360719989ULL, 1475144857994913ULL }, { 0, 1, "*", 203900117695539ULL, 684029518339400ULL }, { 7, 0, "", 6292705493360719989ULL, 1475144857994913ULL }, { 0, 1, "*", 203900117695539ULL, 684029518339400ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 7, 0, "", 371197926309501790ULL, 7021253399758580ULL }, { 0, 1, "*", 3981310126850715389ULL, 6230138060103067ULL }, { 7, 0, "", 3081674581856762331ULL, 6159193615887857ULL }, { 0, 1, "*", 5276188055089029085ULL, 5368078276232344ULL }, { 0, 1, "Error", 853554261430070ULL, 1899981892072359ULL }, { 0, 1, "Error", 853554261430070ULL, 1899981892072359ULL }, { 0, 1, "Error", 853554261430070ULL, 1899981892072359ULL }, { 0, 1, "Error", 853554261430070ULL, 1899981892072359ULL }, { 0, 3, "M8", 203900117695539ULL, 684029518339400ULL }, { 0, 3, "M8", 203900117695539ULL, 684029518339400ULL }, { 0, 3, "M8", 203900117695539ULL, 684029518339400ULL }, { 0, 3, "M8", 203900117695539ULL, 684029518339400ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 0, 3, "M8", 18058666000809716336ULL, 4316675337056755ULL }, { 0, 3, "M8", 18058666000809716336ULL, 4316675337056755ULL }, { 0, 3, "M8", 18058666000809716336ULL, 4316675337056755ULL }, { 0, 3, "M8", 18058666000809716336ULL, 4316675337056755ULL }, { 7, 0, "", 2367582634709740590ULL, 3836545936412894ULL }, { 7, 0, "", 2367582634709740590ULL, 3836545936412894ULL }, { 7, 0, "", 2367582634709740590ULL, 3836545936412894ULL }, { 7, 0, "", 2367582634709740590ULL, 3836545936412894ULL }, { 0, 3, "M8", 203900117695539ULL, 684029518339400ULL }, { 0, 3, "M8", 203900117695539ULL, 684029518339400ULL }, { 0, 3, "M8", 203900117695539ULL, 684029518339400ULL }, { 0, 3, "M8", 203900117695539ULL, 684029518339400ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 7, 0, "", 0ULL, 203900117695539ULL }, { 0, 3, "M8", 18058666000809716336ULL, 4316675337056755ULL }, { 0, 3, "M8", 18058666000809716336ULL, 4316675337056755ULL }, { 0, 3, "M8", 18058666000809716336ULL, 4316675337056755ULL }, { 0, 3, "M8", 18058666000809716336ULL, 4316675337056755ULL }, { 7, 0, "", 2367582634709740590ULL, 3836545936412894ULL }, { 7, 0, "", 2367582634709740590ULL, 3836545936412894ULL }, { 7, 0, "", 2367582634709740590ULL, 3836545936412894ULL }, { 7, 0, "", 2367582634709740590ULL, 3836545936412894ULL } };
JOB2(prog14) { run(s, "p14_main", E14); }
static const Exp E15[] = { { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 3711058180051037123ULL, 4936814863657240ULL }, { 7, 0, "", 1007394042488514930ULL, 4921812491842266ULL }, { 7, 0, "", 3711058180051037123ULL, 4936814863657240ULL }, { 7, 0, "", 1007394042488514930ULL, 4921812491842266ULL }, { 7, 0, "", 6667910197595758773ULL, 4505282376312029ULL }, { 7, 0, "", 14800074749588669896ULL, 4505282376312029ULL }, { 7, 0, "", 6667910197595758773ULL, 4505282376312029ULL }, { 7, 0, "", 14800074749588669896ULL, 4505282376312029ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 17578623474809090565ULL, 1084848786230268ULL }, { 7, 0, "", 2750509412790162762ULL, 1084848786230268ULL }, { 7, 0, "", 17578623474809090565ULL, 1084848786230268ULL }, { 7, 0, "", 2750509412790162762ULL, 1084848786230268ULL }, { 7, 0, "", 17578623474809090565ULL, 1084848786230268ULL }, { 7, 0, "", 2750509412790162762ULL, 1084848786230268ULL }, { 7, 0, "", 17578623474809090565ULL, 1084848786230268ULL }, { 7, 0, "", 2750509412790162762ULL, 1084848786230268ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 3711058180051037123ULL, 4936814863657240ULL }, { 7, 0, "", 1007394042488514930ULL, 4921812491842266ULL }, { 7, 0, "", 3711058180051037123ULL, 4936814863657240ULL }, { 7, 0, "", 1007394042488514930ULL, 4921812491842266ULL }, { 7, 0, "", 6667910197595758773ULL, 4505282376312029ULL }, { 7, 0, "", 14800074749588669896ULL, 4505282376312029ULL }, { 7, 0, "", 6667910197595758773ULL, 4505282376312029ULL }, { 7, 0, "", 14800074749588669896ULL, 4505282376312029ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 4392684232960477707ULL, 1084848786230268ULL }, { 7, 0, "", 711534867036816ULL, 1084848786230268ULL }, { 7, 0, "", 17578623474809090565ULL, 1084848786230268ULL }, { 7, 0, "", 2750509412790162762ULL, 1084848786230268ULL }, { 7, 0, "", 17578623474809090565ULL, 1084848786230268ULL }, { 7, 0, "", 2750509412790162762ULL, 1084848786230268ULL }, { 7, 0, "", 17578623474809090565ULL, 1084848786230268ULL }, { 7, 0, "", 2750509412790162762ULL, 1084848786230268ULL }, { 7, 0, "", 17578623474809090565ULL, 1084848786230268ULL }, { 7, 0, "", 2750509412790162762ULL, 1084848786230268ULL } };
JOB2(prog15) { run(s, "p15_main", E15); }
static const Exp E16[] = { { 0, 2, "M6", 14188885089399821414ULL, 2032965703377923ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 2, "M6", 14188885089399821414ULL, 2032965703377923ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 17045325114612701068ULL, 3218399789582521ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "*", 3ULL, 1695900233647810ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M6", 14188885089399821414ULL, 2032965703377923ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 2, "M6", 14188885089399821414ULL, 2032965703377923ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 751162687674742749ULL, 3218399789582521ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "*", 3ULL, 1695900233647810ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M6", 14188885089399821414ULL, 2032965703377923ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 2, "M6", 14188885089399821414ULL, 2032965703377923ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 6451241295028002476ULL, 4183333314327400ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "*", 3ULL, 1695900233647810ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 0, 2, "M6", 14188885089399821414ULL, 2032965703377923ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 2, "M6", 14188885089399821414ULL, 2032965703377923ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 15721266530558015447ULL, 4183333314327400ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "*", 3ULL, 1695900233647810ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL } };
JOB2(prog16) { run(s, "p16_main", E16); }
static const Exp E17[] = { { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 7, 0, "", 13875059809928384680ULL, 1408851427184742ULL }, { 7, 0, "", 13875059809928384680ULL, 1408851427184742ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 7, 0, "", 13873368554543305960ULL, 1408851427184742ULL }, { 7, 0, "", 13873368554543305960ULL, 1408851427184742ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 7, 0, "", 2870905264385969554ULL, 1462007000728784ULL }, { 7, 0, "", 2870905264385969554ULL, 1462007000728784ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 7, 0, "", 2869214009000890834ULL, 1462007000728784ULL }, { 7, 0, "", 2869214009000890834ULL, 1462007000728784ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 7, 0, "", 13875059809928384680ULL, 1408851427184742ULL }, { 7, 0, "", 13875059809928384680ULL, 1408851427184742ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 7, 0, "", 13873368554543305960ULL, 1408851427184742ULL }, { 7, 0, "", 13873368554543305960ULL, 1408851427184742ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 7, 0, "", 2870905264385969554ULL, 1462007000728784ULL }, { 7, 0, "", 2870905264385969554ULL, 1462007000728784ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 7, 0, "", 2869214009000890834ULL, 1462007000728784ULL }, { 7, 0, "", 2869214009000890834ULL, 1462007000728784ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 7, 0, "", 88658016ULL, 1408851427184742ULL }, { 7, 0, "", 88658016ULL, 1408851427184742ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 7, 0, "", 88658016ULL, 1408851427184742ULL }, { 7, 0, "", 88658016ULL, 1408851427184742ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 7, 0, "", 88658016ULL, 1462007000728784ULL }, { 7, 0, "", 88658016ULL, 1462007000728784ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 7, 0, "", 88658016ULL, 1462007000728784ULL }, { 7, 0, "", 88658016ULL, 1462007000728784ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 7, 0, "", 88658016ULL, 1408851427184742ULL }, { 7, 0, "", 88658016ULL, 1408851427184742ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 0, 1, "*", 677865018987334602ULL, 917718421474315ULL }, { 7, 0, "", 88658016ULL, 1408851427184742ULL }, { 7, 0, "", 88658016ULL, 1408851427184742ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 7, 0, "", 88658016ULL, 1462007000728784ULL }, { 7, 0, "", 88658016ULL, 1462007000728784ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 0, 1, "*", 728947525163158964ULL, 970873995018357ULL }, { 7, 0, "", 88658016ULL, 1462007000728784ULL }, { 7, 0, "", 88658016ULL, 1462007000728784ULL } };
JOB2(prog17) { run(s, "p17_main", E17); }
static const Exp E18[] = { { 7, 0, "", 7493475865758934925ULL, 1298714316911508ULL }, { 7, 0, "", 7493475865758934925ULL, 1298714316911508ULL }, { 7, 0, "", 7493475865758934925ULL, 1298714316911508ULL }, { 7, 0, "", 7493475865758934925ULL, 1298714316911508ULL }, { 7, 0, "", 17830404113087216375ULL, 622992111442454ULL }, { 7, 0, "", 17830404113087216375ULL, 622992111442454ULL }, { 7, 0, "", 17830404113087216375ULL, 622992111442454ULL }, { 7, 0, "", 17830404113087216375ULL, 622992111442454ULL }, { 0, 1, "*", 2208137815730326572ULL, 1298714316911508ULL }, { 0, 3, "M13", 1585860432039022623ULL, 1522913792084099ULL }, { 0, 1, "*", 2208137815730326572ULL, 1298714316911508ULL }, { 0, 3, "M13", 1585860432039022623ULL, 1522913792084099ULL }, { 0, 1, "*", 3234147895802895252ULL, 622992111442454ULL }, { 0, 3, "M13", 1175602626630531063ULL, 847191586615045ULL }, { 0, 1, "*", 3234147895802895252ULL, 622992111442454ULL }, { 0, 3, "M13", 1175602626630531063ULL, 847191586615045ULL }, { 7, 0, "", 7636861496172098027ULL, 1298714316911508ULL }, { 7, 0, "", 7636861496172098027ULL, 1298714316911508ULL }, { 7, 0, "", 7636861496172098027ULL, 1298714316911508ULL }, { 7, 0, "", 7636861496172098027ULL, 1298714316911508ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 0, 1, "*", 13302519503876787998ULL, 1298714316911508ULL }, { 0, 3, "M13", 16877340478262631521ULL, 1522913792084099ULL }, { 0, 1, "*", 13302519503876787998ULL, 1298714316911508ULL }, { 0, 3, "M13", 16877340478262631521ULL, 1522913792084099ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 7, 0, "", 6529421526038957933ULL, 1298714316911508ULL }, { 7, 0, "", 6529421526038957933ULL, 1298714316911508ULL }, { 7, 0, "", 6529421526038957933ULL, 1298714316911508ULL }, { 7, 0, "", 6529421526038957933ULL, 1298714316911508ULL }, { 7, 0, "", 16866349773367239383ULL, 622992111442454ULL }, { 7, 0, "", 16866349773367239383ULL, 622992111442454ULL }, { 7, 0, "", 16866349773367239383ULL, 622992111442454ULL }, { 7, 0, "", 16866349773367239383ULL, 622992111442454ULL }, { 0, 1, "M12", 2208137815730326572ULL, 1298714316911508ULL }, { 0, 3, "M13", 1585860432039022623ULL, 1522913792084099ULL }, { 0, 1, "M12", 2208137815730326572ULL, 1298714316911508ULL }, { 0, 3, "M13", 1585860432039022623ULL, 1522913792084099ULL }, { 0, 1, "M12", 3234147895802895252ULL, 622992111442454ULL }, { 0, 3, "M13", 1175602626630531063ULL, 847191586615045ULL }, { 0, 1, "M12", 3234147895802895252ULL, 622992111442454ULL }, { 0, 3, "M13", 1175602626630531063ULL, 847191586615045ULL }, { 7, 0, "", 6672807156452121035ULL, 1298714316911508ULL }, { 7, 0, "", 6672807156452121035ULL, 1298714316911508ULL }, { 7, 0, "", 6672807156452121035ULL, 1298714316911508ULL }, { 7, 0, "", 6672807156452121035ULL, 1298714316911508ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 0, 1, "M12", 10455227956953671198ULL, 1298714316911508ULL }, { 0, 3, "M13", 16877340478262631521ULL, 1522913792084099ULL }, { 0, 1, "M12", 10455227956953671198ULL, 1298714316911508ULL }, { 0, 3, "M13", 16877340478262631521ULL, 1522913792084099ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL }, { 7, 0, "", 8955213173749703641ULL, 622992111442454ULL } };
JOB2(prog18) { run(s, "p18_main", E18); }
static const Exp E19[] = { { 0, 1, "*", 9949608577516829618ULL, 2565834265063307ULL }, { 0, 1, "*", 4074163685825370548ULL, 3684132753529253ULL }, { 0, 1, "*", 8390235337089592550ULL, 1566031203924287ULL }, { 0, 1, "*", 6839673143582918024ULL, 2684329692390233ULL }, { 0, 1, "*", 9949608577516829618ULL, 2565834265063307ULL }, { 0, 1, "*", 4074163685825370548ULL, 3684132753529253ULL }, { 0, 1, "*", 8390235337089592550ULL, 1566031203924287ULL }, { 0, 1, "*", 6839673143582918024ULL, 2684329692390233ULL }, { 0, 1, "*", 17565271071671902276ULL, 727328123621588ULL }, { 7, 0, "", 4720817225245938829ULL, 2278160976241233ULL }, { 0, 1, "*", 17565271071671902276ULL, 727328123621588ULL }, { 7, 0, "", 4720817225245938829ULL, 2278160976241233ULL }, { 0, 1, "*", 10493997274246328750ULL, 1445138878542945ULL }, { 7, 0, "", 18265448877882374312ULL, 2563437367008891ULL }, { 0, 1, "*", 10493997274246328750ULL, 1445138878542945ULL }, { 7, 0, "", 18265448877882374312ULL, 2563437367008891ULL }, { 0, 1, "*", 9949608577516829618ULL, 2565834265063307ULL }, { 0, 1, "*", 12630187594504436725ULL, 3684132753529253ULL }, { 0, 1, "*", 8390235337089592550ULL, 1566031203924287ULL }, { 0, 1, "*", 14159875349948831867ULL, 2684329692390233ULL }, { 0, 1, "*", 9949608577516829618ULL, 2565834265063307ULL }, { 0, 1, "*", 12630187594504436725ULL, 3684132753529253ULL }, { 0, 1, "*", 8390235337089592550ULL, 1566031203924287ULL }, { 0, 1, "*", 14159875349948831867ULL, 2684329692390233ULL }, { 0, 1, "*", 17565271071671902276ULL, 727328123621588ULL }, { 7, 0, "", 676489498110520588ULL, 2278160976241233ULL }, { 0, 1, "*", 17565271071671902276ULL, 727328123621588ULL }, { 7, 0, "", 676489498110520588ULL, 2278160976241233ULL }, { 0, 1, "*", 10493997274246328750ULL, 1445138878542945ULL }, { 7, 0, "", 1768345381036602470ULL, 2563437367008891ULL }, { 0, 1, "*", 10493997274246328750ULL, 1445138878542945ULL }, { 7, 0, "", 1768345381036602470ULL, 2563437367008891ULL }, { 0, 1, "*", 10527640780158156842ULL, 1430314012265598ULL }, { 0, 1, "*", 8739070990608707691ULL, 1989463256498571ULL }, { 0, 1, "*", 10125628739533989418ULL, 773916586541343ULL }, { 0, 1, "*", 8337058949984540267ULL, 1333065830774316ULL }, { 0, 1, "*", 10527640780158156842ULL, 1430314012265598ULL }, { 0, 1, "*", 8739070990608707691ULL, 1989463256498571ULL }, { 0, 1, "*", 10125628739533989418ULL, 773916586541343ULL }, { 0, 1, "*", 8337058949984540267ULL, 1333065830774316ULL }, { 0, 1, "*", 8897401147404912321ULL, 727328123621588ULL }, { 0, 1, "*", 7108831357855463170ULL, 1769111340336578ULL }, { 0, 1, "*", 8897401147404912321ULL, 727328123621588ULL }, { 0, 1, "*", 7108831357855463170ULL, 1769111340336578ULL }, { 0, 1, "*", 2445745969063266579ULL, 869966319005417ULL }, { 0, 1, "*", 657176179513817428ULL, 1911749535720407ULL }, { 0, 1, "*", 2445745969063266579ULL, 869966319005417ULL }, { 0, 1, "*", 657176179513817428ULL, 1911749535720407ULL }, { 0, 1, "*", 10527640780158156842ULL, 1430314012265598ULL }, { 0, 1, "*", 5693959144868365047ULL, 1989463256498571ULL }, { 0, 1, "*", 10125628739533989418ULL, 773916586541343ULL }, { 0, 1, "*", 8912017154690250806ULL, 1333065830774316ULL }, { 0, 1, "*", 10527640780158156842ULL, 1430314012265598ULL }, { 0, 1, "*", 5693959144868365047ULL, 1989463256498571ULL }, { 0, 1, "*", 10125628739533989418ULL, 773916586541343ULL }, { 0, 1, "*", 8912017154690250806ULL, 1333065830774316ULL }, { 0, 1, "*", 8897401147404912321ULL, 727328123621588ULL }, { 0, 1, "*", 936882186491571704ULL, 1769111340336578ULL }, { 0, 1, "*", 8897401147404912321ULL, 727328123621588ULL }, { 0, 1, "*", 936882186491571704ULL, 1769111340336578ULL }, { 0, 1, "*", 2445745969063266579ULL, 869966319005417ULL }, { 0, 1, "*", 11773530783342887061ULL, 1911749535720407ULL }, { 0, 1, "*", 2445745969063266579ULL, 869966319005417ULL }, { 0, 1, "*", 11773530783342887061ULL, 1911749535720407ULL } };
JOB2(prog19) { run(s, "p19_main", E19); }
static const Exp E20[] = { { 7, 0, "", 17317141438588331668ULL, 2255358945368090ULL }, { 7, 0, "", 17317141438588331668ULL, 2255358945368090ULL }, { 7, 0, "", 17317141438588331668ULL, 2255358945368090ULL }, { 7, 0, "", 17317141438588331668ULL, 2255358945368090ULL }, { 7, 0, "", 6806129700185809539ULL, 2619648685056779ULL }, { 7, 0, "", 6806129700185809539ULL, 2619648685056779ULL }, { 7, 0, "", 6806129700185809539ULL, 2619648685056779ULL }, { 7, 0, "", 6806129700185809539ULL, 2619648685056779ULL }, { 7, 0, "", 13711729672750993425ULL, 2255358945368090ULL }, { 7, 0, "", 13711729672750993425ULL, 2255358945368090ULL }, { 7, 0, "", 13711729672750993425ULL, 2255358945368090ULL }, { 7, 0, "", 13711729672750993425ULL, 2255358945368090ULL }, { 7, 0, "", 9993308587899461824ULL, 2619648685056779ULL }, { 7, 0, "", 9993308587899461824ULL, 2619648685056779ULL }, { 7, 0, "", 9993308587899461824ULL, 2619648685056779ULL }, { 7, 0, "", 9993308587899461824ULL, 2619648685056779ULL }, { 7, 0, "", 1878061817606652934ULL, 2255358945368090ULL }, { 7, 0, "", 1878061817606652934ULL, 2255358945368090ULL }, { 7, 0, "", 1878061817606652934ULL, 2255358945368090ULL }, { 7, 0, "", 1878061817606652934ULL, 2255358945368090ULL }, { 7, 0, "", 8078455543640084712ULL, 2619648685056779ULL }, { 7, 0, "", 8078455543640084712ULL, 2619648685056779ULL }, { 7, 0, "", 8078455543640084712ULL, 2619648685056779ULL }, { 7, 0, "", 8078455543640084712ULL, 2619648685056779ULL }, { 7, 0, "", 790761518906477097ULL, 2255358945368090ULL }, { 7, 0, "", 790761518906477097ULL, 2255358945368090ULL }, { 7, 0, "", 790761518906477097ULL, 2255358945368090ULL }, { 7, 0, "", 790761518906477097ULL, 2255358945368090ULL }, { 7, 0, "", 14647280694215547467ULL, 2619648685056779ULL }, { 7, 0, "", 14647280694215547467ULL, 2619648685056779ULL }, { 7, 0, "", 14647280694215547467ULL, 2619648685056779ULL }, { 7, 0, "", 14647280694215547467ULL, 2619648685056779ULL }, { 7, 0, "", 1224537675642897762ULL, 2255358945368090ULL }, { 7, 0, "", 1224537675642897762ULL, 2255358945368090ULL }, { 7, 0, "", 1224537675642897762ULL, 2255358945368090ULL }, { 7, 0, "", 1224537675642897762ULL, 2255358945368090ULL }, { 7, 0, "", 6806129700185809539ULL, 2619648685056779ULL }, { 7, 0, "", 6806129700185809539ULL, 2619648685056779ULL }, { 7, 0, "", 6806129700185809539ULL, 2619648685056779ULL }, { 7, 0, "", 6806129700185809539ULL, 2619648685056779ULL }, { 7, 0, "", 6249971115337034271ULL, 2255358945368090ULL }, { 7, 0, "", 6249971115337034271ULL, 2255358945368090ULL }, { 7, 0, "", 6249971115337034271ULL, 2255358945368090ULL }, { 7, 0, "", 6249971115337034271ULL, 2255358945368090ULL }, { 7, 0, "", 9993308587899461824ULL, 2619648685056779ULL }, { 7, 0, "", 9993308587899461824ULL, 2619648685056779ULL }, { 7, 0, "", 9993308587899461824ULL, 2619648685056779ULL }, { 7, 0, "", 9993308587899461824ULL, 2619648685056779ULL }, { 7, 0, "", 1069228976440605454ULL, 2255358945368090ULL }, { 7, 0, "", 1069228976440605454ULL, 2255358945368090ULL }, { 7, 0, "", 1069228976440605454ULL, 2255358945368090ULL }, { 7, 0, "", 1069228976440605454ULL, 2255358945368090ULL }, { 7, 0, "", 8078455543640084712ULL, 2619648685056779ULL }, { 7, 0, "", 8078455543640084712ULL, 2619648685056779ULL }, { 7, 0, "", 8078455543640084712ULL, 2619648685056779ULL }, { 7, 0, "", 8078455543640084712ULL, 2619648685056779ULL }, { 7, 0, "", 9283713017282424305ULL, 2255358945368090ULL }, { 7, 0, "", 9283713017282424305ULL, 2255358945368090ULL }, { 7, 0, "", 9283713017282424305ULL, 2255358945368090ULL }, { 7, 0, "", 9283713017282424305ULL, 2255358945368090ULL }, { 7, 0, "", 14647280694215547467ULL, 2619648685056779ULL }, { 7, 0, "", 14647280694215547467ULL, 2619648685056779ULL }, { 7, 0, "", 14647280694215547467ULL, 2619648685056779ULL }, { 7, 0, "", 14647280694215547467ULL, 2619648685056779ULL } };
JOB2(prog20) { run(s, "p20_main", E20); }
static const Exp E21[] = { { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 4743046230257312503ULL, 4712922572941753ULL }, { 7, 0, "", 4475734115307499637ULL, 4526226142499889ULL }, { 7, 0, "", 4743046230257312503ULL, 4712922572941753ULL }, { 0, 1, "*", 16219003464307271603ULL, 4347893401430634ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 4743046230257312503ULL, 4712922572941753ULL }, { 7, 0, "", 4475734115307499637ULL, 4526226142499889ULL }, { 7, 0, "", 4743046230257312503ULL, 4712922572941753ULL }, { 0, 1, "*", 16219003464307271603ULL, 4347893401430634ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 13619724421158552115ULL, 4275328056474878ULL }, { 7, 0, "", 152433544087001625ULL, 4088631626033014ULL }, { 7, 0, "", 13619724421158552115ULL, 4275328056474878ULL }, { 0, 1, "*", 10554799433607987420ULL, 3910298884963759ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 13619724421158552115ULL, 4275328056474878ULL }, { 7, 0, "", 152433544087001625ULL, 4088631626033014ULL }, { 7, 0, "", 13619724421158552115ULL, 4275328056474878ULL }, { 0, 1, "*", 10554799433607987420ULL, 3910298884963759ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 4743046230257312503ULL, 4712922572941753ULL }, { 0, 1, "Error", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 4743046230257312503ULL, 4712922572941753ULL }, { 0, 1, "Error", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 4743046230257312503ULL, 4712922572941753ULL }, { 0, 1, "Error", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 4743046230257312503ULL, 4712922572941753ULL }, { 0, 1, "Error", 14804416071243544328ULL, 4347893401430634ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 13619724421158552115ULL, 4275328056474878ULL }, { 0, 1, "Error", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 13619724421158552115ULL, 4275328056474878ULL }, { 0, 1, "Error", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 13619724421158552115ULL, 4275328056474878ULL }, { 0, 1, "Error", 17001938969909847204ULL, 3910298884963759ULL }, { 7, 0, "", 13619724421158552115ULL, 4275328056474878ULL }, { 0, 1, "Error", 17001938969909847204ULL, 3910298884963759ULL } };
JOB2(prog21) { run(s, "p21_main", E21); }
static const Exp E22[] = { { 7, 0, "", 4281503774900168625ULL, 2657900645138225ULL }, { 12, 0, "", 4281503774900168625ULL, 2657900645138225ULL }, { 7, 0, "", 14007951786089847993ULL, 2846472308154552ULL }, { 9, 0, "", 14197722603188021881ULL, 2519087208954699ULL }, { 7, 0, "", 15164921116208194292ULL, 926482020174843ULL }, { 12, 0, "", 15164921116208194292ULL, 926482020174843ULL }, { 7, 0, "", 11472277006022926870ULL, 1115053683191170ULL }, { 9, 0, "", 532424565868310ULL, 787668583991317ULL }, { 7, 0, "", 7129490052308664969ULL, 2657900645138225ULL }, { 12, 0, "", 7129490052308664969ULL, 2657900645138225ULL }, { 7, 0, "", 10749893249724512239ULL, 2846472308154552ULL }, { 9, 0, "", 14197190211460059096ULL, 2519087208954699ULL }, { 7, 0, "", 18012907393616690636ULL, 926482020174843ULL }, { 12, 0, "", 18012907393616690636ULL, 926482020174843ULL }, { 7, 0, "", 8214218469657591116ULL, 1115053683191170ULL }, { 9, 0, "", 32837905525ULL, 787668583991317ULL }, { 7, 0, "", 4281503774900168625ULL, 2657900645138225ULL }, { 12, 0, "", 4281503774900168625ULL, 2657900645138225ULL }, { 7, 0, "", 14007951786089847993ULL, 2846472308154552ULL }, { 9, 0, "", 14197722603188021881ULL, 2519087208954699ULL }, { 7, 0, "", 15164921116208194292ULL, 926482020174843ULL }, { 12, 0, "", 15164921116208194292ULL, 926482020174843ULL }, { 7, 0, "", 11472277006022926870ULL, 1115053683191170ULL }, { 9, 0, "", 532424565868310ULL, 787668583991317ULL }, { 7, 0, "", 7129490052308664969ULL, 2657900645138225ULL }, { 12, 0, "", 7129490052308664969ULL, 2657900645138225ULL }, { 7, 0, "", 10749893249724512239ULL, 2846472308154552ULL }, { 9, 0, "", 14197190211460059096ULL, 2519087208954699ULL }, { 7, 0, "", 18012907393616690636ULL, 926482020174843ULL }, { 12, 0, "", 18012907393616690636ULL, 926482020174843ULL }, { 7, 0, "", 8214218469657591116ULL, 1115053683191170ULL }, { 9, 0, "", 32837905525ULL, 787668583991317ULL }, { 7, 0, "", 448004325255095633ULL, 2657900645138225ULL }, { 12, 0, "", 448004325255095633ULL, 2657900645138225ULL }, { 7, 0, "", 14007951786089847993ULL, 2846472308154552ULL }, { 9, 0, "", 14197722603188021881ULL, 2519087208954699ULL }, { 7, 0, "", 1178469703154361620ULL, 926482020174843ULL }, { 12, 0, "", 1178469703154361620ULL, 926482020174843ULL }, { 7, 0, "", 11472277006022926870ULL, 1115053683191170ULL }, { 9, 0, "", 532424565868310ULL, 787668583991317ULL }, { 7, 0, "", 6627598747923625161ULL, 2657900645138225ULL }, { 12, 0, "", 6627598747923625161ULL, 2657900645138225ULL }, { 7, 0, "", 10749893249724512239ULL, 2846472308154552ULL }, { 9, 0, "", 14197190211460059096ULL, 2519087208954699ULL }, { 7, 0, "", 7358064125822891148ULL, 926482020174843ULL }, { 12, 0, "", 7358064125822891148ULL, 926482020174843ULL }, { 7, 0, "", 8214218469657591116ULL, 1115053683191170ULL }, { 9, 0, "", 32837905525ULL, 787668583991317ULL }, { 7, 0, "", 448004325255095633ULL, 2657900645138225ULL }, { 12, 0, "", 448004325255095633ULL, 2657900645138225ULL }, { 7, 0, "", 14007951786089847993ULL, 2846472308154552ULL }, { 9, 0, "", 14197722603188021881ULL, 2519087208954699ULL }, { 7, 0, "", 1178469703154361620ULL, 926482020174843ULL }, { 12, 0, "", 1178469703154361620ULL, 926482020174843ULL }, { 7, 0, "", 11472277006022926870ULL, 1115053683191170ULL }, { 9, 0, "", 532424565868310ULL, 787668583991317ULL }, { 7, 0, "", 6627598747923625161ULL, 2657900645138225ULL }, { 12, 0, "", 6627598747923625161ULL, 2657900645138225ULL }, { 7, 0, "", 10749893249724512239ULL, 2846472308154552ULL }, { 9, 0, "", 14197190211460059096ULL, 2519087208954699ULL }, { 7, 0, "", 7358064125822891148ULL, 926482020174843ULL }, { 12, 0, "", 7358064125822891148ULL, 926482020174843ULL }, { 7, 0, "", 8214218469657591116ULL, 1115053683191170ULL }, { 9, 0, "", 32837905525ULL, 787668583991317ULL } };
JOB2(prog22) { run(s, "p22_main", E22); }
static const Exp E23[] = { { 7, 0, "", 15273214572665214915ULL, 935228625906712ULL }, { 7, 0, "", 15273214572665214915ULL, 935228625906712ULL }, { 7, 0, "", 17044759702357465659ULL, 901719813928885ULL }, { 7, 0, "", 7391730497094226695ULL, 618125329116091ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 7, 0, "", 18127878256342022371ULL, 1369062712717625ULL }, { 7, 0, "", 18127878256342022371ULL, 1369062712717625ULL }, { 7, 0, "", 14540117727432752889ULL, 1335553900739798ULL }, { 7, 0, "", 16459156849450246472ULL, 1051959415927004ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 7, 0, "", 2362991956606005904ULL, 2910203660487ULL }, { 7, 0, "", 2362991956606005904ULL, 2910203660487ULL }, { 7, 0, "", 27296264756639ULL, 2910203660487ULL }, { 7, 0, "", 27296264756639ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 7, 0, "", 2362991956606005904ULL, 2910203660487ULL }, { 7, 0, "", 2362991956606005904ULL, 2910203660487ULL }, { 7, 0, "", 27296264756639ULL, 2910203660487ULL }, { 7, 0, "", 27296264756639ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 7, 0, "", 15273214572665214915ULL, 935228625906712ULL }, { 7, 0, "", 15273214572665214915ULL, 935228625906712ULL }, { 7, 0, "", 17044759702357465659ULL, 901719813928885ULL }, { 7, 0, "", 7391730497094226695ULL, 618125329116091ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 7, 0, "", 18127878256342022371ULL, 1369062712717625ULL }, { 7, 0, "", 18127878256342022371ULL, 1369062712717625ULL }, { 7, 0, "", 14540117727432752889ULL, 1335553900739798ULL }, { 7, 0, "", 16459156849450246472ULL, 1051959415927004ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 7, 0, "", 2362991956606005904ULL, 2910203660487ULL }, { 7, 0, "", 2362991956606005904ULL, 2910203660487ULL }, { 7, 0, "", 27296264756639ULL, 2910203660487ULL }, { 7, 0, "", 27296264756639ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 7, 0, "", 2362991956606005904ULL, 2910203660487ULL }, { 7, 0, "", 2362991956606005904ULL, 2910203660487ULL }, { 7, 0, "", 27296264756639ULL, 2910203660487ULL }, { 7, 0, "", 27296264756639ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL }, { 1, 0, "", 0ULL, 2910203660487ULL } };
JOB2(prog23) { run(s, "p23_main", E23); }
static const Exp E24[] = { { 7, 0, "", 17383480517227004811ULL, 430901102985410ULL }, { 7, 0, "", 16940226681041267283ULL, 840607756005111ULL }, { 7, 0, "", 17383480517227004811ULL, 430901102985410ULL }, { 7, 0, "", 16940226681041267283ULL, 840607756005111ULL }, { 0, 1, "Error", 248ULL, 425948488642597ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 1, "Error", 248ULL, 425948488642597ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 3, 0, "", 4952614342813ULL, 4952614342813ULL }, { 7, 0, "", 16940226681041267283ULL, 840607756005111ULL }, { 3, 0, "", 4952614342813ULL, 4952614342813ULL }, { 7, 0, "", 16940226681041267283ULL, 840607756005111ULL }, { 3, 0, "", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 3, 0, "", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 7, 0, "", 17383480517227004811ULL, 430901102985410ULL }, { 7, 0, "", 16940226681041267283ULL, 840607756005111ULL }, { 7, 0, "", 17383480517227004811ULL, 430901102985410ULL }, { 7, 0, "", 16940226681041267283ULL, 840607756005111ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 3, 0, "", 4952614342813ULL, 4952614342813ULL }, { 7, 0, "", 16940226681041267283ULL, 840607756005111ULL }, { 3, 0, "", 4952614342813ULL, 4952614342813ULL }, { 7, 0, "", 16940226681041267283ULL, 840607756005111ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 7, 0, "", 3071690370577991979ULL, 1704098281955158ULL }, { 7, 0, "", 16756283571422928185ULL, 2113804934974859ULL }, { 7, 0, "", 3071690370577991979ULL, 1704098281955158ULL }, { 7, 0, "", 16756283571422928185ULL, 2113804934974859ULL }, { 0, 1, "Error", 708518587175497292ULL, 1699145667612345ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 1, "Error", 708518587175497292ULL, 1699145667612345ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 3, 0, "", 4952614342813ULL, 4952614342813ULL }, { 7, 0, "", 16756283571422928185ULL, 2113804934974859ULL }, { 3, 0, "", 4952614342813ULL, 4952614342813ULL }, { 7, 0, "", 16756283571422928185ULL, 2113804934974859ULL }, { 3, 0, "", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 3, 0, "", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 7, 0, "", 3071690370577991979ULL, 1704098281955158ULL }, { 7, 0, "", 16756283571422928185ULL, 2113804934974859ULL }, { 7, 0, "", 3071690370577991979ULL, 1704098281955158ULL }, { 7, 0, "", 16756283571422928185ULL, 2113804934974859ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 3, 0, "", 4952614342813ULL, 4952614342813ULL }, { 7, 0, "", 16756283571422928185ULL, 2113804934974859ULL }, { 3, 0, "", 4952614342813ULL, 4952614342813ULL }, { 7, 0, "", 16756283571422928185ULL, 2113804934974859ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL } };
JOB2(prog24) { run(s, "p24_main", E24); }
static const Exp E25[] = { { 7, 0, "", 10588098956439962358ULL, 701305790320469ULL }, { 7, 0, "", 5251838147729348390ULL, 933387649954733ULL }, { 7, 0, "", 59828425079514363ULL, 701305790320469ULL }, { 7, 0, "", 4385221362958354882ULL, 488758137583502ULL }, { 7, 0, "", 10588098956439962358ULL, 701305790320469ULL }, { 7, 0, "", 5251838147729348390ULL, 933387649954733ULL }, { 7, 0, "", 59828425079514363ULL, 701305790320469ULL }, { 7, 0, "", 4385221362958354882ULL, 488758137583502ULL }, { 7, 0, "", 10588098956439962358ULL, 701305790320469ULL }, { 7, 0, "", 1861440111762303907ULL, 1180140066819814ULL }, { 7, 0, "", 59828425079514363ULL, 701305790320469ULL }, { 7, 0, "", 4385221362958354882ULL, 488758137583502ULL }, { 7, 0, "", 10588098956439962358ULL, 701305790320469ULL }, { 7, 0, "", 1861440111762303907ULL, 1180140066819814ULL }, { 7, 0, "", 59828425079514363ULL, 701305790320469ULL }, { 7, 0, "", 4385221362958354882ULL, 488758137583502ULL }, { 7, 0, "", 51700691162230ULL, 25206043594591ULL }, { 7, 0, "", 51700691162230ULL, 25206043594591ULL }, { 7, 0, "", 51700691162230ULL, 25206043594591ULL }, { 7, 0, "", 51700691162230ULL, 25206043594591ULL }, { 7, 0, "", 25206072284316ULL, 25206043594591ULL }, { 7, 0, "", 25206072284316ULL, 25206043594591ULL }, { 7, 0, "", 25206072284316ULL, 25206043594591ULL }, { 7, 0, "", 25206072284316ULL, 25206043594591ULL }, { 7, 0, "", 25206072284316ULL, 25206043594591ULL }, { 7, 0, "", 25206072284316ULL, 25206043594591ULL }, { 7, 0, "", 25206072284316ULL, 25206043594591ULL }, { 7, 0, "", 25206072284316ULL, 25206043594591ULL }, { 7, 0, "", 25206072284316ULL, 25206043594591ULL }, { 7, 0, "", 25206072284316ULL, 25206043594591ULL }, { 7, 0, "", 25206072284316ULL, 25206043594591ULL }, { 7, 0, "", 25206072284316ULL, 25206043594591ULL }, { 7, 0, "", 5348426068276314944ULL, 801170086064863ULL }, { 7, 0, "", 10478099771159649612ULL, 1033251945699127ULL }, { 7, 0, "", 5348426068276314944ULL, 801170086064863ULL }, { 7, 0, "", 6277406398242874752ULL, 588622433327896ULL }, { 7, 0, "", 5348426068276314944ULL, 801170086064863ULL }, { 7, 0, "", 10478099771159649612ULL, 1033251945699127ULL }, { 7, 0, "", 5348426068276314944ULL, 801170086064863ULL }, { 7, 0, "", 6277406398242874752ULL, 588622433327896ULL }, { 7, 0, "", 5348426068276314944ULL, 801170086064863ULL }, { 7, 0, "", 736216468273074678ULL, 1280004362564208ULL }, { 7, 0, "", 5348426068276314944ULL, 801170086064863ULL }, { 7, 0, "", 6277406398242874752ULL, 588622433327896ULL }, { 7, 0, "", 5348426068276314944ULL, 801170086064863ULL }, { 7, 0, "", 736216468273074678ULL, 1280004362564208ULL }, { 7, 0, "", 5348426068276314944ULL, 801170086064863ULL }, { 7, 0, "", 6277406398242874752ULL, 588622433327896ULL }, { 7, 0, "", 51700691162230ULL, 25206043594591ULL }, { 7, 0, "", 51700691162230ULL, 25206043594591ULL }, { 7, 0, "", 51700691162230ULL, 25206043594591ULL }, { 7, 0, "", 51700691162230ULL, 25206043594591ULL }, { 7, 0, "", 51700691162230ULL, 25206043594591ULL }, { 7, 0, "", 51700691162230ULL, 25206043594591ULL }, { 7, 0, "", 51700691162230ULL, 25206043594591ULL }, { 7, 0, "", 51700691162230ULL, 25206043594591ULL }, { 7, 0, "", 25206072288222ULL, 25206043594591ULL }, { 7, 0, "", 25206072288222ULL, 25206043594591ULL }, { 7, 0, "", 25206072288222ULL, 25206043594591ULL }, { 7, 0, "", 25206072288222ULL, 25206043594591ULL }, { 7, 0, "", 25206072288222ULL, 25206043594591ULL }, { 7, 0, "", 25206072288222ULL, 25206043594591ULL }, { 7, 0, "", 25206072288222ULL, 25206043594591ULL }, { 7, 0, "", 25206072288222ULL, 25206043594591ULL } };
JOB2(prog25) { run(s, "p25_main", E25); }
static const Exp E26[] = { { 7, 0, "", 1317898172353330ULL, 1119195877503128ULL }, { 7, 0, "", 1317898172353330ULL, 1119195877503128ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 7, 0, "", 8722188930770443792ULL, 1639832673140911ULL }, { 7, 0, "", 8722188930770443792ULL, 1639832673140911ULL }, { 7, 0, "", 8722188930770443792ULL, 1639832673140911ULL }, { 7, 0, "", 8722188930770443792ULL, 1639832673140911ULL }, { 7, 0, "", 1317898172353330ULL, 1119195877503128ULL }, { 7, 0, "", 1317898172353330ULL, 1119195877503128ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 7, 0, "", 21638934503997900ULL, 1357105161015126ULL }, { 7, 0, "", 21638934503997900ULL, 1357105161015126ULL }, { 7, 0, "", 21638934503997900ULL, 1357105161015126ULL }, { 7, 0, "", 21638934503997900ULL, 1357105161015126ULL }, { 7, 0, "", 1317898172353330ULL, 1119195877503128ULL }, { 7, 0, "", 1317898172353330ULL, 1119195877503128ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 7, 0, "", 6692381324905437934ULL, 1752933809976208ULL }, { 7, 0, "", 7571193445775798393ULL, 1639832673140911ULL }, { 7, 0, "", 6692381324905437934ULL, 1752933809976208ULL }, { 7, 0, "", 7571193445775798393ULL, 1639832673140911ULL }, { 7, 0, "", 1317898172353330ULL, 1119195877503128ULL }, { 7, 0, "", 1317898172353330ULL, 1119195877503128ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 7, 0, "", 21638934503997900ULL, 1357105161015126ULL }, { 7, 0, "", 21638934503997900ULL, 1357105161015126ULL }, { 7, 0, "", 21638934503997900ULL, 1357105161015126ULL }, { 7, 0, "", 21638934503997900ULL, 1357105161015126ULL }, { 12, 0, "", 1100504564781ULL, 440317327746902ULL }, { 12, 0, "", 1100504564781ULL, 440317327746902ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 12, 0, "", 9261215161519763691ULL, 960954123384685ULL }, { 12, 0, "", 9261215161519763691ULL, 960954123384685ULL }, { 12, 0, "", 9261215161519763691ULL, 960954123384685ULL }, { 12, 0, "", 9261215161519763691ULL, 960954123384685ULL }, { 12, 0, "", 1100504564781ULL, 440317327746902ULL }, { 12, 0, "", 1100504564781ULL, 440317327746902ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 12, 0, "", 944762983ULL, 678226611258900ULL }, { 12, 0, "", 944762983ULL, 678226611258900ULL }, { 12, 0, "", 944762983ULL, 678226611258900ULL }, { 12, 0, "", 944762983ULL, 678226611258900ULL }, { 12, 0, "", 1100504564781ULL, 440317327746902ULL }, { 12, 0, "", 1100504564781ULL, 440317327746902ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 12, 0, "", 7070827803304225065ULL, 1074055260219982ULL }, { 12, 0, "", 27047737025186196ULL, 960954123384685ULL }, { 12, 0, "", 7070827803304225065ULL, 1074055260219982ULL }, { 12, 0, "", 27047737025186196ULL, 960954123384685ULL }, { 12, 0, "", 1100504564781ULL, 440317327746902ULL }, { 12, 0, "", 1100504564781ULL, 440317327746902ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 0, 1, "*", 40ULL, 430144257149641ULL }, { 12, 0, "", 944762983ULL, 678226611258900ULL }, { 12, 0, "", 944762983ULL, 678226611258900ULL }, { 12, 0, "", 944762983ULL, 678226611258900ULL }, { 12, 0, "", 944762983ULL, 678226611258900ULL } };
JOB2(prog26) { run(s, "p26_main", E26); }
static const Exp E27[] = { { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "*", 16558077654341362ULL, 534131537233935ULL }, { 0, 1, "*", 16558077654341362ULL, 534131537233935ULL }, { 0, 1, "*", 16558077654341362ULL, 534131537233935ULL }, { 0, 1, "*", 16558077654341362ULL, 534131537233935ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "Error", 16558077654341362ULL, 534131537233935ULL }, { 0, 1, "Error", 16558077654341362ULL, 534131537233935ULL }, { 0, 1, "Error", 16558077654341362ULL, 534131537233935ULL }, { 0, 1, "Error", 16558077654341362ULL, 534131537233935ULL }, { 0, 1, "M8", 373001563335626ULL, 586745502904456ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "M8", 373001563335626ULL, 586745502904456ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "*", 11563048463404410ULL, 373001563335595ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "*", 11563048463404410ULL, 373001563335595ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "M8", 373001563335626ULL, 586745502904456ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "M8", 373001563335626ULL, 586745502904456ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "Error", 11563048463404410ULL, 373001563335595ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "Error", 11563048463404410ULL, 373001563335595ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "M8", 513834538821816157ULL, 947678927420167ULL }, { 0, 1, "M8", 513834538821816157ULL, 947678927420167ULL }, { 0, 1, "M8", 513834538821816157ULL, 947678927420167ULL }, { 0, 1, "M8", 513834538821816157ULL, 947678927420167ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "M8", 534131537236818ULL, 747875476802796ULL }, { 0, 1, "M8", 513834538821816157ULL, 947678927420167ULL }, { 0, 1, "M8", 513834538821816157ULL, 947678927420167ULL }, { 0, 1, "M8", 513834538821816157ULL, 947678927420167ULL }, { 0, 1, "M8", 513834538821816157ULL, 947678927420167ULL }, { 0, 1, "M8", 373001563335626ULL, 586745502904456ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "M8", 373001563335626ULL, 586745502904456ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "M8", 358827503928872305ULL, 786548953521827ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "M8", 358827503928872305ULL, 786548953521827ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "M8", 373001563335626ULL, 586745502904456ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "M8", 373001563335626ULL, 586745502904456ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "M8", 358827503928872305ULL, 786548953521827ULL }, { 2, 0, "", 1ULL, 373001563335595ULL }, { 0, 1, "M8", 358827503928872305ULL, 786548953521827ULL }, { 2, 0, "", 1ULL, 373001563335595ULL } };
JOB2(prog27) { run(s, "p27_main", E27); }
static const Exp E28[] = { { 7, 0, "", 8071314112963152544ULL, 1905933786579566ULL }, { 7, 0, "", 13421663152657682297ULL, 1595167581586219ULL }, { 0, 3, "M8", 1968445698589187566ULL, 1905933786579566ULL }, { 7, 0, "", 13421663152657682297ULL, 1595167581586219ULL }, { 7, 0, "", 1146203483540227396ULL, 1905933786579566ULL }, { 7, 0, "", 13421663152657682297ULL, 1595167581586219ULL }, { 0, 3, "M8", 16501629903889091786ULL, 1905933786579566ULL }, { 7, 0, "", 13421663152657682297ULL, 1595167581586219ULL }, { 0, 1, "*", 8849118818544839278ULL, 1905933786579566ULL }, { 0, 1, "*", 10149076140436739794ULL, 1595167581586219ULL }, { 0, 3, "M8", 8153371096656314396ULL, 1905933786579566ULL }, { 0, 1, "*", 10149076140436739794ULL, 1595167581586219ULL }, { 0, 1, "*", 7875258299208232604ULL, 1905933786579566ULL }, { 0, 1, "*", 10149076140436739794ULL, 1595167581586219ULL }, { 0, 3, "M8", 14757781772016884398ULL, 1905933786579566ULL }, { 0, 1, "*", 10149076140436739794ULL, 1595167581586219ULL }, { 7, 0, "", 8903158625169950387ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 0, 3, "M8", 1968445698589187566ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 7, 0, "", 15585657997573890191ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 0, 3, "M8", 16501629903889091786ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 7, 0, "", 1729162750053584481ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 0, 3, "M8", 8153371096656314396ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 7, 0, "", 6178859138328851315ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 0, 3, "M8", 14757781772016884398ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 7, 0, "", 1734136851621245814ULL, 1905933786579566ULL }, { 7, 0, "", 13421663152657682297ULL, 1595167581586219ULL }, { 0, 3, "M8", 11924260345592465240ULL, 1905933786579566ULL }, { 7, 0, "", 13421663152657682297ULL, 1595167581586219ULL }, { 7, 0, "", 17577265218096567378ULL, 1905933786579566ULL }, { 7, 0, "", 13421663152657682297ULL, 1595167581586219ULL }, { 0, 3, "M8", 11202960218427329788ULL, 1905933786579566ULL }, { 7, 0, "", 13421663152657682297ULL, 1595167581586219ULL }, { 0, 1, "*", 10601040792278554720ULL, 1905933786579566ULL }, { 0, 1, "*", 10149076140436739794ULL, 1595167581586219ULL }, { 0, 3, "M8", 16884224151648708458ULL, 1905933786579566ULL }, { 0, 1, "*", 10149076140436739794ULL, 1595167581586219ULL }, { 0, 1, "*", 11759738457700570738ULL, 1905933786579566ULL }, { 0, 1, "*", 10149076140436739794ULL, 1595167581586219ULL }, { 0, 3, "M8", 9361538271556334232ULL, 1905933786579566ULL }, { 0, 1, "*", 10149076140436739794ULL, 1595167581586219ULL }, { 7, 0, "", 15364848334375909533ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 0, 3, "M8", 11924260345592465240ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 7, 0, "", 8439737704952984385ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 0, 3, "M8", 11202960218427329788ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 7, 0, "", 7397697726848795439ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 0, 3, "M8", 16884224151648708458ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 7, 0, "", 12301686403556914141ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL }, { 0, 3, "M8", 9361538271556334232ULL, 1905933786579566ULL }, { 7, 0, "", 9032294762958220896ULL, 1595167581586219ULL } };
JOB2(prog28) { run(s, "p28_main", E28); }
static const Exp E29[] = { { 7, 0, "", 8057384064690522615ULL, 1496104088181675ULL }, { 7, 0, "", 4293163809628065645ULL, 1040917303656333ULL }, { 7, 0, "", 738911481009748312ULL, 1496104088181675ULL }, { 7, 0, "", 18087148154334647246ULL, 1040917303656333ULL }, { 7, 0, "", 8057384064690522615ULL, 1496104088181675ULL }, { 7, 0, "", 4293163809628065645ULL, 1040917303656333ULL }, { 7, 0, "", 738911481009748312ULL, 1496104088181675ULL }, { 7, 0, "", 18087148154334647246ULL, 1040917303656333ULL }, { 7, 0, "", 8057390915331436254ULL, 1496104088181675ULL }, { 7, 0, "", 4293163809628065645ULL, 1040917303656333ULL }, { 7, 0, "", 738911488138406911ULL, 1496104088181675ULL }, { 7, 0, "", 18087148154334647246ULL, 1040917303656333ULL }, { 7, 0, "", 8057390915331436254ULL, 1496104088181675ULL }, { 7, 0, "", 4293163809628065645ULL, 1040917303656333ULL }, { 7, 0, "", 738911488138406911ULL, 1496104088181675ULL }, { 7, 0, "", 18087148154334647246ULL, 1040917303656333ULL }, { 7, 0, "", 11827055131464044926ULL, 1496104088181675ULL }, { 7, 0, "", 15595093404571881038ULL, 1040917303656333ULL }, { 7, 0, "", 11827055131464044926ULL, 1496104088181675ULL }, { 7, 0, "", 1629287087063209711ULL, 1040917303656333ULL }, { 7, 0, "", 11827055131464044926ULL, 1496104088181675ULL }, { 7, 0, "", 15595093404571881038ULL, 1040917303656333ULL }, { 7, 0, "", 11827055131464044926ULL, 1496104088181675ULL }, { 7, 0, "", 1629287087063209711ULL, 1040917303656333ULL }, { 7, 0, "", 2325296292511699310ULL, 1496104088181675ULL }, { 7, 0, "", 13985333248313182302ULL, 1040917303656333ULL }, { 7, 0, "", 2325296292511699310ULL, 1496104088181675ULL }, { 7, 0, "", 2222668258893321471ULL, 1040917303656333ULL }, { 7, 0, "", 2325296292511699310ULL, 1496104088181675ULL }, { 7, 0, "", 13985333248313182302ULL, 1040917303656333ULL }, { 7, 0, "", 2325296292511699310ULL, 1496104088181675ULL }, { 7, 0, "", 2222668258893321471ULL, 1040917303656333ULL }, { 7, 0, "", 8057384064690522615ULL, 1496104088181675ULL }, { 7, 0, "", 4293163809628065645ULL, 1040917303656333ULL }, { 7, 0, "", 738911481009748312ULL, 1496104088181675ULL }, { 7, 0, "", 18087148154334647246ULL, 1040917303656333ULL }, { 7, 0, "", 8057384064690522615ULL, 1496104088181675ULL }, { 7, 0, "", 4293163809628065645ULL, 1040917303656333ULL }, { 7, 0, "", 738911481009748312ULL, 1496104088181675ULL }, { 7, 0, "", 18087148154334647246ULL, 1040917303656333ULL }, { 7, 0, "", 8057390915331436254ULL, 1496104088181675ULL }, { 7, 0, "", 4293163809628065645ULL, 1040917303656333ULL }, { 7, 0, "", 738911488138406911ULL, 1496104088181675ULL }, { 7, 0, "", 18087148154334647246ULL, 1040917303656333ULL }, { 7, 0, "", 8057390915331436254ULL, 1496104088181675ULL }, { 7, 0, "", 4293163809628065645ULL, 1040917303656333ULL }, { 7, 0, "", 738911488138406911ULL, 1496104088181675ULL }, { 7, 0, "", 18087148154334647246ULL, 1040917303656333ULL }, { 7, 0, "", 11827055131464044926ULL, 1496104088181675ULL }, { 7, 0, "", 15595093404571881038ULL, 1040917303656333ULL }, { 7, 0, "", 11827055131464044926ULL, 1496104088181675ULL }, { 7, 0, "", 1629287087063209711ULL, 1040917303656333ULL }, { 7, 0, "", 11827055131464044926ULL, 1496104088181675ULL }, { 7, 0, "", 15595093404571881038ULL, 1040917303656333ULL }, { 7, 0, "", 11827055131464044926ULL, 1496104088181675ULL }, { 7, 0, "", 1629287087063209711ULL, 1040917303656333ULL }, { 7, 0, "", 2325296292511699310ULL, 1496104088181675ULL }, { 7, 0, "", 13985333248313182302ULL, 1040917303656333ULL }, { 7, 0, "", 2325296292511699310ULL, 1496104088181675ULL }, { 7, 0, "", 2222668258893321471ULL, 1040917303656333ULL }, { 7, 0, "", 2325296292511699310ULL, 1496104088181675ULL }, { 7, 0, "", 13985333248313182302ULL, 1040917303656333ULL }, { 7, 0, "", 2325296292511699310ULL, 1496104088181675ULL }, { 7, 0, "", 2222668258893321471ULL, 1040917303656333ULL } };
JOB2(prog29) { run(s, "p29_main", E29); }
static const Exp E30[] = { { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 7, 0, "", 9791476352976640774ULL, 1795279213114610ULL }, { 7, 0, "", 9791476352976640774ULL, 1795279213114610ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 7, 0, "", 9791476352976641116ULL, 1795279213114610ULL }, { 7, 0, "", 9791476352976641116ULL, 1795279213114610ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 7, 0, "", 17572485628727536482ULL, 801174357498586ULL }, { 7, 0, "", 17572485628727536482ULL, 801174357498586ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 7, 0, "", 17572485628727536482ULL, 801174357498586ULL }, { 7, 0, "", 17572485628727536482ULL, 801174357498586ULL }, { 7, 0, "", 29291323245ULL, 1635245988289583ULL }, { 7, 0, "", 29291323245ULL, 1635245988289583ULL }, { 7, 0, "", 29291323245ULL, 1635245988289583ULL }, { 7, 0, "", 29291323245ULL, 1635245988289583ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 7, 0, "", 944881179ULL, 641141132673559ULL }, { 7, 0, "", 944881179ULL, 641141132673559ULL }, { 7, 0, "", 944881179ULL, 641141132673559ULL }, { 7, 0, "", 944881179ULL, 641141132673559ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 7, 0, "", 17572485628727536700ULL, 801174357498586ULL }, { 7, 0, "", 17572485628727536700ULL, 801174357498586ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 7, 0, "", 17572485628727536700ULL, 801174357498586ULL }, { 7, 0, "", 17572485628727536700ULL, 801174357498586ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 7, 0, "", 17572485628727536700ULL, 801174357498586ULL }, { 7, 0, "", 17572485628727536700ULL, 801174357498586ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 0, 1, "*", 13361340555972721619ULL, 801174357498586ULL }, { 7, 0, "", 17572485628727536700ULL, 801174357498586ULL }, { 7, 0, "", 17572485628727536700ULL, 801174357498586ULL }, { 7, 0, "", 944881397ULL, 641141132673559ULL }, { 7, 0, "", 944881397ULL, 641141132673559ULL }, { 7, 0, "", 944881397ULL, 641141132673559ULL }, { 7, 0, "", 944881397ULL, 641141132673559ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 7, 0, "", 944881397ULL, 641141132673559ULL }, { 7, 0, "", 944881397ULL, 641141132673559ULL }, { 7, 0, "", 944881397ULL, 641141132673559ULL }, { 7, 0, "", 944881397ULL, 641141132673559ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL }, { 0, 1, "M3", 33ULL, 603181842021684ULL } };
JOB2(prog30) { run(s, "p30_main", E30); }
static const Exp E31[] = { { 7, 0, "", 3673356391692770462ULL, 990395953850745ULL }, { 7, 0, "", 3673356391692770462ULL, 990395953850745ULL }, { 7, 0, "", 3673356391692770462ULL, 990395953850745ULL }, { 7, 0, "", 3673356391692770462ULL, 990395953850745ULL }, { 7, 0, "", 2945ULL, 167255667744615ULL }, { 7, 0, "", 2945ULL, 167255667744615ULL }, { 7, 0, "", 2945ULL, 167255667744615ULL }, { 7, 0, "", 2945ULL, 167255667744615ULL }, { 7, 0, "", 4467097936077360699ULL, 1042169999346094ULL }, { 7, 0, "", 168394179586248353ULL, 1042169999346094ULL }, { 7, 0, "", 4467097936077360699ULL, 1042169999346094ULL }, { 7, 0, "", 168394179586248353ULL, 1042169999346094ULL }, { 7, 0, "", 2945ULL, 167255667744615ULL }, { 7, 0, "", 2945ULL, 167255667744615ULL }, { 7, 0, "", 2945ULL, 167255667744615ULL }, { 7, 0, "", 2945ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 0, 1, "M13", 3757567225585461338ULL, 1573908787454597ULL }, { 0, 1, "M13", 3757567225585461338ULL, 1573908787454597ULL }, { 0, 1, "M13", 3757567225585461338ULL, 1573908787454597ULL }, { 0, 1, "M13", 3757567225585461338ULL, 1573908787454597ULL }, { 0, 1, "M13", 583515553373476ULL, 750768501348467ULL }, { 0, 1, "M13", 583515553373476ULL, 750768501348467ULL }, { 0, 1, "M13", 583515553373476ULL, 750768501348467ULL }, { 0, 1, "M13", 583515553373476ULL, 750768501348467ULL }, { 0, 1, "M13", 474971427551931909ULL, 1625682832949946ULL }, { 0, 1, "M13", 16376456957890956438ULL, 1625682832949946ULL }, { 0, 1, "M13", 474971427551931909ULL, 1625682832949946ULL }, { 0, 1, "M13", 16376456957890956438ULL, 1625682832949946ULL }, { 0, 1, "M13", 583515553373476ULL, 750768501348467ULL }, { 0, 1, "M13", 583515553373476ULL, 750768501348467ULL }, { 0, 1, "M13", 583515553373476ULL, 750768501348467ULL }, { 0, 1, "M13", 583515553373476ULL, 750768501348467ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 2, 0, "", 0ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL }, { 8, 0, "", 95ULL, 167255667744615ULL } };
JOB2(prog31) { run(s, "p31_main", E31); }
static const Exp E32[] = { { 7, 0, "", 8579684049599245615ULL, 2589476276186057ULL }, { 7, 0, "", 8111860426448095819ULL, 2217759350621188ULL }, { 7, 0, "", 15158663885460131055ULL, 2589476276186057ULL }, { 7, 0, "", 9742818711289074283ULL, 2217759350621188ULL }, { 7, 0, "", 2261055346049931899ULL, 2589476276186057ULL }, { 7, 0, "", 8111860426448095819ULL, 2217759350621188ULL }, { 7, 0, "", 3295245446932312763ULL, 2589476276186057ULL }, { 7, 0, "", 9742818711289074283ULL, 2217759350621188ULL }, { 7, 0, "", 15744614004236188532ULL, 2217759350621188ULL }, { 7, 0, "", 8111860426448095819ULL, 2217759350621188ULL }, { 7, 0, "", 14171670378904970164ULL, 2217759350621188ULL }, { 7, 0, "", 9742818711289074283ULL, 2217759350621188ULL }, { 7, 0, "", 14449239091955912507ULL, 2217759350621188ULL }, { 7, 0, "", 8111860426448095819ULL, 2217759350621188ULL }, { 7, 0, "", 2581474854107246331ULL, 2217759350621188ULL }, { 7, 0, "", 9742818711289074283ULL, 2217759350621188ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 8370586658768807035ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 8370586658768807035ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 8370586658768807035ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 8370586658768807035ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 2710628212339840838ULL, 2364205389309117ULL }, { 7, 0, "", 11495519224069690621ULL, 2217759350621188ULL }, { 7, 0, "", 12767361772171759494ULL, 2364205389309117ULL }, { 7, 0, "", 13126477508910669085ULL, 2217759350621188ULL }, { 7, 0, "", 8078705114202119120ULL, 2364205389309117ULL }, { 7, 0, "", 11495519224069690621ULL, 2217759350621188ULL }, { 7, 0, "", 6242796215929219984ULL, 2364205389309117ULL }, { 7, 0, "", 13126477508910669085ULL, 2217759350621188ULL }, { 7, 0, "", 4897758396872966571ULL, 1967908966612907ULL }, { 7, 0, "", 5710829657557921163ULL, 1967908966612907ULL }, { 7, 0, "", 4897758396872966571ULL, 1967908966612907ULL }, { 7, 0, "", 5710829657557921163ULL, 1967908966612907ULL }, { 7, 0, "", 17180445511173298077ULL, 1967908966612907ULL }, { 7, 0, "", 5710829657557921163ULL, 1967908966612907ULL }, { 7, 0, "", 17180445511173298077ULL, 1967908966612907ULL }, { 7, 0, "", 5710829657557921163ULL, 1967908966612907ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 8370586658768807035ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 8370586658768807035ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 8370586658768807035ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL }, { 7, 0, "", 8370586658768807035ULL, 850963472070124ULL }, { 7, 0, "", 15676450458050936972ULL, 850963472070124ULL } };
JOB2(prog32) { run(s, "p32_main", E32); }
static const Exp E33[] = { { 0, 1, "*", 12299646907488038209ULL, 3406515988148526ULL }, { 0, 1, "*", 3496872009386873357ULL, 3406515988148526ULL }, { 0, 1, "*", 3496872008499369676ULL, 3406515988148526ULL }, { 0, 1, "*", 3496872008499369676ULL, 3406515988148526ULL }, { 0, 1, "*", 12299646907488038209ULL, 3406515988148526ULL }, { 0, 1, "*", 3496872009386873357ULL, 3406515988148526ULL }, { 0, 1, "*", 3496872008499369676ULL, 3406515988148526ULL }, { 0, 1, "*", 3496872008499369676ULL, 3406515988148526ULL }, { 7, 0, "", 2329702207055142924ULL, 490239775203899ULL }, { 7, 0, "", 2329702207055142924ULL, 490239775203899ULL }, { 7, 0, "", 6148594910814838086ULL, 490239775203899ULL }, { 7, 0, "", 6148594910814838086ULL, 490239775203899ULL }, { 7, 0, "", 2329702207055142924ULL, 490239775203899ULL }, { 7, 0, "", 2329702207055142924ULL, 490239775203899ULL }, { 7, 0, "", 6148594910814838086ULL, 490239775203899ULL }, { 7, 0, "", 6148594910814838086ULL, 490239775203899ULL }, { 0, 1, "*", 12299646907488038209ULL, 3406515988148526ULL }, { 0, 1, "*", 3496872009386873357ULL, 3406515988148526ULL }, { 0, 1, "*", 3496872008499369676ULL, 3406515988148526ULL }, { 0, 1, "*", 3496872008499369676ULL, 3406515988148526ULL }, { 0, 1, "*", 12299646907488038209ULL, 3406515988148526ULL }, { 0, 1, "*", 3496872009386873357ULL, 3406515988148526ULL }, { 0, 1, "*", 3496872008499369676ULL, 3406515988148526ULL }, { 0, 1, "*", 3496872008499369676ULL, 3406515988148526ULL }, { 0, 1, "*", 3201197284291914158ULL, 868981900229909ULL }, { 0, 1, "*", 3201197284291914158ULL, 868981900229909ULL }, { 0, 1, "*", 2347586735023094588ULL, 868981900229909ULL }, { 0, 1, "*", 2347586735023094588ULL, 868981900229909ULL }, { 0, 1, "*", 3201197284291914158ULL, 868981900229909ULL }, { 0, 1, "*", 3201197284291914158ULL, 868981900229909ULL }, { 0, 1, "*", 2347586735023094588ULL, 868981900229909ULL }, { 0, 1, "*", 2347586735023094588ULL, 868981900229909ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 2329702207055142924ULL, 490239775203899ULL }, { 7, 0, "", 2329702207055142924ULL, 490239775203899ULL }, { 7, 0, "", 6148594910814838086ULL, 490239775203899ULL }, { 7, 0, "", 6148594910814838086ULL, 490239775203899ULL }, { 7, 0, "", 2329702207055142924ULL, 490239775203899ULL }, { 7, 0, "", 2329702207055142924ULL, 490239775203899ULL }, { 7, 0, "", 6148594910814838086ULL, 490239775203899ULL }, { 7, 0, "", 6148594910814838086ULL, 490239775203899ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 7, 0, "", 8394707489822712065ULL, 1140261128543342ULL }, { 0, 1, "*", 3201197284291914158ULL, 868981900229909ULL }, { 0, 1, "*", 3201197284291914158ULL, 868981900229909ULL }, { 0, 1, "*", 2347586735023094588ULL, 868981900229909ULL }, { 0, 1, "*", 2347586735023094588ULL, 868981900229909ULL }, { 0, 1, "*", 3201197284291914158ULL, 868981900229909ULL }, { 0, 1, "*", 3201197284291914158ULL, 868981900229909ULL }, { 0, 1, "*", 2347586735023094588ULL, 868981900229909ULL }, { 0, 1, "*", 2347586735023094588ULL, 868981900229909ULL } };
JOB2(prog33) { run(s, "p33_main", E33); }
static const Exp E34[] = { { 0, 1, "M9", 624500497555135038ULL, 1532549132835084ULL }, { 0, 1, "M9", 624500497555135038ULL, 1532549132835084ULL }, { 0, 1, "M2", 0ULL, 958106604956298ULL }, { 0, 1, "M2", 470456189450591ULL, 1428562794406889ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "M2", 0ULL, 958106604956298ULL }, { 0, 1, "M2", 470456189450591ULL, 1428562794406889ULL }, { 0, 1, "M9", 624500497555135038ULL, 1532549132835084ULL }, { 0, 1, "M9", 624500497555135038ULL, 1532549132835084ULL }, { 0, 1, "M2", 0ULL, 958106604956298ULL }, { 0, 1, "M2", 470456189450591ULL, 1428562794406889ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "M2", 0ULL, 958106604956298ULL }, { 0, 1, "M2", 470456189450591ULL, 1428562794406889ULL }, { 7, 0, "", 3601344070721992543ULL, 1532549132835084ULL }, { 7, 0, "", 3601344070721992543ULL, 1532549132835084ULL }, { 0, 1, "M2", 0ULL, 958106604956298ULL }, { 7, 0, "", 17910120684463569344ULL, 2629086473396679ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "M2", 0ULL, 958106604956298ULL }, { 10, 0, "", 10862193126615231615ULL, 2629086473396679ULL }, { 7, 0, "", 3601344070721992543ULL, 1532549132835084ULL }, { 7, 0, "", 3601344070721992543ULL, 1532549132835084ULL }, { 0, 1, "M2", 0ULL, 958106604956298ULL }, { 7, 0, "", 17910120684463569344ULL, 2629086473396679ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "M2", 0ULL, 958106604956298ULL }, { 10, 0, "", 10862193126615231615ULL, 2629086473396679ULL }, { 0, 1, "M9", 624500497555135038ULL, 1532549132835084ULL }, { 0, 1, "M9", 624500497555135038ULL, 1532549132835084ULL }, { 0, 1, "Error", 0ULL, 958106604956298ULL }, { 0, 1, "Error", 470456189450591ULL, 1428562794406889ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "Error", 0ULL, 958106604956298ULL }, { 0, 1, "Error", 470456189450591ULL, 1428562794406889ULL }, { 0, 1, "M9", 624500497555135038ULL, 1532549132835084ULL }, { 0, 1, "M9", 624500497555135038ULL, 1532549132835084ULL }, { 0, 1, "Error", 0ULL, 958106604956298ULL }, { 0, 1, "Error", 470456189450591ULL, 1428562794406889ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "Error", 0ULL, 958106604956298ULL }, { 0, 1, "Error", 470456189450591ULL, 1428562794406889ULL }, { 7, 0, "", 3601344070721992543ULL, 1532549132835084ULL }, { 7, 0, "", 3601344070721992543ULL, 1532549132835084ULL }, { 0, 1, "Error", 0ULL, 958106604956298ULL }, { 7, 0, "", 11963373775210566985ULL, 2629086473396679ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "Error", 0ULL, 958106604956298ULL }, { 10, 0, "", 10862201683325444808ULL, 2629086473396679ULL }, { 7, 0, "", 3601344070721992543ULL, 1532549132835084ULL }, { 7, 0, "", 3601344070721992543ULL, 1532549132835084ULL }, { 0, 1, "Error", 0ULL, 958106604956298ULL }, { 7, 0, "", 11963373775210566985ULL, 2629086473396679ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "*", 124ULL, 1134066132933555ULL }, { 0, 1, "Error", 0ULL, 958106604956298ULL }, { 10, 0, "", 10862201683325444808ULL, 2629086473396679ULL } };
JOB2(prog34) { run(s, "p34_main", E34); }
static const Exp E35[] = { { 7, 0, "", 3966282846622348544ULL, 2507738581993216ULL }, { 11, 0, "", 5073748746729537164ULL, 1809422240273687ULL }, { 7, 0, "", 3408212099688469379ULL, 1962151995591125ULL }, { 11, 0, "", 5073748746729537164ULL, 1809422240273687ULL }, { 7, 0, "", 5788781569526821442ULL, 2246643577465221ULL }, { 11, 0, "", 3607593386704504937ULL, 1548327235745692ULL }, { 7, 0, "", 5825979022009018837ULL, 1701056991063130ULL }, { 11, 0, "", 3607593386704504937ULL, 1548327235745692ULL }, { 7, 0, "", 13566519711752027902ULL, 2507738581993216ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 15619022368698814917ULL, 1962151995591125ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 13566519711752027902ULL, 2507738581993216ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 15619022368698814917ULL, 1962151995591125ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 3966282846622348544ULL, 2507738581993216ULL }, { 11, 0, "", 5073748746729537164ULL, 1809422240273687ULL }, { 7, 0, "", 3408212099688469379ULL, 1962151995591125ULL }, { 11, 0, "", 5073748746729537164ULL, 1809422240273687ULL }, { 7, 0, "", 5788781569526821442ULL, 2246643577465221ULL }, { 11, 0, "", 3607593386704504937ULL, 1548327235745692ULL }, { 7, 0, "", 5825979022009018837ULL, 1701056991063130ULL }, { 11, 0, "", 3607593386704504937ULL, 1548327235745692ULL }, { 7, 0, "", 13566519711752027902ULL, 2507738581993216ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 15619022368698814917ULL, 1962151995591125ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 13566519711752027902ULL, 2507738581993216ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 15619022368698814917ULL, 1962151995591125ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 3966282846622348544ULL, 2507738581993216ULL }, { 11, 0, "", 5073748746729537164ULL, 1809422240273687ULL }, { 7, 0, "", 3408212099688469379ULL, 1962151995591125ULL }, { 11, 0, "", 5073748746729537164ULL, 1809422240273687ULL }, { 7, 0, "", 5788781569526821442ULL, 2246643577465221ULL }, { 11, 0, "", 3607593386704504937ULL, 1548327235745692ULL }, { 7, 0, "", 5825979022009018837ULL, 1701056991063130ULL }, { 11, 0, "", 3607593386704504937ULL, 1548327235745692ULL }, { 7, 0, "", 13566519711752027902ULL, 2507738581993216ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 15619022368698814917ULL, 1962151995591125ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 13566519711752027902ULL, 2507738581993216ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 15619022368698814917ULL, 1962151995591125ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 3966282846622348544ULL, 2507738581993216ULL }, { 11, 0, "", 5073748746729537164ULL, 1809422240273687ULL }, { 7, 0, "", 3408212099688469379ULL, 1962151995591125ULL }, { 11, 0, "", 5073748746729537164ULL, 1809422240273687ULL }, { 7, 0, "", 5788781569526821442ULL, 2246643577465221ULL }, { 11, 0, "", 3607593386704504937ULL, 1548327235745692ULL }, { 7, 0, "", 5825979022009018837ULL, 1701056991063130ULL }, { 11, 0, "", 3607593386704504937ULL, 1548327235745692ULL }, { 7, 0, "", 13566519711752027902ULL, 2507738581993216ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 15619022368698814917ULL, 1962151995591125ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 13566519711752027902ULL, 2507738581993216ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL }, { 7, 0, "", 15619022368698814917ULL, 1962151995591125ULL }, { 11, 0, "", 18068491210279921290ULL, 1809422240273687ULL } };
JOB2(prog35) { run(s, "p35_main", E35); }
static const Exp E36[] = { { 7, 0, "", 6069304760649480341ULL, 2596192089230628ULL }, { 7, 0, "", 10203296438079471454ULL, 907420068231176ULL }, { 7, 0, "", 6069304760649480341ULL, 2596192089230628ULL }, { 4, 0, "", 3362289883017676307ULL, 907420068231176ULL }, { 6, 0, "", 6059023568390748144ULL, 907420068231176ULL }, { 7, 0, "", 6115914202776823839ULL, 907420068231176ULL }, { 6, 0, "", 6059023568390748144ULL, 907420068231176ULL }, { 4, 0, "", 3362289883017676307ULL, 907420068231176ULL }, { 7, 0, "", 12078973152246637705ULL, 2596192089230628ULL }, { 7, 0, "", 10203296438079471454ULL, 907420068231176ULL }, { 7, 0, "", 12078973152246637705ULL, 2596192089230628ULL }, { 4, 0, "", 3362289883017676307ULL, 907420068231176ULL }, { 7, 0, "", 2621327067531664664ULL, 2596192089230628ULL }, { 7, 0, "", 6115914202776823839ULL, 907420068231176ULL }, { 7, 0, "", 2621327067531664664ULL, 2596192089230628ULL }, { 4, 0, "", 3362289883017676307ULL, 907420068231176ULL }, { 7, 0, "", 8942995838533435702ULL, 2872838455291977ULL }, { 7, 0, "", 16934211050339951934ULL, 1184066434292525ULL }, { 7, 0, "", 8942995838533435702ULL, 2872838455291977ULL }, { 4, 0, "", 3362289883017676307ULL, 907420068231176ULL }, { 6, 0, "", 6059023568390748144ULL, 907420068231176ULL }, { 7, 0, "", 905826198215185565ULL, 1184066434292525ULL }, { 6, 0, "", 6059023568390748144ULL, 907420068231176ULL }, { 4, 0, "", 3362289883017676307ULL, 907420068231176ULL }, { 7, 0, "", 10775275240949797826ULL, 2872838455291977ULL }, { 7, 0, "", 16934211050339951934ULL, 1184066434292525ULL }, { 7, 0, "", 10775275240949797826ULL, 2872838455291977ULL }, { 4, 0, "", 3362289883017676307ULL, 907420068231176ULL }, { 7, 0, "", 12736151794138459411ULL, 2872838455291977ULL }, { 7, 0, "", 905826198215185565ULL, 1184066434292525ULL }, { 7, 0, "", 12736151794138459411ULL, 2872838455291977ULL }, { 4, 0, "", 3362289883017676307ULL, 907420068231176ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL }, { 0, 1, "*", 0ULL, 549297498406467ULL } };
JOB2(prog36) { run(s, "p36_main", E36); }
static const Exp E37[] = { { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 7, 0, "", 7716303746917677118ULL, 611113716530816ULL }, { 7, 0, "", 7716303746917677118ULL, 611113716530816ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 7, 0, "", 7716303746917677118ULL, 611113716530816ULL }, { 7, 0, "", 7716303746917677118ULL, 611113716530816ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 15, 0, "", 12874256122315523608ULL, 611113716530816ULL }, { 15, 0, "", 12874256122315523608ULL, 611113716530816ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 15, 0, "", 12874256122315523608ULL, 611113716530816ULL }, { 15, 0, "", 12874256122315523608ULL, 611113716530816ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 0, 1, "*", 10910988750082335582ULL, 611113716530816ULL }, { 0, 1, "*", 10910988750082335582ULL, 611113716530816ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 0, 1, "*", 10910988750082335582ULL, 611113716530816ULL }, { 0, 1, "*", 10910988750082335582ULL, 611113716530816ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 15, 0, "", 12874256122315523608ULL, 611113716530816ULL }, { 15, 0, "", 12874256122315523608ULL, 611113716530816ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 0, 1, "*", 2547367953840527043ULL, 210899525578147ULL }, { 15, 0, "", 12874256122315523608ULL, 611113716530816ULL }, { 15, 0, "", 12874256122315523608ULL, 611113716530816ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 7, 0, "", 11726833134166526078ULL, 611113716530816ULL }, { 7, 0, "", 11726833134166526078ULL, 611113716530816ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 7, 0, "", 11726833134166526078ULL, 611113716530816ULL }, { 7, 0, "", 11726833134166526078ULL, 611113716530816ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 15, 0, "", 2279527874889190872ULL, 611113716530816ULL }, { 15, 0, "", 2279527874889190872ULL, 611113716530816ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 15, 0, "", 2279527874889190872ULL, 611113716530816ULL }, { 15, 0, "", 2279527874889190872ULL, 611113716530816ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 0, 1, "*", 7152870842631947166ULL, 611113716530816ULL }, { 0, 1, "*", 7152870842631947166ULL, 611113716530816ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 0, 1, "*", 7152870842631947166ULL, 611113716530816ULL }, { 0, 1, "*", 7152870842631947166ULL, 611113716530816ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 15, 0, "", 2279527874889190872ULL, 611113716530816ULL }, { 15, 0, "", 2279527874889190872ULL, 611113716530816ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 0, 1, "*", 12634261753794719363ULL, 210899525578147ULL }, { 15, 0, "", 2279527874889190872ULL, 611113716530816ULL }, { 15, 0, "", 2279527874889190872ULL, 611113716530816ULL } };
JOB2(prog37) { run(s, "p37_main", E37); }
static const Exp E38[] = { { 0, 1, "*", 11858122581162272188ULL, 2288442782381395ULL }, { 0, 1, "*", 11858122581162272188ULL, 2288442782381395ULL }, { 0, 1, "*", 7823716162457289164ULL, 2819441939219869ULL }, { 0, 1, "*", 7823716162457289164ULL, 2819441939219869ULL }, { 0, 1, "M5", 3837009493454120232ULL, 974143068288350ULL }, { 0, 1, "M5", 3837009493454120232ULL, 974143068288350ULL }, { 0, 1, "M5", 3837009493454120232ULL, 974143068288350ULL }, { 0, 1, "M5", 3837009493454120232ULL, 974143068288350ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 881361491707868348ULL, 2755922173714097ULL }, { 0, 1, "*", 881361491707868348ULL, 2755922173714097ULL }, { 0, 1, "*", 3956795417885940167ULL, 1816654318687621ULL }, { 0, 1, "*", 3956795417885940167ULL, 1816654318687621ULL }, { 0, 1, "*", 3988575357020915ULL, 545321712467269ULL }, { 0, 1, "*", 3988575357020915ULL, 545321712467269ULL }, { 0, 1, "*", 3988575357020915ULL, 545321712467269ULL }, { 0, 1, "*", 3988575357020915ULL, 545321712467269ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 11858122581162272188ULL, 2288442782381395ULL }, { 0, 1, "*", 11858122581162272188ULL, 2288442782381395ULL }, { 0, 1, "*", 7823716162457289164ULL, 2819441939219869ULL }, { 0, 1, "*", 7823716162457289164ULL, 2819441939219869ULL }, { 0, 1, "M5", 3837009493454120232ULL, 974143068288350ULL }, { 0, 1, "M5", 3837009493454120232ULL, 974143068288350ULL }, { 0, 1, "M5", 3837009493454120232ULL, 974143068288350ULL }, { 0, 1, "M5", 3837009493454120232ULL, 974143068288350ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 656737644172505037ULL, 2755922173714097ULL }, { 0, 1, "*", 656737644172505037ULL, 2755922173714097ULL }, { 0, 1, "*", 17623898096294900530ULL, 3286921330552571ULL }, { 0, 1, "*", 17623898096294900530ULL, 3286921330552571ULL }, { 0, 1, "*", 3988575357020915ULL, 545321712467269ULL }, { 0, 1, "*", 3988575357020915ULL, 545321712467269ULL }, { 0, 1, "*", 3988575357020915ULL, 545321712467269ULL }, { 0, 1, "*", 3988575357020915ULL, 545321712467269ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL }, { 0, 1, "*", 128663721194223ULL, 128663721194223ULL } };
JOB2(prog38) { run(s, "p38_main", E38); }
static const Exp E39[] = { { 7, 0, "", 14241370475829072479ULL, 686843991191477ULL }, { 0, 1, "*", 554662164345405ULL, 554662131955830ULL }, { 7, 0, "", 6471288814395693681ULL, 239057164911600ULL }, { 0, 1, "*", 106875305675953ULL, 106875305675953ULL }, { 7, 0, "", 8448395021132149066ULL, 851519904770984ULL }, { 7, 0, "", 17913865140242892ULL, 851519904770984ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 7094084226380318045ULL, 782974846507282ULL }, { 0, 1, "*", 16563635804388577057ULL, 650792987271635ULL }, { 7, 0, "", 6471288814395693681ULL, 239057164911600ULL }, { 0, 1, "*", 106875305675953ULL, 106875305675953ULL }, { 7, 0, "", 7137393586733531145ULL, 947650760086789ULL }, { 7, 0, "", 15411435414788846277ULL, 947650760086789ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 14241370475829072479ULL, 686843991191477ULL }, { 0, 1, "*", 554662164345405ULL, 554662131955830ULL }, { 7, 0, "", 6471288814395693681ULL, 239057164911600ULL }, { 0, 1, "*", 106875305675953ULL, 106875305675953ULL }, { 7, 0, "", 8448395021132149066ULL, 851519904770984ULL }, { 7, 0, "", 17913865140242892ULL, 851519904770984ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 7094084226380318045ULL, 782974846507282ULL }, { 0, 1, "*", 16563635804388577057ULL, 650792987271635ULL }, { 7, 0, "", 6471288814395693681ULL, 239057164911600ULL }, { 0, 1, "*", 106875305675953ULL, 106875305675953ULL }, { 7, 0, "", 7137393586733531145ULL, 947650760086789ULL }, { 7, 0, "", 15411435414788846277ULL, 947650760086789ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 14241370475829072479ULL, 686843991191477ULL }, { 0, 1, "*", 554662164345405ULL, 554662131955830ULL }, { 7, 0, "", 6471288814395693681ULL, 239057164911600ULL }, { 0, 1, "*", 106875305675953ULL, 106875305675953ULL }, { 7, 0, "", 8448395021132149066ULL, 851519904770984ULL }, { 7, 0, "", 17913865140242892ULL, 851519904770984ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 7094084226380318045ULL, 782974846507282ULL }, { 0, 1, "*", 16563635804388577057ULL, 650792987271635ULL }, { 7, 0, "", 6471288814395693681ULL, 239057164911600ULL }, { 0, 1, "*", 106875305675953ULL, 106875305675953ULL }, { 7, 0, "", 7137393586733531145ULL, 947650760086789ULL }, { 7, 0, "", 15411435414788846277ULL, 947650760086789ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 14241370475829072479ULL, 686843991191477ULL }, { 0, 1, "*", 554662164345405ULL, 554662131955830ULL }, { 7, 0, "", 6471288814395693681ULL, 239057164911600ULL }, { 0, 1, "*", 106875305675953ULL, 106875305675953ULL }, { 7, 0, "", 8448395021132149066ULL, 851519904770984ULL }, { 7, 0, "", 17913865140242892ULL, 851519904770984ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 7094084226380318045ULL, 782974846507282ULL }, { 0, 1, "*", 16563635804388577057ULL, 650792987271635ULL }, { 7, 0, "", 6471288814395693681ULL, 239057164911600ULL }, { 0, 1, "*", 106875305675953ULL, 106875305675953ULL }, { 7, 0, "", 7137393586733531145ULL, 947650760086789ULL }, { 7, 0, "", 15411435414788846277ULL, 947650760086789ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL }, { 7, 0, "", 3584685695210003ULL, 403733078491107ULL } };
JOB2(prog39) { run(s, "p39_main", E39); }
static const Exp E40[] = { { 0, 1, "*", 13312586512ULL, 345860750916268ULL }, { 7, 0, "", 26684558137082055ULL, 891141435033484ULL }, { 0, 1, "*", 13312586512ULL, 345860750916268ULL }, { 7, 0, "", 26684558137082055ULL, 891141435033484ULL }, { 12, 0, "", 0ULL, 319151698272083ULL }, { 7, 0, "", 26684558137082055ULL, 891141435033484ULL }, { 12, 0, "", 0ULL, 319151698272083ULL }, { 7, 0, "", 26684558137082055ULL, 891141435033484ULL }, { 0, 1, "*", 13312586512ULL, 345860750916268ULL }, { 11, 0, "", 0ULL, 319151698272083ULL }, { 0, 1, "*", 13312586512ULL, 345860750916268ULL }, { 11, 0, "", 0ULL, 319151698272083ULL }, { 12, 0, "", 0ULL, 319151698272083ULL }, { 11, 0, "", 0ULL, 319151698272083ULL }, { 12, 0, "", 0ULL, 319151698272083ULL }, { 11, 0, "", 0ULL, 319151698272083ULL }, { 0, 1, "*", 13312586512ULL, 345860750916268ULL }, { 7, 0, "", 26684558137082055ULL, 891141435033484ULL }, { 0, 1, "*", 13312586512ULL, 345860750916268ULL }, { 7, 0, "", 26684558137082055ULL, 891141435033484ULL }, { 12, 0, "", 0ULL, 319151698272083ULL }, { 7, 0, "", 26684558137082055ULL, 891141435033484ULL }, { 12, 0, "", 0ULL, 319151698272083ULL }, { 7, 0, "", 26684558137082055ULL, 891141435033484ULL }, { 0, 1, "*", 13312586512ULL, 345860750916268ULL }, { 11, 0, "", 0ULL, 319151698272083ULL }, { 0, 1, "*", 13312586512ULL, 345860750916268ULL }, { 11, 0, "", 0ULL, 319151698272083ULL }, { 12, 0, "", 0ULL, 319151698272083ULL }, { 11, 0, "", 0ULL, 319151698272083ULL }, { 12, 0, "", 0ULL, 319151698272083ULL }, { 11, 0, "", 0ULL, 319151698272083ULL }, { 7, 0, "", 6301683189475925818ULL, 604523773375751ULL }, { 7, 0, "", 6301683189475925818ULL, 604523773375751ULL }, { 0, 1, "Error", 248ULL, 319151698272083ULL }, { 0, 1, "Error", 248ULL, 319151698272083ULL }, { 7, 0, "", 6301683189475925818ULL, 604523773375751ULL }, { 7, 0, "", 6301683189475925818ULL, 604523773375751ULL }, { 0, 1, "Error", 248ULL, 319151698272083ULL }, { 0, 1, "Error", 248ULL, 319151698272083ULL }, { 7, 0, "", 6301683189475925818ULL, 604523773375751ULL }, { 7, 0, "", 6301683189475925818ULL, 604523773375751ULL }, { 0, 1, "Error", 248ULL, 319151698272083ULL }, { 0, 1, "Error", 248ULL, 319151698272083ULL }, { 7, 0, "", 6301683189475925818ULL, 604523773375751ULL }, { 7, 0, "", 6301683189475925818ULL, 604523773375751ULL }, { 0, 1, "Error", 248ULL, 319151698272083ULL }, { 0, 1, "Error", 248ULL, 319151698272083ULL }, { 0, 1, "*", 5113917449396566921ULL, 1483068939298029ULL }, { 0, 1, "*", 4542397111359709225ULL, 1109471856396139ULL }, { 0, 1, "*", 5113917449396566921ULL, 1483068939298029ULL }, { 0, 1, "*", 4542397111359709225ULL, 1109471856396139ULL }, { 0, 1, "Error", 0ULL, 759767971434582ULL }, { 0, 1, "Error", 0ULL, 759767971434582ULL }, { 0, 1, "Error", 0ULL, 759767971434582ULL }, { 0, 1, "Error", 0ULL, 759767971434582ULL }, { 0, 1, "*", 5113917449396566921ULL, 1483068939298029ULL }, { 0, 1, "*", 4542397111359709225ULL, 1109471856396139ULL }, { 0, 1, "*", 5113917449396566921ULL, 1483068939298029ULL }, { 0, 1, "*", 4542397111359709225ULL, 1109471856396139ULL }, { 0, 1, "Error", 0ULL, 759767971434582ULL }, { 0, 1, "Error", 0ULL, 759767971434582ULL }, { 0, 1, "Error", 0ULL, 759767971434582ULL }, { 0, 1, "Error", 0ULL, 759767971434582ULL } };
JOB2(prog40) { run(s, "p40_main", E40); }
static const Exp E41[] = { { 0, 1, "M9", 5534437722367531049ULL, 3117521617379929ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 5, 0, "", 4124847269862313026ULL, 2696444604252984ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 7, 0, "", 16374994563838772194ULL, 2696444604252984ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 5, 0, "", 4124847269862313026ULL, 2696444604252984ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 0, 1, "M9", 5534437722367531049ULL, 3117521617379929ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 5, 0, "", 4124847269862313026ULL, 2696444604252984ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 7, 0, "", 16374994563838772194ULL, 2696444604252984ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 5, 0, "", 4124847269862313026ULL, 2696444604252984ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 0, 1, "M9", 1249529969436621890ULL, 2655131041927084ULL }, { 0, 1, "M9", 0ULL, 858981054409128ULL }, { 0, 1, "M8", 11346318426449373698ULL, 2655131041927084ULL }, { 0, 1, "M8", 0ULL, 858981054409128ULL }, { 0, 1, "M9", 1249529969436621890ULL, 2655131041927084ULL }, { 0, 1, "M9", 0ULL, 858981054409128ULL }, { 0, 1, "M8", 11346318426449373698ULL, 2655131041927084ULL }, { 0, 1, "M8", 0ULL, 858981054409128ULL }, { 0, 1, "M9", 1249529969436621890ULL, 2655131041927084ULL }, { 0, 1, "M9", 0ULL, 858981054409128ULL }, { 0, 1, "M8", 11346318426449373698ULL, 2655131041927084ULL }, { 0, 1, "M8", 0ULL, 858981054409128ULL }, { 0, 1, "M9", 1249529969436621890ULL, 2655131041927084ULL }, { 0, 1, "M9", 0ULL, 858981054409128ULL }, { 0, 1, "M8", 11346318426449373698ULL, 2655131041927084ULL }, { 0, 1, "M8", 0ULL, 858981054409128ULL }, { 0, 1, "M9", 8519074708734738663ULL, 3117521617379929ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 5, 0, "", 10062741077458035908ULL, 2696444604252984ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 7, 0, "", 4200280813367460836ULL, 2696444604252984ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 5, 0, "", 10062741077458035908ULL, 2696444604252984ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 0, 1, "M9", 8519074708734738663ULL, 3117521617379929ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 5, 0, "", 10062741077458035908ULL, 2696444604252984ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 7, 0, "", 4200280813367460836ULL, 2696444604252984ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 5, 0, "", 10062741077458035908ULL, 2696444604252984ULL }, { 0, 2, "M4", 421263687713460139ULL, 986029132037308ULL }, { 0, 1, "M9", 15032102572071683012ULL, 2655131041927084ULL }, { 0, 1, "M9", 0ULL, 858981054409128ULL }, { 0, 1, "M8", 2865073636029753920ULL, 2655131041927084ULL }, { 0, 1, "M8", 0ULL, 858981054409128ULL }, { 0, 1, "M9", 15032102572071683012ULL, 2655131041927084ULL }, { 0, 1, "M9", 0ULL, 858981054409128ULL }, { 0, 1, "M8", 2865073636029753920ULL, 2655131041927084ULL }, { 0, 1, "M8", 0ULL, 858981054409128ULL }, { 0, 1, "M9", 15032102572071683012ULL, 2655131041927084ULL }, { 0, 1, "M9", 0ULL, 858981054409128ULL }, { 0, 1, "M8", 2865073636029753920ULL, 2655131041927084ULL }, { 0, 1, "M8", 0ULL, 858981054409128ULL }, { 0, 1, "M9", 15032102572071683012ULL, 2655131041927084ULL }, { 0, 1, "M9", 0ULL, 858981054409128ULL }, { 0, 1, "M8", 2865073636029753920ULL, 2655131041927084ULL }, { 0, 1, "M8", 0ULL, 858981054409128ULL } };
JOB2(prog41) { run(s, "p41_main", E41); }
static const Exp E42[] = { { 7, 0, "", 2007060173188835545ULL, 477673626960384ULL }, { 7, 0, "", 6878633147835146201ULL, 477673626960384ULL }, { 7, 0, "", 1639256574115517ULL, 477673626960384ULL }, { 7, 0, "", 50816953907480181ULL, 477673626960384ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 7, 0, "", 7853086820765889917ULL, 477673626960384ULL }, { 7, 0, "", 3638018485628315573ULL, 477673626960384ULL }, { 7, 0, "", 80171757673369ULL, 477673626960384ULL }, { 7, 0, "", 2485324597773593ULL, 477673626960384ULL }, { 3, 0, "", 94ULL, 0ULL }, { 3, 0, "", 94ULL, 0ULL }, { 3, 0, "", 94ULL, 0ULL }, { 3, 0, "", 94ULL, 0ULL }, { 7, 0, "", 2007060173188835545ULL, 477673626960384ULL }, { 7, 0, "", 6878633147835146201ULL, 477673626960384ULL }, { 7, 0, "", 1639256574115517ULL, 477673626960384ULL }, { 7, 0, "", 50816953907480181ULL, 477673626960384ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 7, 0, "", 7853086820765889917ULL, 477673626960384ULL }, { 7, 0, "", 3638018485628315573ULL, 477673626960384ULL }, { 7, 0, "", 80171757673369ULL, 477673626960384ULL }, { 7, 0, "", 2485324597773593ULL, 477673626960384ULL }, { 3, 0, "", 94ULL, 0ULL }, { 3, 0, "", 94ULL, 0ULL }, { 3, 0, "", 94ULL, 0ULL }, { 3, 0, "", 94ULL, 0ULL }, { 7, 0, "", 11941604447471135865ULL, 477673626960384ULL }, { 7, 0, "", 1254856397524078649ULL, 477673626960384ULL }, { 7, 0, "", 1639256574115517ULL, 477673626960384ULL }, { 7, 0, "", 50816953907480181ULL, 477673626960384ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 7, 0, "", 2388396828262208029ULL, 477673626960384ULL }, { 7, 0, "", 253325381400141589ULL, 477673626960384ULL }, { 7, 0, "", 80171757673369ULL, 477673626960384ULL }, { 7, 0, "", 2485324597773593ULL, 477673626960384ULL }, { 3, 0, "", 94ULL, 0ULL }, { 3, 0, "", 94ULL, 0ULL }, { 3, 0, "", 94ULL, 0ULL }, { 3, 0, "", 94ULL, 0ULL }, { 7, 0, "", 11941604447471135865ULL, 477673626960384ULL }, { 7, 0, "", 1254856397524078649ULL, 477673626960384ULL }, { 7, 0, "", 1639256574115517ULL, 477673626960384ULL }, { 7, 0, "", 50816953907480181ULL, 477673626960384ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 3, 0, "", 1922ULL, 0ULL }, { 7, 0, "", 2388396828262208029ULL, 477673626960384ULL }, { 7, 0, "", 253325381400141589ULL, 477673626960384ULL }, { 7, 0, "", 80171757673369ULL, 477673626960384ULL }, { 7, 0, "", 2485324597773593ULL, 477673626960384ULL }, { 3, 0, "", 94ULL, 0ULL }, { 3, 0, "", 94ULL, 0ULL }, { 3, 0, "", 94ULL, 0ULL }, { 3, 0, "", 94ULL, 0ULL } };
JOB2(prog42) { run(s, "p42_main", E42); }
static const Exp E43[] = { { 7, 0, "", 4172213311694568604ULL, 2308302683352582ULL }, { 7, 0, "", 4172213311694568604ULL, 2308302683352582ULL }, { 7, 0, "", 4172213311694568604ULL, 2308302683352582ULL }, { 7, 0, "", 4172213311694568604ULL, 2308302683352582ULL }, { 7, 0, "", 6247070799908260731ULL, 2658007567037911ULL }, { 7, 0, "", 6247070799908260731ULL, 2658007567037911ULL }, { 7, 0, "", 6247070799908260731ULL, 2658007567037911ULL }, { 7, 0, "", 6247070799908260731ULL, 2658007567037911ULL }, { 7, 0, "", 9696432095227463629ULL, 2624974741540643ULL }, { 7, 0, "", 9696432095227463629ULL, 2624974741540643ULL }, { 7, 0, "", 9696432095227463629ULL, 2624974741540643ULL }, { 7, 0, "", 9696432095227463629ULL, 2624974741540643ULL }, { 7, 0, "", 8584080031651092814ULL, 2974679625225972ULL }, { 7, 0, "", 8584080031651092814ULL, 2974679625225972ULL }, { 7, 0, "", 8584080031651092814ULL, 2974679625225972ULL }, { 7, 0, "", 8584080031651092814ULL, 2974679625225972ULL }, { 7, 0, "", 4172213311694568604ULL, 2308302683352582ULL }, { 7, 0, "", 4172213311694568604ULL, 2308302683352582ULL }, { 7, 0, "", 4172213311694568604ULL, 2308302683352582ULL }, { 7, 0, "", 4172213311694568604ULL, 2308302683352582ULL }, { 7, 0, "", 6247070799908260731ULL, 2658007567037911ULL }, { 7, 0, "", 6247070799908260731ULL, 2658007567037911ULL }, { 7, 0, "", 6247070799908260731ULL, 2658007567037911ULL }, { 7, 0, "", 6247070799908260731ULL, 2658007567037911ULL }, { 7, 0, "", 9696432095227463629ULL, 2624974741540643ULL }, { 7, 0, "", 9696432095227463629ULL, 2624974741540643ULL }, { 7, 0, "", 9696432095227463629ULL, 2624974741540643ULL }, { 7, 0, "", 9696432095227463629ULL, 2624974741540643ULL }, { 7, 0, "", 8584080031651092814ULL, 2974679625225972ULL }, { 7, 0, "", 8584080031651092814ULL, 2974679625225972ULL }, { 7, 0, "", 8584080031651092814ULL, 2974679625225972ULL }, { 7, 0, "", 8584080031651092814ULL, 2974679625225972ULL }, { 7, 0, "", 12232944488439392166ULL, 2048039663675207ULL }, { 7, 0, "", 12232944488439392166ULL, 2048039663675207ULL }, { 7, 0, "", 12232944488439392166ULL, 2048039663675207ULL }, { 7, 0, "", 12232944488439392166ULL, 2048039663675207ULL }, { 7, 0, "", 1664777070315824865ULL, 2397744547360536ULL }, { 7, 0, "", 1664777070315824865ULL, 2397744547360536ULL }, { 7, 0, "", 1664777070315824865ULL, 2397744547360536ULL }, { 7, 0, "", 1664777070315824865ULL, 2397744547360536ULL }, { 7, 0, "", 9948395923545352131ULL, 2364711721863268ULL }, { 7, 0, "", 9948395923545352131ULL, 2364711721863268ULL }, { 7, 0, "", 9948395923545352131ULL, 2364711721863268ULL }, { 7, 0, "", 9948395923545352131ULL, 2364711721863268ULL }, { 7, 0, "", 6047979305092353384ULL, 2714416605548597ULL }, { 7, 0, "", 6047979305092353384ULL, 2714416605548597ULL }, { 7, 0, "", 6047979305092353384ULL, 2714416605548597ULL }, { 7, 0, "", 6047979305092353384ULL, 2714416605548597ULL }, { 7, 0, "", 12232944488439392166ULL, 2048039663675207ULL }, { 7, 0, "", 12232944488439392166ULL, 2048039663675207ULL }, { 7, 0, "", 12232944488439392166ULL, 2048039663675207ULL }, { 7, 0, "", 12232944488439392166ULL, 2048039663675207ULL }, { 7, 0, "", 1664777070315824865ULL, 2397744547360536ULL }, { 7, 0, "", 1664777070315824865ULL, 2397744547360536ULL }, { 7, 0, "", 1664777070315824865ULL, 2397744547360536ULL }, { 7, 0, "", 1664777070315824865ULL, 2397744547360536ULL }, { 7, 0, "", 9948395923545352131ULL, 2364711721863268ULL }, { 7, 0, "", 9948395923545352131ULL, 2364711721863268ULL }, { 7, 0, "", 9948395923545352131ULL, 2364711721863268ULL }, { 7, 0, "", 9948395923545352131ULL, 2364711721863268ULL }, { 7, 0, "", 6047979305092353384ULL, 2714416605548597ULL }, { 7, 0, "", 6047979305092353384ULL, 2714416605548597ULL }, { 7, 0, "", 6047979305092353384ULL, 2714416605548597ULL }, { 7, 0, "", 6047979305092353384ULL, 2714416605548597ULL } };
JOB2(prog43) { run(s, "p43_main", E43); }
static const Exp E44[] = { { 7, 0, "", 6464662ULL, 48607741223225ULL }, { 7, 0, "", 5029454576563461960ULL, 642597969385198ULL }, { 7, 0, "", 3660793479379711979ULL, 431230485899783ULL }, { 0, 1, "*", 2ULL, 376052956662125ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 6464662ULL, 48607741223225ULL }, { 7, 0, "", 5029466544550600245ULL, 642597969385198ULL }, { 7, 0, "", 3551289829614185067ULL, 564731815389851ULL }, { 0, 1, "*", 2ULL, 376052956662125ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 6464662ULL, 48607741223225ULL }, { 7, 0, "", 5029455456967113512ULL, 642597969385198ULL }, { 7, 0, "", 3660793479379711979ULL, 431230485899783ULL }, { 0, 1, "*", 2ULL, 376052956662125ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 6464662ULL, 48607741223225ULL }, { 7, 0, "", 5029455456967113512ULL, 642597969385198ULL }, { 7, 0, "", 3551289829614185067ULL, 564731815389851ULL }, { 0, 1, "*", 2ULL, 376052956662125ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 6464662ULL, 48607741223225ULL }, { 7, 0, "", 5029454576563461960ULL, 642597969385198ULL }, { 7, 0, "", 3660793479379711979ULL, 431230485899783ULL }, { 0, 1, "*", 2ULL, 376052956662125ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 6464662ULL, 48607741223225ULL }, { 7, 0, "", 5029466544550600245ULL, 642597969385198ULL }, { 7, 0, "", 3551289829614185067ULL, 564731815389851ULL }, { 0, 1, "*", 2ULL, 376052956662125ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 6464662ULL, 48607741223225ULL }, { 7, 0, "", 5029455456967113512ULL, 642597969385198ULL }, { 7, 0, "", 3660793479379711979ULL, 431230485899783ULL }, { 0, 1, "*", 2ULL, 376052956662125ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 6464662ULL, 48607741223225ULL }, { 7, 0, "", 5029455456967113512ULL, 642597969385198ULL }, { 7, 0, "", 3551289829614185067ULL, 564731815389851ULL }, { 0, 1, "*", 2ULL, 376052956662125ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL } };
JOB2(prog44) { run(s, "p44_main", E44); }
static const Exp E45[] = { { 7, 0, "", 5676121825232666625ULL, 1577037944579327ULL }, { 7, 0, "", 5676121825232666625ULL, 1577037944579327ULL }, { 7, 0, "", 5676121825232666625ULL, 1577037944579327ULL }, { 7, 0, "", 5676121825232666625ULL, 1577037944579327ULL }, { 7, 0, "", 5676121825232666625ULL, 1577037944579327ULL }, { 7, 0, "", 5676121825232666625ULL, 1577037944579327ULL }, { 7, 0, "", 5676121825232666625ULL, 1577037944579327ULL }, { 7, 0, "", 5676121825232666625ULL, 1577037944579327ULL }, { 7, 0, "", 15547063700095767623ULL, 1703551691000326ULL }, { 7, 0, "", 15547063700095767623ULL, 1703551691000326ULL }, { 7, 0, "", 15547063700095767623ULL, 1703551691000326ULL }, { 7, 0, "", 15547063700095767623ULL, 1703551691000326ULL }, { 7, 0, "", 15547063700095767623ULL, 1703551691000326ULL }, { 7, 0, "", 15547063700095767623ULL, 1703551691000326ULL }, { 7, 0, "", 15547063700095767623ULL, 1703551691000326ULL }, { 7, 0, "", 15547063700095767623ULL, 1703551691000326ULL }, { 7, 0, "", 12002508094046995297ULL, 1855601990228584ULL }, { 7, 0, "", 12002508094046995297ULL, 1855601990228584ULL }, { 7, 0, "", 12002508094046995297ULL, 1855601990228584ULL }, { 7, 0, "", 12002508094046995297ULL, 1855601990228584ULL }, { 7, 0, "", 12002508094046995297ULL, 1855601990228584ULL }, { 7, 0, "", 12002508094046995297ULL, 1855601990228584ULL }, { 7, 0, "", 12002508094046995297ULL, 1855601990228584ULL }, { 7, 0, "", 12002508094046995297ULL, 1855601990228584ULL }, { 7, 0, "", 3426705895200544679ULL, 1982115736649583ULL }, { 7, 0, "", 3426705895200544679ULL, 1982115736649583ULL }, { 7, 0, "", 3426705895200544679ULL, 1982115736649583ULL }, { 7, 0, "", 3426705895200544679ULL, 1982115736649583ULL }, { 7, 0, "", 3426705895200544679ULL, 1982115736649583ULL }, { 7, 0, "", 3426705895200544679ULL, 1982115736649583ULL }, { 7, 0, "", 3426705895200544679ULL, 1982115736649583ULL }, { 7, 0, "", 3426705895200544679ULL, 1982115736649583ULL }, { 7, 0, "", 5676121825233619937ULL, 1577037944579327ULL }, { 7, 0, "", 5676121825233619937ULL, 1577037944579327ULL }, { 7, 0, "", 5676121825233619937ULL, 1577037944579327ULL }, { 7, 0, "", 5676121825233619937ULL, 1577037944579327ULL }, { 7, 0, "", 5676121825233619937ULL, 1577037944579327ULL }, { 7, 0, "", 5676121825233619937ULL, 1577037944579327ULL }, { 7, 0, "", 5676121825233619937ULL, 1577037944579327ULL }, { 7, 0, "", 5676121825233619937ULL, 1577037944579327ULL }, { 7, 0, "", 15547063700096720935ULL, 1703551691000326ULL }, { 7, 0, "", 15547063700096720935ULL, 1703551691000326ULL }, { 7, 0, "", 15547063700096720935ULL, 1703551691000326ULL }, { 7, 0, "", 15547063700096720935ULL, 1703551691000326ULL }, { 7, 0, "", 15547063700096720935ULL, 1703551691000326ULL }, { 7, 0, "", 15547063700096720935ULL, 1703551691000326ULL }, { 7, 0, "", 15547063700096720935ULL, 1703551691000326ULL }, { 7, 0, "", 15547063700096720935ULL, 1703551691000326ULL }, { 7, 0, "", 12002508094047948609ULL, 1855601990228584ULL }, { 7, 0, "", 12002508094047948609ULL, 1855601990228584ULL }, { 7, 0, "", 12002508094047948609ULL, 1855601990228584ULL }, { 7, 0, "", 12002508094047948609ULL, 1855601990228584ULL }, { 7, 0, "", 12002508094047948609ULL, 1855601990228584ULL }, { 7, 0, "", 12002508094047948609ULL, 1855601990228584ULL }, { 7, 0, "", 12002508094047948609ULL, 1855601990228584ULL }, { 7, 0, "", 12002508094047948609ULL, 1855601990228584ULL }, { 7, 0, "", 3426705895201497991ULL, 1982115736649583ULL }, { 7, 0, "", 3426705895201497991ULL, 1982115736649583ULL }, { 7, 0, "", 3426705895201497991ULL, 1982115736649583ULL }, { 7, 0, "", 3426705895201497991ULL, 1982115736649583ULL }, { 7, 0, "", 3426705895201497991ULL, 1982115736649583ULL }, { 7, 0, "", 3426705895201497991ULL, 1982115736649583ULL }, { 7, 0, "", 3426705895201497991ULL, 1982115736649583ULL }, { 7, 0, "", 3426705895201497991ULL, 1982115736649583ULL } };
JOB2(prog45) { run(s, "p45_main", E45); }
static const Exp E46[] = { { 7, 0, "", 1297801489361801893ULL, 1367554102812872ULL }, { 7, 0, "", 1297801489361801893ULL, 1367554102812872ULL }, { 7, 0, "", 1297801489361801893ULL, 1367554102812872ULL }, { 7, 0, "", 1297801489361801893ULL, 1367554102812872ULL }, { 7, 0, "", 7182495574831406692ULL, 1614692419713561ULL }, { 7, 0, "", 7182495574831406692ULL, 1614692419713561ULL }, { 7, 0, "", 7182495574831406692ULL, 1614692419713561ULL }, { 7, 0, "", 7182495574831406692ULL, 1614692419713561ULL }, { 7, 0, "", 15302781442068647661ULL, 1803693881972085ULL }, { 7, 0, "", 15302781442068647661ULL, 1803693881972085ULL }, { 7, 0, "", 15302781442068647661ULL, 1803693881972085ULL }, { 7, 0, "", 15302781442068647661ULL, 1803693881972085ULL }, { 7, 0, "", 2278748708687591273ULL, 2050832198872774ULL }, { 7, 0, "", 2278748708687591273ULL, 2050832198872774ULL }, { 7, 0, "", 2278748708687591273ULL, 2050832198872774ULL }, { 7, 0, "", 2278748708687591273ULL, 2050832198872774ULL }, { 7, 0, "", 1297801489361801893ULL, 1367554102812872ULL }, { 7, 0, "", 1297801489361801893ULL, 1367554102812872ULL }, { 7, 0, "", 1297801489361801893ULL, 1367554102812872ULL }, { 7, 0, "", 1297801489361801893ULL, 1367554102812872ULL }, { 7, 0, "", 7182495574831406692ULL, 1614692419713561ULL }, { 7, 0, "", 7182495574831406692ULL, 1614692419713561ULL }, { 7, 0, "", 7182495574831406692ULL, 1614692419713561ULL }, { 7, 0, "", 7182495574831406692ULL, 1614692419713561ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 7, 0, "", 17818793218363461957ULL, 1089875708749863ULL }, { 7, 0, "", 17818793218363461957ULL, 1089875708749863ULL }, { 7, 0, "", 17818793218363461957ULL, 1089875708749863ULL }, { 7, 0, "", 17818793218363461957ULL, 1089875708749863ULL }, { 7, 0, "", 17236349972905997806ULL, 1337014025650552ULL }, { 7, 0, "", 17236349972905997806ULL, 1337014025650552ULL }, { 7, 0, "", 17236349972905997806ULL, 1337014025650552ULL }, { 7, 0, "", 17236349972905997806ULL, 1337014025650552ULL }, { 5, 0, "", 50024284861739648ULL, 1080997560008215ULL }, { 5, 0, "", 50024284861739648ULL, 1080997560008215ULL }, { 5, 0, "", 50024284861739648ULL, 1080997560008215ULL }, { 5, 0, "", 50024284861739648ULL, 1080997560008215ULL }, { 5, 0, "", 50024284861739648ULL, 1080997560008215ULL }, { 5, 0, "", 50024284861739648ULL, 1080997560008215ULL }, { 5, 0, "", 50024284861739648ULL, 1080997560008215ULL }, { 5, 0, "", 50024284861739648ULL, 1080997560008215ULL }, { 7, 0, "", 17818793218363461957ULL, 1089875708749863ULL }, { 7, 0, "", 17818793218363461957ULL, 1089875708749863ULL }, { 7, 0, "", 17818793218363461957ULL, 1089875708749863ULL }, { 7, 0, "", 17818793218363461957ULL, 1089875708749863ULL }, { 7, 0, "", 17236349972905997806ULL, 1337014025650552ULL }, { 7, 0, "", 17236349972905997806ULL, 1337014025650552ULL }, { 7, 0, "", 17236349972905997806ULL, 1337014025650552ULL }, { 7, 0, "", 17236349972905997806ULL, 1337014025650552ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 2, 0, "", 961ULL, 333104217073397ULL }, { 2, 0, "", 961ULL, 333104217073397ULL } };
JOB2(prog46) { run(s, "p46_main", E46); }
static const Exp E47[] = { { 7, 0, "", 5387856924168589033ULL, 1577446397093654ULL }, { 7, 0, "", 6061828698241936532ULL, 1577446397093654ULL }, { 7, 0, "", 5387856924168589033ULL, 1577446397093654ULL }, { 7, 0, "", 6061828698241936532ULL, 1577446397093654ULL }, { 0, 1, "*", 13902252454595942238ULL, 1217909084099113ULL }, { 0, 1, "*", 15804444688630574862ULL, 1217909084099113ULL }, { 0, 1, "*", 13902252454595942238ULL, 1217909084099113ULL }, { 0, 1, "*", 15804444688630574862ULL, 1217909084099113ULL }, { 0, 1, "*", 14645249804682605065ULL, 772507768131022ULL }, { 0, 1, "*", 14291774897976967787ULL, 772507768131022ULL }, { 0, 1, "*", 14645249804682605065ULL, 772507768131022ULL }, { 0, 1, "*", 14291774897976967787ULL, 772507768131022ULL }, { 0, 1, "*", 13902252454595942238ULL, 1217909084099113ULL }, { 0, 1, "*", 15804444688630574862ULL, 1217909084099113ULL }, { 0, 1, "*", 13902252454595942238ULL, 1217909084099113ULL }, { 0, 1, "*", 15804444688630574862ULL, 1217909084099113ULL }, { 7, 0, "", 5387856924168589033ULL, 1577446397093654ULL }, { 7, 0, "", 6061828698241936532ULL, 1577446397093654ULL }, { 7, 0, "", 5387856924168589033ULL, 1577446397093654ULL }, { 7, 0, "", 6061828698241936532ULL, 1577446397093654ULL }, { 0, 1, "*", 13902252454595942238ULL, 1217909084099113ULL }, { 0, 1, "*", 15804444688630574862ULL, 1217909084099113ULL }, { 0, 1, "*", 13902252454595942238ULL, 1217909084099113ULL }, { 0, 1, "*", 15804444688630574862ULL, 1217909084099113ULL }, { 0, 1, "*", 14645249804682605065ULL, 772507768131022ULL }, { 0, 1, "*", 14291774897976967787ULL, 772507768131022ULL }, { 0, 1, "*", 14645249804682605065ULL, 772507768131022ULL }, { 0, 1, "*", 14291774897976967787ULL, 772507768131022ULL }, { 0, 1, "*", 13902252454595942238ULL, 1217909084099113ULL }, { 0, 1, "*", 15804444688630574862ULL, 1217909084099113ULL }, { 0, 1, "*", 13902252454595942238ULL, 1217909084099113ULL }, { 0, 1, "*", 15804444688630574862ULL, 1217909084099113ULL }, { 7, 0, "", 5387856924168589033ULL, 1577446397093654ULL }, { 7, 0, "", 6061828698241936532ULL, 1577446397093654ULL }, { 7, 0, "", 5387856924168589033ULL, 1577446397093654ULL }, { 7, 0, "", 6061828698241936532ULL, 1577446397093654ULL }, { 0, 1, "*", 4637804685489728251ULL, 2600954149646102ULL }, { 0, 1, "*", 6416878295526069931ULL, 2600954149646102ULL }, { 0, 1, "*", 4637804685489728251ULL, 2600954149646102ULL }, { 0, 1, "*", 6416878295526069931ULL, 2600954149646102ULL }, { 0, 1, "*", 14645249804682605065ULL, 772507768131022ULL }, { 0, 1, "*", 14291774897976967787ULL, 772507768131022ULL }, { 0, 1, "*", 14645249804682605065ULL, 772507768131022ULL }, { 0, 1, "*", 14291774897976967787ULL, 772507768131022ULL }, { 0, 1, "*", 4637804685489728251ULL, 2600954149646102ULL }, { 0, 1, "*", 6416878295526069931ULL, 2600954149646102ULL }, { 0, 1, "*", 4637804685489728251ULL, 2600954149646102ULL }, { 0, 1, "*", 6416878295526069931ULL, 2600954149646102ULL }, { 7, 0, "", 5387856924168589033ULL, 1577446397093654ULL }, { 7, 0, "", 6061828698241936532ULL, 1577446397093654ULL }, { 7, 0, "", 5387856924168589033ULL, 1577446397093654ULL }, { 7, 0, "", 6061828698241936532ULL, 1577446397093654ULL }, { 0, 1, "*", 4637804685489728251ULL, 2600954149646102ULL }, { 0, 1, "*", 6416878295526069931ULL, 2600954149646102ULL }, { 0, 1, "*", 4637804685489728251ULL, 2600954149646102ULL }, { 0, 1, "*", 6416878295526069931ULL, 2600954149646102ULL }, { 0, 1, "*", 14645249804682605065ULL, 772507768131022ULL }, { 0, 1, "*", 14291774897976967787ULL, 772507768131022ULL }, { 0, 1, "*", 14645249804682605065ULL, 772507768131022ULL }, { 0, 1, "*", 14291774897976967787ULL, 772507768131022ULL }, { 0, 1, "*", 4637804685489728251ULL, 2600954149646102ULL }, { 0, 1, "*", 6416878295526069931ULL, 2600954149646102ULL }, { 0, 1, "*", 4637804685489728251ULL, 2600954149646102ULL }, { 0, 1, "*", 6416878295526069931ULL, 2600954149646102ULL } };
JOB2(prog47) { run(s, "p47_main", E47); }
static const Exp E48[] = { { 7, 0, "", 7370577148233987ULL, 459298176680989ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 7370577148233987ULL, 459298176680989ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 17474256218785070683ULL, 701963322907426ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 11428813567195602210ULL, 459298176680989ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 6100878418727448ULL, 418340153146598ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 6100878418727448ULL, 418340153146598ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 16924056810302438278ULL, 661005299373035ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 1929486055923716800ULL, 418340153146598ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 7370577148233987ULL, 459298176680989ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 7370577148233987ULL, 459298176680989ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 13614024329881045339ULL, 459298176680989ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 13614024329881045339ULL, 459298176680989ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 6100878418727448ULL, 418340153146598ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 6100878418727448ULL, 418340153146598ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 11179366510784868966ULL, 418340153146598ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 11179366510784868966ULL, 418340153146598ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 7370577148233987ULL, 459298176680989ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 7370577148233987ULL, 459298176680989ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 17474256218785070683ULL, 701963322907426ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 11428813567195602210ULL, 459298176680989ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 29962211112046255ULL, 1188060562608495ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 29962211112046255ULL, 1188060562608495ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 7673200256212761894ULL, 1430725708834932ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 297058645156144393ULL, 1188060562608495ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 7370577148233987ULL, 459298176680989ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 7370577148233987ULL, 459298176680989ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 13614024329881045339ULL, 459298176680989ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 13614024329881045339ULL, 459298176680989ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 29962211112046255ULL, 1188060562608495ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 29962211112046255ULL, 1188060562608495ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 18123482525025549030ULL, 1188060562608495ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 18123482525025549030ULL, 1188060562608495ULL }, { 0, 1, "*", 0ULL, 0ULL } };
JOB2(prog48) { run(s, "p48_main", E48); }
static const Exp E49[] = { { 0, 1, "M5", 427772852598805ULL, 869499186628076ULL }, { 0, 1, "M5", 95290455763477ULL, 762557243785799ULL }, { 0, 1, "M5", 5987799510191972693ULL, 1063995409904433ULL }, { 0, 1, "M5", 193230040169185978ULL, 957053467062156ULL }, { 0, 1, "M5", 427772852598805ULL, 869499186628076ULL }, { 0, 1, "M5", 95290455763477ULL, 762557243785799ULL }, { 0, 1, "M5", 5987799510191972693ULL, 1063995409904433ULL }, { 0, 1, "M5", 193230040169185978ULL, 957053467062156ULL }, { 4, 0, "", 427772852598805ULL, 869499186628076ULL }, { 4, 0, "", 95290455763477ULL, 762557243785799ULL }, { 4, 0, "", 5987799510191972693ULL, 1063995409904433ULL }, { 4, 0, "", 193230040169185978ULL, 957053467062156ULL }, { 4, 0, "", 427772852598805ULL, 869499186628076ULL }, { 4, 0, "", 95290455763477ULL, 762557243785799ULL }, { 4, 0, "", 5987799510191972693ULL, 1063995409904433ULL }, { 4, 0, "", 193230040169185978ULL, 957053467062156ULL }, { 0, 1, "M5", 537742013030911ULL, 979468347057299ULL }, { 0, 1, "M5", 1064025427812800ULL, 1505751761808405ULL }, { 0, 1, "M5", 954904488092802559ULL, 1173964570333656ULL }, { 0, 1, "M5", 10946943322924312485ULL, 1700247985084762ULL }, { 0, 1, "M5", 537742013030911ULL, 979468347057299ULL }, { 0, 1, "M5", 1064025427812800ULL, 1505751761808405ULL }, { 0, 1, "M5", 954904488092802559ULL, 1173964570333656ULL }, { 0, 1, "M5", 10946943322924312485ULL, 1700247985084762ULL }, { 4, 0, "", 537742013030911ULL, 979468347057299ULL }, { 4, 0, "", 1064025427812800ULL, 1505751761808405ULL }, { 4, 0, "", 954904488092802559ULL, 1173964570333656ULL }, { 4, 0, "", 10946943322924312485ULL, 1700247985084762ULL }, { 4, 0, "", 537742013030911ULL, 979468347057299ULL }, { 4, 0, "", 1064025427812800ULL, 1505751761808405ULL }, { 4, 0, "", 954904488092802559ULL, 1173964570333656ULL }, { 4, 0, "", 10946943322924312485ULL, 1700247985084762ULL }, { 0, 1, "M5", 427772852598805ULL, 869499186628076ULL }, { 0, 1, "M5", 95290455763477ULL, 762557243785799ULL }, { 0, 1, "M5", 5987799510191972693ULL, 1063995409904433ULL }, { 0, 1, "M5", 193230040169185978ULL, 957053467062156ULL }, { 0, 1, "M5", 427772852598805ULL, 869499186628076ULL }, { 0, 1, "M5", 95290455763477ULL, 762557243785799ULL }, { 0, 1, "M5", 5987799510191972693ULL, 1063995409904433ULL }, { 0, 1, "M5", 193230040169185978ULL, 957053467062156ULL }, { 4, 0, "", 427772852598805ULL, 869499186628076ULL }, { 4, 0, "", 95290455763477ULL, 762557243785799ULL }, { 4, 0, "", 5987799510191972693ULL, 1063995409904433ULL }, { 4, 0, "", 193230040169185978ULL, 957053467062156ULL }, { 4, 0, "", 427772852598805ULL, 869499186628076ULL }, { 4, 0, "", 95290455763477ULL, 762557243785799ULL }, { 4, 0, "", 5987799510191972693ULL, 1063995409904433ULL }, { 4, 0, "", 193230040169185978ULL, 957053467062156ULL }, { 0, 1, "M5", 537742013030911ULL, 979468347057299ULL }, { 0, 1, "M5", 1064025427812800ULL, 1505751761808405ULL }, { 0, 1, "M5", 954904488092802559ULL, 1173964570333656ULL }, { 0, 1, "M5", 10946943322924312485ULL, 1700247985084762ULL }, { 0, 1, "M5", 537742013030911ULL, 979468347057299ULL }, { 0, 1, "M5", 1064025427812800ULL, 1505751761808405ULL }, { 0, 1, "M5", 954904488092802559ULL, 1173964570333656ULL }, { 0, 1, "M5", 10946943322924312485ULL, 1700247985084762ULL }, { 4, 0, "", 537742013030911ULL, 979468347057299ULL }, { 4, 0, "", 1064025427812800ULL, 1505751761808405ULL }, { 4, 0, "", 954904488092802559ULL, 1173964570333656ULL }, { 4, 0, "", 10946943322924312485ULL, 1700247985084762ULL }, { 4, 0, "", 537742013030911ULL, 979468347057299ULL }, { 4, 0, "", 1064025427812800ULL, 1505751761808405ULL }, { 4, 0, "", 954904488092802559ULL, 1173964570333656ULL }, { 4, 0, "", 10946943322924312485ULL, 1700247985084762ULL } };
JOB2(prog49) { run(s, "p49_main", E49); }
static const Exp E50[] = { { 7, 0, "", 15036709281782476694ULL, 3236426567620972ULL }, { 7, 0, "", 15036709281782476694ULL, 3236426567620972ULL }, { 7, 0, "", 870411979761378667ULL, 2012599014346666ULL }, { 7, 0, "", 38030110903505035ULL, 2317905567368366ULL }, { 17, 0, "", 13966149633721389764ULL, 3236426567620972ULL }, { 17, 0, "", 13966149633721389764ULL, 3236426567620972ULL }, { 3, 0, "", 1226777771080807ULL, 1991507172114105ULL }, { 7, 0, "", 38030110903505035ULL, 2317905567368366ULL }, { 7, 0, "", 15509714194707938964ULL, 2185181279413822ULL }, { 7, 0, "", 15509714194707938964ULL, 2185181279413822ULL }, { 7, 0, "", 14708109749296900713ULL, 961353726139516ULL }, { 7, 0, "", 168686716041584457ULL, 1266660279161216ULL }, { 17, 0, "", 3941007279497654982ULL, 2185181279413822ULL }, { 17, 0, "", 3941007279497654982ULL, 2185181279413822ULL }, { 3, 0, "", 5441506969083369ULL, 940261883906955ULL }, { 7, 0, "", 168686716041584457ULL, 1266660279161216ULL }, { 7, 0, "", 3753817005280323123ULL, 3191204151461718ULL }, { 7, 0, "", 6588789487826954349ULL, 2798081303077273ULL }, { 7, 0, "", 13656230338445631403ULL, 2405721862731111ULL }, { 7, 0, "", 38030110933057707ULL, 2317905567368366ULL }, { 17, 0, "", 5141998451303128775ULL, 3191204151461718ULL }, { 17, 0, "", 9676115524659460077ULL, 2798081303077273ULL }, { 3, 0, "", 2261122886174935687ULL, 2384630020498550ULL }, { 7, 0, "", 38030110933057707ULL, 2317905567368366ULL }, { 7, 0, "", 12748301827454833585ULL, 2139958863254568ULL }, { 7, 0, "", 9833764020555730731ULL, 1746836014870123ULL }, { 7, 0, "", 3886980624634266025ULL, 1354476574523961ULL }, { 7, 0, "", 168686716042537769ULL, 1266660279161216ULL }, { 17, 0, "", 5528000460535246921ULL, 2139958863254568ULL }, { 17, 0, "", 13101082060511332399ULL, 1746836014870123ULL }, { 3, 0, "", 12586696977638551305ULL, 1333384732291400ULL }, { 7, 0, "", 168686716042537769ULL, 1266660279161216ULL }, { 7, 0, "", 1434949013816193526ULL, 3236426567620972ULL }, { 7, 0, "", 1434949013816193526ULL, 3236426567620972ULL }, { 7, 0, "", 870411979761378667ULL, 2012599014346666ULL }, { 7, 0, "", 38030110903505035ULL, 2317905567368366ULL }, { 17, 0, "", 13966149633721389764ULL, 3236426567620972ULL }, { 17, 0, "", 13966149633721389764ULL, 3236426567620972ULL }, { 3, 0, "", 1226777771080807ULL, 1991507172114105ULL }, { 7, 0, "", 38030110903505035ULL, 2317905567368366ULL }, { 7, 0, "", 2179835341406554484ULL, 2185181279413822ULL }, { 7, 0, "", 2179835341406554484ULL, 2185181279413822ULL }, { 7, 0, "", 14708109749296900713ULL, 961353726139516ULL }, { 7, 0, "", 168686716041584457ULL, 1266660279161216ULL }, { 17, 0, "", 3941007279497654982ULL, 2185181279413822ULL }, { 17, 0, "", 3941007279497654982ULL, 2185181279413822ULL }, { 3, 0, "", 5441506969083369ULL, 940261883906955ULL }, { 7, 0, "", 168686716041584457ULL, 1266660279161216ULL }, { 7, 0, "", 12381515323027598675ULL, 3191204151461718ULL }, { 7, 0, "", 1214305245572473101ULL, 2798081303077273ULL }, { 7, 0, "", 13656230338445631403ULL, 2405721862731111ULL }, { 7, 0, "", 38030110933057707ULL, 2317905567368366ULL }, { 17, 0, "", 5141998451303128775ULL, 3191204151461718ULL }, { 17, 0, "", 9676115524659460077ULL, 2798081303077273ULL }, { 3, 0, "", 2261122886174935687ULL, 2384630020498550ULL }, { 7, 0, "", 38030110933057707ULL, 2317905567368366ULL }, { 7, 0, "", 8347420482638056273ULL, 2139958863254568ULL }, { 7, 0, "", 5924044360697964619ULL, 1746836014870123ULL }, { 7, 0, "", 3886980624634266025ULL, 1354476574523961ULL }, { 7, 0, "", 168686716042537769ULL, 1266660279161216ULL }, { 17, 0, "", 5528000460535246921ULL, 2139958863254568ULL }, { 17, 0, "", 13101082060511332399ULL, 1746836014870123ULL }, { 3, 0, "", 12586696977638551305ULL, 1333384732291400ULL }, { 7, 0, "", 168686716042537769ULL, 1266660279161216ULL } };
JOB2(prog50) { run(s, "p50_main", E50); }
static const Exp E51[] = { { 7, 0, "", 17457971701349324305ULL, 778368170328350ULL }, { 7, 0, "", 17457971701349324305ULL, 778368170328350ULL }, { 6, 0, "", 7882438905042599699ULL, 339090349785860ULL }, { 6, 0, "", 7882438905042599699ULL, 339090349785860ULL }, { 7, 0, "", 17508788655142133967ULL, 778368170328350ULL }, { 7, 0, "", 17508788655142133967ULL, 778368170328350ULL }, { 6, 0, "", 7882440610824674581ULL, 339090349785860ULL }, { 6, 0, "", 7882440610824674581ULL, 339090349785860ULL }, { 0, 1, "*", 4548274829657160177ULL, 724596526958391ULL }, { 0, 1, "*", 4548274829657160177ULL, 724596526958391ULL }, { 6, 0, "", 7882438990242953075ULL, 339090349785860ULL }, { 6, 0, "", 7882438990242953075ULL, 339090349785860ULL }, { 0, 1, "*", 4548274829657160177ULL, 724596526958391ULL }, { 0, 1, "*", 4548274829657160177ULL, 724596526958391ULL }, { 6, 0, "", 7882438990242953075ULL, 339090349785860ULL }, { 6, 0, "", 7882438990242953075ULL, 339090349785860ULL }, { 7, 0, "", 17457971701349324305ULL, 778368170328350ULL }, { 7, 0, "", 17457971701349324305ULL, 778368170328350ULL }, { 6, 0, "", 7882438905042599699ULL, 339090349785860ULL }, { 6, 0, "", 7882438905042599699ULL, 339090349785860ULL }, { 7, 0, "", 17508788655142133967ULL, 778368170328350ULL }, { 7, 0, "", 17508788655142133967ULL, 778368170328350ULL }, { 6, 0, "", 7882440610824674581ULL, 339090349785860ULL }, { 6, 0, "", 7882440610824674581ULL, 339090349785860ULL }, { 0, 1, "*", 4548274829657160177ULL, 724596526958391ULL }, { 0, 1, "*", 4548274829657160177ULL, 724596526958391ULL }, { 6, 0, "", 7882438990242953075ULL, 339090349785860ULL }, { 6, 0, "", 7882438990242953075ULL, 339090349785860ULL }, { 0, 1, "*", 4548274829657160177ULL, 724596526958391ULL }, { 0, 1, "*", 4548274829657160177ULL, 724596526958391ULL }, { 6, 0, "", 7882438990242953075ULL, 339090349785860ULL }, { 6, 0, "", 7882438990242953075ULL, 339090349785860ULL }, { 7, 0, "", 17368686353286392939ULL, 685667376020988ULL }, { 7, 0, "", 17368686353286392939ULL, 685667376020988ULL }, { 6, 0, "", 7414938922647398295ULL, 246389555478498ULL }, { 6, 0, "", 7414938922647398295ULL, 246389555478498ULL }, { 7, 0, "", 17419503307079202601ULL, 685667376020988ULL }, { 7, 0, "", 17419503307079202601ULL, 685667376020988ULL }, { 6, 0, "", 7414940628429473177ULL, 246389555478498ULL }, { 6, 0, "", 7414940628429473177ULL, 246389555478498ULL }, { 0, 1, "*", 8502426748321160907ULL, 631895732651029ULL }, { 0, 1, "*", 8502426748321160907ULL, 631895732651029ULL }, { 6, 0, "", 7414939007847751671ULL, 246389555478498ULL }, { 6, 0, "", 7414939007847751671ULL, 246389555478498ULL }, { 0, 1, "*", 8502426748321160907ULL, 631895732651029ULL }, { 0, 1, "*", 8502426748321160907ULL, 631895732651029ULL }, { 6, 0, "", 7414939007847751671ULL, 246389555478498ULL }, { 6, 0, "", 7414939007847751671ULL, 246389555478498ULL }, { 7, 0, "", 17368686353286392939ULL, 685667376020988ULL }, { 7, 0, "", 17368686353286392939ULL, 685667376020988ULL }, { 6, 0, "", 7414938922647398295ULL, 246389555478498ULL }, { 6, 0, "", 7414938922647398295ULL, 246389555478498ULL }, { 7, 0, "", 17419503307079202601ULL, 685667376020988ULL }, { 7, 0, "", 17419503307079202601ULL, 685667376020988ULL }, { 6, 0, "", 7414940628429473177ULL, 246389555478498ULL }, { 6, 0, "", 7414940628429473177ULL, 246389555478498ULL }, { 0, 1, "*", 8502426748321160907ULL, 631895732651029ULL }, { 0, 1, "*", 8502426748321160907ULL, 631895732651029ULL }, { 6, 0, "", 7414939007847751671ULL, 246389555478498ULL }, { 6, 0, "", 7414939007847751671ULL, 246389555478498ULL }, { 0, 1, "*", 8502426748321160907ULL, 631895732651029ULL }, { 0, 1, "*", 8502426748321160907ULL, 631895732651029ULL }, { 6, 0, "", 7414939007847751671ULL, 246389555478498ULL }, { 6, 0, "", 7414939007847751671ULL, 246389555478498ULL } };
JOB2(prog51) { run(s, "p51_main", E51); }
static const Exp E52[] = { { 7, 0, "", 17043253524491555180ULL, 3540538628749137ULL }, { 4, 0, "", 18169769054941105004ULL, 2630233738838553ULL }, { 7, 0, "", 6358697841870113967ULL, 3381551134919970ULL }, { 4, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 0, 1, "*", 17043253524491555180ULL, 3126148350551299ULL }, { 4, 0, "", 18169769054941105004ULL, 2630233738838553ULL }, { 0, 1, "*", 6358697841870113967ULL, 2967160856722132ULL }, { 4, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 7, 0, "", 13324079094669828984ULL, 2949757689195990ULL }, { 7, 0, "", 13324079094669828984ULL, 2949757689195990ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 0, 1, "*", 13324079094669828984ULL, 2949757689195990ULL }, { 0, 1, "*", 13324079094669828984ULL, 2949757689195990ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 7, 0, "", 17043253524491555180ULL, 3540538628749137ULL }, { 4, 0, "", 18169769054941105004ULL, 2630233738838553ULL }, { 7, 0, "", 6358697841870113967ULL, 3381551134919970ULL }, { 4, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 0, 1, "*", 17043253524491555180ULL, 3126148350551299ULL }, { 4, 0, "", 18169769054941105004ULL, 2630233738838553ULL }, { 0, 1, "*", 6358697841870113967ULL, 2967160856722132ULL }, { 4, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 7, 0, "", 13324079094669828984ULL, 2949757689195990ULL }, { 7, 0, "", 13324079094669828984ULL, 2949757689195990ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 0, 1, "*", 13324079094669828984ULL, 2949757689195990ULL }, { 0, 1, "*", 13324079094669828984ULL, 2949757689195990ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 7, 0, "", 17043253524491555180ULL, 3540538628749137ULL }, { 4, 0, "", 18169769054941105004ULL, 2630233738838553ULL }, { 7, 0, "", 6358697841870113967ULL, 3381551134919970ULL }, { 4, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 0, 1, "*", 17043253524491555180ULL, 3126148350551299ULL }, { 4, 0, "", 18169769054941105004ULL, 2630233738838553ULL }, { 0, 1, "*", 6358697841870113967ULL, 2967160856722132ULL }, { 4, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 7, 0, "", 13324079094669828984ULL, 2949757689195990ULL }, { 7, 0, "", 13324079094669828984ULL, 2949757689195990ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 0, 1, "*", 13324079094669828984ULL, 2949757689195990ULL }, { 0, 1, "*", 13324079094669828984ULL, 2949757689195990ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 7, 0, "", 17043253524491555180ULL, 3540538628749137ULL }, { 4, 0, "", 18169769054941105004ULL, 2630233738838553ULL }, { 7, 0, "", 6358697841870113967ULL, 3381551134919970ULL }, { 4, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 0, 1, "*", 17043253524491555180ULL, 3126148350551299ULL }, { 4, 0, "", 18169769054941105004ULL, 2630233738838553ULL }, { 0, 1, "*", 6358697841870113967ULL, 2967160856722132ULL }, { 4, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 7, 0, "", 13324079094669828984ULL, 2949757689195990ULL }, { 7, 0, "", 13324079094669828984ULL, 2949757689195990ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 0, 1, "*", 13324079094669828984ULL, 2949757689195990ULL }, { 0, 1, "*", 13324079094669828984ULL, 2949757689195990ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL }, { 3, 0, "", 2471246245040169ULL, 2471246245009386ULL } };
JOB2(prog52) { run(s, "p52_main", E52); }
static const Exp E53[] = { { 7, 0, "", 13710783790122878575ULL, 1921962233151700ULL }, { 7, 0, "", 12525044268144771449ULL, 1868956581613325ULL }, { 7, 0, "", 9765119975234099375ULL, 1993083664495263ULL }, { 7, 0, "", 9765119975234099375ULL, 1993083664495263ULL }, { 7, 0, "", 16010043443583142331ULL, 1921962233151700ULL }, { 7, 0, "", 12525044268144771449ULL, 1868956581613325ULL }, { 7, 0, "", 12064379628694363131ULL, 1993083664495263ULL }, { 7, 0, "", 12064379628694363131ULL, 1993083664495263ULL }, { 7, 0, "", 13944947570583396948ULL, 1921962233151700ULL }, { 7, 0, "", 12759208048605289822ULL, 1868956581613325ULL }, { 7, 0, "", 3128407297390569878ULL, 1921962233151700ULL }, { 7, 0, "", 3128407297390569878ULL, 1921962233151700ULL }, { 7, 0, "", 16244207224043660704ULL, 1921962233151700ULL }, { 7, 0, "", 12759208048605289822ULL, 1868956581613325ULL }, { 7, 0, "", 3128407297390569878ULL, 1921962233151700ULL }, { 7, 0, "", 3128407297390569878ULL, 1921962233151700ULL }, { 9, 0, "", 27320918864068ULL, 145898320105352ULL }, { 9, 0, "", 3194ULL, 92892668566977ULL }, { 9, 0, "", 27320918864068ULL, 217019751448915ULL }, { 9, 0, "", 27320918864068ULL, 217019751448915ULL }, { 9, 0, "", 27320918864068ULL, 145898320105352ULL }, { 9, 0, "", 3194ULL, 92892668566977ULL }, { 9, 0, "", 27320918864068ULL, 217019751448915ULL }, { 9, 0, "", 27320918864068ULL, 217019751448915ULL }, { 9, 0, "", 27320918864068ULL, 145898320105352ULL }, { 9, 0, "", 3194ULL, 92892668566977ULL }, { 9, 0, "", 111831011970ULL, 145898320105352ULL }, { 9, 0, "", 111831011970ULL, 145898320105352ULL }, { 9, 0, "", 27320918864068ULL, 145898320105352ULL }, { 9, 0, "", 3194ULL, 92892668566977ULL }, { 9, 0, "", 111831011970ULL, 145898320105352ULL }, { 9, 0, "", 111831011970ULL, 145898320105352ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL } };
JOB2(prog53) { run(s, "p53_main", E53); }
static const Exp E54[] = { { 0, 1, "*", 1933722582902819348ULL, 809202520155003ULL }, { 0, 1, "*", 4606223371124581044ULL, 1194051338509330ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 7, 0, "", 6844445813888640706ULL, 2791841453271150ULL }, { 7, 0, "", 11625410476556243106ULL, 3176690271625477ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 0, 1, "*", 1933722582902819348ULL, 809202520155003ULL }, { 0, 1, "*", 4606223371124581044ULL, 1194051338509330ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 7, 0, "", 13442676236328835746ULL, 2791841453271150ULL }, { 7, 0, "", 18223640898996438146ULL, 3176690271625477ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 0, 1, "*", 1933722582902819348ULL, 809202520155003ULL }, { 0, 1, "*", 4606223371124581044ULL, 1194051338509330ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 7, 0, "", 6844445813888640706ULL, 2791841453271150ULL }, { 7, 0, "", 11625410476556243106ULL, 3176690271625477ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 0, 1, "*", 1933722582902819348ULL, 809202520155003ULL }, { 0, 1, "*", 4606223371124581044ULL, 1194051338509330ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 7, 0, "", 13442676236328835746ULL, 2791841453271150ULL }, { 7, 0, "", 18223640898996438146ULL, 3176690271625477ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 0, 1, "*", 12326026719256017696ULL, 349948993722495ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL }, { 2, 0, "", 1ULL, 92591951620003ULL } };
JOB2(prog54) { run(s, "p54_main", E54); }
static const Exp E55[] = { { 7, 0, "", 15481985510254189512ULL, 1226965230555689ULL }, { 7, 0, "", 1897781451428818771ULL, 1226965230555689ULL }, { 0, 1, "*", 8780238175788234003ULL, 1865891304426020ULL }, { 0, 1, "*", 8780238175788234003ULL, 1865891304426020ULL }, { 0, 1, "*", 108927904132471644ULL, 627542790001020ULL }, { 0, 1, "*", 108927904132471644ULL, 627542790001020ULL }, { 0, 1, "*", 8780238175788234003ULL, 1865891304426020ULL }, { 0, 1, "*", 8780238175788234003ULL, 1865891304426020ULL }, { 7, 0, "", 8160489677145595699ULL, 1226965230555689ULL }, { 7, 0, "", 10102514587984719432ULL, 1226965230555689ULL }, { 0, 1, "*", 8780238175788234003ULL, 1865891304426020ULL }, { 0, 1, "*", 8780238175788234003ULL, 1865891304426020ULL }, { 0, 1, "M7", 3493560043305504ULL, 627542790001020ULL }, { 0, 1, "M7", 3493560043305504ULL, 627542790001020ULL }, { 0, 1, "*", 8780238175788234003ULL, 1865891304426020ULL }, { 0, 1, "*", 8780238175788234003ULL, 1865891304426020ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "*", 8767620766857352755ULL, 1471597275335981ULL }, { 0, 1, "*", 8767620766857352755ULL, 1471597275335981ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "*", 8767620766857352755ULL, 1471597275335981ULL }, { 0, 1, "*", 8767620766857352755ULL, 1471597275335981ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "*", 8767620766857352755ULL, 1471597275335981ULL }, { 0, 1, "*", 8767620766857352755ULL, 1471597275335981ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "*", 8767620766857352755ULL, 1471597275335981ULL }, { 0, 1, "*", 8767620766857352755ULL, 1471597275335981ULL }, { 7, 0, "", 15481985538654307304ULL, 1226965230555689ULL }, { 7, 0, "", 15481985538654307304ULL, 1226965230555689ULL }, { 0, 1, "*", 8858922491338390899ULL, 1865891304426020ULL }, { 0, 1, "*", 8858922491338390899ULL, 1865891304426020ULL }, { 6, 0, "", 0ULL, 109173751353297ULL }, { 6, 0, "", 0ULL, 109173751353297ULL }, { 0, 1, "*", 8858922491338390899ULL, 1865891304426020ULL }, { 0, 1, "*", 8858922491338390899ULL, 1865891304426020ULL }, { 7, 0, "", 8160489678061728531ULL, 1226965230555689ULL }, { 7, 0, "", 8160489678061728531ULL, 1226965230555689ULL }, { 0, 1, "*", 8858922491338390899ULL, 1865891304426020ULL }, { 0, 1, "*", 8858922491338390899ULL, 1865891304426020ULL }, { 6, 0, "", 0ULL, 109173751353297ULL }, { 6, 0, "", 0ULL, 109173751353297ULL }, { 0, 1, "*", 8858922491338390899ULL, 1865891304426020ULL }, { 0, 1, "*", 8858922491338390899ULL, 1865891304426020ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "*", 8846305082407509651ULL, 1471597275335981ULL }, { 0, 1, "*", 8846305082407509651ULL, 1471597275335981ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "*", 8846305082407509651ULL, 1471597275335981ULL }, { 0, 1, "*", 8846305082407509651ULL, 1471597275335981ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "*", 8846305082407509651ULL, 1471597275335981ULL }, { 0, 1, "*", 8846305082407509651ULL, 1471597275335981ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "Error", 0ULL, 109173751353297ULL }, { 0, 1, "*", 8846305082407509651ULL, 1471597275335981ULL }, { 0, 1, "*", 8846305082407509651ULL, 1471597275335981ULL } };
JOB2(prog55) { run(s, "p55_main", E55); }
static const Exp E56[] = { { 0, 1, "*", 196047866379283384ULL, 2930233031677916ULL }, { 0, 1, "*", 2970758030874892424ULL, 2930233031677916ULL }, { 0, 2, "M4", 16008056052806407636ULL, 2271287116996995ULL }, { 0, 2, "M4", 16008056052806407636ULL, 2271287116996995ULL }, { 0, 1, "*", 16783595865288618731ULL, 2052299835210361ULL }, { 0, 1, "*", 18353429519179624332ULL, 2052299835210361ULL }, { 0, 2, "M4", 16527760961603040312ULL, 1489911442263235ULL }, { 0, 2, "M4", 16527760961603040312ULL, 1489911442263235ULL }, { 7, 0, "", 11686425072243999397ULL, 4248124861039758ULL }, { 7, 0, "", 11686425072243999397ULL, 4248124861039758ULL }, { 0, 2, "M4", 16008056052806407636ULL, 2271287116996995ULL }, { 0, 2, "M4", 16008056052806407636ULL, 2271287116996995ULL }, { 7, 0, "", 12842237212733156410ULL, 2052299835210361ULL }, { 7, 0, "", 12842237212733156410ULL, 2052299835210361ULL }, { 0, 2, "M4", 16527760961603040312ULL, 1489911442263235ULL }, { 0, 2, "M4", 16527760961603040312ULL, 1489911442263235ULL }, { 0, 1, "*", 17651791569386219320ULL, 2930233031677916ULL }, { 0, 1, "*", 16625084267152862472ULL, 2930233031677916ULL }, { 0, 2, "M4", 10138949249249970456ULL, 2271287116996995ULL }, { 0, 2, "M4", 10138949249249970456ULL, 2271287116996995ULL }, { 2, 0, "", 12190273836925772088ULL, 1489911442263235ULL }, { 2, 0, "", 12190273836925772088ULL, 1489911442263235ULL }, { 2, 0, "", 7467581059805217012ULL, 1489911442263235ULL }, { 2, 0, "", 7467581059805217012ULL, 1489911442263235ULL }, { 7, 0, "", 10646258823841855269ULL, 4248124861039758ULL }, { 7, 0, "", 10646258823841855269ULL, 4248124861039758ULL }, { 0, 2, "M4", 10138949249279523128ULL, 2271287116996995ULL }, { 0, 2, "M4", 10138949249279523128ULL, 2271287116996995ULL }, { 2, 0, "", 12190273836925772088ULL, 1489911442263235ULL }, { 2, 0, "", 12190273836925772088ULL, 1489911442263235ULL }, { 2, 0, "", 7467581059806170324ULL, 1489911442263235ULL }, { 2, 0, "", 7467581059806170324ULL, 1489911442263235ULL }, { 0, 1, "*", 196047866379283384ULL, 2930233031677916ULL }, { 0, 1, "*", 2970758030874892424ULL, 2930233031677916ULL }, { 0, 2, "M4", 16008056052806407636ULL, 2271287116996995ULL }, { 0, 2, "M4", 16008056052806407636ULL, 2271287116996995ULL }, { 0, 1, "*", 16004571801595466484ULL, 1489911442263235ULL }, { 0, 1, "*", 16004571801595466484ULL, 1489911442263235ULL }, { 0, 1, "*", 16004571801595466484ULL, 1489911442263235ULL }, { 0, 1, "*", 16004571801595466484ULL, 1489911442263235ULL }, { 7, 0, "", 11686425072243999397ULL, 4248124861039758ULL }, { 7, 0, "", 11686425072243999397ULL, 4248124861039758ULL }, { 0, 2, "M4", 16008056052806407636ULL, 2271287116996995ULL }, { 0, 2, "M4", 16008056052806407636ULL, 2271287116996995ULL }, { 0, 1, "*", 16004571801595466484ULL, 1489911442263235ULL }, { 0, 1, "*", 16004571801595466484ULL, 1489911442263235ULL }, { 0, 1, "*", 16004571801595466484ULL, 1489911442263235ULL }, { 0, 1, "*", 16004571801595466484ULL, 1489911442263235ULL }, { 0, 1, "*", 17651791569386219320ULL, 2930233031677916ULL }, { 0, 1, "*", 16625084267152862472ULL, 2930233031677916ULL }, { 0, 2, "M4", 10138949249249970456ULL, 2271287116996995ULL }, { 0, 2, "M4", 10138949249249970456ULL, 2271287116996995ULL }, { 2, 0, "", 12190273836925772088ULL, 1489911442263235ULL }, { 2, 0, "", 12190273836925772088ULL, 1489911442263235ULL }, { 2, 0, "", 7467581059805217012ULL, 1489911442263235ULL }, { 2, 0, "", 7467581059805217012ULL, 1489911442263235ULL }, { 7, 0, "", 10646258823841855269ULL, 4248124861039758ULL }, { 7, 0, "", 10646258823841855269ULL, 4248124861039758ULL }, { 0, 2, "M4", 10138949249279523128ULL, 2271287116996995ULL }, { 0, 2, "M4", 10138949249279523128ULL, 2271287116996995ULL }, { 2, 0, "", 12190273836925772088ULL, 1489911442263235ULL }, { 2, 0, "", 12190273836925772088ULL, 1489911442263235ULL }, { 2, 0, "", 7467581059806170324ULL, 1489911442263235ULL }, { 2, 0, "", 7467581059806170324ULL, 1489911442263235ULL } };
JOB2(prog56) { run(s, "p56_main", E56); }
static const Exp E57[] = { { 7, 0, "", 1350887155321062395ULL, 3526865028816835ULL }, { 7, 0, "", 10474419791343851063ULL, 1159356892414625ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 6, 0, "", 3844ULL, 1170247259407560ULL }, { 7, 0, "", 17819535836093780799ULL, 885905691520485ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 1350887155321062395ULL, 3526865028816835ULL }, { 7, 0, "", 10474419791343851063ULL, 1159356892414625ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 6, 0, "", 3844ULL, 1170247259407560ULL }, { 7, 0, "", 17819535836093780799ULL, 885905691520485ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 3, "M2", 0ULL, 333826407634201ULL }, { 0, 3, "M2", 0ULL, 333826407634201ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 6, 0, "", 2883ULL, 1070708312458455ULL }, { 7, 0, "", 9082372081227826876ULL, 786366744571380ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 3, "M2", 0ULL, 333826407634201ULL }, { 0, 3, "M2", 0ULL, 333826407634201ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 6, 0, "", 2883ULL, 1070708312458455ULL }, { 7, 0, "", 9082372081227826876ULL, 786366744571380ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 17186765177825322952ULL, 3526865028816835ULL }, { 7, 0, "", 2664221640188488294ULL, 1159356892414625ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 6, 0, "", 3844ULL, 1170247259407560ULL }, { 7, 0, "", 8747307074889246378ULL, 885905691520485ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 17186765177825322952ULL, 3526865028816835ULL }, { 7, 0, "", 2664221640188488294ULL, 1159356892414625ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 6, 0, "", 3844ULL, 1170247259407560ULL }, { 7, 0, "", 8747307074889246378ULL, 885905691520485ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 3, "M2", 0ULL, 333826407634201ULL }, { 0, 3, "M2", 0ULL, 333826407634201ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 6, 0, "", 2883ULL, 1070708312458455ULL }, { 7, 0, "", 14503721020078332250ULL, 786366744571380ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 3, "M2", 0ULL, 333826407634201ULL }, { 0, 3, "M2", 0ULL, 333826407634201ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 6, 0, "", 2883ULL, 1070708312458455ULL }, { 7, 0, "", 14503721020078332250ULL, 786366744571380ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 0ULL, 0ULL } };
JOB2(prog57) { run(s, "p57_main", E57); }
static const Exp E58[] = { { 7, 0, "", 5094608181183896354ULL, 3420005627639939ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 1814279135391009119ULL, 3594404498729740ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 12505952109323113731ULL, 2602992949906512ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 2969224633203200250ULL, 4128392390185843ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 15824005972934518002ULL, 1821969668284622ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 15155782227430286622ULL, 1996368539374423ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 15803477755068868801ULL, 1301403575648340ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 15155782227430286622ULL, 1996368539374423ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 6418030804145699572ULL, 3292830732062688ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 14498149934890612706ULL, 3232311769691759ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 17442344731771454127ULL, 2475818054329261ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 4172023926134366813ULL, 3766299661147862ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 15837927335863876149ULL, 1694794772707371ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 299001467513633150ULL, 1869193643797172ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 18284300838196436897ULL, 1174228680071089ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 7, 0, "", 299001467513633150ULL, 1869193643797172ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 1193747954132460459ULL, 2385545498878081ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 1193747954132460459ULL, 2385545498878081ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 1193747954132460459ULL, 2385545498878081ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 1193747954132460459ULL, 2385545498878081ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 8840577251193631981ULL, 1301403575648340ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 8840577251193631981ULL, 1301403575648340ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 8840577251193631981ULL, 1301403575648340ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 8840577251193631981ULL, 1301403575648340ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 6435254983927110045ULL, 1839084867179297ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "*", 2390509199088707229ULL, 1821614484746998ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 6435254983927110045ULL, 1839084867179297ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "*", 2390509199088707229ULL, 1821614484746998ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 1848043ULL, 754942943949556ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 1848043ULL, 754942943949556ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 1848043ULL, 754942943949556ULL }, { 0, 1, "Error", 0ULL, 0ULL }, { 0, 1, "Error", 1848043ULL, 754942943949556ULL }, { 0, 1, "Error", 0ULL, 0ULL } };
JOB2(prog58) { run(s, "p58_main", E58); }
static const Exp E59[] = { { 7, 0, "", 13982238120699790931ULL, 3101146263947056ULL }, { 7, 0, "", 6697320273726977875ULL, 3101146263947056ULL }, { 7, 0, "", 13982238120699790931ULL, 3101146263947056ULL }, { 7, 0, "", 6697320273726977875ULL, 3101146263947056ULL }, { 7, 0, "", 13982238120699790931ULL, 3101146263947056ULL }, { 7, 0, "", 6697320273726977875ULL, 3101146263947056ULL }, { 7, 0, "", 13982238120699790931ULL, 3101146263947056ULL }, { 7, 0, "", 6697320273726977875ULL, 3101146263947056ULL }, { 7, 0, "", 2233639413460365186ULL, 2575726584920377ULL }, { 7, 0, "", 11519542230633913986ULL, 2575726584920377ULL }, { 7, 0, "", 2233639413460365186ULL, 2575726584920377ULL }, { 7, 0, "", 11519542230633913986ULL, 2575726584920377ULL }, { 7, 0, "", 2233639413460365186ULL, 2575726584920377ULL }, { 7, 0, "", 11519542230633913986ULL, 2575726584920377ULL }, { 7, 0, "", 2233639413460365186ULL, 2575726584920377ULL }, { 7, 0, "", 11519542230633913986ULL, 2575726584920377ULL }, { 7, 0, "", 6554025252696785627ULL, 3101146263947056ULL }, { 7, 0, "", 6784812309664693328ULL, 3101146263947056ULL }, { 7, 0, "", 11594568335157838884ULL, 3101146263947056ULL }, { 7, 0, "", 13982238120699971599ULL, 3101146263947056ULL }, { 7, 0, "", 6554025252696785627ULL, 3101146263947056ULL }, { 7, 0, "", 6784812309664693328ULL, 3101146263947056ULL }, { 7, 0, "", 11594568335157838884ULL, 3101146263947056ULL }, { 7, 0, "", 13982238120699971599ULL, 3101146263947056ULL }, { 7, 0, "", 11514919810600681978ULL, 2575726584920377ULL }, { 7, 0, "", 13902589596142814693ULL, 2575726584920377ULL }, { 7, 0, "", 5131899109686358929ULL, 2575726584920377ULL }, { 7, 0, "", 2233639413460371014ULL, 2575726584920377ULL }, { 7, 0, "", 11514919810600681978ULL, 2575726584920377ULL }, { 7, 0, "", 13902589596142814693ULL, 2575726584920377ULL }, { 7, 0, "", 5131899109686358929ULL, 2575726584920377ULL }, { 7, 0, "", 2233639413460371014ULL, 2575726584920377ULL }, { 7, 0, "", 13982238120699790931ULL, 3101146263947056ULL }, { 7, 0, "", 6697320273726977875ULL, 3101146263947056ULL }, { 7, 0, "", 13982238120699790931ULL, 3101146263947056ULL }, { 7, 0, "", 6697320273726977875ULL, 3101146263947056ULL }, { 7, 0, "", 13982238120699790931ULL, 3101146263947056ULL }, { 7, 0, "", 6697320273726977875ULL, 3101146263947056ULL }, { 7, 0, "", 13982238120699790931ULL, 3101146263947056ULL }, { 7, 0, "", 6697320273726977875ULL, 3101146263947056ULL }, { 7, 0, "", 2233639413460365186ULL, 2575726584920377ULL }, { 7, 0, "", 11519542230633913986ULL, 2575726584920377ULL }, { 7, 0, "", 2233639413460365186ULL, 2575726584920377ULL }, { 7, 0, "", 11519542230633913986ULL, 2575726584920377ULL }, { 7, 0, "", 2233639413460365186ULL, 2575726584920377ULL }, { 7, 0, "", 11519542230633913986ULL, 2575726584920377ULL }, { 7, 0, "", 2233639413460365186ULL, 2575726584920377ULL }, { 7, 0, "", 11519542230633913986ULL, 2575726584920377ULL }, { 7, 0, "", 6554025252696785627ULL, 3101146263947056ULL }, { 7, 0, "", 6784812309664693328ULL, 3101146263947056ULL }, { 7, 0, "", 11594568335157838884ULL, 3101146263947056ULL }, { 7, 0, "", 13982238120699971599ULL, 3101146263947056ULL }, { 7, 0, "", 6554025252696785627ULL, 3101146263947056ULL }, { 7, 0, "", 6784812309664693328ULL, 3101146263947056ULL }, { 7, 0, "", 11594568335157838884ULL, 3101146263947056ULL }, { 7, 0, "", 13982238120699971599ULL, 3101146263947056ULL }, { 7, 0, "", 11514919810600681978ULL, 2575726584920377ULL }, { 7, 0, "", 13902589596142814693ULL, 2575726584920377ULL }, { 7, 0, "", 5131899109686358929ULL, 2575726584920377ULL }, { 7, 0, "", 2233639413460371014ULL, 2575726584920377ULL }, { 7, 0, "", 11514919810600681978ULL, 2575726584920377ULL }, { 7, 0, "", 13902589596142814693ULL, 2575726584920377ULL }, { 7, 0, "", 5131899109686358929ULL, 2575726584920377ULL }, { 7, 0, "", 2233639413460371014ULL, 2575726584920377ULL } };
JOB2(prog59) { run(s, "p59_main", E59); }
static const Exp E60[] = { { 7, 0, "", 14028834438348714502ULL, 1591520966215263ULL }, { 7, 0, "", 14028834438348714502ULL, 1591520966215263ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 9293806807284132952ULL, 760844760064141ULL }, { 7, 0, "", 9293806807284132952ULL, 760844760064141ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 3147569840922453010ULL, 1591520966215263ULL }, { 7, 0, "", 3147569840922453010ULL, 1591520966215263ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 7885110439333288594ULL, 760844760064141ULL }, { 7, 0, "", 7885110439333288594ULL, 760844760064141ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 15160892024133774779ULL, 1344419526015174ULL }, { 7, 0, "", 15160892024133774779ULL, 1344419526015174ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 4062619653018698565ULL, 513743319864052ULL }, { 7, 0, "", 4062619653018698565ULL, 513743319864052ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 4215454492278937391ULL, 1344419526015174ULL }, { 7, 0, "", 4215454492278937391ULL, 1344419526015174ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 7, 0, "", 4687969685514374987ULL, 513743319864052ULL }, { 7, 0, "", 4687969685514374987ULL, 513743319864052ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 2, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL }, { 1, 0, "", 0ULL, 0ULL } };
JOB2(prog60) { run(s, "p60_main", E60); }
static const Exp E61[] = { { 7, 0, "", 1400909589590739924ULL, 1842101410209791ULL }, { 7, 0, "", 1368735201851437927ULL, 2775919681930774ULL }, { 7, 0, "", 1375501112694335093ULL, 1842101410209791ULL }, { 7, 0, "", 1343326724955033096ULL, 2775919681930774ULL }, { 7, 0, "", 4607899102722069332ULL, 1842101410209791ULL }, { 7, 0, "", 13731837447692520231ULL, 2775919681930774ULL }, { 7, 0, "", 4582490625825664501ULL, 1842101410209791ULL }, { 7, 0, "", 13706428970796115400ULL, 2775919681930774ULL }, { 7, 0, "", 11546693127824099054ULL, 1842101410209791ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 7, 0, "", 11521284650927694223ULL, 1842101410209791ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 0, 1, "*", 116999839590567ULL, 153508891116242ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 0, 1, "*", 116999839590567ULL, 153508891116242ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 7, 0, "", 10628701606307437125ULL, 1461686695443924ULL }, { 7, 0, "", 3677228875068905751ULL, 2395504967164907ULL }, { 7, 0, "", 10628701606307437125ULL, 1461686695443924ULL }, { 7, 0, "", 3677228875068905751ULL, 2395504967164907ULL }, { 7, 0, "", 17277771745789256389ULL, 1461686695443924ULL }, { 7, 0, "", 17167276354664106327ULL, 2395504967164907ULL }, { 7, 0, "", 17277771745789256389ULL, 1461686695443924ULL }, { 7, 0, "", 17167276354664106327ULL, 2395504967164907ULL }, { 7, 0, "", 16906547550672884715ULL, 1461686695443924ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 7, 0, "", 16906547550672884715ULL, 1461686695443924ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 0, 1, "*", 116999839590567ULL, 153508891116242ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 0, 1, "*", 116999839590567ULL, 153508891116242ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 7, 0, "", 13108250569509311412ULL, 1842101410209791ULL }, { 7, 0, "", 13076076181770009415ULL, 2775919681930774ULL }, { 7, 0, "", 13082842092612906581ULL, 1842101410209791ULL }, { 7, 0, "", 13050667704873604584ULL, 2775919681930774ULL }, { 7, 0, "", 2484359297413022516ULL, 1842101410209791ULL }, { 7, 0, "", 11608297642383473415ULL, 2775919681930774ULL }, { 7, 0, "", 2458950820516617685ULL, 1842101410209791ULL }, { 7, 0, "", 11582889165487068584ULL, 2775919681930774ULL }, { 7, 0, "", 11546693127824099054ULL, 1842101410209791ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 7, 0, "", 11521284650927694223ULL, 1842101410209791ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 0, 1, "*", 116999839590567ULL, 153508891116242ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 0, 1, "*", 116999839590567ULL, 153508891116242ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 7, 0, "", 6245907683412022885ULL, 1461686695443924ULL }, { 7, 0, "", 17741179025883043127ULL, 2395504967164907ULL }, { 7, 0, "", 6245907683412022885ULL, 1461686695443924ULL }, { 7, 0, "", 17741179025883043127ULL, 2395504967164907ULL }, { 7, 0, "", 4118032732017669861ULL, 1461686695443924ULL }, { 7, 0, "", 4007537340892519799ULL, 2395504967164907ULL }, { 7, 0, "", 4118032732017669861ULL, 1461686695443924ULL }, { 7, 0, "", 4007537340892519799ULL, 2395504967164907ULL }, { 7, 0, "", 16906547550672884715ULL, 1461686695443924ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 7, 0, "", 16906547550672884715ULL, 1461686695443924ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 0, 1, "*", 116999839590567ULL, 153508891116242ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL }, { 0, 1, "*", 116999839590567ULL, 153508891116242ULL }, { 0, 2, "M1", 0ULL, 494748333843667ULL } };
JOB2(prog61) { run(s, "p61_main", E61); }
static const Exp E62[] = { { 7, 0, "", 9787026203105565310ULL, 1480098472844606ULL }, { 7, 0, "", 9787026203105565310ULL, 1480098472844606ULL }, { 7, 0, "", 9787026203105565310ULL, 1480098472844606ULL }, { 7, 0, "", 9787026203105565310ULL, 1480098472844606ULL }, { 0, 1, "M11", 13723450326313959166ULL, 1120132234682159ULL }, { 0, 1, "M11", 13723450326313959166ULL, 1120132234682159ULL }, { 0, 1, "M11", 13723450326313959166ULL, 1120132234682159ULL }, { 0, 1, "M11", 13723450326313959166ULL, 1120132234682159ULL }, { 7, 0, "", 7479499466889623625ULL, 1381802520854877ULL }, { 7, 0, "", 5308976066833829882ULL, 697658286353743ULL }, { 7, 0, "", 7479499466889623625ULL, 1381802520854877ULL }, { 7, 0, "", 5308976066833829882ULL, 697658286353743ULL }, { 0, 1, "M11", 13723424684557607714ULL, 1120132234682159ULL }, { 0, 1, "M11", 13723424684557607714ULL, 1120132234682159ULL }, { 0, 1, "M11", 13723424684557607714ULL, 1120132234682159ULL }, { 0, 1, "M11", 13723424684557607714ULL, 1120132234682159ULL }, { 7, 0, "", 11722188239927569863ULL, 1480098472844606ULL }, { 7, 0, "", 11722188239927569863ULL, 1480098472844606ULL }, { 7, 0, "", 11722188239927569863ULL, 1480098472844606ULL }, { 7, 0, "", 11722188239927569863ULL, 1480098472844606ULL }, { 0, 1, "M11", 13723450326313959166ULL, 1120132234682159ULL }, { 0, 1, "M11", 13723450326313959166ULL, 1120132234682159ULL }, { 0, 1, "M11", 13723450326313959166ULL, 1120132234682159ULL }, { 0, 1, "M11", 13723450326313959166ULL, 1120132234682159ULL }, { 4, 0, "", 442662294755991562ULL, 687211821702958ULL }, { 4, 0, "", 442662294755991562ULL, 687211821702958ULL }, { 4, 0, "", 442662294755991562ULL, 687211821702958ULL }, { 4, 0, "", 442662294755991562ULL, 687211821702958ULL }, { 0, 1, "M11", 13723424684557607714ULL, 1120132234682159ULL }, { 0, 1, "M11", 13723424684557607714ULL, 1120132234682159ULL }, { 0, 1, "M11", 13723424684557607714ULL, 1120132234682159ULL }, { 0, 1, "M11", 13723424684557607714ULL, 1120132234682159ULL }, { 7, 0, "", 9787026203105565310ULL, 1480098472844606ULL }, { 7, 0, "", 9787026203105565310ULL, 1480098472844606ULL }, { 7, 0, "", 9787026203105565310ULL, 1480098472844606ULL }, { 7, 0, "", 9787026203105565310ULL, 1480098472844606ULL }, { 0, 1, "M3", 442663121909422254ULL, 687211821702958ULL }, { 0, 1, "M3", 442663121909422254ULL, 687211821702958ULL }, { 0, 1, "M3", 442663121909422254ULL, 687211821702958ULL }, { 0, 1, "M3", 442663121909422254ULL, 687211821702958ULL }, { 7, 0, "", 7479499466889623625ULL, 1381802520854877ULL }, { 7, 0, "", 5308976066833829882ULL, 697658286353743ULL }, { 7, 0, "", 7479499466889623625ULL, 1381802520854877ULL }, { 7, 0, "", 5308976066833829882ULL, 697658286353743ULL }, { 0, 1, "M3", 442662294755991562ULL, 687211821702958ULL }, { 0, 1, "M3", 442662294755991562ULL, 687211821702958ULL }, { 0, 1, "M3", 442662294755991562ULL, 687211821702958ULL }, { 0, 1, "M3", 442662294755991562ULL, 687211821702958ULL }, { 7, 0, "", 11722188239927569863ULL, 1480098472844606ULL }, { 7, 0, "", 11722188239927569863ULL, 1480098472844606ULL }, { 7, 0, "", 11722188239927569863ULL, 1480098472844606ULL }, { 7, 0, "", 11722188239927569863ULL, 1480098472844606ULL }, { 0, 1, "M3", 442663121909422254ULL, 687211821702958ULL }, { 0, 1, "M3", 442663121909422254ULL, 687211821702958ULL }, { 0, 1, "M3", 442663121909422254ULL, 687211821702958ULL }, { 0, 1, "M3", 442663121909422254ULL, 687211821702958ULL }, { 4, 0, "", 442662294755991562ULL, 687211821702958ULL }, { 4, 0, "", 442662294755991562ULL, 687211821702958ULL }, { 4, 0, "", 442662294755991562ULL, 687211821702958ULL }, { 4, 0, "", 442662294755991562ULL, 687211821702958ULL }, { 0, 1, "M3", 442662294755991562ULL, 687211821702958ULL }, { 0, 1, "M3", 442662294755991562ULL, 687211821702958ULL }, { 0, 1, "M3", 442662294755991562ULL, 687211821702958ULL }, { 0, 1, "M3", 442662294755991562ULL, 687211821702958ULL } };
JOB2(prog62) { run(s, "p62_main", E62); }
static const Exp E63[] = { { 0, 2, "M6", 15823135528730045503ULL, 1310069042510245ULL }, { 0, 2, "M6", 15823135528730045503ULL, 1310069042510245ULL }, { 7, 0, "", 1015699875419033496ULL, 1905362970615760ULL }, { 7, 0, "", 1015699875419033496ULL, 1905362970615760ULL }, { 0, 2, "M6", 11924468803315220855ULL, 1450607793036092ULL }, { 0, 2, "M6", 11924468803315220855ULL, 1450607793036092ULL }, { 7, 0, "", 6909222697108267607ULL, 2045901721141607ULL }, { 7, 0, "", 6909222697108267607ULL, 2045901721141607ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 0, 2, "M6", 16155704619298685310ULL, 1313641825452431ULL }, { 0, 2, "M6", 16155704619298685310ULL, 1313641825452431ULL }, { 0, 2, "M3", 521124033010751284ULL, 1313641825452431ULL }, { 0, 2, "M3", 521124033010751284ULL, 1313641825452431ULL }, { 0, 2, "M6", 12257037893883860662ULL, 1454180575978278ULL }, { 0, 2, "M6", 12257037893883860662ULL, 1454180575978278ULL }, { 0, 2, "M3", 2775581098516327283ULL, 1454180575978278ULL }, { 0, 2, "M3", 2775581098516327283ULL, 1454180575978278ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 0, 2, "M6", 10903050725350530198ULL, 1649297027518546ULL }, { 0, 2, "M6", 10903050725350530198ULL, 1649297027518546ULL }, { 7, 0, "", 1015699875419033496ULL, 1905362970615760ULL }, { 7, 0, "", 1015699875419033496ULL, 1905362970615760ULL }, { 0, 2, "M6", 724987218498801653ULL, 1789835778044393ULL }, { 0, 2, "M6", 724987218498801653ULL, 1789835778044393ULL }, { 7, 0, "", 6909222697108267607ULL, 2045901721141607ULL }, { 7, 0, "", 6909222697108267607ULL, 2045901721141607ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 0, 2, "M6", 2765952032051754785ULL, 1652869810460732ULL }, { 0, 2, "M6", 2765952032051754785ULL, 1652869810460732ULL }, { 0, 2, "M3", 521124033010751284ULL, 1313641825452431ULL }, { 0, 2, "M3", 521124033010751284ULL, 1313641825452431ULL }, { 0, 2, "M6", 11034632598909577856ULL, 1793408560986579ULL }, { 0, 2, "M6", 11034632598909577856ULL, 1793408560986579ULL }, { 0, 2, "M3", 2775581098516327283ULL, 1454180575978278ULL }, { 0, 2, "M3", 2775581098516327283ULL, 1454180575978278ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 2, 0, "", 0ULL, 140538750525847ULL }, { 2, 0, "", 0ULL, 140538750525847ULL } };
JOB2(prog63) { run(s, "p63_main", E63); }
static const Exp E64[] = { { 7, 0, "", 132584159810793883ULL, 1561132853488333ULL }, { 7, 0, "", 132584159810793883ULL, 1561132853488333ULL }, { 7, 0, "", 12480853751541367011ULL, 2785413280276915ULL }, { 7, 0, "", 12480853751541367011ULL, 2785413280276915ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 7, 0, "", 132584159810793883ULL, 1561132853488333ULL }, { 7, 0, "", 132584159810793883ULL, 1561132853488333ULL }, { 7, 0, "", 12480853751541367011ULL, 2785413280276915ULL }, { 7, 0, "", 12480853751541367011ULL, 2785413280276915ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 7, 0, "", 132584159810793883ULL, 1561132853488333ULL }, { 7, 0, "", 132584159810793883ULL, 1561132853488333ULL }, { 7, 0, "", 12480853751541367011ULL, 2785413280276915ULL }, { 7, 0, "", 12480853751541367011ULL, 2785413280276915ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 7, 0, "", 132584159810793883ULL, 1561132853488333ULL }, { 7, 0, "", 132584159810793883ULL, 1561132853488333ULL }, { 7, 0, "", 12480853751541367011ULL, 2785413280276915ULL }, { 7, 0, "", 12480853751541367011ULL, 2785413280276915ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 0, 1, "*", 8961079381726327323ULL, 1561132853488333ULL }, { 7, 0, "", 3450918735371624475ULL, 1561132853488333ULL }, { 0, 1, "*", 12666054979124266655ULL, 2785413280276915ULL }, { 7, 0, "", 5713292999792464355ULL, 2785413280276915ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 0, 1, "*", 8961079381726327323ULL, 1561132853488333ULL }, { 7, 0, "", 3450918735371624475ULL, 1561132853488333ULL }, { 0, 1, "*", 12666054979124266655ULL, 2785413280276915ULL }, { 7, 0, "", 5713292999792464355ULL, 2785413280276915ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 0, 1, "*", 8961079381726327323ULL, 1561132853488333ULL }, { 7, 0, "", 3450918735371624475ULL, 1561132853488333ULL }, { 0, 1, "*", 12666054979124266655ULL, 2785413280276915ULL }, { 7, 0, "", 5713292999792464355ULL, 2785413280276915ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 0, 1, "*", 8961079381726327323ULL, 1561132853488333ULL }, { 7, 0, "", 3450918735371624475ULL, 1561132853488333ULL }, { 0, 1, "*", 12666054979124266655ULL, 2785413280276915ULL }, { 7, 0, "", 5713292999792464355ULL, 2785413280276915ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 1022380464677403ULL, 1022380464615837ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL }, { 0, 1, "Error", 3912025118435654435ULL, 2246660891404419ULL } };
JOB2(prog64) { run(s, "p64_main", E64); }
static const Exp E65[] = { { 7, 0, "", 1128360748735438655ULL, 998270419315333ULL }, { 4, 0, "", 29791ULL, 537526129284248ULL }, { 8, 0, "", 4070573827778706354ULL, 998270419315333ULL }, { 4, 0, "", 29791ULL, 537526129284248ULL }, { 0, 1, "M7", 8462080153604096959ULL, 537526129284248ULL }, { 4, 0, "", 29791ULL, 537526129284248ULL }, { 0, 1, "M7", 8462080153604096959ULL, 537526129284248ULL }, { 4, 0, "", 29791ULL, 537526129284248ULL }, { 7, 0, "", 15580207567211041644ULL, 998270419315333ULL }, { 7, 0, "", 12800098865923859231ULL, 998270419315333ULL }, { 8, 0, "", 16195163046188831ULL, 998270419315333ULL }, { 8, 0, "", 1472149836199819154ULL, 998270419315333ULL }, { 0, 1, "M7", 506098872927922ULL, 537526129284248ULL }, { 0, 2, "M6", 15077697621381148543ULL, 537526129284248ULL }, { 0, 1, "M7", 506098872927922ULL, 537526129284248ULL }, { 0, 2, "M6", 15077697621381148543ULL, 537526129284248ULL }, { 7, 0, "", 1129206816644580127ULL, 998270419315333ULL }, { 4, 0, "", 29823ULL, 537526129284248ULL }, { 8, 0, "", 4070574708182357906ULL, 998270419315333ULL }, { 4, 0, "", 29823ULL, 537526129284248ULL }, { 0, 1, "M7", 8462080182004214751ULL, 537526129284248ULL }, { 4, 0, "", 29823ULL, 537526129284248ULL }, { 0, 1, "M7", 8462080182004214751ULL, 537526129284248ULL }, { 4, 0, "", 29823ULL, 537526129284248ULL }, { 7, 0, "", 15580207595611159436ULL, 998270419315333ULL }, { 7, 0, "", 13613170126608813823ULL, 998270419315333ULL }, { 8, 0, "", 16195163075741503ULL, 998270419315333ULL }, { 8, 0, "", 1472995904108960626ULL, 998270419315333ULL }, { 0, 1, "M7", 506098873881234ULL, 537526129284248ULL }, { 0, 2, "M6", 15077697649781266335ULL, 537526129284248ULL }, { 0, 1, "M7", 506098873881234ULL, 537526129284248ULL }, { 0, 2, "M6", 15077697649781266335ULL, 537526129284248ULL }, { 7, 0, "", 1128360748735438655ULL, 998270419315333ULL }, { 4, 0, "", 29791ULL, 537526129284248ULL }, { 8, 0, "", 4070573827778706354ULL, 998270419315333ULL }, { 4, 0, "", 29791ULL, 537526129284248ULL }, { 0, 1, "M7", 8462080153604096959ULL, 537526129284248ULL }, { 4, 0, "", 29791ULL, 537526129284248ULL }, { 0, 1, "M7", 8462080153604096959ULL, 537526129284248ULL }, { 4, 0, "", 29791ULL, 537526129284248ULL }, { 7, 0, "", 15580207567211041644ULL, 998270419315333ULL }, { 7, 0, "", 12800098865923859231ULL, 998270419315333ULL }, { 8, 0, "", 16195163046188831ULL, 998270419315333ULL }, { 8, 0, "", 1472149836199819154ULL, 998270419315333ULL }, { 0, 1, "M7", 506098872927922ULL, 537526129284248ULL }, { 0, 2, "M6", 15077697621381148543ULL, 537526129284248ULL }, { 0, 1, "M7", 506098872927922ULL, 537526129284248ULL }, { 0, 2, "M6", 15077697621381148543ULL, 537526129284248ULL }, { 7, 0, "", 1129206816644580127ULL, 998270419315333ULL }, { 4, 0, "", 29823ULL, 537526129284248ULL }, { 8, 0, "", 4070574708182357906ULL, 998270419315333ULL }, { 4, 0, "", 29823ULL, 537526129284248ULL }, { 0, 1, "M7", 8462080182004214751ULL, 537526129284248ULL }, { 4, 0, "", 29823ULL, 537526129284248ULL }, { 0, 1, "M7", 8462080182004214751ULL, 537526129284248ULL }, { 4, 0, "", 29823ULL, 537526129284248ULL }, { 7, 0, "", 15580207595611159436ULL, 998270419315333ULL }, { 7, 0, "", 13613170126608813823ULL, 998270419315333ULL }, { 8, 0, "", 16195163075741503ULL, 998270419315333ULL }, { 8, 0, "", 1472995904108960626ULL, 998270419315333ULL }, { 0, 1, "M7", 506098873881234ULL, 537526129284248ULL }, { 0, 2, "M6", 15077697649781266335ULL, 537526129284248ULL }, { 0, 1, "M7", 506098873881234ULL, 537526129284248ULL }, { 0, 2, "M6", 15077697649781266335ULL, 537526129284248ULL } };
JOB2(prog65) { run(s, "p65_main", E65); }
static const Exp E66[] = { { 7, 0, "", 16482402258926062220ULL, 463155997087533ULL }, { 7, 0, "", 7409029293606864493ULL, 200419460693033ULL }, { 7, 0, "", 16482402258926062220ULL, 463155997087533ULL }, { 7, 0, "", 7409029293606864493ULL, 200419460693033ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 7, 0, "", 675445766607347294ULL, 463155997087533ULL }, { 7, 0, "", 864549461604233263ULL, 200419460693033ULL }, { 7, 0, "", 15682475001955430006ULL, 463155997087533ULL }, { 7, 0, "", 17150028312556579119ULL, 200419460693033ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 7, 0, "", 16481981486204631296ULL, 463155997087533ULL }, { 7, 0, "", 7408977297011367305ULL, 200419460693033ULL }, { 7, 0, "", 16481981486204631296ULL, 463155997087533ULL }, { 7, 0, "", 7408977297011367305ULL, 200419460693033ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 7, 0, "", 16481981486204631296ULL, 463155997087533ULL }, { 7, 0, "", 7408977297011367305ULL, 200419460693033ULL }, { 7, 0, "", 16481981486204631296ULL, 463155997087533ULL }, { 7, 0, "", 7408977297011367305ULL, 200419460693033ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 0, 1, "M11", 8267408207884800074ULL, 463155997087533ULL }, { 0, 1, "M11", 9164843174279181985ULL, 200419460693033ULL }, { 0, 1, "M11", 8267408207884800074ULL, 463155997087533ULL }, { 0, 1, "M11", 9164843174279181985ULL, 200419460693033ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 0, 1, "M11", 8267408207884800074ULL, 463155997087533ULL }, { 0, 1, "M11", 9164843174279181985ULL, 200419460693033ULL }, { 0, 1, "M11", 8267408207884800074ULL, 463155997087533ULL }, { 0, 1, "M11", 9164843174279181985ULL, 200419460693033ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 7, 0, "", 16481981486204631296ULL, 463155997087533ULL }, { 7, 0, "", 7408977297011367305ULL, 200419460693033ULL }, { 7, 0, "", 16481981486204631296ULL, 463155997087533ULL }, { 7, 0, "", 7408977297011367305ULL, 200419460693033ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 7, 0, "", 16481981486204631296ULL, 463155997087533ULL }, { 7, 0, "", 7408977297011367305ULL, 200419460693033ULL }, { 7, 0, "", 16481981486204631296ULL, 463155997087533ULL }, { 7, 0, "", 7408977297011367305ULL, 200419460693033ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL }, { 2, 0, "", 1ULL, 42383275656599ULL } };
JOB2(prog66) { run(s, "p66_main", E66); }
static const Exp E67[] = { { 7, 0, "", 16325262274911988690ULL, 2599939131654956ULL }, { 7, 0, "", 16325235835289828019ULL, 2599939131654956ULL }, { 7, 0, "", 12924523979115415205ULL, 2755235238930047ULL }, { 7, 0, "", 12924523979115415205ULL, 2755235238930047ULL }, { 7, 0, "", 16325262274911988690ULL, 2599939131654956ULL }, { 7, 0, "", 16325235835289828019ULL, 2599939131654956ULL }, { 7, 0, "", 12924523979115415205ULL, 2755235238930047ULL }, { 7, 0, "", 12924523979115415205ULL, 2755235238930047ULL }, { 7, 0, "", 16412196444429060362ULL, 2599939131654956ULL }, { 7, 0, "", 16412195591538022921ULL, 2599939131654956ULL }, { 7, 0, "", 3200599959132816900ULL, 2755235238930047ULL }, { 7, 0, "", 3200599959132816900ULL, 2755235238930047ULL }, { 7, 0, "", 16412196444429060362ULL, 2599939131654956ULL }, { 7, 0, "", 16412195591538022921ULL, 2599939131654956ULL }, { 7, 0, "", 3200599959132816900ULL, 2755235238930047ULL }, { 7, 0, "", 3200599959132816900ULL, 2755235238930047ULL }, { 7, 0, "", 3163779107259374213ULL, 2124442604932192ULL }, { 7, 0, "", 3163779107259374213ULL, 2124442604932192ULL }, { 7, 0, "", 517098477438895858ULL, 2279738712207283ULL }, { 7, 0, "", 517098477438895858ULL, 2279738712207283ULL }, { 7, 0, "", 3163779107259374213ULL, 2124442604932192ULL }, { 7, 0, "", 3163779107259374213ULL, 2124442604932192ULL }, { 7, 0, "", 517098477438895858ULL, 2279738712207283ULL }, { 7, 0, "", 517098477438895858ULL, 2279738712207283ULL }, { 7, 0, "", 11206690036898982083ULL, 2124442604932192ULL }, { 7, 0, "", 11206690036898982083ULL, 2124442604932192ULL }, { 7, 0, "", 13490880763939010787ULL, 2279738712207283ULL }, { 7, 0, "", 13490880763939010787ULL, 2279738712207283ULL }, { 7, 0, "", 11206690036898982083ULL, 2124442604932192ULL }, { 7, 0, "", 11206690036898982083ULL, 2124442604932192ULL }, { 7, 0, "", 13490880763939010787ULL, 2279738712207283ULL }, { 7, 0, "", 13490880763939010787ULL, 2279738712207283ULL }, { 7, 0, "", 16325262274911988690ULL, 2599939131654956ULL }, { 7, 0, "", 16325235835289828019ULL, 2599939131654956ULL }, { 7, 0, "", 11662768730427009128ULL, 2128747557763220ULL }, { 7, 0, "", 11662768730427009128ULL, 2128747557763220ULL }, { 7, 0, "", 16325262274911988690ULL, 2599939131654956ULL }, { 7, 0, "", 16325235835289828019ULL, 2599939131654956ULL }, { 7, 0, "", 11662768730427009128ULL, 2128747557763220ULL }, { 7, 0, "", 11662768730427009128ULL, 2128747557763220ULL }, { 7, 0, "", 16412196444429060362ULL, 2599939131654956ULL }, { 7, 0, "", 16412195591538022921ULL, 2599939131654956ULL }, { 7, 0, "", 364461523714302028ULL, 2128747557763220ULL }, { 7, 0, "", 364461523714302028ULL, 2128747557763220ULL }, { 7, 0, "", 16412196444429060362ULL, 2599939131654956ULL }, { 7, 0, "", 16412195591538022921ULL, 2599939131654956ULL }, { 7, 0, "", 364461523714302028ULL, 2128747557763220ULL }, { 7, 0, "", 364461523714302028ULL, 2128747557763220ULL }, { 7, 0, "", 3163779107259374213ULL, 2124442604932192ULL }, { 7, 0, "", 3163779107259374213ULL, 2124442604932192ULL }, { 7, 0, "", 11662768730427009128ULL, 2128747557763220ULL }, { 7, 0, "", 11662768730427009128ULL, 2128747557763220ULL }, { 7, 0, "", 3163779107259374213ULL, 2124442604932192ULL }, { 7, 0, "", 3163779107259374213ULL, 2124442604932192ULL }, { 7, 0, "", 11662768730427009128ULL, 2128747557763220ULL }, { 7, 0, "", 11662768730427009128ULL, 2128747557763220ULL }, { 7, 0, "", 11206690036898982083ULL, 2124442604932192ULL }, { 7, 0, "", 11206690036898982083ULL, 2124442604932192ULL }, { 7, 0, "", 364461523714302028ULL, 2128747557763220ULL }, { 7, 0, "", 364461523714302028ULL, 2128747557763220ULL }, { 7, 0, "", 11206690036898982083ULL, 2124442604932192ULL }, { 7, 0, "", 11206690036898982083ULL, 2124442604932192ULL }, { 7, 0, "", 364461523714302028ULL, 2128747557763220ULL }, { 7, 0, "", 364461523714302028ULL, 2128747557763220ULL } };
JOB2(prog67) { run(s, "p67_main", E67); }
static const Exp E68[] = { { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 0, 1, "M8", 11339075431898256268ULL, 2822470291417938ULL }, { 0, 1, "M8", 9789158341217561577ULL, 2822470291417938ULL }, { 0, 1, "M8", 11339075431898256268ULL, 2822470291417938ULL }, { 0, 1, "M8", 9789158341217561577ULL, 2822470291417938ULL }, { 0, 1, "M8", 11339075431898256268ULL, 2822470291417938ULL }, { 0, 1, "M8", 9789158341217561577ULL, 2822470291417938ULL }, { 0, 1, "M8", 11339075431898256268ULL, 2822470291417938ULL }, { 0, 1, "M8", 9789158341217561577ULL, 2822470291417938ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 0, 1, "M8", 12495950862113636357ULL, 2869566772286802ULL }, { 0, 1, "M8", 1342009198431204168ULL, 2869566772286802ULL }, { 0, 1, "M8", 12495950862113636357ULL, 2869566772286802ULL }, { 0, 1, "M8", 1342009198431204168ULL, 2869566772286802ULL }, { 0, 1, "M8", 12495950862113636357ULL, 2869566772286802ULL }, { 0, 1, "M8", 1342009198431204168ULL, 2869566772286802ULL }, { 0, 1, "M8", 12495950862113636357ULL, 2869566772286802ULL }, { 0, 1, "M8", 1342009198431204168ULL, 2869566772286802ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 4117683868207613615ULL, 6253243272900308ULL }, { 7, 0, "", 15048023366291956297ULL, 6253243272900308ULL }, { 7, 0, "", 4117683868207613615ULL, 6253243272900308ULL }, { 7, 0, "", 15048023366291956297ULL, 6253243272900308ULL }, { 7, 0, "", 4117683868207613615ULL, 6253243272900308ULL }, { 7, 0, "", 15048023366291956297ULL, 6253243272900308ULL }, { 7, 0, "", 4117683868207613615ULL, 6253243272900308ULL }, { 7, 0, "", 15048023366291956297ULL, 6253243272900308ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 5235447035165883949ULL, 3348036623961508ULL }, { 7, 0, "", 13740301102088935763ULL, 6347436234638036ULL }, { 7, 0, "", 4090848317151532353ULL, 6347436234638036ULL }, { 7, 0, "", 13740301102088935763ULL, 6347436234638036ULL }, { 7, 0, "", 4090848317151532353ULL, 6347436234638036ULL }, { 7, 0, "", 13740301102088935763ULL, 6347436234638036ULL }, { 7, 0, "", 4090848317151532353ULL, 6347436234638036ULL }, { 7, 0, "", 13740301102088935763ULL, 6347436234638036ULL }, { 7, 0, "", 4090848317151532353ULL, 6347436234638036ULL } };
JOB2(prog68) { run(s, "p68_main", E68); }
static const Exp E69[] = { { 7, 0, "", 17459922146897096255ULL, 3477678835919835ULL }, { 7, 0, "", 5183996201019628189ULL, 2682142408647178ULL }, { 7, 0, "", 4399902981731298449ULL, 3089066524978050ULL }, { 7, 0, "", 12783203254332552783ULL, 2293530097705393ULL }, { 7, 0, "", 17459922146897096255ULL, 3477678835919835ULL }, { 7, 0, "", 5183996201019628189ULL, 2682142408647178ULL }, { 7, 0, "", 4399902981731298449ULL, 3089066524978050ULL }, { 7, 0, "", 12783203254332552783ULL, 2293530097705393ULL }, { 7, 0, "", 17459922146897096255ULL, 3477678835919835ULL }, { 7, 0, "", 5183996201019628189ULL, 2682142408647178ULL }, { 7, 0, "", 4399902981731298449ULL, 3089066524978050ULL }, { 7, 0, "", 12783203254332552783ULL, 2293530097705393ULL }, { 7, 0, "", 17459922146897096255ULL, 3477678835919835ULL }, { 7, 0, "", 5183996201019628189ULL, 2682142408647178ULL }, { 7, 0, "", 4399902981731298449ULL, 3089066524978050ULL }, { 7, 0, "", 12783203254332552783ULL, 2293530097705393ULL }, { 7, 0, "", 15119320172904635705ULL, 3477678835919835ULL }, { 7, 0, "", 13158519326126961371ULL, 2682142408647178ULL }, { 7, 0, "", 4399902981731298449ULL, 3089066524978050ULL }, { 7, 0, "", 12783203254332552783ULL, 2293530097705393ULL }, { 7, 0, "", 15119320172904635705ULL, 3477678835919835ULL }, { 7, 0, "", 13158519326126961371ULL, 2682142408647178ULL }, { 7, 0, "", 4399902981731298449ULL, 3089066524978050ULL }, { 7, 0, "", 12783203254332552783ULL, 2293530097705393ULL }, { 7, 0, "", 15119320172904635705ULL, 3477678835919835ULL }, { 7, 0, "", 13158519326126961371ULL, 2682142408647178ULL }, { 7, 0, "", 4399902981731298449ULL, 3089066524978050ULL }, { 7, 0, "", 12783203254332552783ULL, 2293530097705393ULL }, { 7, 0, "", 15119320172904635705ULL, 3477678835919835ULL }, { 7, 0, "", 13158519326126961371ULL, 2682142408647178ULL }, { 7, 0, "", 4399902981731298449ULL, 3089066524978050ULL }, { 7, 0, "", 12783203254332552783ULL, 2293530097705393ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL }, { 9, 0, "", 6066961932891073892ULL, 2032558992561546ULL }, { 9, 0, "", 3810574519357728702ULL, 2032558992561546ULL } };
JOB2(prog69) { run(s, "p69_main", E69); }
static const Exp E70[] = { { 7, 0, "", 1063946657581814341ULL, 1840952164903511ULL }, { 7, 0, "", 1681395160344160973ULL, 1216877662475917ULL }, { 7, 0, "", 4130042439017418088ULL, 138633868817887ULL }, { 7, 0, "", 4130042439017418088ULL, 138633868817887ULL }, { 7, 0, "", 4990236609361749221ULL, 1840952164903511ULL }, { 7, 0, "", 16831228742525592197ULL, 1216877662475917ULL }, { 7, 0, "", 4130068080773769540ULL, 138633868817887ULL }, { 7, 0, "", 4130068080773769540ULL, 138633868817887ULL }, { 7, 0, "", 11300647272821196492ULL, 1216877662475917ULL }, { 7, 0, "", 1681395160344160973ULL, 1216877662475917ULL }, { 7, 0, "", 4130042439017418088ULL, 138633868817887ULL }, { 7, 0, "", 4130042439017418088ULL, 138633868817887ULL }, { 7, 0, "", 18263337178620745532ULL, 1216877662475917ULL }, { 7, 0, "", 16831228742525592197ULL, 1216877662475917ULL }, { 7, 0, "", 4130068080773769540ULL, 138633868817887ULL }, { 7, 0, "", 4130068080773769540ULL, 138633868817887ULL }, { 7, 0, "", 4130041613610365607ULL, 138633868817887ULL }, { 7, 0, "", 4130041613610365607ULL, 138633868817887ULL }, { 7, 0, "", 4130041613610365607ULL, 138633868817887ULL }, { 7, 0, "", 4130041613610365607ULL, 138633868817887ULL }, { 7, 0, "", 4130042440763796299ULL, 138633868817887ULL }, { 7, 0, "", 4130042440763796299ULL, 138633868817887ULL }, { 7, 0, "", 4130042440763796299ULL, 138633868817887ULL }, { 7, 0, "", 4130042440763796299ULL, 138633868817887ULL }, { 7, 0, "", 4130041613610365607ULL, 138633868817887ULL }, { 7, 0, "", 4130041613610365607ULL, 138633868817887ULL }, { 7, 0, "", 4130041613610365607ULL, 138633868817887ULL }, { 7, 0, "", 4130041613610365607ULL, 138633868817887ULL }, { 7, 0, "", 4130042440763796299ULL, 138633868817887ULL }, { 7, 0, "", 4130042440763796299ULL, 138633868817887ULL }, { 7, 0, "", 4130042440763796299ULL, 138633868817887ULL }, { 7, 0, "", 4130042440763796299ULL, 138633868817887ULL }, { 7, 0, "", 133228000825980192ULL, 533662902996602ULL }, { 7, 0, "", 133228000825980192ULL, 533662902996602ULL }, { 7, 0, "", 133227175452174467ULL, 533662902996602ULL }, { 7, 0, "", 133227175452174467ULL, 533662902996602ULL }, { 7, 0, "", 133253642582331644ULL, 533662902996602ULL }, { 7, 0, "", 133253642582331644ULL, 533662902996602ULL }, { 7, 0, "", 133228002605605159ULL, 533662902996602ULL }, { 7, 0, "", 133228002605605159ULL, 533662902996602ULL }, { 7, 0, "", 133228000825980192ULL, 533662902996602ULL }, { 7, 0, "", 133228000825980192ULL, 533662902996602ULL }, { 7, 0, "", 133227175452174467ULL, 533662902996602ULL }, { 7, 0, "", 133227175452174467ULL, 533662902996602ULL }, { 7, 0, "", 133253642582331644ULL, 533662902996602ULL }, { 7, 0, "", 133253642582331644ULL, 533662902996602ULL }, { 7, 0, "", 133228002605605159ULL, 533662902996602ULL }, { 7, 0, "", 133228002605605159ULL, 533662902996602ULL }, { 7, 0, "", 133227148826140516ULL, 533662902996602ULL }, { 7, 0, "", 133227148826140516ULL, 533662902996602ULL }, { 7, 0, "", 133227148826140516ULL, 533662902996602ULL }, { 7, 0, "", 133227148826140516ULL, 533662902996602ULL }, { 7, 0, "", 133227175508509248ULL, 533662902996602ULL }, { 7, 0, "", 133227175508509248ULL, 533662902996602ULL }, { 7, 0, "", 133227175508509248ULL, 533662902996602ULL }, { 7, 0, "", 133227175508509248ULL, 533662902996602ULL }, { 7, 0, "", 133227148826140516ULL, 533662902996602ULL }, { 7, 0, "", 133227148826140516ULL, 533662902996602ULL }, { 7, 0, "", 133227148826140516ULL, 533662902996602ULL }, { 7, 0, "", 133227148826140516ULL, 533662902996602ULL }, { 7, 0, "", 133227175508509248ULL, 533662902996602ULL }, { 7, 0, "", 133227175508509248ULL, 533662902996602ULL }, { 7, 0, "", 133227175508509248ULL, 533662902996602ULL }, { 7, 0, "", 133227175508509248ULL, 533662902996602ULL } };
JOB2(prog70) { run(s, "p70_main", E70); }
static const Exp E71[] = { { 0, 1, "*", 4014120353420134778ULL, 571194861197271ULL }, { 0, 1, "*", 7109774817361965167ULL, 589701303331346ULL }, { 0, 1, "*", 5436464821241647835ULL, 571194861197271ULL }, { 0, 1, "*", 4173275217847741328ULL, 589701303331346ULL }, { 0, 1, "*", 4014120353420134778ULL, 571194861197271ULL }, { 0, 1, "*", 7109774817361965167ULL, 589701303331346ULL }, { 0, 1, "*", 5436464821241647835ULL, 571194861197271ULL }, { 0, 1, "*", 4173275217847741328ULL, 589701303331346ULL }, { 0, 2, "M13", 1031289279131233920ULL, 975303842443454ULL }, { 0, 2, "M13", 3330501787639163566ULL, 993810284577529ULL }, { 0, 2, "M13", 4857500041548020607ULL, 975303842443454ULL }, { 0, 2, "M13", 17356074031655643949ULL, 993810284577529ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 1, "*", 11011727932350816256ULL, 1149258561544793ULL }, { 0, 1, "*", 3824433053991181501ULL, 1167765003678868ULL }, { 0, 1, "*", 10953393122891913825ULL, 1149258561544793ULL }, { 0, 1, "*", 7702069769880863006ULL, 1167765003678868ULL }, { 0, 1, "*", 11011727932350816256ULL, 1149258561544793ULL }, { 0, 1, "*", 3824433053991181501ULL, 1167765003678868ULL }, { 0, 1, "*", 10953393122891913825ULL, 1149258561544793ULL }, { 0, 1, "*", 7702069769880863006ULL, 1167765003678868ULL }, { 0, 2, "M13", 16692478234232468228ULL, 1553367542790976ULL }, { 0, 2, "M13", 918884074614109521ULL, 1571873984925051ULL }, { 0, 2, "M13", 5833564966252056835ULL, 1553367542790976ULL }, { 0, 2, "M13", 1152677969299882640ULL, 1571873984925051ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 1, "*", 4014120353420134778ULL, 571194861197271ULL }, { 0, 1, "*", 7109774817361965167ULL, 589701303331346ULL }, { 0, 1, "*", 5436464821241647835ULL, 571194861197271ULL }, { 0, 1, "*", 4173275217847741328ULL, 589701303331346ULL }, { 0, 1, "*", 4014120353420134778ULL, 571194861197271ULL }, { 0, 1, "*", 7109774817361965167ULL, 589701303331346ULL }, { 0, 1, "*", 5436464821241647835ULL, 571194861197271ULL }, { 0, 1, "*", 4173275217847741328ULL, 589701303331346ULL }, { 3, 0, "", 62ULL, 0ULL }, { 3, 0, "", 62ULL, 0ULL }, { 3, 0, "", 62ULL, 0ULL }, { 3, 0, "", 62ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 1, "*", 11011727932350816256ULL, 1149258561544793ULL }, { 0, 1, "*", 3824433053991181501ULL, 1167765003678868ULL }, { 0, 1, "*", 10953393122891913825ULL, 1149258561544793ULL }, { 0, 1, "*", 7702069769880863006ULL, 1167765003678868ULL }, { 0, 1, "*", 11011727932350816256ULL, 1149258561544793ULL }, { 0, 1, "*", 3824433053991181501ULL, 1167765003678868ULL }, { 0, 1, "*", 10953393122891913825ULL, 1149258561544793ULL }, { 0, 1, "*", 7702069769880863006ULL, 1167765003678868ULL }, { 3, 0, "", 62ULL, 0ULL }, { 3, 0, "", 62ULL, 0ULL }, { 3, 0, "", 62ULL, 0ULL }, { 3, 0, "", 62ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL }, { 0, 3, "M1", 0ULL, 0ULL } };
JOB2(prog71) { run(s, "p71_main", E71); }
static const Exp E72[] = { { 7, 0, "", 6134003083288853743ULL, 2090799604723583ULL }, { 7, 0, "", 8088327581056157486ULL, 2090799604723583ULL }, { 7, 0, "", 6134003083288853743ULL, 2090799604723583ULL }, { 7, 0, "", 8088327581056157486ULL, 2090799604723583ULL }, { 7, 0, "", 317323893572155175ULL, 1119498652360182ULL }, { 7, 0, "", 8146065331049375270ULL, 1119498652360182ULL }, { 7, 0, "", 317323893572155175ULL, 1119498652360182ULL }, { 7, 0, "", 8146065331049375270ULL, 1119498652360182ULL }, { 7, 0, "", 12477134867078109412ULL, 981566935450690ULL }, { 7, 0, "", 2593516033642154403ULL, 981566935450690ULL }, { 7, 0, "", 12477134867078109412ULL, 981566935450690ULL }, { 7, 0, "", 2593516033642154403ULL, 981566935450690ULL }, { 7, 0, "", 6110055032315084230ULL, 1119498652360182ULL }, { 7, 0, "", 4043979402719609093ULL, 1119498652360182ULL }, { 7, 0, "", 6110055032315084230ULL, 1119498652360182ULL }, { 7, 0, "", 4043979402719609093ULL, 1119498652360182ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 7, 0, "", 317323893572155175ULL, 1119498652360182ULL }, { 7, 0, "", 8146065331049375270ULL, 1119498652360182ULL }, { 7, 0, "", 317323893572155175ULL, 1119498652360182ULL }, { 7, 0, "", 8146065331049375270ULL, 1119498652360182ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 7, 0, "", 6110055032315084230ULL, 1119498652360182ULL }, { 7, 0, "", 4043979402719609093ULL, 1119498652360182ULL }, { 7, 0, "", 6110055032315084230ULL, 1119498652360182ULL }, { 7, 0, "", 4043979402719609093ULL, 1119498652360182ULL }, { 7, 0, "", 771470812684520242ULL, 2090799604723583ULL }, { 7, 0, "", 4455771686052275330ULL, 1661499746797617ULL }, { 7, 0, "", 771470812684520242ULL, 2090799604723583ULL }, { 7, 0, "", 4455771686052275330ULL, 1661499746797617ULL }, { 7, 0, "", 286463694756902757ULL, 1119498652360182ULL }, { 7, 0, "", 9198961567163134432ULL, 690198794434216ULL }, { 7, 0, "", 286463694756902757ULL, 1119498652360182ULL }, { 7, 0, "", 9198961567163134432ULL, 690198794434216ULL }, { 0, 3, "M10", 2604340189513703124ULL, 374788402868355ULL }, { 7, 0, "", 17346496768382511019ULL, 552267077524724ULL }, { 0, 3, "M10", 2604340189513703124ULL, 374788402868355ULL }, { 7, 0, "", 17346496768382511019ULL, 552267077524724ULL }, { 0, 3, "M10", 10429418468759811178ULL, 512720119777847ULL }, { 7, 0, "", 4306186131098418977ULL, 690198794434216ULL }, { 0, 3, "M10", 10429418468759811178ULL, 512720119777847ULL }, { 7, 0, "", 4306186131098418977ULL, 690198794434216ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 7, 0, "", 286463694756902757ULL, 1119498652360182ULL }, { 7, 0, "", 9198961567163134432ULL, 690198794434216ULL }, { 7, 0, "", 286463694756902757ULL, 1119498652360182ULL }, { 7, 0, "", 9198961567163134432ULL, 690198794434216ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 2, 0, "", 1ULL, 0ULL }, { 0, 3, "M10", 10429418468759811178ULL, 512720119777847ULL }, { 7, 0, "", 4306186131098418977ULL, 690198794434216ULL }, { 0, 3, "M10", 10429418468759811178ULL, 512720119777847ULL }, { 7, 0, "", 4306186131098418977ULL, 690198794434216ULL } };
JOB2(prog72) { run(s, "p72_main", E72); }
static const Exp E73[] = { { 0, 2, "M8", 16953800098360877072ULL, 1620804177777134ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 0, 2, "M8", 16953800098360877072ULL, 1620804177777134ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 6, 0, "", 0ULL, 1620804177777134ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 6, 0, "", 0ULL, 1620804177777134ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 0, 2, "M8", 17696429084887097433ULL, 1961967537489759ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 0, 2, "M8", 1081765723734749ULL, 1620804177777134ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 0, 2, "M8", 17696429084887097433ULL, 1961967537489759ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 0, 2, "M8", 1081765723734749ULL, 1620804177777134ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 0, 2, "M8", 13505669373872371883ULL, 1839921470746336ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 0, 2, "M8", 13505669373872371883ULL, 1839921470746336ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 0, 2, "M8", 1300883016705873ULL, 1839921470746336ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 0, 2, "M8", 1300883016705873ULL, 1839921470746336ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 4, 0, "", 25734224959962569ULL, 2341164900367644ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 4, 0, "", 25734224959962569ULL, 2341164900367644ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 4, 0, "", 25734224959962569ULL, 2341164900367644ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 4, 0, "", 25734224959962569ULL, 2341164900367644ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 0, 2, "M8", 16953800098360877072ULL, 1620804177777134ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 0, 2, "M8", 16953800098360877072ULL, 1620804177777134ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 6, 0, "", 0ULL, 1620804177777134ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 6, 0, "", 0ULL, 1620804177777134ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 0, 2, "M8", 17696429084887097433ULL, 1961967537489759ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 0, 2, "M8", 1081765723734749ULL, 1620804177777134ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 0, 2, "M8", 17696429084887097433ULL, 1961967537489759ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 0, 2, "M8", 1081765723734749ULL, 1620804177777134ULL }, { 1, 0, "", 0ULL, 1620804177777134ULL }, { 0, 2, "M8", 13505669373872371883ULL, 1839921470746336ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 0, 2, "M8", 13505669373872371883ULL, 1839921470746336ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 0, 2, "M8", 1300883016705873ULL, 1839921470746336ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 0, 2, "M8", 1300883016705873ULL, 1839921470746336ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 4, 0, "", 25734224959962569ULL, 2341164900367644ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 4, 0, "", 25734224959962569ULL, 2341164900367644ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 4, 0, "", 25734224959962569ULL, 2341164900367644ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL }, { 4, 0, "", 25734224959962569ULL, 2341164900367644ULL }, { 1, 0, "", 0ULL, 1839921470746336ULL } };
JOB2(prog73) { run(s, "p73_main", E73); }
static const Exp E74[] = { { 7, 0, "", 12922361707399813833ULL, 2520491553678571ULL }, { 7, 0, "", 2116428770631965144ULL, 2520491553678571ULL }, { 7, 0, "", 2503645800018952305ULL, 1835247651977295ULL }, { 7, 0, "", 6523286009306809474ULL, 1835247651977295ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 7, 0, "", 12922361707399813833ULL, 2520491553678571ULL }, { 7, 0, "", 2116428770631965144ULL, 2520491553678571ULL }, { 7, 0, "", 2503645800018952305ULL, 1835247651977295ULL }, { 7, 0, "", 6523286009306809474ULL, 1835247651977295ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 7, 0, "", 12922361707399784042ULL, 2520491553678571ULL }, { 7, 0, "", 2116428770631935353ULL, 2520491553678571ULL }, { 7, 0, "", 2503645800018952305ULL, 1835247651977295ULL }, { 7, 0, "", 6523286009306809474ULL, 1835247651977295ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 7, 0, "", 12922361707399784042ULL, 2520491553678571ULL }, { 7, 0, "", 2116428770631935353ULL, 2520491553678571ULL }, { 7, 0, "", 2503645800018952305ULL, 1835247651977295ULL }, { 7, 0, "", 6523286009306809474ULL, 1835247651977295ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 0, 1, "Error", 131052420628413ULL, 1513671878995465ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL }, { 0, 3, "M1", 0ULL, 131052420628413ULL } };
JOB2(prog74) { run(s, "p74_main", E74); }
static const Exp E75[] = { { 7, 0, "", 13378705373043105630ULL, 3558290662451367ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 5585939766873908458ULL, 3214078984186722ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 15446469129701118292ULL, 3558290662451367ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 13551057096679066893ULL, 3214078984186722ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 12141821356642275795ULL, 3558290662451367ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 1667249603993763207ULL, 3214078984186722ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 43060291668009274ULL, 3558290662451367ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 14722713675335897547ULL, 3214078984186722ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 13378705373043105630ULL, 3558290662451367ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 5585939766873908458ULL, 3214078984186722ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 15446469129701118292ULL, 3558290662451367ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 13551057096679066893ULL, 3214078984186722ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 12141821356642275795ULL, 3558290662451367ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 1667249603993763207ULL, 3214078984186722ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 43060291668009274ULL, 3558290662451367ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 14722713675335897547ULL, 3214078984186722ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 12005120961379981076ULL, 3852558802286227ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 8702780234528089208ULL, 3508347124021582ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 2820151377992704143ULL, 2873075152940876ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 2334750856929388183ULL, 3106454074454885ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 12076334221252045129ULL, 3852558802286227ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 6498503537598748729ULL, 3508347124021582ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 9585523888928358117ULL, 2873075152940876ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 7214168874018494475ULL, 3106454074454885ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 12005120961379981076ULL, 3852558802286227ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 8702780234528089208ULL, 3508347124021582ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 2820151377992704143ULL, 2873075152940876ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 2334750856929388183ULL, 3106454074454885ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 12076334221252045129ULL, 3852558802286227ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 6498503537598748729ULL, 3508347124021582ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 9585523888928358117ULL, 2873075152940876ULL }, { 0, 1, "*", 0ULL, 0ULL }, { 7, 0, "", 7214168874018494475ULL, 3106454074454885ULL }, { 0, 1, "*", 0ULL, 0ULL } };
JOB2(prog75) { run(s, "p75_main", E75); }
static const Exp E76[] = { { 7, 0, "", 15343821054942635126ULL, 1984429748366096ULL }, { 7, 0, "", 15343821054942635126ULL, 1984429748366096ULL }, { 7, 0, "", 5312728378781488342ULL, 1984429748366096ULL }, { 7, 0, "", 5312728378781488342ULL, 1984429748366096ULL }, { 7, 0, "", 13113594989238317724ULL, 1984429748366096ULL }, { 7, 0, "", 13113594989238317724ULL, 1984429748366096ULL }, { 7, 0, "", 400204298020116028ULL, 1984429748366096ULL }, { 7, 0, "", 400204298020116028ULL, 1984429748366096ULL }, { 0, 1, "*", 1801100110859656854ULL, 1984429748366096ULL }, { 0, 1, "*", 1801100110859656854ULL, 1984429748366096ULL }, { 0, 1, "*", 8585820516080281334ULL, 1984429748366096ULL }, { 0, 1, "*", 8585820516080281334ULL, 1984429748366096ULL }, { 7, 0, "", 13113594989238317724ULL, 1984429748366096ULL }, { 7, 0, "", 13113594989238317724ULL, 1984429748366096ULL }, { 7, 0, "", 400204298020116028ULL, 1984429748366096ULL }, { 7, 0, "", 400204298020116028ULL, 1984429748366096ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 7, 0, "", 15343821054942635126ULL, 1984429748366096ULL }, { 7, 0, "", 15343821054942635126ULL, 1984429748366096ULL }, { 7, 0, "", 5312728378781488342ULL, 1984429748366096ULL }, { 7, 0, "", 5312728378781488342ULL, 1984429748366096ULL }, { 7, 0, "", 5879939449617267631ULL, 1984429748366096ULL }, { 7, 0, "", 5879939449617267631ULL, 1984429748366096ULL }, { 7, 0, "", 6852018027629604687ULL, 1984429748366096ULL }, { 7, 0, "", 6852018027629604687ULL, 1984429748366096ULL }, { 0, 1, "*", 1801100110859656854ULL, 1984429748366096ULL }, { 0, 1, "*", 1801100110859656854ULL, 1984429748366096ULL }, { 0, 1, "*", 8585820516080281334ULL, 1984429748366096ULL }, { 0, 1, "*", 8585820516080281334ULL, 1984429748366096ULL }, { 7, 0, "", 5879939449617267631ULL, 1984429748366096ULL }, { 7, 0, "", 5879939449617267631ULL, 1984429748366096ULL }, { 7, 0, "", 6852018027629604687ULL, 1984429748366096ULL }, { 7, 0, "", 6852018027629604687ULL, 1984429748366096ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL }, { 0, 1, "*", 28629151ULL, 1463147190339278ULL } };
JOB2(prog76) { run(s, "p76_main", E76); }
static const Exp E77[] = { { 7, 0, "", 6267746902047292654ULL, 2437843567228179ULL }, { 7, 0, "", 6267746902047292654ULL, 2437843567228179ULL }, { 7, 0, "", 6267746902047292654ULL, 2437843567228179ULL }, { 7, 0, "", 6267746902047292654ULL, 2437843567228179ULL }, { 0, 1, "*", 12103253286377161731ULL, 2437843567228179ULL }, { 0, 1, "*", 12103253286377161731ULL, 2437843567228179ULL }, { 0, 1, "*", 12103253286377161731ULL, 2437843567228179ULL }, { 0, 1, "*", 12103253286377161731ULL, 2437843567228179ULL }, { 7, 0, "", 10029403104061611495ULL, 2332829258170644ULL }, { 7, 0, "", 10029403104061611495ULL, 2332829258170644ULL }, { 7, 0, "", 13223995018626162939ULL, 2332829258170644ULL }, { 7, 0, "", 13223995018626162939ULL, 2332829258170644ULL }, { 0, 1, "*", 3538882017386547763ULL, 2332829258170644ULL }, { 0, 1, "*", 3538882017386547763ULL, 2332829258170644ULL }, { 0, 1, "*", 3538882017386547763ULL, 2332829258170644ULL }, { 0, 1, "*", 3538882017386547763ULL, 2332829258170644ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 7, 0, "", 15003666272564849533ULL, 3032814114764905ULL }, { 7, 0, "", 15003666272564849533ULL, 3032814114764905ULL }, { 7, 0, "", 15003666272564849533ULL, 3032814114764905ULL }, { 7, 0, "", 15003666272564849533ULL, 3032814114764905ULL }, { 0, 1, "*", 5435317068911821035ULL, 2437843567228179ULL }, { 0, 1, "*", 5435317068911821035ULL, 2437843567228179ULL }, { 0, 1, "*", 5435317068911821035ULL, 2437843567228179ULL }, { 0, 1, "*", 5435317068911821035ULL, 2437843567228179ULL }, { 7, 0, "", 6216086889174281304ULL, 2927799805707370ULL }, { 7, 0, "", 6216086889174281304ULL, 2927799805707370ULL }, { 7, 0, "", 12598183624220200198ULL, 2927799805707370ULL }, { 7, 0, "", 12598183624220200198ULL, 2927799805707370ULL }, { 0, 1, "*", 7829585320648678516ULL, 2332829258170644ULL }, { 0, 1, "*", 7829585320648678516ULL, 2332829258170644ULL }, { 0, 1, "*", 7829585320648678516ULL, 2332829258170644ULL }, { 0, 1, "*", 7829585320648678516ULL, 2332829258170644ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL }, { 1, 0, "", 0ULL, 175670588952815ULL } };
JOB2(prog77) { run(s, "p77_main", E77); }
static const Exp E78[] = { { 7, 0, "", 13403890404853542757ULL, 595151157738112ULL }, { 7, 0, "", 13403890404853542757ULL, 595151157738112ULL }, { 7, 0, "", 9692232928849689922ULL, 595151157738112ULL }, { 7, 0, "", 9692232928849689922ULL, 595151157738112ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 7, 0, "", 4281818790687194570ULL, 764303088158984ULL }, { 7, 0, "", 4281818790687194570ULL, 764303088158984ULL }, { 7, 0, "", 3609173995336170365ULL, 764303088158984ULL }, { 7, 0, "", 3609173995336170365ULL, 764303088158984ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 7, 0, "", 13403890404853542757ULL, 595151157738112ULL }, { 7, 0, "", 13403890404853542757ULL, 595151157738112ULL }, { 7, 0, "", 9692232928849689922ULL, 595151157738112ULL }, { 7, 0, "", 9692232928849689922ULL, 595151157738112ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 7, 0, "", 4281818790687194570ULL, 764303088158984ULL }, { 7, 0, "", 4281818790687194570ULL, 764303088158984ULL }, { 7, 0, "", 3609173995336170365ULL, 764303088158984ULL }, { 7, 0, "", 3609173995336170365ULL, 764303088158984ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 0, 1, "*", 13008480456992340552ULL, 591526414941111ULL }, { 0, 1, "*", 13008480456992340552ULL, 591526414941111ULL }, { 0, 1, "*", 13008480456992340552ULL, 591526414941111ULL }, { 0, 1, "*", 13008480456992340552ULL, 591526414941111ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 0, 1, "*", 12866497272934485693ULL, 760678345361983ULL }, { 0, 1, "*", 12866497272934485693ULL, 760678345361983ULL }, { 0, 1, "*", 12866497272934485693ULL, 760678345361983ULL }, { 0, 1, "*", 12866497272934485693ULL, 760678345361983ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 0, 1, "*", 13008480456992340552ULL, 591526414941111ULL }, { 0, 1, "*", 13008480456992340552ULL, 591526414941111ULL }, { 0, 1, "*", 13008480456992340552ULL, 591526414941111ULL }, { 0, 1, "*", 13008480456992340552ULL, 591526414941111ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 3, 0, "", 12527471708112826773ULL, 591526414941111ULL }, { 0, 1, "*", 12866497272934485693ULL, 760678345361983ULL }, { 0, 1, "*", 12866497272934485693ULL, 760678345361983ULL }, { 0, 1, "*", 12866497272934485693ULL, 760678345361983ULL }, { 0, 1, "*", 12866497272934485693ULL, 760678345361983ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL }, { 3, 0, "", 23847054886612802ULL, 760678345361983ULL } };
JOB2(prog78) { run(s, "p78_main", E78); }
static const Exp E79[] = { { 7, 0, "", 12018423496946943409ULL, 1647755906093077ULL }, { 7, 0, "", 9180114764196500228ULL, 489717725211178ULL }, { 7, 0, "", 6611258785372452701ULL, 946876481473631ULL }, { 7, 0, "", 9180114764196500228ULL, 489717725211178ULL }, { 0, 1, "Error", 4383680783725342967ULL, 946876481473631ULL }, { 7, 0, "", 9180114764196500228ULL, 489717725211178ULL }, { 7, 0, "", 6611258785372452701ULL, 946876481473631ULL }, { 7, 0, "", 9180114764196500228ULL, 489717725211178ULL }, { 7, 0, "", 10703934496981302673ULL, 1737042237697487ULL }, { 7, 0, "", 17939602046277800504ULL, 579004056815588ULL }, { 7, 0, "", 16254962639972232887ULL, 1036162813078041ULL }, { 7, 0, "", 17939602046277800504ULL, 579004056815588ULL }, { 0, 1, "Error", 10449857087627533297ULL, 1036162813078041ULL }, { 7, 0, "", 17939602046277800504ULL, 579004056815588ULL }, { 7, 0, "", 16254962639972232887ULL, 1036162813078041ULL }, { 7, 0, "", 17939602046277800504ULL, 579004056815588ULL }, { 7, 0, "", 11355636095294551181ULL, 1001001236554104ULL }, { 7, 0, "", 9180114764196500228ULL, 489717725211178ULL }, { 7, 0, "", 11355636095294551181ULL, 1001001236554104ULL }, { 7, 0, "", 9180114764196500228ULL, 489717725211178ULL }, { 7, 0, "", 11355636095294551181ULL, 1001001236554104ULL }, { 7, 0, "", 9180114764196500228ULL, 489717725211178ULL }, { 7, 0, "", 11355636095294551181ULL, 1001001236554104ULL }, { 7, 0, "", 9180114764196500228ULL, 489717725211178ULL }, { 7, 0, "", 16957346004835759935ULL, 1090287568158514ULL }, { 7, 0, "", 17939602046277800504ULL, 579004056815588ULL }, { 7, 0, "", 16957346004835759935ULL, 1090287568158514ULL }, { 7, 0, "", 17939602046277800504ULL, 579004056815588ULL }, { 7, 0, "", 16957346004835759935ULL, 1090287568158514ULL }, { 7, 0, "", 17939602046277800504ULL, 579004056815588ULL }, { 7, 0, "", 16957346004835759935ULL, 1090287568158514ULL }, { 7, 0, "", 17939602046277800504ULL, 579004056815588ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL }, { 0, 2, "M1", 0ULL, 0ULL } };
JOB2(prog79) { run(s, "p79_main", E79); }
