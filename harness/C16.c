/*vp {"pc":"VP","time":200,"bounds":["60 random programs of about 14 statements over all numeric types, strings of 0..2 symbolic bytes or undef, objects, arrays, references, multi-numeric values, class variables, switch, loops, eval, die, weaken and casts, all argument values"]} */
// generated by tools/gen_*.py
#include "lang.h"

typedef struct { int e; int nl, nd, ns; uint64_t l[40]; uint64_t d[40]; char* s[40]; int sl[40]; char* exc; uint64_t live; } Out;
static void* bt(SPV* s, const char* n) { return s->env->api->runtime->get_basic_type_by_name(s->rt, n); }
static char* dup_str(SPV* s, void* o, int* n) { if (!o) { *n = -1; return 0; } *n = ENV->length(ENV, ST, o); char* p = malloc(*n + 1); memcpy(p, ENV->get_chars(ENV, ST, o), *n); p[*n] = 0; return p; }
static Out once(SPV* s, const char* m, c_byte b, c_short h, c_int i, c_long l, c_float f, c_double d, char* str, int sn, int od) { Out o; memset(&o, 0, sizeof o);
  OK(CALL(s, "reset", 0)); spv_clear_exc(s); int sc = ENV->enter_scope(ENV, ST);
  void* st = sn < 0 ? 0 : spv_str(s, str, sn); void* ob = 0; int fe = 0;
  if (od) { ob = ENV->new_object(ENV, ST, bt(s, "Ob")); ENV->set_field_int_by_name(ENV, ST, ob, "fi", i, &fe, "", "", 1); ENV->set_field_string_by_name(ENV, ST, ob, "s", st, &fe, "", "", 1); }
  set_byte(0, b); set_short(1, h); set_int(2, i); set_long(3, l); set_float(4, f); set_double(5, d); ST[6].oval = st; ST[7].oval = ob;
  o.e = CALL(s, m, 8); int n; if (o.e) o.exc = dup_str(s, spv_exc(s), &n);
  OK(CALL(s, "logs", 0)); void* a = ST[0].oval; void* parts[4]; for (int k = 0; k < 4; k++) parts[k] = ENV->get_elem_object(ENV, ST, a, k); void* ll = parts[0], *ld = parts[1], *ls = parts[2]; int* c = ENV->get_elems_int(ENV, ST, parts[3]); o.nl = c[0]; o.nd = c[1]; o.ns = c[2];
  for (int k = 0; k < o.nl && k < 40; k++) o.l[k] = ENV->get_elems_long(ENV, ST, ll)[k]; for (int k = 0; k < o.nd && k < 40; k++) o.d[k] = dbits(ENV->get_elems_double(ENV, ST, ld)[k]); for (int k = 0; k < o.ns && k < 40; k++) o.s[k] = dup_str(s, ENV->get_elem_object(ENV, ST, ls, k), &o.sl[k]);
  ENV->leave_scope(ENV, ST, sc); spv_clear_exc(s); OK(CALL(s, "reset", 0)); return o; }
static int nanbits(uint64_t x) { return (x & 0x7ff0000000000000ULL) == 0x7ff0000000000000ULL && (x & 0xfffffffffffffULL); }
static void eq(const char* m, int fs, double d0, float f0) { c_byte b = sym_byte("b"); c_short h = sym_short("h"); c_int i = sym_int("i"); c_long l = sym_long("l"); c_float f = fs ? sym_float("f") : f0; c_double d = fs ? sym_double("d") : d0; int sn = vp_choice(4, "string length") - 1, od = vp_choice(2, "object defined"); char str[4] = {0}; if (sn > 0) vp_symbolic(str, sn, "string");
  Out x = once(&SV, m, b, h, i, l, f, d, str, sn, od), y = once(&SP, m, b, h, i, l, f, d, str, sn, od);
  vp_assert(x.e == y.e, "the same error id"); vp_assert(!x.exc == !y.exc, "an exception in both or in none"); if (x.exc) vp_assert(strcmp(x.exc, y.exc) == 0, "the same exception message and stack trace");
  vp_assert(x.nl == y.nl && x.nd == y.nd && x.ns == y.ns, "the same statements are executed");
  for (int k = 0; k < x.nl && k < 40; k++) vp_assert(x.l[k] == y.l[k], "the same integer values"); for (int k = 0; k < x.nd && k < 40; k++) vp_assert((x.d[k] == y.d[k]) | (nanbits(x.d[k]) & nanbits(y.d[k])), "the same floating values");
  for (int k = 0; k < x.ns && k < 40; k++) { vp_assert(x.sl[k] == y.sl[k], "the same string lengths"); for (int q = 0; q < x.sl[k]; q++) vp_assert(x.s[k][q] == y.s[k][q], "the same string bytes"); }
  for (int k = 0; k < 40; k++) { free(x.s[k]); free(y.s[k]); } free(x.exc); free(y.exc); vp_reach("compared"); }

JOBV(p0) { eq("p0", 0, 0.0, 1.5f); }
JOBV(p1) { eq("p1", 1, 0.0, 1.5f); }
JOBV(p2) { eq("p2", 0, -2.5, 0.0f); }
JOBV(p3) { eq("p3", 1, -2.5, 0.0f); }
JOBV(p4) { eq("p4", 0, 3000000000.0, -7.25f); }
JOBV(p5) { eq("p5", 1, 3000000000.0, -7.25f); }
JOBV(p6) { eq("p6", 0, 1e+300, 3e+38f); }
JOBV(p7) { eq("p7", 1, 1e+300, 3e+38f); }
JOBV(p8) { eq("p8", 0, -0.0, 16777216.0f); }
JOBV(p9) { eq("p9", 1, -0.0, 16777216.0f); }
JOBV(p10) { eq("p10", 0, 41.75, -0.0f); }
JOBV(p11) { eq("p11", 1, 41.75, -0.0f); }
JOBV(p12) { eq("p12", 0, 0.0, 1.5f); }
JOBV(p13) { eq("p13", 1, 0.0, 1.5f); }
JOBV(p14) { eq("p14", 0, -2.5, 0.0f); }
JOBV(p15) { eq("p15", 1, -2.5, 0.0f); }
JOBV(p16) { eq("p16", 0, 3000000000.0, -7.25f); }
JOBV(p17) { eq("p17", 1, 3000000000.0, -7.25f); }
JOBV(p18) { eq("p18", 0, 1e+300, 3e+38f); }
JOBV(p19) { eq("p19", 1, 1e+300, 3e+38f); }
JOBV(p20) { eq("p20", 0, -0.0, 16777216.0f); }
JOBV(p21) { eq("p21", 1, -0.0, 16777216.0f); }
JOBV(p22) { eq("p22", 0, 41.75, -0.0f); }
JOBV(p23) { eq("p23", 1, 41.75, -0.0f); }
JOBV(p24) { eq("p24", 0, 0.0, 1.5f); }
JOBV(p25) { eq("p25", 1, 0.0, 1.5f); }
JOBV(p26) { eq("p26", 0, -2.5, 0.0f); }
JOBV(p27) { eq("p27", 1, -2.5, 0.0f); }
JOBV(p28) { eq("p28", 0, 3000000000.0, -7.25f); }
JOBV(p29) { eq("p29", 1, 3000000000.0, -7.25f); }
JOBV(p30) { eq("p30", 0, 1e+300, 3e+38f); }
JOBV(p31) { eq("p31", 1, 1e+300, 3e+38f); }
JOBV(p32) { eq("p32", 0, -0.0, 16777216.0f); }
JOBV(p33) { eq("p33", 1, -0.0, 16777216.0f); }
JOBV(p34) { eq("p34", 0, 41.75, -0.0f); }
JOBV(p35) { eq("p35", 1, 41.75, -0.0f); }
JOBV(p36) { eq("p36", 0, 0.0, 1.5f); }
JOBV(p37) { eq("p37", 1, 0.0, 1.5f); }
JOBV(p38) { eq("p38", 0, -2.5, 0.0f); }
JOBV(p39) { eq("p39", 1, -2.5, 0.0f); }
JOBV(p40) { eq("p40", 0, 3000000000.0, -7.25f); }
JOBV(p41) { eq("p41", 1, 3000000000.0, -7.25f); }
JOBV(p42) { eq("p42", 0, 1e+300, 3e+38f); }
JOBV(p43) { eq("p43", 1, 1e+300, 3e+38f); }
JOBV(p44) { eq("p44", 0, -0.0, 16777216.0f); }
JOBV(p45) { eq("p45", 1, -0.0, 16777216.0f); }
JOBV(p46) { eq("p46", 0, 41.75, -0.0f); }
JOBV(p47) { eq("p47", 1, 41.75, -0.0f); }
JOBV(p48) { eq("p48", 0, 0.0, 1.5f); }
JOBV(p49) { eq("p49", 1, 0.0, 1.5f); }
JOBV(p50) { eq("p50", 0, -2.5, 0.0f); }
JOBV(p51) { eq("p51", 1, -2.5, 0.0f); }
JOBV(p52) { eq("p52", 0, 3000000000.0, -7.25f); }
JOBV(p53) { eq("p53", 1, 3000000000.0, -7.25f); }
JOBV(p54) { eq("p54", 0, 1e+300, 3e+38f); }
JOBV(p55) { eq("p55", 1, 1e+300, 3e+38f); }
JOBV(p56) { eq("p56", 0, -0.0, 16777216.0f); }
JOBV(p57) { eq("p57", 1, -0.0, 16777216.0f); }
JOBV(p58) { eq("p58", 0, 41.75, -0.0f); }
JOBV(p59) { eq("p59", 1, 41.75, -0.0f); }
