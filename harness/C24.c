/*vp {"pc":"","time":220,"replays":60,"bounds":["every 32-bit code point for the character functions, every value for abs and labs","powi and powl: every base, exponents below 7 (thorough: 12) and every negative one","hex: up to 3 free bytes (thorough: 4), and 4 to 9 digits of which 2 are free","to_int and to_long with every base: up to 3 free bytes (thorough: 4) including NUL bytes, and texts of fixed leading digits around the limits with 2 free digits and a free byte at the end","to_double and to_float: up to 3 free bytes including NUL bytes (thorough: 4): acceptance by an independent grammar, the value by the same uninterpreted strtod as the code","rand and crand: every seed"]} */
#include "lang.h"
static int FN(SPV* s, const char* m, int w) { return CALLC(s, "Fn", m, w); }
#define THROWS(e, what) do { vp_assert((e) != 0, what); vp_assert(spv_exc(s) != 0, what); spv_clear_exc(s); } while (0)
static int in(int c, int a, int b) { return (c >= a) & (c <= b); }
#define CLS(name, expr) JOBV(name) { int c = sym_int("code point"); set_int(0, c); OK(FN(s, #name, 1)); vp_reach("called"); vp_assert(get_int() == (expr), #name " is true exactly for the documented code points"); }
CLS(is_alnum, in(c, 'A', 'Z') | in(c, 'a', 'z') | in(c, '0', '9')) CLS(is_alpha, in(c, 'A', 'Z') | in(c, 'a', 'z')) CLS(is_blank, (c == 32) | (c == 9)) CLS(is_cntrl, in(c, 0, 31) | (c == 127)) CLS(is_digit, in(c, '0', '9')) CLS(is_graph, in(c, 0x21, 0x7e)) CLS(is_hex_digit, in(c, '0', '9') | in(c, 'a', 'f') | in(c, 'A', 'F')) CLS(is_xdigit, in(c, '0', '9') | in(c, 'a', 'f') | in(c, 'A', 'F')) CLS(is_lower, in(c, 'a', 'z')) CLS(is_upper, in(c, 'A', 'Z')) CLS(is_perl_space, (c == 9) | (c == 10) | (c == 12) | (c == 13) | (c == 32)) CLS(is_perl_word, in(c, 'A', 'Z') | in(c, 'a', 'z') | in(c, '0', '9') | (c == '_')) CLS(is_print, in(c, 0x20, 0x7e)) CLS(is_punct, in(c, 0x21, 0x2f) | in(c, 0x3a, 0x40) | in(c, 0x5b, 0x60) | in(c, 0x7b, 0x7e)) CLS(is_space, in(c, 9, 13) | (c == 32)) CLS(to_lower, c + 32 * in(c, 'A', 'Z')) CLS(to_upper, c - 32 * in(c, 'a', 'z'))
// is_blank on the code points for which the recorded finding does not apply
JOBV(is_blank_low) { int c = sym_int("code point"); vp_assume(in(c, 9, 32)); set_int(0, c); OK(FN(s, "is_blank", 1)); vp_reach("called"); vp_assert(get_int() == ((c == 32) | (c == 9)), "is_blank is true for the space and the tab, false between"); }
JOBV(abs) { int v = sym_int("value"); set_int(0, v); OK(FN(s, "abs", 1)); vp_assert(get_int() == (int)(v < 0 ? 0u - (uint32_t)v : (uint32_t)v), "abs"); int64_t w = sym_long("value"); set_long(0, w); OK(FN(s, "labs", 1)); vp_reach("called"); vp_assert(get_long() == (int64_t)(w < 0 ? 0ull - (uint64_t)w : (uint64_t)w), "labs"); }
static int E(void) { return vp_thorough() ? 12 : 7; }
JOBV(powi) { int b = sym_int("base"), e = sym_int("exponent"); vp_assume(e < E()); set_int(0, b); set_int(1, e); int er = FN(s, "powi", 2); if ((e < 0) | ((b == 0) & (e == 0))) { vp_reach("bad"); THROWS(er, "powi throws for a negative exponent and for 0 to the 0"); return; } OK(er); for (int i = 0; i < E(); i++) if (e == i) e = i; uint32_t w = 1; for (int i = 0; i < e; i++) w = w * (uint32_t)b; vp_reach("power"); vp_assert(get_int() == (int)w, "powi multiplies the base as often as the exponent says"); }
JOBV(powl) { int64_t b = sym_long("base"), e = sym_long("exponent"); vp_assume(e < E()); set_long(0, b); set_long(1, e); int er = FN(s, "powl", 2); if ((e < 0) | ((b == 0) & (e == 0))) { vp_reach("bad"); THROWS(er, "powl throws for a negative exponent and for 0 to the 0"); return; } OK(er); for (int i = 0; i < E(); i++) if (e == i) e = i; uint64_t w = 1; for (int i = 0; i < e; i++) w = w * (uint64_t)b; vp_reach("power"); vp_assert(get_long() == (int64_t)w, "powl multiplies the base as often as the exponent says"); }
static int hexok(uint8_t c) { return in(c, '0', '9') | in(c, 'a', 'f') | in(c, 'A', 'F'); } static int dig(uint8_t c) { return in(c, '0', '9') ? c - '0' : in(c, 'a', 'z') ? c - 'a' + 10 : in(c, 'A', 'Z') ? c - 'A' + 10 : 99; }
JOBV(hex) { char b[12]; int n = vp_choice(vp_thorough() ? 11 : 10, "length"); int fr = n > (vp_thorough() ? 4 : 3) ? 2 : n; memcpy(b, "f09Ab7C3e1", 10); if (fr) { char f[4]; vp_symbolic(f, fr, "digits"); if (n == fr) memcpy(b, f, fr); else { int k = vp_choice(n - 1, "place"); b[k] = f[0]; b[n - 1] = f[1]; } } int undef = n == 0 && vp_choice(2, "undef"); ST[0].oval = undef ? 0 : spv_str(s, b, n); int e = FN(s, "hex", 1); int ok = (n >= 1) & (n <= 8) & !undef; uint32_t v = 0; for (int i = 0; i < n; i++) { ok &= hexok(b[i]); v = v * 16 + dig(b[i]); } if (!ok) { vp_reach("bad"); THROWS(e, "hex throws for a text that is not 1 to 8 hexadecimal digits"); return; } vp_reach("value"); OK(e); vp_assert(get_int() == (int)v, "hex gives the value of the digits"); }
// the text of an integer as strtol reads it: spaces, sign, 0x for base 16, digits up to the end of the string
static int parse(const uint8_t* b, int n, int base, int64_t lo, int64_t hi, int64_t* out) { int i = 0; while (i < n && (in(b[i], 9, 13) || b[i] == ' ')) i++; int neg = 0; if (i < n && (b[i] == '-' || b[i] == '+')) neg = b[i++] == '-'; if (base == 16 && i + 2 < n && b[i] == '0' && (b[i + 1] == 'x' || b[i + 1] == 'X') && hexok(b[i + 2])) i += 2; if (i >= n) return 0; uint64_t v = 0, lim = neg ? 0 - (uint64_t)lo : (uint64_t)hi; int over = 0; for (; i < n; i++) { int d = dig(b[i]); if (d >= base) return 0; over |= v > lim / base; v = v * base + d; over |= v > lim; } if (over) return 0; *out = (int64_t)(neg ? 0 - v : v); return 1; }
static const int BASE[] = { 10, 16, 8, 2 };
static void num(SPV* s, int lng, const char* b, int n, int base) { int al = base == 10 && vp_choice(2, "without base"); ST[0].oval = spv_str(s, b, n); set_int(1, base); int e = al ? CALL(s, lng ? "plong" : "pint", 1) : FN(s, lng ? "to_long_with_base" : "to_int_with_base", 2); if (base == 2) for (int i = 0; i < n; i++) vp_assume((b[i] != 'b') & (b[i] != 'B')); int64_t v; int ok = lng ? parse((void*)b, n, base, INT64_MIN, INT64_MAX, &v) : parse((void*)b, n, base, INT32_MIN, INT32_MAX, &v); if (!ok) { vp_reach("bad"); THROWS(e, "a text that is not an integer in range throws"); return; } vp_reach("value"); OK(e); vp_assert(lng ? get_long() == v : get_int() == v, "the value of the text"); }
static void numf(SPV* s, int lng, int bi) { char b[8]; int n = vp_choice(vp_thorough() ? 5 : 4, "length"); if (n) vp_symbolic(b, n, "text"); num(s, lng, b, n, BASE[bi]); }
#define NUM(nm, l, i) JOBV(nm) { numf(s, l, i); }
NUM(int_dec, 0, 0) NUM(int_hex, 0, 1) NUM(int_oct, 0, 2) NUM(int_bin, 0, 3) NUM(long_dec, 1, 0) NUM(long_hex, 1, 1) NUM(long_oct, 1, 2) NUM(long_bin, 1, 3)
static const char* LIM[2][4][2] = { { { "21474836", "0000214748364" }, { "7fffff", "800000" }, { "177777777", "20000000" }, { "11111111111111111111111111111", "10000000000000000000000000000" } }, { { "92233720368547758", "000099999999999999999" }, { "7fffffffffffff", "80000000000000" }, { "7777777777777777777", "10000000000000000000" }, { "1111111111111111111111111111111111111111111111111111111111111", "10000000000000000000000000000000000000000000000000000000000000" } } };
static void lim(SPV* s, int lng, int bi) { char b[90]; int k = 0, base = BASE[bi]; int sg = vp_choice(4, "lead"); if (sg == 3) b[k++] = ' '; if (sg & 1) b[k++] = '-'; if (sg == 2) b[k++] = '+'; if (base == 16 && vp_choice(2, "0x")) { b[k++] = '0'; b[k++] = 'X'; } const char* p = LIM[lng][bi][vp_choice(2, "digits")]; strcpy(b + k, p); k += strlen(p); uint8_t f[3]; vp_symbolic(f, 3, "digits"); vp_assume((dig(f[0]) < base) & (dig(f[1]) < base)); b[k++] = f[0]; b[k++] = f[1]; if (vp_choice(2, "more")) b[k++] = f[2]; num(s, lng, b, k, base); }
#define LI(nm, l, i) JOBV(nm) { lim(s, l, i); }
LI(lim_int_dec, 0, 0) LI(lim_int_hex, 0, 1) LI(lim_int_oct, 0, 2) LI(lim_int_bin, 0, 3) LI(lim_long_dec, 1, 0) LI(lim_long_hex, 1, 1) LI(lim_long_oct, 1, 2) LI(lim_long_bin, 1, 3)
JOBV(bad_base) { int b = sym_int("base"); vp_assume((b != 2) & (b != 8) & (b != 10) & (b != 16)); int l = vp_choice(2, "long"), u = vp_choice(3, "undef"); ST[0].oval = u == 1 ? 0 : spv_str(s, "1", 1); set_int(1, u == 2 ? 10 : b); if (u == 2) ST[0].oval = 0; int e = FN(s, l ? "to_long_with_base" : "to_int_with_base", 2); vp_reach("called"); THROWS(e, "an undefined text and an unknown base throw"); ST[0].oval = 0; e = FN(s, l ? "to_double" : "to_float", 1); THROWS(e, "an undefined text throws"); }
// decimal floating literals: spaces, sign, digits with a point, exponent; inf and nan are left out
static int isflt(const uint8_t* b, int n) { int i = 0, any = 0; while (i < n && (in(b[i], 9, 13) || b[i] == ' ')) i++; if (i < n && (b[i] == '-' || b[i] == '+')) i++; while (i < n && in(b[i], '0', '9')) { i++; any = 1; } if (i < n && b[i] == '.') { i++; while (i < n && in(b[i], '0', '9')) { i++; any = 1; } } if (!any) return 0; if (i < n && (b[i] | 32) == 'e') { i++; if (i < n && (b[i] == '-' || b[i] == '+')) i++; any = 0; while (i < n && in(b[i], '0', '9')) { i++; any = 1; } if (!any) return 0; } return i == n; }
static void flt(SPV* s, int dbl) { char b[8]; int n = vp_choice(vp_thorough() ? 5 : 4, "length"); if (n) vp_symbolic(b, n, "text"); for (int i = 0; i < n; i++) vp_assume(((b[i] | 32) != 'n') & ((b[i] | 32) != 'x')); ST[0].oval = spv_str(s, b, n); b[n] = 0; int e = FN(s, dbl ? "to_double" : "to_float", 1); if (!isflt((void*)b, n)) { vp_reach("bad"); THROWS(e, "a text that is not a number throws"); return; } if (e) { int big = 0; for (int i = 0; i < n; i++) big |= (b[i] | 32) == 'e'; vp_assert(big, "only an exponent can make a number too large"); spv_clear_exc(s); return; } vp_reach("value"); if (dbl) vp_assert(same_double(get_double(), strtod(b, 0)), "the value of the text"); else vp_assert(same_float(get_float(), strtof(b, 0)), "the value of the text"); }
JOBV(dbl) { flt(s, 1); } JOBV(flt) { flt(s, 0); }
// random numbers: in range, and a function of the seed alone
JOBV(crand) { int sd = sym_int("seed"); set_int(0, sd); OK(CALL(s, "crand", 1)); int r = get_int(); vp_assert(r >= 0, "crand is between 0 and RAND_MAX"); set_int(0, sd); OK(CALL(s, "crand", 1)); vp_assert(get_int() == r, "the same seed gives the same number"); set_int(0, sd); OK(CALL(s, "crand_seed", 1)); uint32_t n = sd; for (int i = 0; i < 3; i++) n = n * 1103515245u + 12345u; vp_assert(get_int() == (int)n, "the seed is updated"); }
JOBV(rand) { int sd = sym_int("seed"); set_int(0, sd); OK(CALL(s, "rand", 1)); double r = get_double(); vp_assert((r >= 0) & (r < 1), "rand is at least 0 and less than 1"); }
JOBV(limits) { static const struct { const char* n; int64_t v; int l; } T[] = { { "BYTE_MAX", 127 }, { "BYTE_MIN", -128 }, { "INT8_MAX", 127 }, { "INT8_MIN", -128 }, { "UINT8_MAX", -1 }, { "UBYTE_MAX", -1 }, { "SHORT_MAX", 32767 }, { "SHORT_MIN", -32768 }, { "INT16_MAX", 32767 }, { "INT16_MIN", -32768 }, { "UINT16_MAX", -1 }, { "USHORT_MAX", -1 }, { "INT_MAX", INT32_MAX }, { "INT_MIN", INT32_MIN }, { "INT32_MAX", INT32_MAX }, { "INT32_MIN", INT32_MIN }, { "UINT32_MAX", -1 }, { "UINT_MAX", -1 }, { "LONG_MAX", INT64_MAX, 1 }, { "LONG_MIN", INT64_MIN, 1 }, { "INT64_MAX", INT64_MAX, 1 }, { "INT64_MIN", INT64_MIN, 1 }, { "ULONG_MAX", -1, 1 }, { "UINT64_MAX", -1, 1 }, { "RAND_MAX", INT32_MAX } }; for (unsigned i = 0; i < sizeof T / sizeof *T; i++) { OK(FN(s, T[i].n, 0)); vp_assert((T[i].l ? get_long() : get_int()) == T[i].v, T[i].n); } static const char* D[] = { "DBL_MAX", "DOUBLE_MAX", "DBL_MIN", "DOUBLE_MIN" }; for (int i = 0; i < 4; i++) { OK(FN(s, D[i], 0)); vp_assert(get_double() == (i < 2 ? 0x1.fffffffffffffp1023 : 0x1p-1022), D[i]); } static const char* F[] = { "FLT_MAX", "FLOAT_MAX", "FLT_MIN", "FLOAT_MIN" }; for (int i = 0; i < 4; i++) { OK(FN(s, F[i], 0)); vp_assert(get_float() == (i < 2 ? 0x1.fffffep127f : 0x1p-126f), F[i]); } }
