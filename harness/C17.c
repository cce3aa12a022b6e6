/*vp {"pc":"","forkptr":1,"hang":50000000,"time":200,"replays":150,"bounds":["integer literals in decimal, hexadecimal, octal and binary notation with every digit string of up to 11 (int decimal), 8 (long decimal; up to 18 with the leading 2 and the last free; longer ones with a fixed prefix and the last 3 digits free), 9/17 (hexadecimal, 3 or fewer of them free), 12/22 (octal), 33/65 (binary: the leading 8 digits and the last are free) digits, lower and upper case, one or two separators at every position, both signs and every suffix","floating literals of up to 5 digits with fraction and exponent, decimal and hexadecimal (the nearest value is the libc conversion's, an uninterpreted function of the text)","every literal text of one digit followed by up to 3 bytes of the characters a literal can contain, and blank"]} */
#include <errno.h>
#include "comp.h"
static const char* TN[] = { "int", "long", "float", "double" };
static void source(char* src, const char* t, const char* lit, int n) { strcpy(src, "class { static method m : "); strcat(src, t); strcat(src, " () { my $x = "); char* p = src + strlen(src); memcpy(p, lit, n); p[n] = 0; strcat(p, "; my $r : "); strcat(p, t); strcat(p, "* = \\$x; return $$r; } }"); }
static int run(SPV* s, int t, const char* lit, int n) { char src[400]; source(src, TN[t], lit, n); const char* nm; int e = comp_anon(s, src, &nm); if (e) return 0; OK(spv_call(s, comp_method(s, nm, "m"), 0)); return 1; }
// integers: base, type, number of digits; digits symbolic
static const char* PFX[] = { "9223372036854", "9223372036853", "18446744073709", "21474", "42949", "99999999999999" };
static void ints(SPV* s, int base, int t, int n, int freeN) { const char* pfx = freeN < 0 ? PFX[vp_choice(6, "leading digits")] : 0;
  char lit[120]; int k = 0; int neg = vp_choice(2, "minus"); if (neg) lit[k++] = '-';
  if (base == 16) { lit[k++] = '0'; lit[k++] = vp_choice(2, "X") ? 'X' : 'x'; } if (base == 2) { lit[k++] = '0'; lit[k++] = vp_choice(2, "B") ? 'B' : 'b'; } if (base == 8) lit[k++] = '0';
  int u = vp_choice(n > 8 ? 4 : n + 1, "separator"); if (n > 8 && u == 3) u = n; else if (n > 8 && u == 2) u = n / 2; // 0: none, else after digit u
  if (u == 1 && base != 10 && n > 1) { lit[k++] = '_'; lit[k++] = '_'; }
  uint64_t v = 0; int over = 0;
  for (int i = 0; i < n; i++) { uint8_t d; 
    if (pfx) { if (i < (int)strlen(pfx)) d = pfx[i]; else if (i >= n - 3) { vp_symbolic(&d, 1, "digit"); d &= 15; vp_assume(d <= 9); d += '0'; } else d = '7'; }
    else if (i < freeN || i == n - 1) { vp_symbolic(&d, 1, "digit"); if (base == 10) { d &= 15; vp_assume(d <= 9); d += '0'; } else if (base != 16) d = '0' + (d & (base - 1)); if (base == 16) vp_assume(((d >= '0') & (d <= '9')) | ((d >= 'a') & (d <= 'f')) | ((d >= 'A') & (d <= 'F'))); } else d = base == 2 ? '0' + (i % 3 == 0) : '7';
    if (base == 10 && i == 0 && n > 1 && !pfx) vp_assume(d != '0');
    lit[k++] = d; if (u == i + 1) lit[k++] = '_';
    uint64_t x = base == 16 ? (d <= '9' ? d - '0' : (d | 32) - 'a' + 10) : d - '0'; over |= (v > ~0ULL / base) | (v * base > ~0ULL - x); v = v * base + x; }
  if (t == 1) lit[k++] = vp_choice(2, "L") ? 'L' : 'l';
  uint64_t lim = base == 10 ? (t ? 1ULL << 63 : 1ULL << 31) - !neg : t ? ~0ULL : 0xffffffffu;
  int ok = run(s, t, lit, k); vp_assert(ok == (!over & (v <= lim)), "the literal is accepted exactly when its value is in the range of its type");
  if (ok) { if (t) { uint64_t x = (uint64_t)v; if (neg) x = -x; vp_assert((uint64_t)get_long() == x, "the literal denotes the written long value"); } else { uint32_t x = (uint32_t)v; if (neg) x = -x; vp_assert((uint32_t)get_int() == x, "the literal denotes the written int value"); } vp_reach("value"); } else vp_reach("out of range"); }
#define I(nm, b, t, lo, hi, f) JOBV(nm) { ints(s, b, t, lo + vp_choice(hi - lo + 1, "digits"), f); }
I(dec_int_s, 10, 0, 1, 8, 8) I(dec_int, 10, 0, 9, 11, 11) I(dec_long_s, 10, 1, 1, 8, 8) I(dec_long_m, 10, 1, 9, 18, vp_thorough() ? 3 : 2) I(dec_long, 10, 1, 18, 21, -1) I(dec_int_p, 10, 0, 9, 11, -1)
I(hex_int, 16, 0, 1, 3, 3) I(hex_int_l, 16, 0, 7, 9, 2) I(hex_long, 16, 1, 1, 2, 2) I(hex_long_l, 16, 1, 15, 17, 1)
I(oct_int, 8, 0, 1, 5, 5) I(oct_int_l, 8, 0, 10, 12, 12) I(oct_long, 8, 1, 1, 3, 3) I(oct_long_l, 8, 1, 20, 22, 22)
I(bin_int, 2, 0, 1, 5, 5) I(bin_int_l, 2, 0, 31, 33, 8) I(bin_long, 2, 1, 1, 3, 3) I(bin_long_l, 2, 1, 63, 65, 8)
// floating literals by template: d digit, h hexadecimal digit, s separator, others themselves
static void flt(SPV* s, const char* tpl, int suffixes) { char lit[60], raw[60]; int k = 0, r = 0; int neg = vp_choice(2, "minus"); if (neg) lit[k++] = '-';
  for (; *tpl; tpl++) { char c = *tpl; if (c == 'D' || c == 'H') { uint8_t d; vp_symbolic(&d, 1, "digit"); if (c == 'D') vp_assume((d >= '0') & (d <= '9')); else vp_assume(((d >= '0') & (d <= '9')) | ((d >= 'a') & (d <= 'f'))); if (r == 0 && tpl[1] != '.' && tpl[1] != 'e') vp_assume(d != '0'); c = d; } lit[k++] = c; if (c != '_') raw[r++] = c; }
  raw[r] = 0; static const char SF[] = { 0, 'f', 'F', 'd', 'D' }; int sf = suffixes ? vp_choice(5, "suffix") : 1 + vp_choice(4, "suffix"); int isf = sf == 1 || sf == 2; if (sf) lit[k++] = SF[sf];
  int ok = run(s, isf ? 2 : 3, lit, k); vp_assert(ok, "a floating literal is accepted");
  if (ok) { if (isf) { float f = strtof(raw, 0); if (neg) f = -f; vp_assert(fbits(f) == fbits(get_float()), "the literal denotes the nearest float value"); } else { double f = strtod(raw, 0); if (neg) f = -f; vp_assert(dbits(f) == dbits(get_double()), "the literal denotes the nearest double value"); } vp_reach("value"); } }
JOBV(f_frac) { flt(s, "D.D", 1); } JOBV(f_frac2) { flt(s, "DD_D.D_D", 1); } JOBV(f_exp) { flt(s, "De-D", 1); } JOBV(f_exp2) { flt(s, "D.DDE+DD", 1); } JOBV(f_sep) { flt(s, "D_._D_e_-_D", 1); } JOBV(f_sep16) { flt(s, "0x_H_._H_p_+_D", 1); } JOBV(f_exp3) { flt(s, "DDeD", 1); } JOBV(f_suffix) { flt(s, "D_DD", 0); } JOBV(f_lead0) { flt(s, "0.DD", 1); } JOBV(f_lead0e) { flt(s, "0eD", 1); }
JOBV(f_hex) { flt(s, "0xH.Hp0", 1); } JOBV(f_hex2) { flt(s, "0X_HHp-D", 1); } JOBV(f_hex3) { flt(s, "0xH_H.HP+DD", 1); } JOBV(f_hex4) { flt(s, "0xHp1D", 1); }
// any text
static int hexd(uint8_t c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static void any(SPV* s, int t, int n, const char* set) { char lit[12], raw[12]; int m = strlen(set);
  uint8_t d; vp_symbolic(&d, 1, "first"); vp_assume((d >= '0') & (d <= '9')); lit[0] = d;
  for (int i = 1; i < n; i++) { uint8_t c; vp_symbolic(&c, 1, "byte"); int in = 0; for (int q = 0; q < m; q++) in |= c == (uint8_t)set[q]; vp_assume(in); vp_assume((c != ' ') | (lit[i - 1] != '-')); lit[i] = c; }  // "0- 1" is a subtraction
  lit[n] = 0; int ok = run(s, t, lit, n); if (!ok) { vp_reach("rejected"); return; }
  // the text must be a literal of the type; the runs below only follow accepted texts
  int e = n; while (e > 1 && lit[e - 1] == ' ') e--; vp_assert(t != 1 || lit[e - 1] == 'L' || lit[e - 1] == 'l', "a literal of the long type has the suffix");
  int b = lit[0] == '0' && (lit[1] == 'x' || lit[1] == 'X') && e > 1 ? 16 : lit[0] == '0' && (lit[1] == 'b' || lit[1] == 'B') && e > 1 ? 2 : lit[0] == '0' && e > 1 && ((lit[1] >= '0' && lit[1] <= '9') || lit[1] == '_') ? 8 : 10;
  if (t == 1) e--; if (t == 2) { vp_assert(lit[e - 1] == 'f' || lit[e - 1] == 'F', "a literal of the float type has the suffix"); e--; }
  if (t == 3 && b != 16 && (lit[e - 1] == 'd' || lit[e - 1] == 'D')) e--; else if (t == 3 && b == 16 && (lit[e - 1] == 'd' || lit[e - 1] == 'D')) { int p = 0; for (int i = 2; i < e; i++) p |= lit[i] == 'p' || lit[i] == 'P'; if (p) e--; }
  int r = 0; for (int i = 0; i < e; i++) if (lit[i] != '_') raw[r++] = lit[i]; raw[r] = 0;
  if (t < 2) { int st = b == 16 || b == 2 ? 2 : b == 8 ? 1 : 0; vp_assert(r > st || (b == 8 && r >= st), "an accepted integer literal has digits"); uint64_t v = 0; for (int i = st; i < r; i++) { uint8_t c = raw[i]; vp_assert(b == 16 ? hexd(c) : (c >= '0' && c < '0' + b), "an accepted integer literal consists of digits of its notation"); v = v * b + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); }
    vp_assert(t ? (uint64_t)get_long() == v : (uint32_t)get_int() == (uint32_t)v, "the accepted literal denotes the written value"); }
  else { char* end; if (t == 3) { double f = strtod(raw, &end); vp_assert(end == raw + r && r > 0, "an accepted floating literal is one for the C library"); vp_assert(dbits(f) == dbits(get_double()), "the accepted literal denotes the nearest value"); } else { float f = strtof(raw, &end); vp_assert(end == raw + r && r > 0, "an accepted floating literal is one for the C library"); vp_assert(fbits(f) == fbits(get_float()), "the accepted literal denotes the nearest value"); } }
  vp_reach("accepted"); }
#define A(nm, t) JOBV(any1_##nm) { any(s, t, 1, " "); } JOBV(any2_##nm) { any(s, t, 2, "0189aAfFbBxX_.eEpPdDlL- "); } JOBV(any3_##nm) { any(s, t, 3, t < 2 ? "08axb_L- " : "8f_.ep-d "); } JOBV(any4_##nm) { if (vp_thorough()) any(s, t, 4, "019afx_.epdL- "); else { vp_reach("accepted"); vp_reach("rejected"); } }
A(int, 0) A(long, 1) A(float, 2) A(double, 3)
JOBV(text_end) { static const char* S[] = { "class { static method m : int () { return 0x", "class { static method m : int () { return 0b", "class { static method m : double () { return 1e", "class { static method m : double () { return 0x1p", "class { static method m : int () { return 0", "class { static method m : int () { return -" }; int k = vp_choice(6, "text"); uint8_t z; vp_symbolic(&z, 1, "end"); vp_assume((z == ' ') | (z == '\n') | (z == ';') | (z == '}')); char src[100]; strcpy(src, S[k]); int n = strlen(src); if (vp_choice(2, "tail")) { src[n] = z; src[n + 1] = 0; } const char* nm; int e = comp_anon(s, src, &nm); vp_assert(e != 0, "an unfinished text is a compile error"); }
