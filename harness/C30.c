/*vp {"pc":"","time":240,"replays":60,"bounds":["every integer specifier without flags and zero-padded (thorough: also with a plus sign and left justified): every unsigned 32-bit value, every signed one of less than 7 digits and of 16 bits at both ends, every 64-bit value in lower-case hexadecimal, 12 free bits in upper-case hexadecimal, every 64-bit decimal of 16 bits around 0 and of 8 bits at both ends; every combination of flags and widths for 9 values","%s with every string of up to 3 free bytes, %c with every 32-bit code point and every byte, with every flag, widths 0 to 6 and precisions 0 to 4 (not: a width greater than a precision that cuts)","every format of up to 3 free bytes (thorough: 4) with an int and a string argument","%f and %g: 14 values over the whole range with 4 precisions, flags and widths"]} */
#include "lang.h"
#define THROWS(e, what) do { vp_assert((e) != 0, what); vp_assert(spv_exc(s) != 0, what); spv_clear_exc(s); } while (0)
static void* objs(SPV* s, int n) { return ENV->new_object_array(ENV, ST, ENV->get_basic_type(ENV, ST, "object"), n); }
static void* num_(SPV* s, const char* c) { OK(CALLC(s, c, "new", 1)); void* o = ST[0].oval; ENV->push_mortal(ENV, ST, o); return o; }
static void* Int_(SPV* s, int v) { memset(&ST[0], 0, sizeof ST[0]); ST[0].ival = v; return num_(s, "Int"); }
static void* Long_(SPV* s, int64_t v) { ST[0].lval = v; return num_(s, "Long"); }
static int through_fn;
static int fmt(SPV* s, const char* f, int fn, void* a, const char** r, int* n) { void* x = spv_str(s, f, fn); ST[0].oval = x; ST[1].oval = a; int e = through_fn ? CALLC(s, "Fn", "sprintf", 2) : CALLC(s, "Format", "sprintf", 2); if (!e) { void* o = ST[0].oval; vp_assert(o && ENV->is_type_by_name(ENV, ST, o, "string", 0), "a string"); ENV->push_mortal(ENV, ST, o); *r = ENV->get_chars(ENV, ST, o); *n = ENV->length(ENV, ST, o); } return e; }
static void eq(const char* r, int n, const char* w, int m, const char* what) { vp_assert(n == m, what); int ok = 1; for (int i = 0; i < m; i++) ok &= r[i] == w[i]; vp_assert(ok, what); }
// text of a value whose sign is the first character if sgn: padded to width
static int padded(char* o, const char* t, int n, int sgn, int zero, int plus, int left, int width) { char pre = 0; if (sgn && n && t[0] == '-') { pre = '-'; t++; n--; } else if (sgn && plus) pre = '+'; int k = 0, p = width - n - (pre != 0); if (p < 0) p = 0; if (left) zero = 0; if (!left && !zero) while (p-- > 0) o[k++] = ' '; if (pre) o[k++] = pre; if (!left && zero) while (p-- > 0) o[k++] = '0'; for (int i = 0; i < n; i++) o[k++] = t[i]; if (left) while (p-- > 0) o[k++] = ' '; return k; }
static int spec(char* f, const char* c, int zero, int plus, int left, int width, int prec) { int n = 0; f[n++] = '<'; f[n++] = '%'; if (left) f[n++] = '-'; if (plus) f[n++] = '+'; if (zero) f[n++] = '0'; if (width >= 10) f[n++] = '0' + width / 10; if (width > 0) f[n++] = '0' + width % 10; if (prec >= 0) { f[n++] = '.'; if (prec >= 10) f[n++] = '0' + prec / 10; f[n++] = '0' + prec % 10; } while (*c) f[n++] = *c++; f[n++] = '%'; f[n++] = '%'; return n; }
static int digits(char* o, uint64_t v, int base, int up, int neg) { char t[70]; int n = 0; do { unsigned d = base == 16 ? v & 15 : v % 10; t[n++] = d + (d < 10 ? '0' : (up ? 'A' : 'a') - 10); v = base == 16 ? v >> 4 : v / 10; } while (v); int k = 0; if (neg) o[k++] = '-'; while (n) o[k++] = t[--n]; return k; }
static int digits32(char* o, uint32_t v, int base, int up, int neg) { char t[70]; int n = 0; do { unsigned d = base == 16 ? v & 15 : v % 10; t[n++] = d + (d < 10 ? '0' : (up ? 'A' : 'a') - 10); v = base == 16 ? v >> 4 : v / 10; } while (v); int k = 0; if (neg) o[k++] = '-'; while (n) o[k++] = t[--n]; return k; }
// how: the flags and widths, 0..3 (all values), or all of them with some values
static void ints(SPV* s, int which, int some) { static const char* C[] = { "d", "u", "x", "X", "ld", "lu", "lx", "lX" }; int zero, plus, left, width; if (some) { int fl = vp_choice(8, "flags"), wd = vp_choice(4, "width"); zero = fl & 1; plus = fl >> 1 & 1; left = fl >> 2; width = wd == 0 ? 0 : wd == 1 ? 2 : wd == 2 ? 5 : 25; } else { int k = vp_choice(vp_thorough() ? 4 : 2, "flags"); zero = k != 0 && k < 3; plus = k > 1; left = k == 3; width = k ? which < 4 ? 12 : 25 : 0; } char t[40], w[64], f[16]; int n; void* o; w[0] = '<'; static const int64_t VAL[] = { 0, 7, -7, 12345, -12345, INT32_MIN, INT32_MAX, INT64_MIN, INT64_MAX };
  if (which < 4) { int32_t v; if (some) { int i = vp_choice(7, "value"); v = VAL[i]; } else v = sym_int("value"); if (which == 0 && !some) { int e = vp_choice(4, "range"); v = e < 2 ? 0 : e == 2 ? INT32_MIN + (uint16_t)v : INT32_MAX - (uint16_t)v; if (e < 2) { int32_t u = sym_int("small"); vp_assume((u > -1000000) & (u < 1000000) & ((u >= 0) == e)); v = u; } } if (which == 3 && !some) { vp_assume((v & 0x0FF0FF0F) == 0x09a01c0b); } o = Int_(s, v); n = which == 0 ? digits32(t, v < 0 ? 0 - (uint32_t)v : (uint32_t)v, 10, 0, v < 0) : digits32(t, v, which == 1 ? 10 : 16, which == 3, 0); }
  else { int64_t v; if (some) { int i = vp_choice(9, "value"); v = VAL[i]; } else if (which < 6) { v = (int16_t)sym_short("small"); int e = vp_choice(3, "end"); if (e) { v = (uint8_t)v; v = e == 1 ? INT64_MIN + v : INT64_MAX - v; } } else { v = sym_long("value"); if (which == 7) vp_assume((v & 0x0FFFF0FFFFFFF0FF) == (0x01b4506e789a0cd1 & 0x0FFFF0FFFFFFF0FF)); } o = Long_(s, v); n = which == 4 ? digits(t, v < 0 ? 0 - (uint64_t)v : (uint64_t)v, 10, 0, v < 0) : digits(t, v, which == 5 ? 10 : 16, which == 7, 0); }
  void* a = objs(s, 1); ENV->set_elem_object(ENV, ST, a, 0, o); int fn = spec(f, C[which], zero, plus, left, width, -1), m = 1 + padded(w + 1, t, n, which % 4 == 0, zero, plus, left, width); w[m++] = '%'; const char* r; int k; OK(fmt(s, f, fn, a, &r, &k)); eq(r, k, w, m, "the number is formatted as the format describes"); vp_reach("done"); }
JOBV(d) { ints(s, 0, 0); } JOBV(u) { ints(s, 1, 0); } JOBV(x) { ints(s, 2, 0); } JOBV(X) { ints(s, 3, 0); } JOBV(ld) { ints(s, 4, 0); } JOBV(lu) { ints(s, 5, 0); } JOBV(lx) { ints(s, 6, 0); } JOBV(lX) { ints(s, 7, 0); }
JOBV(flags) { ints(s, vp_choice(8, "specifier"), 1); }
JOBV(str) { through_fn = 1; int n = vp_choice(4, "length"), fl = vp_choice(8, "flags"), zero = fl & 1, plus = fl >> 1 & 1, left = fl >> 2 & 1, width = vp_choice(7, "width"), prec = vp_choice(6, "precision") - 1, len = n; if (prec >= 0 && prec < n) { len = prec; if (width > prec) return; } char t[4], w[40], f[16]; if (n) vp_symbolic(t, n, "text"); void* a = objs(s, 1); ENV->set_elem_object(ENV, ST, a, 0, spv_str(s, t, n)); int fn = spec(f, "s", zero, plus, left, width, prec); w[0] = '<'; int m = 1 + padded(w + 1, t, len, 0, zero, plus, left, width); w[m++] = '%'; const char* r; int k; OK(fmt(s, f, fn, a, &r, &k)); eq(r, k, w, m, "the string is cut and padded as the format describes"); vp_reach("done"); }
JOBV(chr) { int by = vp_choice(2, "byte"), fl = vp_choice(4, "flags"), zero = fl == 1, plus = fl == 2, left = fl == 3, width = vp_choice(2, "width") * 3; int32_t c = by ? sym_byte("char") : sym_int("char"); void* o; if (by) { memset(&ST[0], 0, sizeof ST[0]); ST[0].ival = c; o = num_(s, "Byte"); } else o = Int_(s, c); uint8_t t[4]; int n; if ((c < 0) | (c > 0x10FFFF) | ((c >= 0xD800) & (c <= 0xDFFF))) { t[0] = '?'; n = 1; } else if (c < 0x80) { t[0] = c; n = 1; } else if (c < 0x800) { t[0] = 0xC0 | c >> 6; t[1] = 0x80 | (c & 63); n = 2; } else if (c < 0x10000) { t[0] = 0xE0 | c >> 12; t[1] = 0x80 | (c >> 6 & 63); t[2] = 0x80 | (c & 63); n = 3; } else { t[0] = 0xF0 | c >> 18; t[1] = 0x80 | (c >> 12 & 63); t[2] = 0x80 | (c >> 6 & 63); t[3] = 0x80 | (c & 63); n = 4; } char w[40], f[16]; void* a = objs(s, 1); ENV->set_elem_object(ENV, ST, a, 0, o); int fn = spec(f, "c", zero, plus, left, width, -1); w[0] = '<'; int m = 1 + padded(w + 1, (char*)t, n, 0, zero, plus, left, width); w[m++] = '%'; const char* r; int k; OK(fmt(s, f, fn, a, &r, &k)); eq(r, k, w, m, "the character is encoded and padded"); vp_reach("done"); }
static const double V[] = { 0, 1, -1, 1.5, -0.25, 123456.789, 9.9e15, -1e19, 123456789012345.6, 1e20, 1e22, -1e300, 1.7976931348623157e308, 4.9e-324 };
JOBV(flt) { int i = vp_choice(15, "value"), g = vp_choice(2, "g"), fl = vp_choice(5, "flags"), zero = fl & 1, plus = fl >> 1 & 1, left = fl >> 2 & 1, width = vp_choice(2, "width") * 15, pc = vp_choice(4, "precision"), prec = pc == 0 ? -1 : pc == 1 ? 0 : pc == 2 ? 2 : 40, sg = i == 14; if (zero && g && i == 14) sg = 1; char t[400], w[500], f[20], fs[8]; double d = sg ? 0.1f : V[i]; void* o; memset(&ST[0], 0, sizeof ST[0]); if (sg) { ST[0].fval = 0.1f; o = num_(s, "Float"); } else { ST[0].dval = d; o = num_(s, "Double"); } int k = 0; fs[k++] = '%'; if (prec >= 0) { fs[k++] = '.'; if (prec > 9) fs[k++] = '0' + prec / 10; fs[k++] = '0' + prec % 10; } fs[k++] = g ? 'g' : 'f'; fs[k] = 0; int n = snprintf(t, sizeof t, fs, d); void* a = objs(s, 1); ENV->set_elem_object(ENV, ST, a, 0, o); int fn = spec(f, g ? "g" : "f", zero, plus, left, width, prec); w[0] = '<'; int m = 1 + padded(w + 1, t, n, 1, zero, plus, left, width); w[m++] = '%'; const char* r; OK(fmt(s, f, fn, a, &r, &k)); eq(r, k, w, m, "the number is formatted as the format describes"); vp_reach("done"); }
// every short format: the expected text by an independent reading of the format
JOBV(formats) { int fn = vp_choice(vp_thorough() ? 5 : 4, "length"); char f[8]; if (fn) vp_symbolic(f, fn, "format"); void* a = objs(s, 2); int ao = vp_choice(2, "order"); ENV->set_elem_object(ENV, ST, a, ao, Int_(s, -7)); ENV->set_elem_object(ENV, ST, a, !ao, spv_str(s, "ab", 2)); char w[6000]; int m = 0, i = 0, arg = 0, bad = 0; while (i < fn) { if (f[i] != '%') { w[m++] = f[i++]; continue; } i++; if (i == fn) { bad = 1; break; } if (f[i] == '%') { w[m++] = '%'; i++; continue; } if (arg == 2) { bad = 1; break; } int zero = 0, plus = 0, left = 0, width = 0, prec = 0, hp = 0; for (; i < fn; i++) { if (f[i] == '0') zero = 1; else if (f[i] == '+') plus = 1; else if (f[i] == '-') left = 1; else break; } while (i < fn && f[i] >= '0' && f[i] <= '9') width = width * 10 + f[i++] - '0'; if (i < fn && f[i] == '.') { i++; while (i < fn && f[i] >= '0' && f[i] <= '9') { hp = 1; prec = prec * 10 + f[i++] - '0'; } } if (i == fn) { bad = 1; break; } char c = f[i++]; int isint = arg == ao; width = vp_pin(width, 32); if (width > 32) return; arg++; switch (c) { case 'd': if (!isint) { bad = 1; break; } m += padded(w + m, "-7", 2, 1, zero, plus, left, width); break; case 'u': if (!isint) { bad = 1; break; } m += padded(w + m, "4294967289", 10, 0, zero, plus, left, width); break; case 'x': case 'X': if (!isint) { bad = 1; break; } m += padded(w + m, c == 'x' ? "fffffff9" : "FFFFFFF9", 8, 0, zero, plus, left, width); break; case 'c': if (!isint) { bad = 1; break; } m += padded(w + m, "?", 1, 0, zero, plus, left, width); break; case 's': { if (isint) { bad = 1; break; } int len = hp && prec < 2 ? prec : 2; if (len < 2 && width > prec) return; m += padded(w + m, "ab", len, 0, zero, plus, left, width); break; } case 'p': return; default: bad = 1; } if (bad) break; }
  const char* r; int k; int e = fmt(s, f, fn, a, &r, &k); if (bad) { THROWS(e, "an invalid format or an argument of the wrong type throws"); vp_reach("bad"); return; } OK(e); eq(r, k, w, m, "the text is the one the format describes"); vp_reach("good"); }
JOBV(wrong) { through_fn = vp_choice(2, "Fn"); static const char* C[] = { "%d", "%u", "%x", "%X", "%ld", "%lu", "%lx", "%lX", "%f", "%g", "%s", "%c" }; int c = vp_choice(12, "specifier"), o = vp_choice(8, "argument"); void* x; memset(&ST[0], 0, sizeof ST[0]); switch (o) { case 0: x = num_(s, "Byte"); break; case 1: x = num_(s, "Short"); break; case 2: x = num_(s, "Int"); break; case 3: x = num_(s, "Long"); break; case 4: x = num_(s, "Float"); break; case 5: x = num_(s, "Double"); break; case 6: x = spv_str(s, "s", 1); break; default: x = 0; } int fine = c < 4 ? o == 2 : c < 8 ? o == 3 : c < 10 ? o == 4 || o == 5 : c == 10 ? o == 6 : o == 0 || o == 2; void* a = objs(s, 1); ENV->set_elem_object(ENV, ST, a, 0, x); const char* r; int n; int e = fmt(s, C[c], strlen(C[c]), a, &r, &n); if (fine) { OK(e); vp_reach("fine"); } else { THROWS(e, "an argument of the wrong type throws"); vp_reach("wrong"); } THROWS(fmt(s, C[c], strlen(C[c]), objs(s, 0), &r, &n), "a missing argument throws"); THROWS(fmt(s, C[c], strlen(C[c]), 0, &r, &n), "a missing argument throws"); }
