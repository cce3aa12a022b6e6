/*vp {"pc":"","time":200,"replays":100,"bounds":["every 32-bit code point","decoding at every offset of every string of up to 5 free bytes (thorough: 6), from buffers that end exactly at the last byte","whole-string functions on strings of up to 4 free bytes (thorough: 5), all character positions and lengths in -1..5"]} */
#include "lang.h"
#include "spvm_utf8.h"
static int scalar(int64_t c) { return (c >= 0) & (c <= 0x10FFFF) & !((c >= 0xD800) & (c <= 0xDFFF)); }
static int enc(uint32_t c, uint8_t* o) { if (c < 0x80) { o[0] = c; return 1; } if (c < 0x800) { o[0] = 0xC0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; } if (c < 0x10000) { o[0] = 0xE0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; } o[0] = 0xF0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63); return 4; }
// the well-formed byte sequences of the Unicode standard, table 3-7
static int in(uint8_t b, int lo, int hi) { return (b >= lo) & (b <= hi); }
static int dec(const uint8_t* p, int n, int* cp) {
  if (n < 1) return -1; uint8_t a = p[0]; if (a < 0x80) { *cp = a; return 1; } if (a < 0xC2 || a > 0xF4) return -1;
  int l = a < 0xE0 ? 2 : a < 0xF0 ? 3 : 4; if (n < l) { return -1; } int lo = a == 0xE0 ? 0xA0 : a == 0xF0 ? 0x90 : 0x80, hi = a == 0xED ? 0x9F : a == 0xF4 ? 0x8F : 0xBF; int ok = in(p[1], lo, hi); if (l > 2) ok &= in(p[2], 0x80, 0xBF); if (l > 3) ok &= in(p[3], 0x80, 0xBF); if (!ok) return -1;
  *cp = l == 2 ? (a & 31) << 6 | (p[1] & 63) : l == 3 ? (a & 15) << 12 | (p[1] & 63) << 6 | (p[2] & 63) : (a & 7) << 18 | (p[1] & 63) << 12 | (p[2] & 63) << 6 | (p[3] & 63); return l; }
static void is_bytes(SPV* s, void* o, const void* p, int n, const char* what) { vp_assert(o != 0, what); vp_assert(ENV->length(ENV, ST, o) == n, what); const char* q = ENV->get_chars(ENV, ST, o); int ok = 1; for (int i = 0; i < n; i++) ok &= q[i] == ((const char*)p)[i]; vp_assert(ok, what); vp_assert(q[n] == 0, "a NUL byte follows the string"); }
JOBV(encode) { int c = sym_int("code point"); uint8_t b[8], w[8]; memset(b, 0x55, 8); int n = SPVM_UTF8_convert_unicode_codepoint_to_utf8_character(c, b + 2); vp_assert(SPVM_UTF8_is_unicode_scalar_value(c) == scalar(c), "scalar values are recognized"); vp_assert(b[0] == 0x55 && b[1] == 0x55 && b[6] == 0x55 && b[7] == 0x55, "only four bytes may be written");
  if (scalar(c)) { vp_reach("scalar"); int m = enc(c, w); vp_assert(n == m, "the encoded length"); for (int i = 0; i < m; i++) vp_assert(b[2 + i] == w[i], "the encoded bytes"); for (int i = m; i < 4; i++) vp_assert(b[2 + i] == 0x55, "nothing is written behind them"); int d = 7; vp_assert(SPVM_UTF8_iterate(b + 2, n, &d) == n && d == c, "decoding gives the code point back"); } else if (c < 0 || c > 0x10FFFF) { vp_reach("outside"); vp_assert(n == 0, "nothing outside the code space is encoded"); } }
JOBV(chr) { int c = sym_int("code point"); uint8_t w[4]; ST[0].ival = c; OK(CALLC(s, "Fn", "chr", 1)); void* o = ST[0].oval; if (!scalar(c)) { vp_reach("no scalar"); vp_assert(o == 0, "chr of anything but a scalar value is undef"); return; } vp_reach("scalar"); is_bytes(s, o, w, enc(c, w), "chr gives the UTF-8 bytes"); ST[0].ival = c; OK(CALL(s, "ordchr", 1)); vp_assert(get_int() == c, "ord of chr gives the code point back"); }
JOBV(iterate) { int n = vp_choice(vp_thorough() ? 7 : 6, "length"); uint8_t* b = malloc(n ? n : 1); if (n) vp_symbolic(b, n, "bytes"); int o = vp_choice(n + 1, "offset"); int d = 5, w = -1; int r = SPVM_UTF8_iterate(b + o, n - o, &d); int l = dec(b + o, n - o, &w); if (o == n) vp_assert(r == 0, "nothing is decoded from nothing"); else if (l < 0) { vp_reach("malformed"); vp_assert(r < 0, "a malformed sequence is rejected"); } else { vp_reach("well-formed"); vp_assert(r == l, "the decoded length"); vp_assert(d == w, "the decoded code point"); vp_assert(scalar(d), "only scalar values are decoded"); uint8_t e[4]; int m = SPVM_UTF8_convert_unicode_codepoint_to_utf8_character(d, e); vp_assert(m == l, "encoding gives the same length"); for (int i = 0; i < l; i++) vp_assert(e[i] == b[o + i], "encoding gives the bytes back"); } free(b); }
static void* str(SPV* s, uint8_t* b, int max) { int n = vp_choice(max + 1, "length"); if (n) vp_symbolic(b, n, "bytes"); void* o = spv_str(s, (char*)b, n); return o; }
JOBV(gcp) { uint8_t b[8]; int n = vp_choice(vp_thorough() ? 6 : 5, "length"); if (n) vp_symbolic(b, n, "bytes"); void* x = spv_str(s, (char*)b, n); int o = sym_int("offset"); void* out = ENV->new_int_array(ENV, ST, 1); ST[0].oval = x; ST[1].ival = o; ST[2].oval = out; OK(CALL(s, "gcp", 3)); int r = get_int(); int off = ENV->get_elems_int(ENV, ST, out)[0];
  if (o < 0 || o >= n) { vp_reach("no such offset"); vp_assert(r == -3, "an offset outside the string throws"); vp_assert(off == o, "the offset stays"); return; } for (int k = 0; k < n; k++) if (o == k) { o = k; break; } int w = 0; int l = dec(b + o, n - o, &w); if (l < 0) { vp_reach("malformed"); vp_assert(r == -2, "a malformed sequence throws Error::Unicode::InvalidUTF8"); vp_assert(off == o, "the offset stays"); } else { vp_reach("decoded"); vp_assert(r == w, "the code point"); vp_assert(off == o + l, "the offset moves behind the character");
    ST[0].oval = x; ST[1].ival = o; ST[2].oval = out; OK(CALL(s, "look", 3)); vp_assert(get_int() == w && ENV->get_elems_int(ENV, ST, out)[0] == o, "look_code_point leaves the offset"); if (o == 0) { ST[0].oval = x; OK(CALLC(s, "Fn", "ord", 1)); vp_assert(get_int() == w, "ord"); } } }
JOBV(gcp_undef) { int o = sym_int("offset"); void* out = ENV->new_int_array(ENV, ST, 1); ST[0].oval = 0; ST[1].ival = o; ST[2].oval = out; OK(CALL(s, "gcp", 3)); vp_assert(get_int() == -3, "an undefined string throws"); static const char* M[] = { "ord", "utf8_length", "to_code_points", "to_utf8_chars" }; ST[0].oval = 0; vp_assert(CALLC(s, "Fn", M[vp_choice(4, "m")], 1) != 0, "an undefined string throws"); }
static int all(const uint8_t* b, int n, int* cps, int* offs) { int k = 0, o = 0; while (o < n) { int l = dec(b + o, n - o, cps + k); if (l < 0) return -1; offs[k++] = o; o += l; } offs[k] = n; return k; }
static int W(void) { return vp_thorough() ? 5 : 4; }
JOBV(whole) { uint8_t b[8]; int n = vp_choice(W() + 1, "length"); if (n) vp_symbolic(b, n, "bytes"); void* x = spv_str(s, (char*)b, n); int cps[8], offs[8]; int k = all(b, n, cps, offs);
  ST[0].oval = x; int e = CALLC(s, "Fn", "utf8_length", 1); if (k < 0) { vp_reach("malformed"); vp_assert(e != 0, "utf8_length of a malformed string throws"); spv_clear_exc(s); ST[0].oval = x; vp_assert(CALLC(s, "Fn", "to_code_points", 1) != 0, "to_code_points of a malformed string throws"); spv_clear_exc(s); ST[0].oval = x; vp_assert(CALLC(s, "Fn", "to_utf8_chars", 1) != 0, "to_utf8_chars of a malformed string throws"); return; }
  vp_reach("well-formed"); OK(e); vp_assert(get_int() == k, "utf8_length counts the characters"); ST[0].oval = x; OK(CALLC(s, "Fn", "to_code_points", 1)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == k, "to_code_points has one element for each character"); for (int i = 0; i < k; i++) vp_assert(ENV->get_elems_int(ENV, ST, a)[i] == cps[i], "to_code_points");
  ST[0].oval = x; OK(CALLC(s, "Fn", "to_utf8_chars", 1)); a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == k, "to_utf8_chars has one element for each character"); for (int i = 0; i < k; i++) is_bytes(s, ENV->get_elem_object(ENV, ST, a, i), b + offs[i], offs[i + 1] - offs[i], "to_utf8_chars"); is_bytes(s, x, b, n, "the string stays"); }
JOBV(substr) { uint8_t b[8]; int n = vp_choice(W() + 1, "length"); if (n) vp_symbolic(b, n, "bytes"); void* x = spv_str(s, (char*)b, n); int cps[8], offs[8]; int k = all(b, n, cps, offs); if (k < 0) return; int o = sym_int("offset"), l = sym_int("length"); vp_assume((o < n + 2) | (o > INT32_MAX - 3)); ST[0].oval = x; ST[1].ival = o; ST[2].ival = l; int e = CALLC(s, "Fn", "utf8_substr", 3);
  if (o < 0) { vp_reach("negative"); vp_assert(e != 0, "a negative offset throws"); return; } if (l >= 0 && (int64_t)o + l > k) { vp_reach("beyond"); vp_assert(e != 0, "a range beyond the end throws"); return; } if (o > k) return; vp_reach("part"); OK(e); for (int i = 0; i <= k; i++) if (o == i) { o = i; break; } int m = k - o; if (l >= 0) for (int i = 0; i <= k; i++) if (l == i) { m = i; break; } is_bytes(s, ST[0].oval, b + offs[o], offs[o + m] - offs[o], "utf8_substr gives exactly the characters of the range"); is_bytes(s, x, b, n, "the string stays"); }
// tr: one ASCII range and one replacement character, against the definition
JOBV(tr) { uint8_t b[8]; int n = vp_choice(3, "length") + 1; vp_symbolic(b, n, "bytes"); for (int i = 0; i < n; i++) if (n > 2) vp_assume(b[i] < 0x80); void* x = spv_str(s, (char*)b, n); uint8_t p[4]; vp_symbolic(p, 3, "pattern"); for (int i = 0; i < 3; i++) vp_assume((p[i] >= 'a') & (p[i] <= 'h')); int single = vp_choice(2, "single"); char pat[4] = { p[0], '-', p[1], 0 }, rep[8] = { p[2], '-', 'z', 0 }; void* P = spv_str(s, pat, single ? 1 : 3); int up = vp_choice(2, "replacement") ? 0x3042 - 'a' : 0; int rl = 3; if (up) { rl = enc(0x3042, (uint8_t*)rep); } void* R = spv_str(s, rep, single && !up ? 1 : rl);
  ST[0].oval = x; ST[1].oval = P; ST[2].oval = R; int e = CALLC(s, "Fn", "tr", 3); int lo = p[0], hi = single ? p[0] : p[1]; if (lo > hi) { vp_reach("empty range"); vp_assert(e != 0, "a range that ends before it begins throws"); return; } int cps[8], offs[8]; int k = all(b, n, cps, offs); if (k < 0) { vp_reach("malformed"); vp_assert(e != 0, "a malformed string throws"); return; } OK(e); uint8_t w[32]; int m = 0; for (int i = 0; i < k; i++) { int c = cps[i]; if (c >= lo && c <= hi) { vp_reach("replaced"); c = (up ? 0x3042 : p[2]) + (c - lo); } m += enc(c, w + m); } is_bytes(s, ST[0].oval, w, m, "tr replaces exactly the characters of the range"); is_bytes(s, x, b, n, "the string stays"); }
