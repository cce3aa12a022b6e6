/*vp {"pc":"","time":220,"replays":60,"bounds":["strings of up to 4 free bytes (thorough: 5) including NUL bytes, second strings of up to 2, undef for every argument","every 32-bit offset, length, range end and count (counts up to 5)","split and join: up to 4 bytes over a separator of up to 2 bytes, every limit"]} */
#include "lang.h"
typedef struct { char b[16]; int n; void* o; } T;
static int W(void) { return vp_thorough() ? 5 : 4; }
static void text(SPV* s, T* t, int max, const char* nm) { t->n = vp_choice(max + 1, "length"); if (t->n) vp_symbolic(t->b, t->n, nm); t->o = spv_str(s, t->b, t->n); }
static int same(SPV* s, void* o, const char* p, int n) { if (!o || ENV->length(ENV, ST, o) != n) return 0; const char* q = ENV->get_chars(ENV, ST, o); int ok = q[n] == 0; for (int i = 0; i < n; i++) ok &= q[i] == p[i]; return ok; }
static void is(SPV* s, void* o, const char* p, int n, const char* what) { vp_assert(o != 0, what); vp_assert(ENV->length(ENV, ST, o) == n, what); vp_assert(same(s, o, p, n), what); }
static void kept(SPV* s, T* t) { is(s, t->o, t->b, t->n, "an argument string stays as it was"); }
static int FN(SPV* s, const char* m, int w) { return CALLC(s, "Fn", m, w); }
#define THROWS(e, what) do { vp_assert((e) != 0, what); vp_assert(spv_exc(s) != 0, what); spv_clear_exc(s); } while (0)
// offset x becomes concrete when it is within 0..n
static int pin(int x, int n) { for (int i = 0; i <= n; i++) if (x == i) return i; return x; }
static int at(const T* x, int i, const T* y) { int ok = 1; for (int k = 0; k < y->n; k++) ok &= x->b[i + k] == y->b[k]; return ok; }
static void search(SPV* s, int rev) { T x, y; text(s, &x, W(), "string"); text(s, &y, 2, "part"); int b = sym_int("begin"), e = sym_int("end"); ST[0].oval = x.o; ST[1].oval = y.o; ST[2].ival = rev ? e : b; ST[3].ival = rev ? b : e; int er = FN(s, rev ? "rindex" : "index", 4);
  int e2 = e < 0 ? x.n : e; if ((b < 0) | (b > x.n) | (e2 > x.n) | (e2 < b)) { vp_reach("bad range"); THROWS(er, "a range outside the string throws"); return; } OK(er); b = pin(b, x.n); e2 = pin(e2, x.n); int r = get_int();
  if (y.n == 0) { vp_reach("empty part"); vp_assert(r == (rev ? e2 : b), "the empty string is found at the start of the search"); return; } int last = e2 == x.n ? x.n - 1 : e2; int w = -1; if (!rev) { for (int i = last; i >= b; i--) if (i + y.n - 1 <= last) { int m = at(&x, i, &y); w = m ? i : w; } } else for (int i = b; i + y.n - 1 <= last; i++) { int m = at(&x, i, &y); w = m ? i : w; } vp_reach("searched"); vp_assert(r == w, rev ? "rindex gives the last occurrence in the range" : "index gives the first occurrence in the range"); kept(s, &x); kept(s, &y); }
JOBV(index) { search(s, 0); }
JOBV(rindex) { search(s, 1); }
JOBV(index_defaults) { T x, y; text(s, &x, W(), "string"); text(s, &y, 2, "part"); int f = -1, l = -1; for (int i = 0; i + y.n <= x.n; i++) { int m = at(&x, i, &y); l = m ? i : l; f = m & (f < 0) ? i : f; } ST[0].oval = x.o; ST[1].oval = y.o; OK(CALL(s, "idx", 2)); vp_assert(get_int() == f, "index"); ST[0].oval = x.o; ST[1].oval = y.o; OK(CALL(s, "ridx", 2)); vp_assert(get_int() == l, "rindex"); ST[0].oval = x.o; ST[1].oval = y.o; OK(CALL(s, "has", 2)); vp_assert(get_int() == (f >= 0), "contains"); vp_reach("found"); }
static const char* U1[] = { "chomp", "chompr", "lc", "uc", "lcfirst", "ucfirst", "trim", "shorten_null_char" }; static const char* U2[] = { "index", "rindex", "contains", "split", "equals_string_range", "substr", "repeat", "join", "init_string", "memset_char", "shorten", "replace_chars" };
JOBV(undef) { int k = vp_choice(20, "function"); memset(ST, 0, sizeof *ST * 8); if (k < 8) { int e = FN(s, U1[k], 1); THROWS(e, "an undefined argument throws"); return; } const char* m = U2[k - 8]; T x; text(s, &x, 2, "string"); int which = k - 8 < 5 ? vp_choice(2, "which") : 0; ST[0].oval = which ? x.o : 0; if (k - 8 < 4) ST[1].oval = which ? 0 : x.o; if (k - 8 == 4) ST[2].oval = which ? 0 : x.o; int e = FN(s, m, 5); THROWS(e, "an undefined argument throws"); }
static void sub(SPV* s, int how) { T x, r; text(s, &x, W(), "string"); int o = sym_int("offset"), l = how ? sym_int("length") : -1; r.n = -1; if (how == 2) text(s, &r, 2, "replacement"); ST[0].oval = x.o; ST[1].ival = o; ST[2].ival = l; ST[3].oval = how == 2 ? r.o : 0; int e = how == 0 ? CALL(s, "sub", 2) : how == 1 && vp_choice(2, "direct") ? CALL(s, "sub3", 3) : FN(s, "substr", 4);
  if ((o < 0) | (o > x.n) | ((l >= 0) & ((int64_t)o + l > x.n))) { vp_reach("bad range"); THROWS(e, "a range outside the string throws"); return; } vp_reach("part"); OK(e); o = pin(o, x.n); l = l < 0 ? x.n - o : pin(l, x.n); void* z = ST[0].oval; if (how < 2) is(s, z, x.b + o, l, "substr gives exactly the bytes of the range"); else { char w[32]; memcpy(w, x.b, o); memcpy(w + o, r.b, r.n); memcpy(w + o + r.n, x.b + o + l, x.n - o - l); is(s, z, w, x.n - l + r.n, "substr with a replacement gives the string with the range replaced"); kept(s, &r); } vp_assert(z != x.o, "a new string"); vp_assert(!ENV->is_read_only(ENV, ST, z), "not read-only"); kept(s, &x); }
JOBV(substr1) { sub(s, 0); } JOBV(substr2) { sub(s, 1); } JOBV(substr3) { sub(s, 2); }
static int up(uint8_t c) { return (c >= 'a') & (c <= 'z'); } static int lo(uint8_t c) { return (c >= 'A') & (c <= 'Z'); }
#define CASE(name, expr) JOBV(name) { T x; text(s, &x, W(), "string"); ST[0].oval = x.o; OK(FN(s, #name, 1)); char w[16]; for (int i = 0; i < x.n; i++) { uint8_t c = x.b[i]; w[i] = expr; } is(s, ST[0].oval, w, x.n, #name); vp_assert(ST[0].oval != x.o, "a new string"); vp_reach("done"); kept(s, &x); }
CASE(lc, c + 32 * lo(c)) CASE(uc, c - 32 * up(c)) CASE(lcfirst, i ? c : c + 32 * lo(c)) CASE(ucfirst, i ? c : c - 32 * up(c))
static int sp(uint8_t c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
JOBV(trim) { T x; text(s, &x, W(), "string"); ST[0].oval = x.o; OK(FN(s, "trim", 1)); int a = 0, z = x.n; while (a < z && sp(x.b[a])) a++; while (z > a && sp(x.b[z - 1])) z--; vp_reach("trimmed"); is(s, ST[0].oval, x.b + a, z - a, "trim removes exactly the surrounding spaces"); kept(s, &x); }
JOBV(chomp) { T x; text(s, &x, W(), "string"); int n = x.n; if (n && x.b[n - 1] == '\n') { n--; if (n && x.b[n - 1] == '\r') n--; } ST[0].oval = x.o; OK(FN(s, "chompr", 1)); void* z = ST[0].oval; is(s, z, x.b, n, "chompr gives the string without the newline"); vp_assert(z != x.o, "a new string"); kept(s, &x); ST[0].oval = x.o; OK(FN(s, "chomp", 1)); is(s, x.o, x.b, n, "chomp removes the newline"); vp_reach("chomped"); }
JOBV(equals) { T x, y; text(s, &x, W(), "a"); text(s, &y, W(), "b"); int a = sym_int("offset1"), b = sym_int("offset2"), l = sym_int("length"); ST[0].oval = x.o; ST[1].ival = a; ST[2].oval = y.o; ST[3].ival = b; ST[4].ival = l; int e = FN(s, "equals_string_range", 5); if ((a < 0) | (b < 0)) { vp_reach("negative"); THROWS(e, "a negative offset throws"); return; } OK(e); int r = get_int(); if (l < 0) return; if (l == 0) { if (a <= x.n && b <= y.n) vp_assert(r == 1, "empty ranges are equal"); return; } if (((int64_t)a + l > x.n) | ((int64_t)b + l > y.n)) { vp_reach("beyond"); vp_assert(r == 0, "a range beyond the end is not equal"); return; } a = pin(a, x.n); b = pin(b, y.n); l = pin(l, x.n); int w = 1; for (int i = 0; i < l; i++) w &= x.b[a + i] == y.b[b + i]; vp_reach("compared"); vp_assert(r == w, "equal exactly when all bytes of the ranges are"); kept(s, &x); kept(s, &y); }
static void fill(SPV* s, int memset_) { T x; text(s, &x, W(), "string"); int c = sym_int("char"), o = sym_int("offset"), l = sym_int("length"); vp_assume(memset_ | (o >= 0)); ST[0].oval = x.o; ST[1].ival = c; ST[2].ival = o; ST[3].ival = l; int e = FN(s, memset_ ? "memset_char" : "init_string", 4); if ((o < 0) | ((l >= 0) & ((int64_t)o + l > x.n))) { vp_reach("bad range"); THROWS(e, "a range outside the string throws"); kept(s, &x); return; } OK(e); if (o > x.n) { kept(s, &x); return; } vp_reach("filled"); o = pin(o, x.n); l = l < 0 ? x.n - o : pin(l, x.n); for (int i = 0; i < l; i++) x.b[o + i] = c; is(s, x.o, x.b, x.n, "exactly the range is filled"); }
JOBV(memset_char) { fill(s, 1); } JOBV(init_string) { fill(s, 0); }
JOBV(replace_chars) { T x; text(s, &x, W(), "string"); int f = sym_int("from"), t = sym_int("to"); vp_assume((f >= -128) & (f < 128)); ST[0].oval = x.o; ST[1].ival = f; ST[2].ival = t; OK(FN(s, "replace_chars", 3)); for (int i = 0; i < x.n; i++) x.b[i] = x.b[i] == (char)f ? (char)t : x.b[i]; is(s, x.o, x.b, x.n, "exactly the characters given are replaced"); vp_reach("replaced"); }
JOBV(shorten) { T x; text(s, &x, W(), "string"); int l = sym_int("length"); ST[0].oval = x.o; ST[1].ival = l; int e = FN(s, "shorten", 2); if (l < 0) { vp_reach("negative"); THROWS(e, "a negative length throws"); kept(s, &x); return; } OK(e); if (l < x.n) { vp_reach("shorter"); l = pin(l, x.n); is(s, x.o, x.b, l, "the string is cut to the length"); } else kept(s, &x); }
JOBV(shorten_null_char) { T x; text(s, &x, W(), "string"); ST[0].oval = x.o; OK(FN(s, "shorten_null_char", 1)); int n = 0; while (n < x.n && x.b[n]) n++; vp_reach("cut"); is(s, x.o, x.b, n, "the string is cut before the first NUL byte"); }
JOBV(repeat) { T x; text(s, &x, 2, "string"); int c = sym_int("count"); vp_assume(c < 6); ST[0].oval = x.o; ST[1].ival = c; int e = FN(s, "repeat", 2); if (c < 0) { vp_reach("negative"); THROWS(e, "a negative count throws"); return; } OK(e); c = pin(c, 6); char w[16]; for (int i = 0; i < c; i++) memcpy(w + i * x.n, x.b, x.n); vp_reach("repeated"); is(s, ST[0].oval, w, c * x.n, "the string repeated"); kept(s, &x); }
// split against its definition: leftmost non-overlapping separators, at most limit parts, trailing empty parts dropped without a limit
JOBV(split) { T x, y; text(s, &x, W(), "string"); text(s, &y, 2, "separator"); int lim = sym_int("limit"); int dflt = vp_choice(2, "no limit"); if (dflt) lim = 0; ST[0].oval = y.o; ST[1].oval = x.o; ST[2].ival = lim; int e = dflt ? CALL(s, "split2", 2) : FN(s, "split", 3); if (y.n == 0) { vp_reach("empty separator"); THROWS(e, "an empty separator throws"); return; } OK(e); void* a = ST[0].oval; vp_assert(a != 0, "an array"); int n = ENV->length(ENV, ST, a); int ps[8], pe[8], k = 0, o = 0; for (int i = 0; i + y.n <= x.n;) { if (lim > 0 && k >= lim - 1) break; if (at(&x, i, &y)) { ps[k] = o; pe[k++] = i; i += y.n; o = i; } else i++; } ps[k] = o; pe[k++] = x.n; if (lim == 0) while (k && ps[k - 1] == pe[k - 1]) k--; vp_reach("split"); vp_assert(n == k, "the number of parts"); for (int i = 0; i < k; i++) is(s, ENV->get_elem_object(ENV, ST, a, i), x.b + ps[i], pe[i] - ps[i], "each part"); 
  if (lim != 0) { ST[0].oval = y.o; ST[1].oval = a; OK(FN(s, "join", 2)); is(s, ST[0].oval, x.b, x.n, "joining the parts gives the string back"); } kept(s, &x); kept(s, &y); }
JOBV(join) { T y, p[3]; text(s, &y, 2, "separator"); int n = vp_choice(4, "parts"); int bt = ENV->get_basic_type_id(ENV, ST, "string"); void* a = ENV->new_string_array(ENV, ST, n); char w[40]; int m = 0; for (int i = 0; i < n; i++) { if (vp_choice(3, "undef") == 0) { p[i].n = 0; p[i].o = 0; } else { p[i].n = 1 + (i & 1); vp_symbolic(p[i].b, p[i].n, "part"); p[i].o = spv_str(s, p[i].b, p[i].n); } ENV->set_elem_object(ENV, ST, a, i, p[i].o); if (i) { memcpy(w + m, y.b, y.n); m += y.n; } memcpy(w + m, p[i].b, p[i].n); m += p[i].n; } ST[0].oval = y.o; ST[1].oval = a; OK(FN(s, "join", 2)); vp_reach("joined"); is(s, ST[0].oval, w, m, "join gives the parts with the separator between them"); ST[0].oval = y.o; ST[1].oval = 0; int e = FN(s, "join", 2); THROWS(e, "undefined parts throw"); (void)bt; }
// raw copies between objects of every kind
static void copy(SPV* s, int move) { char A[12], B[12]; static const int SZ[] = { 1, 1, 2, 4 }; int kd = vp_choice(4, "destination"), ks = vp_choice(3, "source"), nd = kd == 3 ? 2 : kd == 2 ? 3 : 4, ns = ks == 2 ? 2 : 3; ks = ks == 2 ? 3 : ks; int self = move && kd == ks && vp_choice(2, "same object");
  void* d = kd == 0 ? ENV->new_string(ENV, ST, 0, nd) : kd == 1 ? ENV->new_byte_array(ENV, ST, nd) : kd == 2 ? ENV->new_short_array(ENV, ST, nd) : ENV->new_int_array(ENV, ST, nd); void* c = self ? d : ks == 0 ? ENV->new_string(ENV, ST, 0, ns) : ks == 1 ? ENV->new_byte_array(ENV, ST, ns) : ENV->new_int_array(ENV, ST, ns); if (self) ns = nd; int bd = nd * SZ[kd], bs = ns * SZ[ks]; char* D = (char*)ENV->get_chars(ENV, ST, d); char* C = (char*)ENV->get_chars(ENV, ST, c); vp_symbolic(A, bd, "old bytes"); memcpy(D, A, bd); if (self) memcpy(B, A, bd); else { vp_symbolic(B, bs, "new bytes"); memcpy(C, B, bs); }
  int o = sym_int("dest offset"), q = sym_int("source offset"), l = sym_int("length"); ST[0].oval = d; ST[1].ival = o; ST[2].oval = c; ST[3].ival = q; ST[4].ival = l; int e = FN(s, move ? "memmove" : "memcpy", 5); D = (char*)ENV->get_chars(ENV, ST, d);
  if (l != 0 && ((l < 0) | (o < 0) | (q < 0) | ((int64_t)o + l > bd) | ((int64_t)q + l > bs))) { vp_reach("bad range"); THROWS(e, "a range outside the object throws"); for (int i = 0; i < bd; i++) vp_assert(D[i] == A[i], "nothing is written"); return; } OK(e); if (l) { o = pin(o, bd); q = pin(q, bs); l = pin(l, bs); vp_reach("copied"); char w[12]; memcpy(w, B + q, l); memcpy(A + o, w, l); } for (int i = 0; i < bd; i++) vp_assert(D[i] == A[i], "exactly the range is written"); if (!self) for (int i = 0; i < bs; i++) vp_assert(C[i] == B[i], "the source stays"); }
JOBV(memcpy) { copy(s, 0); } JOBV(memmove) { copy(s, 1); }
JOBV(mem_types) { T x; text(s, &x, 2, "s"); int k = vp_choice(4, "kind"); ST[0].oval = k == 0 ? 0 : k == 1 ? ENV->new_string_array(ENV, ST, 2) : x.o; ST[1].ival = 0; ST[2].oval = k == 2 ? 0 : k == 3 ? ENV->new_string_array(ENV, ST, 2) : x.o; ST[3].ival = 0; ST[4].ival = 1; int e = FN(s, vp_choice(2, "m") ? "memcpy" : "memmove", 5); THROWS(e, "an undefined object or an array of objects throws"); kept(s, &x); }
JOBV(copy_string) { T x; text(s, &x, W(), "string"); ST[0].oval = x.o; OK(FN(s, "copy_string", 1)); is(s, ST[0].oval, x.b, x.n, "copy_string"); vp_assert(ST[0].oval != x.o, "a new string"); ST[0].oval = 0; OK(FN(s, "copy_string", 1)); vp_assert(ST[0].oval == 0, "a copy of undef is undef"); }
JOBV(or_if) { T x, y; x.n = y.n = 0; x.o = vp_choice(2, "left") ? spv_str(s, "a", 1) : 0; y.o = vp_choice(2, "right") ? spv_str(s, "b", 1) : 0; ST[0].oval = x.o; ST[1].oval = y.o; OK(FN(s, "or", 2)); vp_assert(ST[0].oval == (x.o ? x.o : y.o), "or"); int c = sym_int("condition"); ST[0].ival = c; ST[1].oval = x.o; ST[2].oval = y.o; OK(FN(s, "if", 3)); vp_assert(ST[0].oval == (c ? x.o : y.o), "if"); }
