/*vp {"pc":"","time":240,"replays":60,"bounds":["one operation of every kind on every buffer of up to 3 free bytes made by every constructor with a capacity from 0 to 5 or any negative one, and histories of 2 operations (thorough: 3) on buffers of up to 2 bytes; every 32-bit offset and length (new lengths and capacities up to 9), replacement strings of up to 2 free bytes or undef","comparison of every pair of buffers of up to 2 free bytes with any capacity, and undef"]} */
#include "lang.h"
#define THROWS(e, what) do { vp_assert((e) != 0, what); vp_assert(spv_exc(s) != 0, what); spv_clear_exc(s); } while (0)
typedef struct { void* b; uint8_t t[40]; int n; } B;
static int M(SPV* s, B* b, const char* m, int w) { ST[0].oval = b->b; return CALLC(s, "StringBuffer", m, w); }
static int cap(SPV* s, B* b) { OK(M(s, b, "capacity", 1)); return get_int(); }
static void same(SPV* s, B* b) { OK(M(s, b, "length", 1)); vp_assert(get_int() == b->n, "the length is the one of the text"); int c = cap(s, b); vp_assert(c >= b->n, "the capacity is at least the length"); OK(M(s, b, "to_string", 1)); void* o = ST[0].oval; vp_assert(o && ENV->length(ENV, ST, o) == b->n, "to_string has the length of the text"); const uint8_t* p = (void*)ENV->get_chars(ENV, ST, o); int ok = 1; for (int i = 0; i < b->n; i++) ok &= p[i] == b->t[i]; vp_assert(ok, "the text is the one the history defines"); OK(M(s, b, "get_string_unsafe", 1)); void* u = ST[0].oval; vp_assert(u && u != o && ENV->length(ENV, ST, u) == c, "the internal string has the length of the capacity"); p = (void*)ENV->get_chars(ENV, ST, u); for (int i = 0; i < c; i++) ok &= p[i] == (i < b->n ? b->t[i] : 0); vp_assert(ok, "the characters after the text are null characters"); }
static void* text(SPV* s, uint8_t* t, int n, const char* nm) { if (n) vp_symbolic(t, n, nm); return spv_str(s, (char*)t, n); }
static int small;
// made: every constructor and capacity; otherwise a text with the capacity of the text, one more or the default
static void* newbuf(SPV* s, B* b, int max, int made) { int how = made ? vp_choice(4, "constructor") : 0, n = vp_choice(max + 1, "length"), c = made ? vp_choice(7, "capacity") - 1 : n + vp_choice(3 - small, "capacity"); if (!made && (c == n + 2 || (small && c == n + 1))) c = -1; b->n = n; if (made && c < 0) { c = sym_int("capacity"); vp_assume(c < 0); } void* o = 0; if (how == 3) { b->n = 0; n = 0; } else if (how != 1) o = text(s, b->t, n, "text"); else memset(b->t, 0, sizeof b->t); if (how == 1) { ST[0].ival = n; ST[1].ival = c; OK(CALLC(s, "StringBuffer", "new_len", 2)); } else { ST[0].oval = how == 3 ? 0 : o; ST[1].ival = c; OK(CALLC(s, "StringBuffer", "new", how == 2 ? 1 : 2)); } b->b = ST[0].oval; ENV->push_mortal(ENV, ST, b->b); int k = cap(s, b); if (how != 2 && c >= n) vp_assert(k == c, "the capacity is the wanted one"); return o; }
static int range(int hi, const char* nm) { if (small) { int c = vp_choice(3, nm); return c == 2 ? hi : c; } int c = vp_choice(hi + 2, nm); if (c <= hi) return c; int i = sym_int(nm); vp_assume((i < 0) | (i > hi)); return i; }
static int op(SPV* s, B* b, int which) { switch (which) {
  case 0: { uint8_t t[2]; int n = small ? 2 : vp_choice(3, "pushed"), args = small ? 4 : vp_choice(3, "arguments") + 2, o = 0, l = n; void* x = text(s, t, n, "text"); if (args > 2) { o = range(n, "offset"); l = n - o; } if (args > 3) { l = o < 0 || o > n ? sym_int("number") : small || vp_choice(2, "number") ? vp_choice(n - o + 1, "number") : sym_int("number"); } ST[1].oval = x; ST[2].ival = o; ST[3].ival = l; if (args > 3 && l == -1 && o >= 0 && o <= n) l = n - o; int e = M(s, b, "push", args); if ((o < 0) | (l < 0) | ((int64_t)o + l > n)) { THROWS(e, "a range outside the string throws"); vp_reach("bad push"); break; } OK(e); l = vp_pin(l, 2); for (int i = 0; i < l; i++) b->t[b->n++] = t[o + i]; break; }
  case 1: { int c = sym_int("char"); ST[1].ival = c; OK(M(s, b, "push_char", 2)); b->t[b->n++] = (uint8_t)c; break; }
  case 2: { int o, r; if (small || vp_choice(2, "range")) { o = vp_choice(b->n + 1, "offset"); r = vp_choice(b->n - o + 1, "removed"); } else { o = sym_int("offset"); r = sym_int("removed"); vp_assume((o < 0) | (r < 0) | ((int64_t)o + r > b->n)); } uint8_t t[2]; int n = small ? 2 * vp_choice(2, "replacement") : vp_choice(4, "replacement"); void* x = n == 3 ? 0 : text(s, t, n, "text"); if (n == 3) n = 0; ST[1].ival = o; ST[2].ival = r; ST[3].oval = x; int e = M(s, b, "replace", 4); if ((o < 0) | (r < 0) | ((int64_t)o + r > b->n)) { THROWS(e, "a range outside the text throws"); vp_reach("bad replace"); break; } OK(e); memmove(b->t + o + n, b->t + o + r, b->n - o - r); memcpy(b->t + o, t, n); b->n += n - r; break; }
  case 3: { int l = range(9, "new length"); if (l > 9) vp_assume(0); ST[1].ival = l; int e = M(s, b, "set_length", 2); if (l < 0) { THROWS(e, "a negative length throws"); vp_reach("bad set_length"); break; } OK(e); for (int i = b->n; i < l; i++) b->t[i] = 0; b->n = l; break; }
  case 4: { int c = range(9, "new capacity"); if (c > 9) vp_assume(0); int k = cap(s, b); ST[1].ival = c; int e = M(s, b, "reserve", 2); if (c < 0) { THROWS(e, "a negative capacity throws"); break; } OK(e); vp_assert(cap(s, b) == (c > k ? c : k), "the capacity is extended to the reserved one"); break; }
  case 5: { uint8_t t[2]; int n = small ? 2 * vp_choice(2, "set") : vp_choice(3, "set"); void* x = text(s, t, n, "text"); ST[1].oval = x; OK(M(s, b, "set", 2)); memcpy(b->t, t, n); b->n = n; break; }
  case 6: { ST[1].oval = 0; THROWS(M(s, b, vp_choice(2, "set") ? "set" : "push", 2), "undef throws"); break; }
  case 7: { OK(M(s, b, "clone", 1)); void* c = ST[0].oval; vp_assert(c && c != b->b, "the clone is a new buffer"); ENV->push_mortal(ENV, ST, c); B o = *b; ST[1].ival = 'x'; OK(M(s, b, "push_char", 2)); b->t[b->n++] = 'x'; B k = o; k.b = c; same(s, &k); ST[1].ival = 'y'; OK(M(s, &k, "push_char", 2)); break; }
  } return 0; }
JOBV(made) { B b; newbuf(s, &b, 3, 1); same(s, &b); int c = sym_int("char"); ST[1].ival = c; OK(M(s, &b, "push_char", 2)); b.t[b.n++] = c; same(s, &b); vp_reach("made"); }
JOBV(one) { B b; newbuf(s, &b, 3, 0); op(s, &b, vp_choice(8, "operation")); same(s, &b); vp_reach("done"); }
JOBV(two) { small = 1; B b; newbuf(s, &b, 2, 0); int n = vp_thorough() ? 3 : 2; for (int i = 0; i < n; i++) op(s, &b, vp_choice(8, "operation")); same(s, &b); vp_reach("done"); }
JOBV(many) { B b; newbuf(s, &b, 1, 0); int n = vp_choice(14, "pushes"); for (int i = 0; i < n; i++) { int c = 'a' + i; ST[1].ival = c; OK(M(s, &b, "push_char", 2)); b.t[b.n++] = c; } same(s, &b); vp_reach("done"); }
JOBV(new_len_bad) { int l = sym_int("length"); vp_assume(l < 0); ST[0].ival = l; ST[1].ival = sym_int("capacity"); THROWS(CALLC(s, "StringBuffer", "new_len", 2), "a negative length throws"); vp_reach("thrown"); }
JOBV(compare) { small = 1; B a, b; int u = vp_choice(5, "undef"); newbuf(s, &a, 2, 0); newbuf(s, &b, 2, 0); if (u == 4 && a.n) { ST[1].ival = 0; OK(M(s, &a, "set_length", 2)); a.n = 0; } int n = a.n < b.n ? a.n : b.n, c = 0; for (int i = n; i-- > 0;) { int d = (a.t[i] > b.t[i]) - (a.t[i] < b.t[i]); c = d ? d : c; } c = c ? c : (a.n > b.n) - (a.n < b.n); void *x = u & 1 && u < 4 ? 0 : a.b, *y = u & 2 && u < 4 ? 0 : b.b; if (!x || !y) c = (x != 0) - (y != 0); B* v = &a; ST[1].oval = x; ST[2].oval = y; OK(M(s, v, "cmp", 3)); vp_assert(get_int() == c, "buffers compare like their texts"); ST[1].oval = x; ST[2].oval = y; OK(M(s, v, "eq", 3)); vp_assert(get_int() == (c == 0), "buffers are equal exactly when their texts are"); if (x) { ST[0].oval = x; ST[1].oval = y; OK(CALL(s, "use_interfaces", 2)); vp_assert(get_int() == c * 10 + (c == 0), "the interface methods are the same"); } vp_reach("compared"); }
