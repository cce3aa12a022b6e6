/*vp {"pc":"VP","time":120,"bounds":["strings of every length pair up to 4 (thorough: 6) with every byte value including NUL, and undef","new_string_len: every length up to 40 checked byte by byte"]} */
#include "lang.h"
static int NMAX(void) { return vp_thorough() ? 7 : 5; }
typedef struct { char b[16]; int n; void* o; } T;
static void sym_text(SPV* s, T* t, const char* nm, int undef) { char l[16]; l[0] = 'l'; strcpy(l + 1, nm); int k = vp_choice(NMAX() + undef, l); if (k == NMAX()) { t->n = -1; t->o = 0; return; } t->n = k; vp_symbolic(t->b, k, nm); t->b[k] = 0; t->o = spv_str(s, t->b, k); }
static int ord(const T* x, const T* y) { if (x->n < 0 || y->n < 0) return x->n < 0 && y->n < 0 ? 0 : x->n < 0 ? -1 : 1; int n = x->n < y->n ? x->n : y->n, r = 0; for (int i = n; i-- > 0;) { int a = (uint8_t)x->b[i], b = (uint8_t)y->b[i]; r = a < b ? -1 : a > b ? 1 : r; } if (x->n != y->n) r = r ? r : x->n < y->n ? -1 : 1; return r; }
static void is_text(SPV* s, void* o, const char* p, int n, const char* what) { vp_assert(o != 0, what); vp_assert(ENV->length(ENV, ST, o) == n, what); const char* q = ENV->get_chars(ENV, ST, o); int ok = 1; for (int i = 0; i < n; i++) ok &= q[i] == p[i]; vp_assert(ok, what); vp_assert(q[n] == 0, "a NUL byte follows the string"); }
static int rel(SPV* s, const char* m, T* x, T* y) { ST[0].oval = x->o; ST[1].oval = y->o; OK(CALL(s, m, 2)); return get_int(); }
#define REL(name, expr) JOB2(name) { T x, y; sym_text(s, &x, "x", 1); sym_text(s, &y, "y", 1); int c = ord(&x, &y); int r = rel(s, #name, &x, &y); vp_assert(r == (expr), #name " of two strings"); vp_observe(r); }
REL(eq, c == 0) REL(ne, c != 0) REL(gt, c > 0) REL(ge, c >= 0) REL(lt, c < 0) REL(le, c <= 0) REL(cmp, c)
JOB2(ifs) { T x, y; sym_text(s, &x, "x", 1); sym_text(s, &y, "y", 1); int c = ord(&x, &y); int w = (c == 0 ? 1 + 8 + 32 : 2 + 64) + (c > 0 ? 4 + 8 : 0) + (c < 0 ? 16 + 32 : 128); vp_assert(rel(s, "ifs", &x, &y) == w, "branches on string comparisons"); }
static void* arr(SPV* s, T* t) { if (t->n < 0) return 0; void* a = ENV->new_byte_array(ENV, ST, t->n); memcpy(ENV->get_elems_byte(ENV, ST, a), t->b, t->n); return a; }
JOB2(bcmp) { T x, y; sym_text(s, &x, "x", 0); sym_text(s, &y, "y", 0); int c = ord(&x, &y); ST[0].oval = arr(s, &x); ST[1].oval = arr(s, &y); OK(CALL(s, "bcmp", 2)); vp_assert(get_int() == c * 10 + (c == 0), "byte[] comparison"); ST[0].oval = x.o; ST[1].oval = arr(s, &y); OK(CALL(s, "sbcmp", 2)); vp_assert(get_int() == c * 10 + (c < 0), "string with byte[] comparison"); }
JOB2(cat) { T x, y; sym_text(s, &x, "x", 1); sym_text(s, &y, "y", 1); ST[0].oval = x.o; ST[1].oval = y.o; int e = CALL(s, "cat", 2); vp_must("undef operand"); if (x.n < 0 || y.n < 0) { vp_reach("undef operand"); vp_assert(e != 0, "undef operand of concatenation throws"); spv_clear_exc(s); ST[0].oval = x.o; ST[1].oval = y.o; vp_assert(CALL(s, "acat", 2) != 0, "undef operand of .= throws"); return; } OK(e);
  char w[40]; memcpy(w, x.b, x.n); memcpy(w + x.n, y.b, y.n); void* o = ST[0].oval; is_text(s, o, w, x.n + y.n, "concatenation"); vp_assert(o != x.o && o != y.o, "a new string"); vp_assert(!ENV->is_read_only(ENV, ST, o), "the result is not read-only"); is_text(s, x.o, x.b, x.n, "left operand unchanged"); is_text(s, y.o, y.b, y.n, "right operand unchanged");
  ST[0].oval = x.o; ST[1].oval = y.o; OK(CALL(s, "acat", 2)); is_text(s, ST[0].oval, w, x.n + y.n, ".= on a local variable"); is_text(s, x.o, x.b, x.n, "operand unchanged by .=");
  memcpy(w + x.n + y.n, x.b, x.n); ST[0].oval = x.o; ST[1].oval = y.o; OK(CALL(s, "acatf", 2)); is_text(s, ST[0].oval, w, 2 * x.n + y.n, ".= on a field and an element"); is_text(s, x.o, x.b, x.n, "operand unchanged by .="); }
JOB2(cat3) { T x, y; sym_text(s, &x, "x", 0); sym_text(s, &y, "y", 0); char w[40]; int n = 0; memcpy(w, x.b, x.n); n = x.n; w[n++] = ':'; memcpy(w + n, y.b, y.n); n += y.n; memcpy(w + n, x.b, x.n); n += x.n; ST[0].oval = x.o; ST[1].oval = y.o; OK(CALL(s, "cat3", 2)); is_text(s, ST[0].oval, w, n, "chained concatenation");
  ST[0].oval = arr(s, &x); ST[1].oval = arr(s, &y); OK(CALL(s, "catb", 2)); memcpy(w, x.b, x.n); memcpy(w + x.n, y.b, y.n); is_text(s, ST[0].oval, w, x.n + y.n, "byte[] concatenation");
  n = 0; w[n++] = '<'; memcpy(w + n, x.b, x.n); n += x.n; w[n++] = '|'; memcpy(w + n, y.b, y.n); n += y.n; w[n++] = '>'; ST[0].oval = x.o; ST[1].oval = y.o; OK(CALL(s, "vars", 2)); is_text(s, ST[0].oval, w, n, "variable expansion"); 
  ST[0].oval = x.o; ST[1].oval = y.o; OK(CALL(s, "len2", 2)); vp_assert(get_int() == x.n + y.n, "length of a temporary"); }
JOB2(selfcat) { T x; sym_text(s, &x, "x", 0); char w[40]; for (int i = 0; i < 4; i++) memcpy(w + i * x.n, x.b, x.n); ST[0].oval = x.o; OK(CALL(s, "selfcat", 1)); is_text(s, ST[0].oval, w, 4 * x.n, "concatenation with itself"); is_text(s, x.o, x.b, x.n, "operand unchanged"); }
JOB2(catn) { T x; x.n = vp_choice(3, "lx"); vp_symbolic(x.b, x.n, "x"); x.o = spv_str(s, x.b, x.n); int8_t v = sym_byte("v"); char w[40]; memcpy(w, x.b, x.n); int n = x.n; int a = v < 0 ? -v : v; if (v < 0) w[n++] = '-'; if (a >= 100) w[n++] = '1'; if (a >= 10) w[n++] = '0' + a / 10 % 10; w[n++] = '0' + a % 10; ST[0].oval = x.o; ST[1].bval = v; OK(CALL(s, "catn", 2)); is_text(s, ST[0].oval, w, n, "string . number");
  char u[40]; memcpy(u, w + x.n, n - x.n); memcpy(u + n - x.n, x.b, x.n); ST[0].bval = v; ST[1].oval = x.o; OK(CALL(s, "ncat", 2)); is_text(s, ST[0].oval, u, n, "number . string"); }
JOB2(len) { T x; sym_text(s, &x, "x", 1); ST[0].oval = x.o; OK(CALL(s, "len", 1)); vp_assert(get_int() == (x.n < 0 ? 0 : x.n), "length in bytes"); if (x.n < 0) return; ST[0].oval = x.o; OK(CALL(s, "copy", 1)); void* c = ST[0].oval; vp_assert(c != x.o, "copy is a new string"); is_text(s, c, x.b, x.n, "copy"); }
JOB2(newlen) { int n = vp_choice(41, "n"); char w[48] = {0}; ST[0].ival = n; OK(CALL(s, "newlen", 1)); is_text(s, ST[0].oval, w, n, "new_string_len is zero-filled"); }
JOB2(setc) { T x; sym_text(s, &x, "x", 0); int32_t i = sym_int("i"); int8_t v = sym_byte("v"); ST[0].oval = x.o; ST[1].ival = i; ST[2].bval = v; int e = CALL(s, "setc", 3); vp_must("in range"); if (i < 0 || i >= x.n) { vp_assert(e != 0, "character index out of range throws"); spv_clear_exc(s); ST[0].oval = x.o; ST[1].ival = i; vp_assert(CALL(s, "getc", 2) != 0, "reading out of range throws"); return; } OK(e); vp_reach("in range"); char w[16]; for (int k = 0; k < x.n; k++) w[k] = k == i ? v : x.b[k]; is_text(s, ST[0].oval, w, x.n, "one character replaced"); is_text(s, x.o, x.b, x.n, "the copied string is unchanged"); ST[0].oval = x.o; ST[1].ival = i; OK(CALL(s, "getc", 2)); int want = 0; for (int k = 0; k < x.n; k++) want = k == i ? x.b[k] : want; vp_assert(get_int() == want, "character read"); }
JOB2(lit) { static const struct { const char* p; int n; } L[] = {{"", 0}, {"a", 1}, {"a\0b", 3}, {"\xFF\x80", 2}, {"abc\0", 4}}; int i = vp_choice(5, "i"); ST[0].ival = i; OK(CALL(s, "lit", 1)); is_text(s, ST[0].oval, L[i].p, L[i].n, "literal"); T x; sym_text(s, &x, "x", 0); T l; l.n = L[i].n; memcpy(l.b, L[i].p, l.n); l.o = ST[0].oval; ST[0].oval = x.o; ST[1].oval = l.o; OK(CALL(s, "cmp", 2)); vp_assert(get_int() == ord(&x, &l), "comparison with a literal"); }
// native string API
JOBV(api) { T x, y; sym_text(s, &x, "x", 0); sym_text(s, &y, "y", 0); void* c = ENV->concat(ENV, ST, x.o, y.o); char w[40]; memcpy(w, x.b, x.n); memcpy(w + x.n, y.b, y.n); is_text(s, c, w, x.n + y.n, "native concat"); int n = vp_choice(x.n + 1, "n"); void* o = ENV->new_string(ENV, ST, x.b, n); is_text(s, o, x.b, n, "native new_string"); void* z = ENV->new_string(ENV, ST, 0, n); char zero[16] = {0}; is_text(s, z, zero, n, "native new_string without bytes"); }
