/*vp {"pc":"","time":240,"replays":60,"bounds":["every list class: created with up to 3 elements and a capacity from the length up, rotated by up to 2 shift/push pairs, then one operation of every kind with every 32-bit index, offset, length and capacity (new lengths and capacities up to 8), replacement arrays of up to 2 elements or undef, every element value","histories of two operations (thorough: three) on IntList and List from lists of one or two elements, and shrinking followed by growing for every class (quick: new lengths and capacities 0, 1, 5 or negative, replacements of 0 or 2 elements)"]} */
#include "lang.h"
#define THROWS(e, what) do { vp_assert((e) != 0, what); vp_assert(spv_exc(s) != 0, what); spv_clear_exc(s); } while (0)
static const char* CLS[] = { "ByteList", "ShortList", "IntList", "LongList", "FloatList", "DoubleList", "List", "StringList" };
typedef struct { int k; void* l; int64_t m[24]; int n; } L;
static void setv(SPV* s, int i, int k, int64_t v) { memset(&ST[i], 0, sizeof ST[i]); switch (k) { case 0: case 1: case 2: ST[i].ival = v; break; case 3: ST[i].lval = v; break; case 4: { uint32_t b = v; memcpy(&ST[i].fval, &b, 4); break; } case 5: memcpy(&ST[i].dval, &v, 8); break; default: ST[i].oval = (void*)v; } }
static int64_t getv(SPV* s, int k) { switch (k) { case 0: case 1: case 2: return ST[0].ival; case 3: return ST[0].lval; case 4: { uint32_t b; memcpy(&b, &ST[0].fval, 4); return b; } case 5: { int64_t b; memcpy(&b, &ST[0].dval, 8); return b; } default: return (int64_t)ST[0].oval; } }
static int64_t aget(SPV* s, int k, void* a, int i) { switch (k) { case 0: return ENV->get_elems_byte(ENV, ST, a)[i]; case 1: return ENV->get_elems_short(ENV, ST, a)[i]; case 2: return ENV->get_elems_int(ENV, ST, a)[i]; case 3: return ENV->get_elems_long(ENV, ST, a)[i]; case 4: return ((uint32_t*)ENV->get_elems_float(ENV, ST, a))[i]; case 5: return ((int64_t*)ENV->get_elems_double(ENV, ST, a))[i]; default: return (int64_t)ENV->get_elem_object(ENV, ST, a, i); } }
static void aset(SPV* s, int k, void* a, int i, int64_t v) { switch (k) { case 0: ENV->get_elems_byte(ENV, ST, a)[i] = v; break; case 1: ENV->get_elems_short(ENV, ST, a)[i] = v; break; case 2: ENV->get_elems_int(ENV, ST, a)[i] = v; break; case 3: ENV->get_elems_long(ENV, ST, a)[i] = v; break; case 4: ((uint32_t*)ENV->get_elems_float(ENV, ST, a))[i] = v; break; case 5: ((int64_t*)ENV->get_elems_double(ENV, ST, a))[i] = v; break; default: ENV->set_elem_object(ENV, ST, a, i, (void*)v); } }
static void* anew(SPV* s, int k, int n) { switch (k) { case 0: return ENV->new_byte_array(ENV, ST, n); case 1: return ENV->new_short_array(ENV, ST, n); case 2: return ENV->new_int_array(ENV, ST, n); case 3: return ENV->new_long_array(ENV, ST, n); case 4: return ENV->new_float_array(ENV, ST, n); case 5: return ENV->new_double_array(ENV, ST, n); default: return ENV->new_string_array(ENV, ST, n); } }
static int64_t norm(int k, int64_t v) { switch (k) { case 0: return (int8_t)v; case 1: return (int16_t)v; case 2: return (int32_t)v; case 4: return (uint32_t)v; default: return v; } }
static int nobj; static int64_t elem(SPV* s, int k) { if (k < 6) return sym_long("element"); if (vp_choice(3, "undef") == 0) return 0; char b[2] = { 'A' + nobj++, 0 }; return (int64_t)spv_str(s, b, 1); }
static int M(SPV* s, L* l, const char* m, int w) { if (l->k == 7 && (!strcmp(m, "length") || !strcmp(m, "capacity") || !strcmp(m, "resize") || !strcmp(m, "reserve"))) { ST[0].oval = l->l; return CALLC(s, "List", m, w); } ST[0].oval = l->l; return CALLC(s, CLS[l->k], m, w); }
static void same(SPV* s, L* l) { OK(M(s, l, "length", 1)); vp_assert(get_int() == l->n, "the length is the number of elements"); OK(M(s, l, "capacity", 1)); vp_assert(get_int() >= l->n, "the capacity is not less than the length"); OK(M(s, l, "to_array", 1)); void* a = ST[0].oval; vp_assert(a && ENV->length(ENV, ST, a) == l->n, "to_array has all elements"); for (int i = 0; i < l->n; i++) vp_assert(aget(s, l->k, a, i) == l->m[i], "every element is the one the history puts there"); }
// an index from 0 to hi, or (symbolic) any index outside
static int idx(int hi, const char* name) { int c = vp_choice(hi + 2, name); if (c <= hi) return c; int i = sym_int(name); vp_assume((i < 0) | (i > hi)); return i; }
static int small; // fewer starting lists, sizes and replacement lengths in histories of several operations
static int neg(int hi, const char* name) { if (small && !vp_thorough()) { int c = vp_choice(4, name); if (c < 3) return c == 2 ? hi > 5 ? 5 : hi : c; int i = sym_int(name); vp_assume(i < 0); return i; } int c = vp_choice(hi + 2, name); if (c <= hi) return c; int i = sym_int(name); vp_assume(i < 0); return i; }
static void ins(L* l, int i, int64_t v) { for (int k = l->n; k > i; k--) l->m[k] = l->m[k - 1]; l->m[i] = v; l->n++; }
static void del(L* l, int i) { for (int k = i; k < l->n - 1; k++) l->m[k] = l->m[k + 1]; l->n--; }
static int64_t res(SPV* s, L* l) { return norm(l->k, getv(s, l->k)); }
static void op(SPV* s, L* l, int which) { int k = l->k; switch (which) {
  case 0: { int64_t v = elem(s, k); setv(s, 1, k, v); OK(M(s, l, "push", 2)); ins(l, l->n, norm(k, v)); break; }
  case 1: { int64_t v = elem(s, k); setv(s, 1, k, v); OK(M(s, l, "unshift", 2)); ins(l, 0, norm(k, v)); break; }
  case 2: { int e = M(s, l, "pop", 1); if (!l->n) { THROWS(e, "pop of an empty list throws"); break; } OK(e); vp_assert(res(s, l) == l->m[l->n - 1], "pop gives the last element"); l->n--; break; }
  case 3: { int e = M(s, l, "shift", 1); if (!l->n) { THROWS(e, "shift of an empty list throws"); break; } OK(e); vp_assert(res(s, l) == l->m[0], "shift gives the first element"); del(l, 0); break; }
  case 4: { int i = idx(l->n, "index"); int64_t v = elem(s, k); ST[1].ival = i; setv(s, 2, k, v); int e = M(s, l, "insert", 3); if ((i < 0) | (i > l->n)) { vp_reach("bad insert"); THROWS(e, "an index outside the list throws"); break; } OK(e); ins(l, i, norm(k, v)); break; }
  case 5: { int i = idx(l->n - 1, "index"); ST[1].ival = i; int e = M(s, l, "remove", 2); if ((i < 0) | (i >= l->n)) { vp_reach("bad remove"); THROWS(e, "an index outside the list throws"); break; } OK(e); vp_assert(res(s, l) == l->m[i], "remove gives the removed element"); del(l, i); break; }
  case 6: { int o, r; if (vp_choice(2, "range")) { o = vp_choice(l->n + 1, "offset"); r = vp_choice(l->n - o + 1, "removed"); } else { o = sym_int("offset"); r = sym_int("removed"); vp_assume((o < 0) | (r < 0) | ((int64_t)o + r > l->n)); } int n = small && !vp_thorough() ? 2 * vp_choice(2, "replacement") : vp_choice(4, "replacement"); void* a = n == 3 ? 0 : anew(s, k, n); int64_t v[2]; if (n < 3) for (int i = 0; i < n; i++) { v[i] = norm(k, k < 6 ? sym_long("element") : (int64_t)spv_str(s, "R", 1)); aset(s, k, a, i, v[i]); } else n = 0; ST[1].ival = o; ST[2].ival = r; ST[3].oval = a; int e = M(s, l, "replace", 4); if ((o < 0) | (r < 0) | ((int64_t)o + r > l->n)) { vp_reach("bad range"); THROWS(e, "a range outside the list throws"); break; } OK(e); for (int i = 0; i < r; i++) del(l, o); for (int i = 0; i < n; i++) ins(l, o + i, v[i]); break; }
  case 7: { int n = neg(8, "new length"); ST[1].ival = n; int e = M(s, l, "resize", 2); if (n < 0) { THROWS(e, "a negative length throws"); break; } OK(e); for (int i = l->n; i < n; i++) l->m[i] = 0; l->n = n; break; }
  case 8: { int n = neg(8, "new capacity"); ST[1].ival = n; int e = M(s, l, "reserve", 2); if (n < 0) { if (k < 6) THROWS(e, "a negative capacity throws"); else spv_clear_exc(s); break; } OK(e); OK(M(s, l, "capacity", 1)); vp_assert(get_int() >= n, "the capacity is at least the reserved one"); break; }
  case 9: { int i = idx(l->n - 1, "index"); int64_t v = elem(s, k); ST[1].ival = i; setv(s, 2, k, v); int e = M(s, l, "set", 3); if ((i < 0) | (i >= l->n)) { vp_reach("bad set"); THROWS(e, "an index outside the list throws"); break; } OK(e); l->m[i] = norm(k, v); break; }
  case 10: { int i = idx(l->n - 1, "index"); ST[1].ival = i; int e = M(s, l, "get", 2); if ((i < 0) | (i >= l->n)) { vp_reach("bad get"); THROWS(e, "an index outside the list throws"); break; } OK(e); vp_assert(res(s, l) == l->m[i], "get gives the element"); break; }
  } }
static void start(SPV* s, L* l, int k, int max, int rot) { l->k = k; int sm = small && !vp_thorough(); l->n = sm ? max - vp_choice(2, "elements") : vp_choice(max + 1, "elements"); int how = sm ? 0 : vp_choice(3, "capacity"); nobj = 0; void* a = k == 6 || l->n || vp_choice(2, "array") ? anew(s, k, l->n) : 0; for (int i = 0; i < l->n; i++) { l->m[i] = norm(k, k < 6 ? sym_long("element") : (int64_t)spv_str(s, "S", 1)); aset(s, k, a, i, l->m[i]); } ST[0].oval = a; ST[1].ival = how == 2 ? -1 : l->n + how; OK(CALLC(s, CLS[k], "new", 2)); l->l = ST[0].oval; ENV->push_mortal(ENV, ST, l->l); int r = rot && l->n ? vp_choice(rot + 1, "rotation") : 0; for (int i = 0; i < r; i++) { op(s, l, 3); int64_t v = k < 6 ? i + 1 : (int64_t)spv_str(s, "T", 1); setv(s, 1, k, v); OK(M(s, l, "push", 2)); ins(l, l->n, v); } }
static void one(SPV* s, int k, int max, int rot) { L l; start(s, &l, k, max, rot); op(s, &l, vp_choice(11, "operation")); same(s, &l); vp_reach("done"); }
JOBV(byte) { one(s, 0, 2, 0); } JOBV(short) { one(s, 1, 2, 0); } JOBV(int) { one(s, 2, 3, 1); } JOBV(long) { one(s, 3, 2, 0); } JOBV(float) { one(s, 4, 2, 0); } JOBV(double) { one(s, 5, 2, 0); } JOBV(object) { one(s, 6, 3, 2); } JOBV(string) { one(s, 7, 2, 1); }
static void two(SPV* s, int k) { small = 1; L l; start(s, &l, k, 2, 0); int n = vp_thorough() ? 3 : 2; for (int i = 0; i < n; i++) op(s, &l, vp_choice(10, "operation")); same(s, &l); vp_reach("done"); }
JOBV(two_int) { two(s, 2); } JOBV(two_object) { two(s, 6); }
// after operations that shrink a list, growing it again shows zeros
JOBV(regrow) { small = 1; int k = vp_choice(8, "class"); L l; start(s, &l, k, 2, k > 5); int w = vp_choice(5, "shrink"); static const int W[] = { 2, 3, 5, 6, 7 }; op(s, &l, W[w]); op(s, &l, 7); same(s, &l); vp_reach("done"); }
JOBV(new_len) { int k = vp_choice(8, "class"), n = neg(4, "length"), c = neg(7, "capacity"); ST[0].ival = n; ST[1].ival = c; int w = 2; if (k == 6) { ST[0].oval = anew(s, 6, 0); ST[1].ival = n; ST[2].ival = c; w = 3; } int e = CALLC(s, CLS[k], "new_len", w); if (n < 0) { vp_reach("negative"); THROWS(e, "a negative length throws"); return; } OK(e); L l; l.k = k; l.l = ST[0].oval; ENV->push_mortal(ENV, ST, l.l); l.n = n; for (int i = 0; i < l.n; i++) l.m[i] = 0; same(s, &l); vp_reach("done"); }
