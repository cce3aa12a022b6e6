/*vp {"pc":"","time":240,"replays":60,"bounds":["every numeric letter with every byte order, as an object, with counts 1 to 3 and *, arrays of 0 to 3 elements of every value; three specifiers in a row","strings of up to 3 free bytes with counts 1 to 4 and *; hex strings of up to 3 characters (thorough: 4) with counts 1 to 5 and *","unpacking of every binary of up to 6 free bytes with every letter and count; every template of up to 2 free bytes (thorough: 3)","counts around the limits of int; objects of every wrong type"]} */
#include "lang.h"
#define THROWS(e, what) do { vp_assert((e) != 0, what); vp_assert(spv_exc(s) != 0, what); spv_clear_exc(s); } while (0)
static const char LET[] = "cCsSlLqQfd"; static const int KIND[] = { 0, 0, 1, 1, 2, 2, 3, 3, 4, 5 }, SZ[] = { 1, 2, 4, 8, 4, 8 }; static const char* CLS[] = { "Byte", "Short", "Int", "Long", "Float", "Double" };
static void* anew(SPV* s, int k, int n) { switch (k) { case 0: return ENV->new_byte_array(ENV, ST, n); case 1: return ENV->new_short_array(ENV, ST, n); case 2: return ENV->new_int_array(ENV, ST, n); case 3: return ENV->new_long_array(ENV, ST, n); case 4: return ENV->new_float_array(ENV, ST, n); default: return ENV->new_double_array(ENV, ST, n); } }
static uint8_t* bytes(SPV* s, void* a) { return (uint8_t*)ENV->get_elems_byte(ENV, ST, a); }
static void* obj(SPV* s, int k, const void* v) { memset(&ST[0], 0, sizeof ST[0]); switch (k) { case 0: ST[0].ival = *(int8_t*)v; break; case 1: { int16_t x; memcpy(&x, v, 2); ST[0].ival = x; break; } case 2: memcpy(&ST[0].ival, v, 4); break; case 3: memcpy(&ST[0].lval, v, 8); break; case 4: memcpy(&ST[0].fval, v, 4); break; default: memcpy(&ST[0].dval, v, 8); } OK(CALLC(s, CLS[k], "new", 1)); void* o = ST[0].oval; ENV->push_mortal(ENV, ST, o); return o; }
static int is_obj(SPV* s, void* o, int k, uint8_t* v) { if (!o || !ENV->is_type_by_name(ENV, ST, o, CLS[k], 0)) return 0; ST[0].oval = o; OK(CALLC(s, CLS[k], "value", 1)); switch (k) { case 0: v[0] = ST[0].ival; break; case 1: { int16_t x = ST[0].ival; memcpy(v, &x, 2); break; } case 2: memcpy(v, &ST[0].ival, 4); break; case 3: memcpy(v, &ST[0].lval, 8); break; case 4: memcpy(v, &ST[0].fval, 4); break; default: memcpy(v, &ST[0].dval, 8); } return 1; }
static int is_arr(SPV* s, void* o, int k) { static const char* B[] = { "byte", "short", "int", "long", "float", "double" }; return o && ENV->is_type_by_name(ENV, ST, o, B[k], 1); }
static void* packer(SPV* s) { OK(CALLC(s, "Packer", "new", 0)); void* p = ST[0].oval; ENV->push_mortal(ENV, ST, p); return p; }
static void* objs(SPV* s, int n) { return ENV->new_object_array(ENV, ST, ENV->get_basic_type(ENV, ST, "object"), n); }
static int pack(SPV* s, void* p, const char* t, int tn, void* a, void** r) { void* x = spv_str(s, t, tn); ST[0].oval = p; ST[1].oval = x; ST[2].oval = a; int e = CALLC(s, "Packer", "pack", 3); if (!e) { *r = ST[0].oval; ENV->push_mortal(ENV, ST, *r); } return e; }
static int unpack(SPV* s, void* p, const char* t, int tn, void* b, void** r) { void* x = spv_str(s, t, tn); ST[0].oval = p; ST[1].oval = x; ST[2].oval = b; int e = CALLC(s, "Packer", "unpack", 3); if (!e) { *r = ST[0].oval; ENV->push_mortal(ENV, ST, *r); } return e; }
static int tmpl(char* t, char l, int endian, int count) { int n = 0; t[n++] = l; if (endian) t[n++] = " <>"[endian]; if (count > 0) { if (count >= 10) t[n++] = '0' + count / 10; t[n++] = '0' + count % 10; } else if (count < 0) t[n++] = '*'; return n; }
static int little(void) { int x = 1; return *(char*)&x; }
static void flip(uint8_t* w, const uint8_t* v, int n, int sz, int endian) { for (int i = 0; i < n; i++) for (int j = 0; j < sz; j++) w[i * sz + j] = v[i * sz + (endian && (endian == 1) != little() ? sz - 1 - j : j)]; }
JOBV(numbers) { int l = vp_choice(10, "letter"), k = KIND[l], sz = SZ[k], endian = vp_choice(3, "byte order"), count = vp_choice(5, "count") - 1, n = count == 0 ? 1 : vp_choice(4, "elements"); char t[8]; int tn = tmpl(t, LET[l], endian, count); uint8_t v[24], w[24], z[24]; memset(v, 0, sizeof v); if (n) vp_symbolic(v, n * sz, "elements"); void* a = objs(s, 1); void* o; if (count) { o = anew(s, k, n); memcpy(bytes(s, o), v, n * sz); } else o = obj(s, k, v); ENV->set_elem_object(ENV, ST, a, 0, o); void* p = packer(s); void* b;
  if (count > n) { int e = pack(s, p, t, tn, a, &b); if (e) { spv_clear_exc(s); return; } } else OK(pack(s, p, t, tn, a, &b)); int m = count < 0 ? n : count ? count : 1; vp_assert(b && ENV->length(ENV, ST, b) == m * sz, "the binary has the documented width"); flip(w, v, m, sz, endian); uint8_t* q = (uint8_t*)ENV->get_chars(ENV, ST, b); int ok = 1; for (int i = 0; i < m * sz; i++) ok &= q[i] == w[i]; vp_assert(ok, "every element has its bytes in the wanted order");
  void* r; OK(unpack(s, p, t, tn, b, &r)); vp_assert(r && ENV->length(ENV, ST, r) == 1, "one object per specifier"); void* x = ENV->get_elem_object(ENV, ST, r, 0); if (count) { vp_assert(is_arr(s, x, k) && ENV->length(ENV, ST, x) == m, "the unpacked array has the type and length"); memcpy(z, bytes(s, x), m * sz); } else vp_assert(is_obj(s, x, k, z), "the unpacked object has the type"); for (int i = 0; i < m * sz; i++) ok &= z[i] == v[i]; vp_assert(ok, "unpacking gives the packed values"); vp_reach("done"); }
JOBV(string) { int n = vp_choice(4, "length"), count = vp_choice(5, "count"); if (!count) count = -1; char t[8]; int tn = tmpl(t, 'a', vp_choice(3, "byte order"), count); char v[4]; if (n) vp_symbolic(v, n, "text"); void* a = objs(s, 1); ENV->set_elem_object(ENV, ST, a, 0, spv_str(s, v, n)); void *p = packer(s), *b, *r; OK(pack(s, p, t, tn, a, &b)); int m = count < 0 ? n : count; vp_assert(b && ENV->length(ENV, ST, b) == m, "the binary has the documented width"); const char* q = ENV->get_chars(ENV, ST, b); int ok = 1; for (int i = 0; i < m; i++) ok &= q[i] == (i < n ? v[i] : 0); vp_assert(ok, "the string is cut or padded with null characters"); OK(unpack(s, p, t, tn, b, &r)); vp_assert(r && ENV->length(ENV, ST, r) == 1, "one object per specifier"); void* x = ENV->get_elem_object(ENV, ST, r, 0); vp_assert(x && ENV->is_type_by_name(ENV, ST, x, "string", 0) && ENV->length(ENV, ST, x) == m, "unpacking gives a string"); q = ENV->get_chars(ENV, ST, x); for (int i = 0; i < m; i++) ok &= q[i] == (i < n ? v[i] : 0); vp_assert(ok, "unpacking gives the packed string"); vp_reach("done"); }
static int dig(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static char lower(char c) { return c >= 'A' && c <= 'F' ? c + 32 : c; }
JOBV(hex) { int n = vp_choice(vp_thorough() ? 5 : 4, "length"), count = vp_choice(6, "count"), low = vp_choice(2, "low nybble first"); if (!count) count = -1; char t[8]; int tn = tmpl(t, low ? 'h' : 'H', 0, count); char v[5]; memset(v, '7', 5); int f = n ? vp_choice(n, "free") : 0; if (n) vp_symbolic(v + f, n - f > 2 ? 2 : n - f, "text"); int bad = 0; for (int i = 0; i < n; i++) bad |= dig(v[i]) < 0; void* a = objs(s, 1); ENV->set_elem_object(ENV, ST, a, 0, spv_str(s, v, n)); void *p = packer(s), *b, *r; int e = pack(s, p, t, tn, a, &b); if (bad) { THROWS(e, "a character that is not a hex digit throws"); vp_reach("bad"); return; } OK(e); int m = ((count < 0 ? n : count) + 1) / 2; vp_assert(b && ENV->length(ENV, ST, b) == m, "two digits make one byte"); const uint8_t* q = (void*)ENV->get_chars(ENV, ST, b); int d = count < 0 || count > n ? n : count; int ok = 1; for (int i = 0; i < m; i++) { int x = 2 * i < n ? dig(v[2 * i]) : 0, y = 2 * i + 1 < n ? dig(v[2 * i + 1]) : 0; if (2 * i + 1 == count && n > count) { ok &= (low ? q[i] & 15 : q[i] >> 4) == x; continue; } ok &= q[i] == (low ? y * 16 + x : x * 16 + y); } vp_assert(ok, "the digits are packed in the wanted order"); OK(unpack(s, p, t, tn, b, &r)); void* x = ENV->get_elem_object(ENV, ST, r, 0); int want = count < 0 ? 2 * m : count; vp_assert(x && ENV->is_type_by_name(ENV, ST, x, "string", 0) && ENV->length(ENV, ST, x) == want, "unpacking gives the number of digits"); const char* c = ENV->get_chars(ENV, ST, x); for (int i = 0; i < want; i++) ok &= c[i] == (i < d ? lower(v[i]) : '0'); vp_assert(ok, "unpacking gives the packed digits"); vp_reach("done"); }
// any binary with one specifier: enough bytes or an exception
JOBV(binary) { int l = vp_choice(13, "letter"), count = vp_choice(7, "count") - 1; char c = l < 10 ? LET[l] : "aHh"[l - 10]; int hex = l > 10, sz = l < 10 ? SZ[KIND[l]] : 1; int n = vp_choice(7, "length"); char t[8]; int tn = tmpl(t, c, vp_choice(2, "byte order") * 2, count); char v[8]; if (n) vp_symbolic(v, n, "binary"); void *p = packer(s), *r, *b = spv_str(s, v, n); int m = count < 0 ? n / sz : count == 0 ? 1 : count; if (hex && count >= 0) m = (m + 1) / 2; int e = unpack(s, p, t, tn, b, &r); if (m * sz > n || (c == 'a' && count == 0)) { THROWS(e, "a binary that is too short throws"); vp_reach("short"); return; } OK(e); vp_assert(ENV->length(ENV, ST, r) == 1, "one object"); void* x = ENV->get_elem_object(ENV, ST, r, 0); vp_assert(x != 0, "an object"); if (hex) { int want = count < 0 ? 2 * m : count == 0 ? 1 : count; vp_assert(ENV->length(ENV, ST, x) == want, "the number of digits"); const char* q = ENV->get_chars(ENV, ST, x); int ok = 1; for (int i = 0; i < want; i++) { int y = (uint8_t)v[i / 2], z = (i % 2 == 0) == (c == 'H') ? y >> 4 : y & 15; ok &= q[i] == (z < 10 ? '0' + z : 'a' + z - 10); } vp_assert(ok, "the digits of the binary"); } vp_reach("done"); }
// a template is a sequence of specifier, byte order, count
JOBV(templates) { int tn = vp_choice(vp_thorough() ? 4 : 3, "length"); char t[8]; if (tn) vp_symbolic(t, tn, "template"); static const char any[16] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16 }; void *p = packer(s), *r, *b = spv_str(s, any, 12); int i = 0, bad = 0, n = 0, off = 0; while (i < tn && !bad) { char c = t[i++]; int sz = c == 'c' || c == 'C' || c == 'a' || c == 'H' || c == 'h' ? 1 : c == 's' || c == 'S' ? 2 : c == 'l' || c == 'L' || c == 'f' ? 4 : c == 'q' || c == 'Q' || c == 'd' ? 8 : 0; if (!sz) { bad = 1; break; } if (i < tn && (t[i] == '<' || t[i] == '>')) i++; int len = 1, given = 0; if (i < tn && t[i] == '*') { i++; given = 1; len = off > 12 ? 0 : (12 - off) / sz; } else { int v = 0; while (i < tn && t[i] >= '0' && t[i] <= '9') { v = v * 10 + t[i++] - '0'; given = 1; } if (given && !v) bad = 1; if (given) len = v; if (c == 'H' || c == 'h') len = (len + 1) / 2; } if (c == 'a' && !given) bad = 1; off += len * sz; n++; } if (off > 12) bad = 1; int e = unpack(s, p, t, tn, b, &r); if (bad) { THROWS(e, "an invalid template or a binary that is too short throws"); vp_reach("bad"); return; } OK(e); vp_assert(ENV->length(ENV, ST, r) == n, "one object per specifier"); vp_reach("good"); }
JOBV(three) { static const char* T[] = { "s>c*", "ca2l", "l2sq<", "H4d>a1", "f*", "c2c3c" }; int k = vp_choice(3, "template"); uint8_t v[32], w[32]; vp_symbolic(v, 24, "elements"); void *p = packer(s), *b, *r, *a = objs(s, 4); int n = 0; 
  if (k == 0) { ENV->set_elem_object(ENV, ST, a, 0, obj(s, 1, v)); void* o = anew(s, 0, 3); memcpy(bytes(s, o), v + 2, 3); ENV->set_elem_object(ENV, ST, a, 1, o); flip(w, v, 1, 2, 2); memcpy(w + 2, v + 2, 3); n = 5; }
  if (k == 1) { ENV->set_elem_object(ENV, ST, a, 0, obj(s, 0, v)); ENV->set_elem_object(ENV, ST, a, 1, spv_str(s, (char*)v + 1, 2)); ENV->set_elem_object(ENV, ST, a, 2, obj(s, 2, v + 3)); memcpy(w, v, 7); n = 7; }
  if (k == 2) { void* o = anew(s, 2, 2); memcpy(bytes(s, o), v, 8); ENV->set_elem_object(ENV, ST, a, 0, o); ENV->set_elem_object(ENV, ST, a, 1, obj(s, 1, v + 8)); ENV->set_elem_object(ENV, ST, a, 2, obj(s, 3, v + 10)); memcpy(w, v, 10); flip(w + 10, v + 10, 1, 8, 1); n = 18; }
  OK(pack(s, p, T[k], strlen(T[k]), a, &b)); vp_assert(ENV->length(ENV, ST, b) == n, "the parts follow each other"); const uint8_t* q = (void*)ENV->get_chars(ENV, ST, b); int ok = 1; for (int i = 0; i < n; i++) ok &= q[i] == w[i]; vp_assert(ok, "the parts have their bytes"); OK(unpack(s, p, T[k], strlen(T[k]), b, &r)); int cnt = k == 0 ? 2 : 3; vp_assert(ENV->length(ENV, ST, r) == cnt, "one object per specifier"); uint8_t z[8]; void* x = ENV->get_elem_object(ENV, ST, r, cnt - 1); if (k == 0) { vp_assert(is_arr(s, x, 0) && ENV->length(ENV, ST, x) == 3, "the rest of the binary"); for (int i = 0; i < 3; i++) ok &= bytes(s, x)[i] == v[2 + i]; } else { vp_assert(is_obj(s, x, k == 1 ? 2 : 3, z), "the last object"); for (int i = 0; i < (k == 1 ? 4 : 8); i++) ok &= z[i] == v[(k == 1 ? 3 : 10) + i]; } vp_assert(ok, "the last value"); vp_reach("done"); }
JOBV(wrong) { int l = vp_choice(11, "letter"), w = vp_choice(8, "object"), count = l == 10 ? 1 : vp_choice(2, "count"); char t[8]; int tn = tmpl(t, "cCsSlLqQfda"[l], 0, count); uint64_t z = 1; void* o = w == 6 ? 0 : w == 7 ? packer(s) : count ? anew(s, w, 1) : obj(s, w, &z); if (l < 10 && w == KIND[l]) return; void *a = objs(s, 1), *p = packer(s), *b; if (l == 10 && (w == 6 || w == 0)) return; ENV->set_elem_object(ENV, ST, a, 0, o); THROWS(pack(s, p, t, tn, a, &b), "an object of another type throws"); THROWS(pack(s, p, "c", 1, objs(s, 0), &b), "fewer objects than specifiers throw"); THROWS(pack(s, p, "c", 1, 0, &b), "undef throws"); THROWS(unpack(s, p, "c", 1, 0, &b), "undef throws"); ST[0].oval = p; ST[1].oval = 0; ST[2].oval = a; THROWS(CALLC(s, "Packer", "pack", 3), "undef throws"); vp_reach("thrown"); }
JOBV(huge) { static const char* N[] = { "268435457", "536870912", "536870913", "1073741824", "1073741825", "2147483647", "2147483648", "4294967297", "99999999999999999999" }; int l = vp_choice(13, "letter"), c = vp_choice(9, "count"); char t[32]; t[0] = l < 10 ? LET[l] : "aHh"[l - 10]; strcpy(t + 1, N[c]); char v[4]; vp_symbolic(v, 4, "binary"); void *p = packer(s), *r, *b = spv_str(s, v, 4); THROWS(unpack(s, p, t, strlen(t), b, &r), "a count that does not fit throws"); if (l < 10 && SZ[KIND[l]] * atof(N[c]) > 2147483647.0) { void *a = objs(s, 1), *o = anew(s, KIND[l], 1); ENV->set_elem_object(ENV, ST, a, 0, o); THROWS(pack(s, p, t, strlen(t), a, &r), "a count that does not fit throws"); } vp_reach("thrown"); }
