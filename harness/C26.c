/*vp {"pc":"","time":200,"replays":60,"bounds":["histories of 3 operations (thorough: 4) of set, get, delete, exists, get_or_default, delete_or_default on keys of up to 2 free bytes (including NUL bytes) in one bucket (every key collides)","one operation (thorough: two) after 0 to 4 stores, and six stores, on five fixed keys with every assignment of hash values 0..2 or 0..3 (thorough: 0..7) to the keys, so that the table grows up to three times","up to 12 keys with the real hash function","the hash function on strings of up to 17 free bytes","typed setters and getters on every value, all pairs of types; weakened values through growth"]} */
#include "lang.h"
#define THROWS(e, what) do { vp_assert((e) != 0, what); vp_assert(spv_exc(s) != 0, what); spv_clear_exc(s); } while (0)
// the hash function of the class is replaced: every function of the key's bytes is a legal one
static int how; static int32_t hv[8]; static const char KEYS[][4] = { "", "a", "b\0", "a\0b", "a\0c" }; static const int KL[] = { 0, 1, 2, 3, 3 };
static int32_t anyhash(SPVM_ENV* env, SPVM_VALUE* stack) { if (!how) { stack[0].lval = 5; return 0; } int n = env->length(env, stack, stack[0].oval); const char* p = env->get_chars(env, stack, stack[0].oval); for (int i = 0; i < 5; i++) if (KL[i] == n && !memcmp(KEYS[i], p, n)) { if (hv[i] < 0) hv[i] = vp_choice(how, "hash value"); stack[0].lval = hv[i] + (hv[i] == 3 ? -8 : 0); return 0; } stack[0].lval = 1; return 0; }
static void* realhash; static void* hm;
#undef EXTRA_SETUP
static void use(SPV* s, int any) { s->env->api->method->set_native_address(s->rt, hm, any ? (void*)anyhash : realhash); }
typedef struct { char b[4]; int n; void* o; } K; typedef struct { K k[16]; void* v[16]; int n; void* h; } H;
static int H0(SPV* s, H* h, const char* m, int w) { ST[0].oval = h->h; return CALLC(s, "Hash", m, w); }
static int keyis(const K* a, const K* b) { if (a->n != b->n) return 0; int ok = 1; for (int i = 0; i < a->n; i++) ok &= a->b[i] == b->b[i]; return ok; }
static int find(H* h, const K* k) { for (int i = 0; i < h->n; i++) if (keyis(&h->k[i], k)) return i; return -1; }
static void* val(SPV* s, int c) { static const char* V = "uvwxyz"; return c == 0 ? 0 : spv_str(s, V + c, 1); }
static void remove_(H* h, int i) { h->n--; h->k[i] = h->k[h->n]; h->v[i] = h->v[h->n]; }
static void put(SPV* s, H* h, K* k, void* v) { ST[1].oval = k->o; ST[2].oval = v; OK(H0(s, h, "set", 3)); int i = find(h, k); if (i < 0) { i = h->n++; h->k[i] = *k; } h->v[i] = v; }
static void newhash(SPV* s, H* h) { ST[0].oval = 0; OK(CALLC(s, "Hash", "new", 1)); h->h = ST[0].oval; h->n = 0; ENV->push_mortal(ENV, ST, h->h); }
static int has(SPV* s, void* o, const K* k) { if (!o || ENV->length(ENV, ST, o) != k->n) return 0; const char* p = ENV->get_chars(ENV, ST, o); for (int i = 0; i < k->n; i++) if (p[i] != k->b[i]) return 0; return 1; }
static void same(SPV* s, H* h) { OK(H0(s, h, "keys_length", 1)); vp_assert(get_int() == h->n, "keys_length is the number of keys"); OK(H0(s, h, "has_keys", 1)); vp_assert(get_int() == (h->n > 0), "has_keys");
  for (int i = 0; i < h->n; i++) { ST[1].oval = h->k[i].o; OK(H0(s, h, "get", 2)); vp_assert(ST[0].oval == h->v[i], "every key holds the last value set"); ST[1].oval = h->k[i].o; OK(H0(s, h, "exists", 2)); vp_assert(get_int() == 1, "every key exists"); }
  OK(H0(s, h, "keys", 1)); void* ks = ST[0].oval; OK(H0(s, h, "values", 1)); void* vs = ST[0].oval; vp_assert(ENV->length(ENV, ST, ks) == h->n && ENV->length(ENV, ST, vs) == h->n, "keys and values list every key once");
  char seen[16]; memset(seen, 0, 16); for (int j = 0; j < h->n; j++) { void* k = ENV->get_elem_object(ENV, ST, ks, j); int f = -1; for (int i = 0; i < h->n; i++) if (!seen[i] && has(s, k, &h->k[i])) { f = i; break; } vp_assert(f >= 0, "keys lists the keys of the hash"); seen[f] = 1; vp_assert(ENV->get_elem_object(ENV, ST, vs, j) == h->v[f], "values lists the values in the order of keys"); } }
static void op(SPV* s, H* h, K* k) { int c = vp_choice(6, "operation"); int i; switch (c) {
  case 0: put(s, h, k, val(s, vp_choice(2, "value"))); break;
  case 1: ST[1].oval = k->o; OK(H0(s, h, "get", 2)); i = find(h, k); vp_assert(ST[0].oval == (i < 0 ? 0 : h->v[i]), "get gives the last value set"); break;
  case 2: ST[1].oval = k->o; OK(H0(s, h, "delete", 2)); i = find(h, k); vp_assert(ST[0].oval == (i < 0 ? 0 : h->v[i]), "delete gives the value"); if (i >= 0) remove_(h, i); break;
  case 3: ST[1].oval = k->o; OK(H0(s, h, "exists", 2)); i = find(h, k); vp_assert(get_int() == (i >= 0), "exists tells whether the key was set and not deleted"); break;
  case 4: { void* d = val(s, 3); ST[1].oval = k->o; ST[2].oval = d; OK(H0(s, h, "get_or_default", 3)); i = find(h, k); vp_assert(ST[0].oval == (i < 0 ? d : h->v[i]), "get_or_default"); break; }
  case 5: { void* d = val(s, 3); ST[1].oval = k->o; ST[2].oval = d; OK(H0(s, h, "delete_or_default", 3)); i = find(h, k); vp_assert(ST[0].oval == (i < 0 ? d : h->v[i]), "delete_or_default"); if (i >= 0) remove_(h, i); break; } } }
static void symkey(SPV* s, K* k) { k->n = vp_choice(3, "key length"); if (k->n) vp_symbolic(k->b, k->n, "key"); k->o = spv_str(s, k->b, k->n); }
static void begin(SPV* s, int any) { hm = ENV->api->basic_type->get_method_by_name(s->rt, ENV->api->runtime->get_basic_type_by_name(s->rt, "Hash"), "_siphash13"); realhash = ENV->api->method->get_native_address(s->rt, hm); how = any; for (int i = 0; i < 8; i++) hv[i] = -1; use(s, 1); }
JOBV(collide) { begin(s, 0); H h; newhash(s, &h); K k; int n = vp_thorough() ? 4 : 3; symkey(s, &k); put(s, &h, &k, val(s, 2)); for (int i = 1; i < n; i++) { K q; symkey(s, &q); op(s, &h, &q); } same(s, &h); vp_reach("done"); }
static void fixedkey(SPV* s, K* k) { int i = vp_choice(5, "key"); memcpy(k->b, KEYS[i], 4); k->n = KL[i]; k->o = spv_str(s, k->b, k->n); }
static void nth(SPV* s, K* k, int i) { memcpy(k->b, KEYS[i], 4); k->n = KL[i]; k->o = spv_str(s, k->b, k->n); }
JOBV(buckets) { begin(s, vp_thorough() ? 8 : 3); H h; newhash(s, &h); K k; int m = vp_thorough() ? vp_choice(5, "keys") : 2 + 2 * vp_choice(2, "keys"); for (int i = 0; i < m; i++) { nth(s, &k, i); put(s, &h, &k, val(s, 1)); } int n = vp_thorough() ? 2 : 1; for (int i = 0; i < n; i++) { K q; fixedkey(s, &q); op(s, &h, &q); } same(s, &h); vp_reach("done"); }
JOBV(grow) { begin(s, vp_thorough() ? 8 : 4); H h; newhash(s, &h); K k; for (int i = 0; i < 5; i++) { nth(s, &k, i); put(s, &h, &k, val(s, 1)); } nth(s, &k, vp_thorough() ? vp_choice(5, "again") : 3); put(s, &h, &k, val(s, 2)); same(s, &h); vp_reach("done"); }
static void conc(SPV* s, K* k, int i) { memset(k->b, 0, 4); k->b[0] = 'k'; k->b[1] = 'A' + i; k->n = 2; k->o = spv_str(s, k->b, k->n); }
JOBV(real) { H h; newhash(s, &h); K k; for (int i = 0; i < 12; i++) { conc(s, &k, i); put(s, &h, &k, val(s, 1 + i % 3)); } for (int i = 0; i < 2; i++) { conc(s, &k, vp_choice(3, "key") * 5 + 1); op(s, &h, &k); } same(s, &h); vp_reach("done"); }
JOBV(real_copy) { H h, c; newhash(s, &h); K k; int n = vp_choice(7, "keys"); for (int i = 0; i < n; i++) { conc(s, &k, i); put(s, &h, &k, val(s, 1 + i % 3)); } OK(H0(s, &h, vp_choice(2, "clone") ? "clone" : "copy", 1)); c = h; c.h = ST[0].oval; ENV->push_mortal(ENV, ST, c.h); vp_assert(c.h != h.h, "copy gives a new hash"); same(s, &c); conc(s, &k, vp_choice(7, "key")); op(s, &c, &k); same(s, &c); same(s, &h); vp_reach("done"); }
JOBV(to_array) { H h; newhash(s, &h); K k; int n = 4; for (int i = 0; i < n; i++) { conc(s, &k, (i * 3 + 1) % 4); put(s, &h, &k, val(s, 1 + i)); } int so = sym_int("sort"); ST[1].ival = so; OK(H0(s, &h, "to_array", 2)); void* a = ST[0].oval; vp_assert(ENV->length(ENV, ST, a) == 2 * n, "to_array has every key and value"); int bits = 0; for (int i = 0; i < n; i++) { K q; if (so == 0) { const char* p = ENV->get_chars(ENV, ST, ENV->get_elem_object(ENV, ST, a, 2 * i)); conc(s, &q, (p[1] - 'A') & 7); } else conc(s, &q, so > 0 ? i : n - 1 - i); vp_assert(has(s, ENV->get_elem_object(ENV, ST, a, 2 * i), &q), "to_array lists the keys in the requested order"); int f = find(&h, &q); vp_assert(f >= 0 && ENV->get_elem_object(ENV, ST, a, 2 * i + 1) == h.v[f], "every key is followed by its value"); bits |= 1 << f; } vp_assert(bits == 15, "every key is listed"); vp_reach("done"); }
// the key is copied: changing a mutable key string afterwards changes nothing
JOBV(key_copied) { begin(s, 0); H h; newhash(s, &h); K k; k.n = 2; vp_symbolic(k.b, 2, "key"); k.o = spv_str(s, k.b, 2); int more = vp_choice(3, "more"); put(s, &h, &k, val(s, 1)); for (int i = 0; i < more; i++) { K q; q.n = 1; q.b[0] = '0' + i; q.o = spv_str(s, q.b, 1); put(s, &h, &q, 0); } uint8_t c; vp_symbolic(&c, 1, "byte"); if (!ENV->is_read_only(ENV, ST, k.o)) { ((char*)ENV->get_chars(ENV, ST, k.o))[vp_choice(2, "at")] = c; vp_reach("changed"); } h.k[0].o = spv_str(s, k.b, 2); same(s, &h); OK(H0(s, &h, "keys", 1)); void* ks = ST[0].oval; for (int i = 0; i <= more; i++) vp_assert(ENV->is_read_only(ENV, ST, ENV->get_elem_object(ENV, ST, ks, i)), "the keys cannot be changed"); }
JOBV(undef_key) { H h; newhash(s, &h); static const char* M[] = { "set", "get", "exists", "delete", "get_or_default", "delete_or_default", "weaken", "isweak" }; int m = vp_choice(8, "method"); ST[1].oval = 0; ST[2].oval = 0; int e = H0(s, &h, M[m], 3); THROWS(e, "an undefined key throws"); h.n = 0; same(s, &h); vp_reach("done"); }
JOBV(pairs) { int n = vp_choice(5, "elements"); void* a = ENV->new_object_array(ENV, ST, ENV->get_basic_type(ENV, ST, "object"), n); H h; h.n = 0; int bad = 0; for (int i = 0; i < n; i++) { if (i & 1) { void* v = val(s, vp_choice(2, "value")); ENV->set_elem_object(ENV, ST, a, i, v); int f = find(&h, &h.k[h.n]); if (f >= 0) h.v[f] = v; else h.v[h.n++] = v; } else { int k = vp_choice(4, "key"); K q; if (k < 2) { nth(s, &q, k + 1); h.k[h.n] = q; } else { q.o = k == 2 ? 0 : ENV->new_int_array(ENV, ST, 1); bad = 1; } ENV->set_elem_object(ENV, ST, a, i, q.o); if (bad) break; } }
  ST[0].oval = a; int e = CALLC(s, "Hash", "new", 1); if (bad || n % 2) { THROWS(e, "an odd number of elements or a key that is not a string throws"); vp_reach("bad"); return; } OK(e); h.h = ST[0].oval; ENV->push_mortal(ENV, ST, h.h); same(s, &h); vp_reach("done"); }
// typed values
static const char* TN[] = { "byte", "short", "int", "long", "float", "double", "string" };
JOBV(typed) { H h; newhash(s, &h); K k; conc(s, &k, 0); int t = vp_choice(7, "stored as"), g = vp_choice(7, "read as"), del = vp_choice(3, "how"); char m[40]; int64_t v = sym_long("value"); memset(&ST[2], 0, sizeof ST[2]); if (t == 3) ST[2].lval = v; else if (t == 4) { uint32_t b = v; memcpy(&ST[2].fval, &b, 4); } else if (t == 5) memcpy(&ST[2].dval, &v, 8); else if (t == 6) ST[2].oval = spv_str(s, "s", 1); else ST[2].ival = v; void* str = t == 6 ? ST[2].oval : 0; strcpy(m, "set_"); strcat(m, TN[t]); ST[1].oval = k.o; OK(H0(s, &h, m, 3));
  strcpy(m, del == 0 ? "get_" : del == 1 ? "get_or_default_" : "delete_or_default_"); strcat(m, TN[g]); ST[1].oval = k.o; memset(&ST[2], 0, sizeof ST[2]); int e = H0(s, &h, m, del ? 3 : 2); int ok = g == t || (g < 4 && t < g); if (!ok) { vp_reach("wrong type"); THROWS(e, "reading a value of another type throws"); ST[1].oval = k.o; OK(H0(s, &h, "exists", 2)); vp_assert(get_int() == 1, "the entry stays"); return; } OK(e);
  if (t == 6) vp_assert(ST[0].oval == str, "the string is the stored one"); else if (t == 5) { int64_t b; memcpy(&b, &ST[0].dval, 8); vp_assert(b == v, "the double is the stored one"); } else if (t == 4) { uint32_t b; memcpy(&b, &ST[0].fval, 4); vp_assert(b == (uint32_t)v, "the float is the stored one"); } else { int64_t w = t == 0 ? (int8_t)v : t == 1 ? (int16_t)v : t == 2 ? (int32_t)v : v; vp_assert((g == 3 ? get_long() : get_int()) == w, "the integer is the stored one"); }
  ST[1].oval = k.o; OK(H0(s, &h, "exists", 2)); vp_assert(get_int() == (del != 2), "delete_or_default deletes, the others do not"); vp_reach("read"); }
JOBV(typed_default) { H h; newhash(s, &h); K k; conc(s, &k, 0); int g = vp_choice(6, "type"), del = vp_choice(2, "delete"); char m[40]; strcpy(m, del ? "delete_or_default_" : "get_or_default_"); strcat(m, TN[g]); int64_t v = sym_long("default"); memset(&ST[2], 0, sizeof ST[2]); if (g == 3) ST[2].lval = v; else if (g == 4) { uint32_t b = v; memcpy(&ST[2].fval, &b, 4); } else if (g == 5) memcpy(&ST[2].dval, &v, 8); else ST[2].ival = v; ST[1].oval = k.o; OK(H0(s, &h, m, 3)); int64_t r = 0; if (g == 5) memcpy(&r, &ST[0].dval, 8); else if (g == 4) { uint32_t b; memcpy(&b, &ST[0].fval, 4); r = b; v = (uint32_t)v; } else if (g == 3) r = get_long(); else { r = get_int(); v = (int32_t)v; } vp_assert(r == v, "an absent key gives the default"); h.n = 0; same(s, &h); vp_reach("done"); }
JOBV(weak) { int n = vp_choice(9, "more keys"); ST[0].ival = n; OK(CALL(s, "weak", 1)); vp_assert(get_int() == 1 + 4 + 8 + 16, "a weakened value stays weakened while the table grows, and nothing else is weakened"); ST[0].ival = n; OK(CALL(s, "unweak", 1)); vp_assert(get_int() == 2, "an unweakened value stays"); vp_reach("done"); }
// the real hash function reads only the string's bytes and depends on nothing else
JOBV(siphash) { uint8_t b[17], seed[16]; int n = vp_choice(18, "length"); if (n) vp_symbolic(b, n, "bytes"); for (int i = 0; i < 16; i++) seed[i] = i * 7 + 1; int64_t r[2]; for (int q = 0; q < 2; q++) { ST[0].oval = spv_str(s, (char*)b, n); ST[1].oval = spv_str(s, (char*)seed, 16); OK(CALLC(s, "Hash", "_siphash13", 2)); r[q] = get_long(); ST[0].oval = spv_str(s, (char*)b, n); ST[1].ival = 77; OK(CALLC(s, "Hash", "_murmur_hash", 2)); vp_assert(get_long() >= 0, "the murmur hash is not negative"); } vp_assert(r[0] == r[1], "equal strings have equal hashes"); vp_reach("done"); }
