/*vp {"pc":"","hang":30000000,"time":200,"replays":100,"bounds":["list: capacity 0..4, both memory kinds, every sequence of 4 operations (thorough: 6) with free values and free valid indexes, and runs of up to 9 pushes and unshifts followed by up to 9 pops and shifts","table: capacity 0..4, both memory kinds, 3 to 4 stores (thorough: 4 to 5) of keys of 0..1 free bytes with the real hash function, keys of up to 2 free bytes (thorough: 3) whose hash values all collide, and keys whose hash values are any numbers 0..7 (thorough: 0..21), explicit rehash to 1..7 places, lookup of a free key after every history","text buffer: initial capacity 1, 2, 7, 16 and the default, every sequence of 3 appends (thorough: 4) of text, counted text, NUL-terminated text, a hexadecimal byte and integers of every width near 0 and the ends of the range","allocator: up to 2049 permanent blocks and free sizes"]} */
#include "lang.h"
#include "spvm_hash.h"
#include "spvm_list.h"
#include "spvm_string_buffer.h"
#include "spvm_allocator.h"
#include "spvm_utf8.h"
static int anyhash; static int32_t hv[8];
int32_t vp_ov_SPVM_HASH_calc_hash_value(const char* str, int32_t len) { if (anyhash == 2) return 0; if (anyhash) { int32_t* h = hv + (len == 0 ? 0 : 1 + (str[0] & 3)); for (int i = 0; i < 24; i++) if (*h == i) return *h = i; } int32_t v = SPVM_HASH_calc_hash_value(str, len); return v; }
static uint64_t live0; static SPVM_ALLOCATOR* al;
static void begin(void) { live0 = vp_live_blocks(); al = SPVM_ALLOCATOR_new(); vp_assert(SPVM_ALLOCATOR_get_memory_blocks_count(al) == 0, "a new allocator has no blocks"); }
static void end(void) { vp_assert(al->memory_blocks_count_tmp == 0, "no temporary block is left"); SPVM_ALLOCATOR_free(al); vp_assert(vp_live_blocks() == live0, "freeing the allocator frees every block"); }
static void* symv(void) { return (void*)(intptr_t)vp_i64("value"); }

static void list_check(SPVM_LIST* l, void** m, int n) { vp_assert(l->length == n, "the list has the length of the sequence"); vp_assert(l->capacity >= n, "the capacity holds the elements"); for (int i = 0; i < n; i++) vp_assert(SPVM_LIST_get(l, i) == m[i], "each element is the one of the sequence"); }
static int list_op(SPVM_LIST* l, void** m, int n, int op) {
  if (op == 0) { void* v = symv(); SPVM_LIST_push(l, v); m[n++] = v; }
  else if (op == 1) { void* v = symv(); SPVM_LIST_unshift(l, v); memmove(m + 1, m, sizeof *m * n); m[0] = v; n++; }
  else if (op == 2) { void* r = SPVM_LIST_pop(l); if (n == 0) vp_assert(r == 0, "pop of an empty list is NULL"); else vp_assert(r == m[--n], "pop returns the last element"); }
  else if (op == 3) { void* r = SPVM_LIST_shift(l); if (n == 0) vp_assert(r == 0, "shift of an empty list is NULL"); else { vp_assert(r == m[0], "shift returns the first element"); memmove(m, m + 1, sizeof *m * --n); } }
  else if (op == 4) { if (n) { int i = vp_i32("index"); vp_assume((i >= 0) & (i < n)); void* v = symv(); SPVM_LIST_set(l, i, v); for (int k = 0; k < n; k++) if (k == i) m[k] = v; } }
  else if (op == 5) { SPVM_LIST_clear(l); n = 0; }
  return n; }
static SPVM_LIST* list_new(void) { int cap = vp_choice(5, "capacity"), perm = vp_choice(2, "kind"); return perm ? SPVM_LIST_new_list_permanent(al, cap) : SPVM_LIST_new(al, cap, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP); }
JOBV(list_ops) { begin(); SPVM_LIST* l = list_new(); void* m[32]; int n = 0; int k = vp_thorough() ? 6 : 4; for (int i = 0; i < k; i++) { n = list_op(l, m, n, vp_choice(6, "operation")); list_check(l, m, n); } vp_reach("list"); SPVM_LIST_free(l); end(); }
JOBV(list_runs) { begin(); SPVM_LIST* l = list_new(); void* m[64]; int n = 0; int c = vp_choice(10, "additions"), how = vp_choice(3, "which end"), d = vp_choice(10, "removals"), dh = vp_choice(2, "which end"); for (int i = 0; i < c; i++) n = list_op(l, m, n, how == 2 ? i & 1 : how); list_check(l, m, n); for (int i = 0; i < d; i++) n = list_op(l, m, n, 2 + dh); n = list_op(l, m, n, 0); list_check(l, m, n); vp_reach("list"); SPVM_LIST_free(l); end(); }

typedef struct { char k[4]; int n; void* v; } ENT;
static int same(ENT* e, const char* k, int n) { if (e->n != n) return 0; int r = 1; for (int i = 0; i < n; i++) r &= e->k[i] == k[i]; return r; }
static void hash_lookup(SPVM_HASH* h, ENT* e, int ne, const char* k, int n) { uintptr_t want = 0; for (int i = 0; i < ne; i++) { uintptr_t m = 0 - (uintptr_t)same(e + i, k, n); want = (want & ~m) | ((uintptr_t)e[i].v & m); } vp_assert((uintptr_t)SPVM_HASH_get(h, k, n) == want, "a lookup returns the value stored last under exactly that key, or nothing"); }
static SPVM_HASH* hash_new(int ncap) { int cap = vp_choice(ncap, "capacity"), perm = cap & 1; return perm ? SPVM_HASH_new_hash_permanent(al, cap) : SPVM_HASH_new(al, cap, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP); }
static void check_entries(SPVM_HASH* h, ENT* e, int ne) { int d = 0, c = 0; for (int i = 0; i < ne; i++) { int dup = 0; for (int j = 0; j < i; j++) dup |= same(e + j, e[i].k, e[i].n); d += 1 ^ dup; } for (int i = 0; i < h->table_capacity; i++) for (SPVM_HASH_ENTRY* x = h->table[i]; x; x = x->next_entry) c++; vp_assert(h->keys_length == d && c == d, "the table has one entry for each different key"); }
static void hash_hist(int maxn, int sets) { begin(); SPVM_HASH* h = hash_new(vp_thorough() ? 4 : anyhash ? 2 : 1); ENT e[8]; int shorter = vp_choice(sets + 2, "which key is shorter"); for (int i = 0; i < sets; i++) { char* key = malloc(maxn + 1); memset(key, 'x', maxn + 1); e[i].n = maxn - (i == shorter); if (e[i].n) vp_symbolic(key, e[i].n, "key"); memcpy(e[i].k, key, maxn); e[i].v = (void*)(intptr_t)(i + 1); SPVM_HASH_set(h, key, e[i].n, e[i].v); memset(key, 'y', maxn + 1); free(key); }
  for (int i = 0; i < sets; i++) hash_lookup(h, e, sets, e[i].k, e[i].n); char f[4] = "zz"; int n = maxn - (sets == shorter); if (n) vp_symbolic(f, n, "key"); hash_lookup(h, e, sets, f, n); check_entries(h, e, sets);
  if (anyhash || vp_thorough() ? vp_choice(2, "rehash") : 0) { SPVM_HASH_rehash(h, vp_thorough() ? 1 + vp_choice(3, "places") * 3 : 4); for (int i = 0; i < sets; i++) hash_lookup(h, e, sets, e[i].k, e[i].n); hash_lookup(h, e, sets, f, n); check_entries(h, e, sets); } vp_reach("table"); SPVM_HASH_free(h); end(); }
JOBV(hash_real1) { hash_hist(1, vp_thorough() ? 4 : 2); }
// longer keys with hash values that all collide, or tell the length only
JOBV(hash_coll) { anyhash = 2; hash_hist(2, vp_thorough() ? 3 : 2); anyhash = 0; }
// keys "", "a".. whose hash values are free: every collision pattern at every table size
static const char* KEYS[] = { "", "a", "b", "c" };
static void any_hist(int sets) { begin(); anyhash = 1; for (int i = 0; i < 4; i++) { hv[i] = (uint8_t)sym_byte("hash"); vp_assume(hv[i] < (vp_thorough() ? 22 : 8)); } int cap = vp_choice(3, "capacity"), first = vp_choice(2, "which key is empty"), used = 0; SPVM_HASH* h = cap == 1 ? SPVM_HASH_new_hash_permanent(al, cap) : SPVM_HASH_new(al, cap, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP); ENT e[8];
  for (int i = 0; i < sets; i++) { int c = vp_choice(used + 1, "key"); if (c == used && used < 3) used++; const char* k = KEYS[(c + first) % 4]; e[i].n = strlen(k); memcpy(e[i].k, k, e[i].n); e[i].v = (void*)(intptr_t)(i + 1); SPVM_HASH_set(h, k, e[i].n, e[i].v); }
  for (int i = 0; i < 4; i++) hash_lookup(h, e, sets, KEYS[i], strlen(KEYS[i])); check_entries(h, e, sets); vp_reach("table"); SPVM_HASH_free(h); anyhash = 0; end(); }
JOBV(hash_any) { any_hist(vp_thorough() ? 5 : 3); }
// one key is a prefix of, or differs only after a NUL byte from, another
JOBV(hash_nul) { begin(); anyhash = 2; SPVM_HASH* h = hash_new(3); char a[3], b[3]; vp_symbolic(a, 3, "a"); memcpy(b, a, 3); a[1] = 0; b[1] = 0; char d; vp_symbolic(&d, 1, "d"); b[2] = d; void *x = symv(), *y = symv(); vp_assume((x != 0) & (y != 0)); SPVM_HASH_set(h, a, 3, x); SPVM_HASH_set(h, a, 1, y); vp_assert(SPVM_HASH_get(h, a, 3) == x && SPVM_HASH_get(h, a, 1) == y && SPVM_HASH_get(h, a, 2) == 0 && SPVM_HASH_get(h, a, 0) == 0, "prefixes are different keys"); vp_assert(SPVM_HASH_get(h, b, 3) == (d == a[2] ? x : 0), "bytes after a NUL byte count"); vp_reach("nul"); SPVM_HASH_free(h); anyhash = 0; end(); }
// many keys: growth several times
JOBV(hash_grow) { begin(); SPVM_HASH* h = hash_new(2); int n = 12; char z; vp_symbolic(&z, 1, "byte"); vp_assume((z >= 0) & (z < (vp_thorough() ? 64 : 16))); for (int i = 0; i < 64; i++) if (z == i) z = i; void* v[12]; for (int i = 0; i < n; i++) { char k[3] = { 'a' + i, z, 0 }; v[i] = symv(); SPVM_HASH_set(h, k, 2, v[i]); } for (int i = 0; i < n; i++) { char k[3] = { 'a' + i, z, 0 }; vp_assert(SPVM_HASH_get(h, k, 2) == v[i], "every key keeps its value while the table grows"); k[1] = z + 1; vp_assert(SPVM_HASH_get(h, k, 2) == 0, "another key has no value"); } vp_assert(h->keys_length == n, "the number of keys"); vp_reach("grow"); SPVM_HASH_free(h); end(); }
JOBV(hash_value) { char k[4]; vp_symbolic(k, 4, "key"); int n = vp_choice(5, "length"); int32_t a = SPVM_HASH_calc_hash_value(k, n); vp_assert(a >= 0, "a hash value is never negative"); char c[4]; memcpy(c, k, 4); for (int i = n; i < 4; i++) c[i] = 'q'; vp_assert(SPVM_HASH_calc_hash_value(c, n) == a, "the hash value depends on the key's bytes only"); vp_reach("value"); }

static int dec(char* o, int64_t v) { uint64_t u = v < 0 ? 0 - (uint64_t)v : (uint64_t)v; char t[24]; int n = 0, k = 0; do { t[n++] = '0' + u % 10; u /= 10; } while (u); if (v < 0) o[k++] = '-'; while (n) o[k++] = t[--n]; return k; }
static int buf_op(SPVM_STRING_BUFFER* b, char* m, int n, int op) { int id = -1, at = n; static const char HEX[] = "0123456789ABCDEF";
  if (op < 3) { int len = vp_choice(4, "length"); len = len == 3 ? 9 : len; char t[12]; if (len) vp_symbolic(t, len, "text"); t[len] = 0; if (op == 0) { for (int i = 0; i < len; i++) vp_assume(t[i] != 0); id = SPVM_STRING_BUFFER_add(b, t); } else if (op == 1) id = SPVM_STRING_BUFFER_add_len(b, t, len); else id = SPVM_STRING_BUFFER_add_len_nullstr(b, t, len); memcpy(m + n, t, len); n += len; if (op == 2) m[n++] = 0; }
  else if (op == 3) { char c; vp_symbolic(&c, 1, "char"); id = SPVM_STRING_BUFFER_add_hex_char(b, c); m[n] = '\\'; m[n + 1] = 'x'; m[n + 2] = HEX[(uint8_t)c >> 4]; m[n + 3] = HEX[c & 15]; n += 4; }
  else if (op == 4) { int8_t v = sym_byte("byte"); id = SPVM_STRING_BUFFER_add_byte(b, v); n += dec(m + n, v); }
  else if (op == 5) { int16_t v = sym_short("short"); vp_assume((v < INT16_MIN + 20) | (v > INT16_MAX - 20) | ((v > -12) & (v < 12))); id = SPVM_STRING_BUFFER_add_short(b, v); n += dec(m + n, v); }
  else if (op == 6) { static const int32_t B[] = { INT32_MIN, INT32_MAX - 11, -6, 99995, -65536 }; int8_t d = sym_byte("int"); vp_assume((d >= 0) & (d < 12)); int32_t v = B[vp_choice(5, "near")] + d; id = SPVM_STRING_BUFFER_add_int(b, v); if (v == INT32_MIN) { memcpy(m + n, "INT32_MIN", 9); n += 9; } else n += dec(m + n, v); }
  else { static const int64_t B[] = { INT64_MIN, INT64_MAX - 11, -6, INT32_MIN - 6LL, INT32_MAX - 5LL, 999999999995LL }; int8_t d = sym_byte("long"); vp_assume((d >= 0) & (d < 12)); int64_t v = B[vp_choice(6, "near")] + d; id = SPVM_STRING_BUFFER_add_long(b, v); if (v == INT64_MIN) { memcpy(m + n, "INT64_MIN", 9); n += 9; } else { n += dec(m + n, v); m[n++] = 'L'; m[n++] = 'L'; } }
  vp_assert(id == at, "an append returns the offset it was written to"); return n; }
static void buf_check(SPVM_STRING_BUFFER* b, char* m, int n) { vp_assert(b->length == n, "the buffer has the length of the text"); vp_assert(b->capacity >= n, "the capacity holds the text"); char* t = SPVM_STRING_BUFFER_get_buffer(b); for (int i = 0; i < n; i++) vp_assert(t[i] == m[i], "the buffer holds exactly the text appended"); }
static SPVM_STRING_BUFFER* buf_new(int nc) { static const int C[] = { 1, 16, 0, 2, 7 }; int cap = C[vp_choice(nc, "capacity")]; return vp_choice(2, "kind") ? SPVM_STRING_BUFFER_new(al, cap, SPVM_ALLOCATOR_C_ALLOC_TYPE_PERMANENT) : SPVM_STRING_BUFFER_new_tmp(al, cap); }
JOBV(buf_text) { begin(); SPVM_STRING_BUFFER* b = buf_new(5); char m[200]; int n = 0, k = vp_thorough() ? 3 : 2; for (int i = 0; i < k; i++) { n = buf_op(b, m, n, vp_choice(4, "operation")); buf_check(b, m, n); } vp_reach("text"); SPVM_STRING_BUFFER_free(b); end(); }
#define BNUM(name, op) JOBV(name) { begin(); SPVM_STRING_BUFFER* b = buf_new(2); char m[200]; int n = vp_choice(2, "before") ? buf_op(b, m, 0, 3) : 0; n = buf_op(b, m, n, op); n = buf_op(b, m, n, 3); buf_check(b, m, n); vp_reach("number"); SPVM_STRING_BUFFER_free(b); end(); }
BNUM(buf_byte, 4) BNUM(buf_short, 5) BNUM(buf_int, 6) BNUM(buf_long, 7)
JOBV(buf_contains) { begin(); SPVM_STRING_BUFFER* b = SPVM_STRING_BUFFER_new_tmp(al, 16); char t[5]; vp_symbolic(t, 4, "text"); t[4] = 0; char p[3]; vp_symbolic(p, 2, "part"); p[2] = 0; for (int i = 0; i < 4; i++) vp_assume(t[i] != 0); vp_assume(p[0] != 0); SPVM_STRING_BUFFER_add(b, t); int off = vp_choice(5, "offset"); int pl = p[1] ? 2 : 1, f = 0; for (int i = off; i + pl <= 4; i++) f |= (t[i] == p[0]) & (pl == 1 || t[i + 1] == p[1]); vp_assert(!!SPVM_STRING_BUFFER_contains(b, off, p) == f, "contains finds exactly the parts of the text from the offset"); vp_reach("contains"); SPVM_STRING_BUFFER_free(b); end(); }

JOBV(alloc) { begin(); static const int N[] = { 1, 1023, 1024, 1025, 2048, 2049 }; int n = N[vp_choice(6, "blocks")]; char *first = 0, *last = 0; char x; vp_symbolic(&x, 1, "byte"); for (int i = 0; i < n; i++) { char* p = SPVM_ALLOCATOR_alloc_memory_block_permanent(al, 8); vp_assert(p != 0 && p[0] == 0 && p[7] == 0, "a new block is there and zero"); p[0] = x; p[7] = i; if (!first) first = p; last = p; } vp_assert(first[0] == x && last[0] == x && last[7] == (char)(n - 1) && (n == 1 || first[7] == 0), "blocks keep their bytes"); vp_assert(SPVM_ALLOCATOR_get_memory_blocks_count(al) == n, "the number of blocks"); char* t = SPVM_ALLOCATOR_alloc_memory_block_tmp(al, 3); vp_assert(SPVM_ALLOCATOR_get_memory_blocks_count(al) == n + 1, "the number of blocks"); t[2] = x; SPVM_ALLOCATOR_free_memory_block_tmp(al, t); SPVM_ALLOCATOR_free_memory_block_tmp(al, NULL); vp_assert(SPVM_ALLOCATOR_get_memory_blocks_count(al) == n, "the number of blocks"); vp_assert(SPVM_ALLOCATOR_alloc_memory_block_tmp(al, 0) == 0, "no block of size 0"); vp_reach("alloc"); end(); }
