// Harness code that runs the repository's compiler itself on (partly symbolic) source text.
#ifndef COMP_H
#define COMP_H
#include "lang.h"
// (With COMP_MAP) the compiler's symbol tables in the executor: looking up a text with symbolic bytes must not branch over the hash
// values, so once such a text is stored or looked up the whole table is compared instead of one bucket. That the
// real tables behave as maps whatever the hash values are is property C21; here they are executed as maps.
#ifdef COMP_MAP
#include "spvm_hash.h"
int32_t SPVM_HASH_calc_hash_value(const char* str, int32_t len); void* SPVM_HASH_get(SPVM_HASH*, const char*, int32_t); void SPVM_HASH_set(SPVM_HASH*, const char*, int32_t, void*); SPVM_HASH_ENTRY* SPVM_HASH_new_hash_entry(SPVM_HASH*, const char*, int32_t, void*);
static int vp_symtext; // a text with symbolic bytes is in some table
static int vp_symkey(const char* s, int32_t n) { for (int i = 0; i < n; i++) if (vp_is_symbolic((uint8_t)s[i])) return 1; return 0; }
int32_t vp_ov_SPVM_HASH_calc_hash_value(const char* str, int32_t len) { return vp_symkey(str, len) ? 0 : SPVM_HASH_calc_hash_value(str, len); }
static SPVM_HASH_ENTRY* vp_scan(SPVM_HASH* h, const char* k, int32_t n) { for (int i = 0; i < h->table_capacity; i++) for (SPVM_HASH_ENTRY* e = h->table[i]; e; e = e->next_entry) if (e->key_length == n && (n == 0 || memcmp(k, e->key, n) == 0)) return e; return 0; }
void* vp_ov_SPVM_HASH_get(SPVM_HASH* h, const char* k, int32_t n) { if (vp_symtext || vp_symkey(k, n)) { SPVM_HASH_ENTRY* e = vp_scan(h, k, n); return e ? e->value : 0; } return SPVM_HASH_get(h, k, n); }
void vp_ov_SPVM_HASH_set(SPVM_HASH* h, const char* k, int32_t n, void* v) { int sy = vp_symkey(k, n); if (vp_symtext || sy) { if (sy) vp_symtext = 1; SPVM_HASH_ENTRY* e = vp_scan(h, k, n); if (e) { e->value = v; return; } } SPVM_HASH_set(h, k, n, v); }
#else
// Without it (literals only), texts with symbolic bytes share one bucket and are compared with each other only.
int32_t SPVM_HASH_calc_hash_value(const char* str, int32_t len);
int32_t vp_ov_SPVM_HASH_calc_hash_value(const char* str, int32_t len) { for (int i = 0; i < len; i++) if (vp_is_symbolic((uint8_t)str[i])) return 0x5eed; return SPVM_HASH_calc_hash_value(str, len); }
#endif
#define CAPI (s->be->api->compiler)
static inline int comp_anon(SPV* s, const char* src, const char** name) { int e = CAPI->compile_anon_class(s->compiler, src, name); int n = CAPI->get_error_messages_length(s->compiler);
  vp_assert((e != 0) == (n > 0), "a failed compilation reports at least one error message and a successful one none"); 
  for (int i = 0; i < n; i++) vp_assert(CAPI->get_error_message(s->compiler, i) != 0, "error messages are defined");
  return e; }
static inline int comp_err_is(SPV* s, const char* part) { int n = CAPI->get_error_messages_length(s->compiler); for (int i = 0; i < n; i++) if (strstr(CAPI->get_error_message(s->compiler, i), part)) return 1; return 0; }
static inline void* comp_method(SPV* s, const char* cls, const char* m) { void* bt = s->env->api->runtime->get_basic_type_by_name(s->rt, cls); vp_assert(bt != 0, "the compiled class is in the runtime"); void* r = s->env->api->basic_type->get_method_by_name(s->rt, bt, m); vp_assert(r != 0, "the compiled method is in the runtime"); return r; }
#endif
