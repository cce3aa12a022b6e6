#define _GNU_SOURCE
#include <dlfcn.h>
#include "spv.h"
#ifndef VP_INC
#error VP_INC must name the directory with the harness classes
#endif
static void bind(SPV* s, int mode) {
  SPVM_ENV* env = s->be; void* rt = s->rt; int n = env->api->runtime->get_basic_types_length(rt);
  for (int i = 0; i < n; i++) { void* bt = env->api->runtime->get_basic_type_by_id(rt, i); if (!bt) continue;
    const char* cn = env->api->basic_type->get_name(rt, bt); int k = env->api->basic_type->get_methods_length(rt, bt);
    for (int j = 0; j < k; j++) { void* m = env->api->basic_type->get_method_by_index(rt, bt, j); const char* mn = env->api->method->get_name(rt, m); char name[1024];
      int nat = env->api->method->is_native(rt, m), pc = env->api->method->is_precompile(rt, m); if (!nat && !pc) continue;
      snprintf(name, sizeof name, "%s__%s__%s", nat ? "SPVM" : "SPVMPRECOMPILE", cn, mn); for (char* p = name; *p; p++) if (*p == ':') *p = '_';
      if (nat) { void* a = dlsym(RTLD_DEFAULT, name); env->api->method->set_native_address(rt, m, a); }
      else { void* a = mode == SPV_PC ? dlsym(RTLD_DEFAULT, name) : 0; if (a) env->api->method->set_precompile_address(rt, m, a); else { env->api->method->set_is_precompile_fallback(rt, m, 1); if (mode == SPV_PC && getenv("VP_PC_STRICT")) fprintf(stderr, "no generated code for %s\n", name); } } } } }
void spv_print_errors(SPV* s) { int n = s->be->api->compiler->get_error_messages_length(s->compiler); for (int i = 0; i < n; i++) fprintf(stderr, "compile error: %s\n", s->be->api->compiler->get_error_message(s->compiler, i)); }
int spv_open(SPV* s, const char* root, int mode) {
  memset(s, 0, sizeof *s); s->be = SPVM_NATIVE_new_env(); s->compiler = s->be->api->compiler->new_instance();
  s->be->api->compiler->add_include_dir(s->compiler, VP_INC); s->be->api->compiler->add_include_dir(s->compiler, VP_REPO "/lib/SPVM");
  s->be->api->compiler->set_start_file(s->compiler, "harness"); s->be->api->compiler->set_start_line(s->compiler, 1);
  int e = s->be->api->compiler->compile(s->compiler, root); if (e) { spv_print_errors(s); return e; }
  s->rt = s->be->api->compiler->get_runtime(s->compiler); bind(s, mode);
  s->env = s->be->new_env(); s->env->runtime = s->rt; s->stack = s->env->new_stack(s->env);
  e = s->env->call_init_methods(s->env, s->stack); if (e) fprintf(stderr, "INIT failed: %s\n", spv_exc_chars(s)); return e; }
void* spv_find(SPV* s, const char* cls, const char* method) { void* bt = s->env->api->runtime->get_basic_type_by_name(s->rt, cls); if (!bt) { fprintf(stderr, "no class %s\n", cls); abort(); } void* m = s->env->api->basic_type->get_method_by_name(s->rt, bt, method); if (!m) { fprintf(stderr, "no method %s->%s\n", cls, method); abort(); } return m; }
void spv_close(SPV* s) { s->env->destroy_class_vars(s->env, s->stack); s->env->free_stack(s->env, s->stack); s->env->free_env(s->env); s->be->api->compiler->free_instance(s->compiler); s->be->free_env(s->be); }
const char* spv_exc_chars(SPV* s) { void* e = s->env->get_exception(s->env, s->stack); return e ? s->env->get_chars(s->env, s->stack, e) : ""; }
int spv_exc_is(SPV* s, const char* part) { const char* c = spv_exc_chars(s); size_t n = strlen(part); for (; *c; c++) if (strncmp(c, part, n) == 0) return 1; return 0; }
void* spv_str(SPV* s, const char* b, int n) { return s->env->new_string(s->env, s->stack, b, n); }
void spv_clear_exc(SPV* s) { s->env->set_exception(s->env, s->stack, 0); }
int spv_count(SPV* s) { return s->env->get_memory_blocks_count(s->env, s->stack); }
