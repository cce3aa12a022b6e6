// Writes the C code that the repository's precompiler generates for every precompile method reachable from
// a root class: one file per class, <dir>/<Class>.c
#include "spv.h"
void vp_gen(const char* arg) { char root[256]; const char* c = strchr(arg, ','); memcpy(root, arg, c - arg); root[c - arg] = 0; const char* dir = c + 1;
  SPV s; memset(&s, 0, sizeof s); s.be = SPVM_NATIVE_new_env(); s.compiler = s.be->api->compiler->new_instance(); s.be->api->compiler->add_include_dir(s.compiler, VP_INC); s.be->api->compiler->add_include_dir(s.compiler, VP_REPO "/lib/SPVM"); s.be->api->compiler->set_start_file(s.compiler, "harness"); s.be->api->compiler->set_start_line(s.compiler, 1);
  if (s.be->api->compiler->compile(s.compiler, root)) { spv_print_errors(&s); exit(5); } void* rt = s.be->api->compiler->get_runtime(s.compiler);
  int n = s.be->api->runtime->get_basic_types_length(rt);
  for (int i = 0; i < n; i++) { void* bt = s.be->api->runtime->get_basic_type_by_id(rt, i); if (!bt) continue; const char* cn = s.be->api->basic_type->get_name(rt, bt); if (strstr(cn, "::anon_method::") || strstr(cn, "::anon_class::")) continue; int k = s.be->api->basic_type->get_methods_length(rt, bt), any = 0;
    for (int j = 0; j < k; j++) if (s.be->api->method->is_precompile(rt, s.be->api->basic_type->get_method_by_index(rt, bt, j))) any = 1; if (!any) continue;
    void* sb = s.be->api->string_buffer->new_instance(s.be->api->allocator->new_instance(), 0); s.be->api->runtime->build_precompile_class_source(rt, sb, bt);
    char fn[1024]; snprintf(fn, sizeof fn, "%s/%s.c", dir, cn); for (char* p = fn + strlen(dir) + 1; *p; p++) if (*p == ':') *p = '_'; FILE* f = fopen(fn, "w"); if (!f) { perror(fn); exit(6); } fwrite(s.be->api->string_buffer->get_string(sb), 1, s.be->api->string_buffer->get_length(sb), f); fclose(f); } }
