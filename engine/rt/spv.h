// Embedding helpers for harnesses: compile SPVM classes with the repository's compiler, bind native and
// generated methods, call methods. Everything here runs natively during setup except the call helpers.
#ifndef SPV_H
#define SPV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "spvm_native.h"
#include "vp.h"
typedef struct { SPVM_ENV* be; void* compiler; SPVM_ENV* env; SPVM_VALUE* stack; void* rt; } SPV;
#define SPV_VM 0
#define SPV_PC 1
int spv_open(SPV* s, const char* root_class, int mode);   // 0 on success; mode SPV_PC binds the generated C code
void spv_print_errors(SPV* s);
void* spv_find(SPV* s, const char* cls, const char* method);
void spv_close(SPV* s);
// calls: arguments are already in s->stack
static inline int spv_call(SPV* s, void* m, int width) { return s->env->call_method(s->env, s->stack, m, width); }
static inline void* spv_exc(SPV* s) { return s->env->get_exception(s->env, s->stack); }
const char* spv_exc_chars(SPV* s);                          // "" when there is none
int spv_exc_is(SPV* s, const char* part);                   // the message contains part
void* spv_str(SPV* s, const char* bytes, int n);
void spv_clear_exc(SPV* s);
int spv_count(SPV* s);                                      // live objects according to the runtime
#endif
