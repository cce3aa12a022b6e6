From 136d37897366c86cd544b3354f1c262d6018e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 01/58] fix: integer division and remainder of the minimum
 value by -1 no longer trap

---
 lib/SPVM/Builder/include/spvm_implement.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index bb9b843..a90b086 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -214,6 +214,10 @@ static inline void SPVM_IMPLEMENT_DIVIDE_INT(SPVM_ENV* env, SPVM_VALUE* stack, i
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  else if (__builtin_expect(in2 == -1, 0)) {
+    // The minimum value divided by -1 wraps around instead of a trap
+    *out = (int32_t)(0 - (uint32_t)in1);
+  }
   else {
     *out = in1 / in2;
   }
@@ -225,6 +229,10 @@ static inline void SPVM_IMPLEMENT_DIVIDE_LONG(SPVM_ENV* env, SPVM_VALUE* stack,
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  else if (__builtin_expect(in2 == -1, 0)) {
+    // The minimum value divided by -1 wraps around instead of a trap
+    *out = (int64_t)(0 - (uint64_t)in1);
+  }
   else {
     *out = in1 / in2;
   }
@@ -262,6 +270,10 @@ static inline void SPVM_IMPLEMENT_MODULO_INT(SPVM_ENV* env, SPVM_VALUE* stack, i
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  else if (__builtin_expect(in2 == -1, 0)) {
+    // The minimum value modulo -1 is 0 instead of a trap
+    *out = 0;
+  }
   else {
     int32_t ret = in1 % in2;
     if ((in1 < 0) != (in2 < 0) && ret) { ret += in2; }
@@ -275,6 +287,10 @@ static inline void SPVM_IMPLEMENT_MODULO_LONG(SPVM_ENV* env, SPVM_VALUE* stack,
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  else if (__builtin_expect(in2 == -1, 0)) {
+    // The minimum value modulo -1 is 0 instead of a trap
+    *out = 0;
+  }
   else {
     int64_t ret = in1 % in2;
     if ((in1 < 0) != (in2 < 0) && ret) { ret += in2; }
-- 
2.43.0


From a0272b7d6cbf7c141d1317566b323f471decdd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 02/58] fix: the conversion of an undefined byte[] to string
 returns undef

---
 lib/SPVM/Builder/include/spvm_implement.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index a90b086..838194c 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -2238,10 +2238,16 @@ static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_STRING_TO_BYTE_ARRAY(SPVM_ENV*
 }
 
 static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_ARRAY_TO_STRING(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* src_byte_array) {
-  int32_t src_byte_array_length = env->length(env, stack, src_byte_array);
-  int8_t* src_byte_array_data = env->get_elems_byte(env, stack, src_byte_array);
-  void* string = env->new_string_no_mortal(env, stack, (const char*)src_byte_array_data, src_byte_array_length);
-  env->assign_object(env, stack, out, string);
+
+  if (src_byte_array) {
+    int32_t src_byte_array_length = env->length(env, stack, src_byte_array);
+    int8_t* src_byte_array_data = env->get_elems_byte(env, stack, src_byte_array);
+    void* string = env->new_string_no_mortal(env, stack, (const char*)src_byte_array_data, src_byte_array_length);
+    env->assign_object(env, stack, out, string);
+  }
+  else {
+    env->assign_object(env, stack, out, NULL);
+  }
 }
 
 static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_TO_BYTE_OBJECT(SPVM_ENV* env, SPVM_VALUE* stack, void** out, int8_t value, int32_t object_data_offset) {
-- 
2.43.0


From 714bb748d2507c62b0db6c5e6c1fa4cc7a5a5ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 03/58] fix: the size of a multi-numeric array no longer
 overflows and a negative length is refused

---
 lib/SPVM/Builder/src/spvm_api.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 567c659..9cb1384 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -4050,6 +4050,10 @@ SPVM_OBJECT* SPVM_API_new_muldim_array(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RU
 
 SPVM_OBJECT* SPVM_API_new_mulnum_array_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTIME_BASIC_TYPE* basic_type, int32_t length) {
   
+  if (length < 0) {
+    return NULL;
+  }
+  
   SPVM_RUNTIME* runtime = env->runtime;
   
   // valut_t array dimension must be 1
@@ -4083,7 +4087,7 @@ SPVM_OBJECT* SPVM_API_new_mulnum_array_no_mortal(SPVM_ENV* env, SPVM_VALUE* stac
     assert(0);
   }
   
-  size_t alloc_size = (size_t)SPVM_API_RUNTIME_get_object_data_offset(env->runtime) + unit_size * fields_length * (length + 1);
+  size_t alloc_size = (size_t)SPVM_API_RUNTIME_get_object_data_offset(env->runtime) + (size_t)unit_size * fields_length * ((size_t)length + 1);
   
   SPVM_OBJECT* object = SPVM_API_new_object_common(env, stack, alloc_size, basic_type, 1, length, 0);
   
-- 
2.43.0


From 3509751761f7e852c49a1ba42d459e9cb718356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 04/58] fix: overflowing integer arithmetic in precompiled
 methods wraps around as it does in the interpreter

---
 lib/SPVM/Builder/include/spvm_implement.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index 838194c..c0f08ae 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -184,25 +184,25 @@ static inline void SPVM_IMPLEMENT_LEAVE_SCOPE(SPVM_ENV* env, SPVM_VALUE* stack,
   env->api->internal->leave_scope_local(env, stack, object_vars, mortal_stack, mortal_stack_top_ptr, original_mortal_stack_top);
 }
 
-#define SPVM_IMPLEMENT_ADD_INT(out, in1, in2) (out = in1 + in2)
+#define SPVM_IMPLEMENT_ADD_INT(out, in1, in2) (out = (int32_t)((uint32_t)in1 + (uint32_t)in2))
 
-#define SPVM_IMPLEMENT_ADD_LONG(out, in1, in2) (out = in1 + in2)
+#define SPVM_IMPLEMENT_ADD_LONG(out, in1, in2) (out = (int64_t)((uint64_t)in1 + (uint64_t)in2))
 
 #define SPVM_IMPLEMENT_ADD_FLOAT(out, in1, in2) (out = in1 + in2)
 
 #define SPVM_IMPLEMENT_ADD_DOUBLE(out, in1, in2) (out = in1 + in2)
 
-#define SPVM_IMPLEMENT_SUBTRACT_INT(out, in1, in2) (out = in1 - in2)
+#define SPVM_IMPLEMENT_SUBTRACT_INT(out, in1, in2) (out = (int32_t)((uint32_t)in1 - (uint32_t)in2))
 
-#define SPVM_IMPLEMENT_SUBTRACT_LONG(out, in1, in2) (out = in1 - in2)
+#define SPVM_IMPLEMENT_SUBTRACT_LONG(out, in1, in2) (out = (int64_t)((uint64_t)in1 - (uint64_t)in2))
 
 #define SPVM_IMPLEMENT_SUBTRACT_FLOAT(out, in1, in2) (out = in1 - in2)
 
 #define SPVM_IMPLEMENT_SUBTRACT_DOUBLE(out, in1, in2) (out = in1 - in2)
 
-#define SPVM_IMPLEMENT_MULTIPLY_INT(out, in1, in2) (out = in1 * in2)
+#define SPVM_IMPLEMENT_MULTIPLY_INT(out, in1, in2) (out = (int32_t)((uint32_t)in1 * (uint32_t)in2))
 
-#define SPVM_IMPLEMENT_MULTIPLY_LONG(out, in1, in2) (out = in1 * in2)
+#define SPVM_IMPLEMENT_MULTIPLY_LONG(out, in1, in2) (out = (int64_t)((uint64_t)in1 * (uint64_t)in2))
 
 #define SPVM_IMPLEMENT_MULTIPLY_FLOAT(out, in1, in2) (out = in1 * in2)
 
@@ -427,8 +427,8 @@ static inline void SPVM_IMPLEMENT_MOVE_OBJECT_CHECK_READ_ONLY_STRING(SPVM_ENV* e
 
 #define SPVM_IMPLEMENT_BIT_NOT_INT(out, in) (out = ~in)
 #define SPVM_IMPLEMENT_BIT_NOT_LONG(out, in) (out = ~in)
-#define SPVM_IMPLEMENT_NEGATE_INT(out, in) (out = -in)
-#define SPVM_IMPLEMENT_NEGATE_LONG(out, in) (out = -in)
+#define SPVM_IMPLEMENT_NEGATE_INT(out, in) (out = (int32_t)(0 - (uint32_t)in))
+#define SPVM_IMPLEMENT_NEGATE_LONG(out, in) (out = (int64_t)(0 - (uint64_t)in))
 #define SPVM_IMPLEMENT_NEGATE_FLOAT(out, in) (out = -in)
 #define SPVM_IMPLEMENT_NEGATE_DOUBLE(out, in) (out = -in)
 
-- 
2.43.0


From bfa6a5e6aa6ea35b117521db13899ed203b55917 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 21:18:07 +0000
Subject: [PATCH 05/58] fix: an exception thrown before a nested eval block
 goes to the end of its own eval block

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 0c82b47..a833dfd 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -263,6 +263,9 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
       
       SPVM_LIST* return_opcode_index_stack = SPVM_LIST_new(compiler->current_each_compile_allocator, 0, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP);
       
+      // Start bases of the jumps to the end of eval for each eval block
+      SPVM_LIST* eval_block_stack_goto_end_of_eval_base = SPVM_LIST_new(compiler->current_each_compile_allocator, 0, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP);
+      
       SPVM_LIST* goto_end_of_eval_on_exception_opcode_index_stack = SPVM_LIST_new(compiler->current_each_compile_allocator, 0, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP);
       
       SPVM_LIST* goto_end_of_method_on_exception_opcode_index_stack = SPVM_LIST_new(compiler->current_each_compile_allocator, 0, SPVM_ALLOCATOR_C_ALLOC_TYPE_TMP);
@@ -314,6 +317,10 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
               int32_t opcode_index = opcode_list->length;
               
               SPVM_LIST_push(eval_block_stack_goto_opcode_index, (void*)(intptr_t)opcode_index);
+              
+              // The jumps that exist here belong to the outer eval blocks
+              int32_t goto_end_of_eval_base = goto_end_of_eval_on_exception_opcode_index_stack->length;
+              SPVM_LIST_push(eval_block_stack_goto_end_of_eval_base, (void*)(intptr_t)goto_end_of_eval_base);
 
               // Set exception var to undef in eval block start
               {
@@ -439,7 +446,9 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                 }
                 else if (block->id == SPVM_BLOCK_C_ID_EVAL) {
                   // Set IF_EXCEPTION_CATCH opcode index
-                  while (goto_end_of_eval_on_exception_opcode_index_stack->length > 0) {
+                  int32_t goto_end_of_eval_base = (intptr_t)SPVM_LIST_pop(eval_block_stack_goto_end_of_eval_base);
+                  
+                  while (goto_end_of_eval_on_exception_opcode_index_stack->length > goto_end_of_eval_base) {
                     int32_t goto_end_of_eval_on_exception_goto_opcode_index = (intptr_t)SPVM_LIST_pop(goto_end_of_eval_on_exception_opcode_index_stack);
                     
                     SPVM_OPCODE* goto_end_of_eval_on_exception_goto = (opcode_list->values + goto_end_of_eval_on_exception_goto_opcode_index);
@@ -5079,6 +5088,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
       SPVM_LIST_free(break_opcode_index_stack);
       SPVM_LIST_free(next_opcode_index_stack);
       SPVM_LIST_free(eval_block_stack_goto_opcode_index);
+      SPVM_LIST_free(eval_block_stack_goto_end_of_eval_base);
       SPVM_LIST_free(goto_end_of_eval_on_exception_opcode_index_stack);
       SPVM_LIST_free(goto_end_of_method_on_exception_opcode_index_stack);
       SPVM_LIST_free(return_opcode_index_stack);
-- 
2.43.0


From d4cde1b6d138d464b834ede0796e6422d210b599 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 21:18:07 +0000
Subject: [PATCH 06/58] fix: an undefined message of the die statement is set
 to "Error"

---
 lib/SPVM/Builder/src/spvm_api.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 9cb1384..bdc2f5b 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3129,7 +3129,7 @@ SPVM_OBJECT* SPVM_API_get_compile_type_name(SPVM_ENV* env, SPVM_VALUE* stack, co
 
 SPVM_OBJECT* SPVM_API_new_stack_trace_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* exception, SPVM_RUNTIME_METHOD* method, int32_t line) {
   
-  if (stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival > 100) {
+  if (exception && stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival > 100) {
     return exception;
   }
   
@@ -3146,9 +3146,13 @@ SPVM_OBJECT* SPVM_API_new_stack_trace_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack
   const char* arrow_part = "->";
   const char* at_part = " at ";
   
-  // Exception
-  const char* exception_bytes = SPVM_API_get_chars(env, stack, exception);
-  int32_t exception_length = SPVM_API_length(env, stack, exception);
+  // Exception. The default error message is used if it is undef
+  const char* exception_bytes = "Error";
+  int32_t exception_length = strlen(exception_bytes);
+  if (exception) {
+    exception_bytes = SPVM_API_get_chars(env, stack, exception);
+    exception_length = SPVM_API_length(env, stack, exception);
+  }
   
   // Total string length
   int32_t total_length = 0;
-- 
2.43.0


From 274246b6966760d47f6fca454e187959f4be6706 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 21:18:26 +0000
Subject: [PATCH 07/58] fix: the cast of an object that is not a string to the
 mutable string type throws an exception

---
 lib/SPVM/Builder/include/spvm_implement.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index c0f08ae..109ca59 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -413,7 +413,12 @@ static inline void SPVM_IMPLEMENT_MOVE_OBJECT_WITH_TYPE_CHECK(SPVM_ENV* env, SPV
 static inline void SPVM_IMPLEMENT_MOVE_OBJECT_CHECK_READ_ONLY_STRING(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* in, int32_t* error_id) {
   
   void* string = in;
-  if (env->is_string(env, stack, string) && env->is_read_only(env, stack, string)) {
+  if (string && !env->is_string(env, stack, string)) {
+    void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_ASSIGN_NON_ASSIGNABLE_TYPE]);
+    env->set_exception(env, stack, exception);
+    *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
+  }
+  else if (string && env->is_read_only(env, stack, string)) {
     void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_ASSIGN_READ_ONLY_STRING_TO_MUTABLE_TYPE]);
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
-- 
2.43.0


From 80e74dcd0eb2e09d10f2184daa941fd89e85cef6 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 21:18:26 +0000
Subject: [PATCH 08/58] fix: the isa_error operator returns 0 for an ID that is
 not a basic type ID

---
 lib/SPVM/Builder/include/spvm_implement.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index 109ca59..cebfb18 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -1389,7 +1389,12 @@ static inline void SPVM_IMPLEMENT_ISA(SPVM_ENV* env, SPVM_VALUE* stack, int32_t*
 }
 
 static inline void SPVM_IMPLEMENT_ISA_ERROR(SPVM_ENV* env, SPVM_VALUE* stack, int32_t* out, void* src_basic_type, void* dist_basic_type, int32_t dist_type_dimension) {
-  *out = env->api->type->can_assign(env->runtime, dist_basic_type, dist_type_dimension, 0, src_basic_type, 0, 0);
+  if (src_basic_type) {
+    *out = env->api->type->can_assign(env->runtime, dist_basic_type, dist_type_dimension, 0, src_basic_type, 0, 0);
+  }
+  else {
+    *out = 0;
+  }
 }
 
 static inline void SPVM_IMPLEMENT_IS_TYPE(SPVM_ENV* env, SPVM_VALUE* stack, int32_t* out, void* object, void* dist_basic_type, int32_t dist_type_dimension) {
-- 
2.43.0


From 8a0fd2c7504c3360ffbb441455b54c7195613590 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 09/58] fix: a call without an argument that only the called
 method requires throws an exception

---
 lib/SPVM/Builder/src/spvm_api.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index bdc2f5b..29f9bf9 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -4821,6 +4821,10 @@ int32_t SPVM_API_call_method_common(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTI
         int32_t stack_index = arg->stack_index;
         
         if (!(stack_index < args_width)) {
+          // The argument can be optional in the interface method or the parent method by which this method is called
+          if (arg_index > 0 && arg_index < method->required_args_length) {
+            error_id = SPVM_API_die(env, stack, "Too few arguments are given to the \"%s\" method in the \"%s\" class.", method->name, current_basic_type->name, __func__, FILE_NAME, __LINE__);
+          }
           break;
         }
         
-- 
2.43.0


From 3fcac632986346e3c705b575d2c03a28eed10e3a Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 10/58] fix: the compiler does not fail an assertion on the
 compile_type_name operator

---
 lib/SPVM/Builder/src/spvm_check.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 1c582fd..1dbbf08 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -1459,6 +1459,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             
             SPVM_TYPE* operand_type = SPVM_CHECK_get_type(compiler, op_operand);
             const char* type_name = SPVM_TYPE_new_type_name(compiler, operand_type->basic_type->id, operand_type->dimension, operand_type->flag);
+            SPVM_BASIC_TYPE_add_constant_string(compiler, basic_type, type_name, strlen(type_name));
             SPVM_OP* op_stab = SPVM_OP_cut_op(compiler, op_cur);
             SPVM_OP* op_constant_string = SPVM_OP_new_op_constant_string(compiler, type_name, strlen(type_name), op_cur->file, op_cur->line);
             SPVM_OP_replace_op(compiler, op_stab, op_constant_string);
-- 
2.43.0


From 14fa2209acf8d1fd7eec72431f3bb4c9702742b1 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 11/58] fix: the compiler does not fail an assertion on a
 string literal assigned to an object type

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index a833dfd..b3e1bf1 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -2713,7 +2713,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                        
                         SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
                       }
-                      else if (SPVM_TYPE_is_string_type(compiler, type_dist->basic_type->id, type_dist->dimension, type_dist->flag)) {
+                      else if (SPVM_TYPE_is_object_type(compiler, type_dist->basic_type->id, type_dist->dimension, type_dist->flag)) {
                         SPVM_OPCODE opcode = {0};
                         
                         
-- 
2.43.0


From 4925dd3366b70ee4658a2f0327cd2e7853e11d60 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 12/58] fix: the tokenizer scans numeric literals without
 digits or with a following sign correctly

---
 lib/SPVM/Builder/src/spvm_toke.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 041114c..96a4501 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1688,7 +1688,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
           
           // Scan Hex number
           if (digit == 16) {
-            compiler->ch_ptr += 2;
+            compiler->ch_ptr ++;
             while(
               SPVM_TOKE_is_hex_number(compiler, *compiler->ch_ptr) || *compiler->ch_ptr == '_'
               || *compiler->ch_ptr == '.' || *compiler->ch_ptr == 'p' || *compiler->ch_ptr == 'P' || *compiler->ch_ptr == '-' || *compiler->ch_ptr == '+'
@@ -1706,6 +1706,9 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
                 is_hex_floating_number = 1;
                 before_is_exponant = 1;
               }
+              else if (*compiler->ch_ptr != '_') {
+                before_is_exponant = 0;
+              }
               compiler->ch_ptr++;
             }
           }
@@ -1735,8 +1738,13 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
               // Floating point literal
               if (*compiler->ch_ptr == '.' || *compiler->ch_ptr == 'e' || *compiler->ch_ptr == 'E') {
                 is_floating_number = 1;
+              }
+              if (*compiler->ch_ptr == 'e' || *compiler->ch_ptr == 'E') {
                 before_is_exponant = 1;
               }
+              else if (*compiler->ch_ptr != '_') {
+                before_is_exponant = 0;
+              }
               compiler->ch_ptr++;
             }
           }
@@ -1830,7 +1838,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             
             char *end;
             uint64_t num_uint64_nosign = strtoull(numeric_literal + parse_start_offset, &end, digit);
-            if (*end != '\0') {
+            if (*end != '\0' || ((digit == 16 || digit == 2) && end == numeric_literal + parse_start_offset)) {
               out_of_range = 1;
             }
             else if (errno == ERANGE) {
@@ -1894,7 +1902,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             
             char *end;
             uint64_t num_uint64_nosign = strtoull(numeric_literal + parse_start_offset, &end, digit);
-            if (*end != '\0') {
+            if (*end != '\0' || ((digit == 16 || digit == 2) && end == numeric_literal + parse_start_offset)) {
               invalid = 1;
             }
             else if (errno == ERANGE) {
-- 
2.43.0


From 9da8d709d934f5b6c6ffec1a39e3dae4ad846492 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 13/58] fix: a closing brace after a variable expansion does
 not make the tokenizer loop forever

---
 lib/SPVM/Builder/src/spvm_toke.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 96a4501..be17216 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1050,8 +1050,8 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
                     else if (*next_string_literal_ch_ptr == '}') {
                       if (var_have_brace) {
                         next_string_literal_ch_ptr++;
-                        break;
                       }
+                      break;
                     }
                     else {
                       break;
-- 
2.43.0


From d6ab43bbabe7ae717579069d5c139a555aefe074 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 14/58] fix: the tokenizer does not read beyond a source that
 ends in a string or character literal

---
 lib/SPVM/Builder/src/spvm_toke.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index be17216..034f55a 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -948,12 +948,16 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             }
             else {
               SPVM_COMPILER_error(compiler, "\"\\%c\" is the invalid charater literal escape character.\n  at %s line %d", *compiler->ch_ptr, compiler->current_file, compiler->current_line);
-              compiler->ch_ptr++;
+              if (*compiler->ch_ptr != '\0') {
+                compiler->ch_ptr++;
+              }
             }
           }
           else {
             ch = *compiler->ch_ptr;
-            compiler->ch_ptr++;
+            if (*compiler->ch_ptr != '\0') {
+              compiler->ch_ptr++;
+            }
           }
             
           if (*compiler->ch_ptr == '\'') {
@@ -1145,7 +1149,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             }
             else {
               // Escape is always 2 characters
-              if (*compiler->ch_ptr == '\\') {
+              if (*compiler->ch_ptr == '\\' && *(compiler->ch_ptr + 1) != '\0') {
                 compiler->ch_ptr += 2;
               }
               else {
@@ -1572,7 +1576,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
               }
               else {
                 // Escape character
-                if (*compiler->ch_ptr == '\\') {
+                if (*compiler->ch_ptr == '\\' && *(compiler->ch_ptr + 1) != '\0') {
                   compiler->ch_ptr += 2;
                 }
                 else {
-- 
2.43.0


From d6c432310729d28a2cc314e4f72b53855f328d59 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 15/58] fix: a compilation after a failed compilation starts
 with a fresh tokenizer state

---
 lib/SPVM/Builder/src/spvm_compiler.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 85365dd..91e039f 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -216,6 +216,21 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   SPVM_yydebug = 0;
 #endif
 
+  // The tokenizer starts from scratch. A failed compilation leaves its state in the middle of a class file that is already freed.
+  compiler->current_class_content = NULL;
+  compiler->current_class_content_length = 0;
+  compiler->ch_ptr = NULL;
+  compiler->token_begin_ch_ptr = NULL;
+  compiler->line_begin_ch_ptr = NULL;
+  compiler->line_begin_after_shebang_line_ch_ptr = NULL;
+  compiler->next_string_literal_ch_ptr = NULL;
+  compiler->expect_method_name = 0;
+  compiler->expect_field_name = 0;
+  compiler->before_token_is_arrow = 0;
+  compiler->previous_token_is_heredoc = 0;
+  compiler->var_expansion_state = 0;
+  compiler->current_enum_value = 0;
+  
   compiler->end_of_file = 1;
   
   int32_t yyparse_error_id = SPVM_yyparse(compiler);
-- 
2.43.0


From 0368847d0038e9597ea4615d202625fdaa3b33bc Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:54:22 +0000
Subject: [PATCH 16/58] fix: the class file of a class whose compilation failed
 before its basic type was added is forgotten

---
 lib/SPVM/Builder/src/spvm_compiler.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 91e039f..8b91358 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -276,6 +276,13 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
       SPVM_HASH_set(compiler->basic_type_symtable, basic_type->name, strlen(basic_type->name), NULL);
     }
     
+    // The class file whose tokenizing failed before its basic type was added
+    if (basic_type_name && !SPVM_HASH_get(compiler->basic_type_symtable, basic_type_name, strlen(basic_type_name))) {
+      if (SPVM_COMPILER_get_class_file(compiler, basic_type_name)) {
+        SPVM_COMPILER_delete_class_file(compiler, basic_type_name);
+      }
+    }
+    
     compiler->eval_anon_classes_length = original_eval_anon_classes_length;
     
     compiler->basic_types->length = compiler_basic_types_base_id;
-- 
2.43.0


From fec6ee586559a227c92559b28715e0dd05eeb336 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 17/58] fix: an anon method in an anon class is compiled
 instead of dereferencing a null pointer

---
 lib/SPVM/Builder/src/spvm_op.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index ca211f0..fa701f5 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -258,8 +258,11 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
   
   const char* basic_type_name;
   
+  // The class generated by an anon method
+  int32_t is_class_generated_by_anon_method = op_type && strstr(op_type->uv.type->unresolved_basic_type_name, "::anon_method::");
+  
   // Anon class
-  if (strstr(compiler->current_outmost_class_name, "::anon_class::")) {
+  if (!is_class_generated_by_anon_method && strstr(compiler->current_outmost_class_name, "::anon_class::")) {
     if (op_type) {
       SPVM_COMPILER_error(compiler, "An anon class cannot have its class name.\n  at %s line %d", op_class->file, op_class->line);
       return op_class;
-- 
2.43.0


From 54ef26a2fca9d0fb067bc44f9a50609558c84eb4 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 18/58] fix: a special assignment to the exception variable
 does not dereference a null pointer

---
 lib/SPVM/Builder/src/spvm_op.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index fa701f5..9d32b22 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -2664,9 +2664,13 @@ SPVM_OP* SPVM_OP_build_special_assign(SPVM_COMPILER* compiler, SPVM_OP* op_speci
   
   if (op_dist->id == SPVM_OP_C_ID_VAR || op_dist->id == SPVM_OP_C_ID_EXCEPTION_VAR) {
     SPVM_OP_build_assign(compiler, op_assign_save_old, op_var_old, op_dist);
-    SPVM_OP* op_var = op_dist;
-    SPVM_OP* op_var_clone = SPVM_OP_clone_op_var(compiler, op_var);
-    SPVM_OP* op_dist_clone = op_var_clone;
+    SPVM_OP* op_dist_clone;
+    if (op_dist->id == SPVM_OP_C_ID_EXCEPTION_VAR) {
+      op_dist_clone = SPVM_OP_new_op(compiler, SPVM_OP_C_ID_EXCEPTION_VAR, op_dist->file, op_dist->line);
+    }
+    else {
+      op_dist_clone = SPVM_OP_clone_op_var(compiler, op_dist);
+    }
     SPVM_OP_build_assign(compiler, op_assign_update, op_dist_clone, op_culc);
   }
   else if (op_dist->id == SPVM_OP_C_ID_DEREFERENCE) {
-- 
2.43.0


From 5864f8cd08454c311942ef4938c4a01334886004 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 19/58] fix: a class without a name or with a lower case name
 in a class file is a compilation error instead of a crash

---
 lib/SPVM/Builder/src/spvm_op.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 9d32b22..ddf6113 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -275,6 +275,11 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
   }
   // Class
   else {
+    if (!op_type) {
+      SPVM_COMPILER_error(compiler, "A class must have its class name.\n  at %s line %d", op_class->file, op_class->line);
+      return op_class;
+    }
+    
     basic_type_name = op_type->uv.type->unresolved_basic_type_name;
   }
   
@@ -330,8 +335,6 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
   }
   
   if (!(basic_type->is_anon || basic_type->is_generated_by_anon_method)) {
-    assert(!islower(basic_type_name[0]));
-    
     // If class name is different from the class name corresponding to the class file, compile error occur.
     if (strcmp(basic_type_name, compiler->current_outmost_class_name) != 0) {
       SPVM_COMPILER_error(compiler, "The class name \"%s\" must be \"%s\".\n  at %s line %d", basic_type_name, compiler->current_outmost_class_name, op_class->file, op_class->line);
-- 
2.43.0


From 96d7eab51be58f3c150bfd6c9ac816b7f92285ba Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 01:53:55 +0000
Subject: [PATCH 20/58] fix: Fn#memcpy and Fn#memmove reject negative offsets
 and ranges whose end overflows int

---
 lib/SPVM/Fn.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Fn.c b/lib/SPVM/Fn.c
index d173bb3..0b874e8 100644
--- a/lib/SPVM/Fn.c
+++ b/lib/SPVM/Fn.c
@@ -384,7 +384,11 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t dest_elem_size = env->get_elem_size(env, stack, obj_dest);
   int32_t dest_byte_length = dest_elem_size * dest_length;
   
-  if (!(dest_offset + length <= dest_byte_length)) {
+  if (!(dest_offset >= 0)) {
+    return env->die(env, stack, "The offset $dest_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(length <= dest_byte_length - dest_offset)) {
     return env->die(env, stack, "The offset $dest_offset + the length $length must be less than or equal to the length of the dest $obj_dest.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -393,7 +397,11 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t source_elem_size = env->get_elem_size(env, stack, obj_source);
   int32_t source_byte_length = source_elem_size * source_length;
   
-  if (!(source_offset + length <= source_byte_length)) {
+  if (!(source_offset >= 0)) {
+    return env->die(env, stack, "The offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(length <= source_byte_length - source_offset)) {
     return env->die(env, stack, "The offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -443,7 +451,11 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t dest_elem_size = env->get_elem_size(env, stack, obj_dest);
   int32_t dest_byte_length = dest_elem_size * dest_length;
   
-  if (!(dest_offset + length <= dest_byte_length)) {
+  if (!(dest_offset >= 0)) {
+    return env->die(env, stack, "The offset $dest_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(length <= dest_byte_length - dest_offset)) {
     return env->die(env, stack, "The offset $dest_offset + the length $length must be less than or equal to the length of the dest $obj_dest.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -452,7 +464,11 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t source_elem_size = env->get_elem_size(env, stack, obj_source);
   int32_t source_byte_length = source_elem_size * source_length;
   
-  if (!(source_offset + length <= source_byte_length)) {
+  if (!(source_offset >= 0)) {
+    return env->die(env, stack, "The offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(length <= source_byte_length - source_offset)) {
     return env->die(env, stack, "The offset $source_offset + the length $length must be less than or equal to the length of the source $obj_source.", __func__, FILE_NAME, __LINE__);
   }
   
-- 
2.43.0


From a8f4b7bffb56c64b7d37b02d29378c700e4ea168 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 01:53:55 +0000
Subject: [PATCH 21/58] fix: Fn#equals_string_range checks the range of the
 second string with the second offset and does not overflow

---
 lib/SPVM/Fn.spvm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index af56212..86957dc 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -132,12 +132,12 @@ class Fn {
     }
     
     my $string1_length = length $string1;
-    unless ($string1_offset + $length <= $string1_length) {
+    unless ($length <= $string1_length - $string1_offset) {
       return 0;
     }
     
     my $string2_length = length $string2;
-    unless ($string1_offset + $length <= $string2_length) {
+    unless ($length <= $string2_length - $string2_offset) {
       return 0;
     }
     
-- 
2.43.0


From 1a104ced5fb10f03b50b974d909a9a80b9c5567b Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 01:53:55 +0000
Subject: [PATCH 22/58] fix: Fn#lcfirst and Fn#ucfirst accept an empty string

---
 lib/SPVM/Fn.spvm | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index 86957dc..c2c9df6 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -545,7 +545,9 @@ class Fn {
         $new_string->[0] = $char;
       }
     }
-    Fn->memcpy($new_string, 1, $string, 1, $length - 1);
+    if ($length > 1) {
+      Fn->memcpy($new_string, 1, $string, 1, $length - 1);
+    }
     
     return $new_string;
   }
@@ -1048,7 +1050,9 @@ class Fn {
         $new_string->[0] = $char;
       }
     }
-    Fn->memcpy($new_string, 1, $string, 1, $length - 1);
+    if ($length > 1) {
+      Fn->memcpy($new_string, 1, $string, 1, $length - 1);
+    }
     
     return $new_string;
   }
-- 
2.43.0


From 211e5e25915678b0afc458d61a07edc8ebd6749e Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 01:53:55 +0000
Subject: [PATCH 23/58] fix: the range checks of Fn#init_string, Fn#substr,
 Fn#memset_char and Fn#utf8_substr do not overflow

---
 lib/SPVM/Fn.spvm | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index c2c9df6..61f6673 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -266,7 +266,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ((long)$offset + $length <= $string_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
@@ -815,7 +815,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ((long)$offset + $length <= $string_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
@@ -1103,7 +1103,7 @@ class Fn {
           $range = 0;
         }
         else {
-          if ($current_utf8_offset < $utf8_offset + $utf8_length) {
+          if ($current_utf8_offset < (long)$utf8_offset + $utf8_length) {
             $range = 0;
           }
           else {
@@ -1124,7 +1124,7 @@ class Fn {
     }
     
     if ($utf8_length >= 0) {
-      unless ($utf8_offset + $utf8_length <= $current_utf8_offset) {
+      unless ((long)$utf8_offset + $utf8_length <= $current_utf8_offset) {
         die "The offset \$utf8_offset + the length \$utf8_length must be less than or equal to the UTF-8 length of the string \$string.";
       }
     }
@@ -1269,7 +1269,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ((long)$offset + $length <= $string_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
-- 
2.43.0


From 3284e40d654eddfead97e06423ca07948b729769 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 24/58] fix: Fn#to_int_with_base, Fn#to_long_with_base,
 Fn#to_float, and Fn#to_double reject a string without a number and a string
 with characters after a null character

---
 lib/SPVM/Fn.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Fn.c b/lib/SPVM/Fn.c
index 0b874e8..5c1439c 100644
--- a/lib/SPVM/Fn.c
+++ b/lib/SPVM/Fn.c
@@ -520,11 +520,12 @@ int32_t SPVM__Fn__to_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   }
   
   const char* string = env->get_chars(env, stack, obj_string);
+  int32_t string_length = env->length(env, stack, obj_string);
   
   char *end;
   errno = 0;
   double num = strtod(string, &end);
-  if (*end != '\0') {
+  if (end == string || end != string + string_length) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a double number.", __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
@@ -545,11 +546,12 @@ int32_t SPVM__Fn__to_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   }
   
   const char* string = env->get_chars(env, stack, obj_string);
+  int32_t string_length = env->length(env, stack, obj_string);
   
   char *end;
   errno = 0;
   float num = strtof(string, &end);
-  if (*end != '\0') {
+  if (end == string || end != string + string_length) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a float number.", __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
@@ -575,11 +577,12 @@ int32_t SPVM__Fn__to_int_with_base(SPVM_ENV* env, SPVM_VALUE* stack) {
   }
   
   const char* string = env->get_chars(env, stack, obj_string);
+  int32_t string_length = env->length(env, stack, obj_string);
   
   char *end;
   errno = 0;
   int64_t num = strtol(string, &end, digit);
-  if (*end != '\0') {
+  if (end == string || end != string + string_length) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a %d-digit 32-bit integer", digit, __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE || num < INT32_MIN || num > INT32_MAX) {
@@ -605,11 +608,12 @@ int32_t SPVM__Fn__to_long_with_base(SPVM_ENV* env, SPVM_VALUE* stack) {
   }
   
   const char* string = env->get_chars(env, stack, obj_string);
+  int32_t string_length = env->length(env, stack, obj_string);
   
   char *end;
   errno = 0;
   int64_t num = strtoll(string, &end, digit);
-  if (*end != '\0') {
+  if (end == string || end != string + string_length) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a %d-digit 64-bit integer", digit, __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
-- 
2.43.0


From 4d154fb727d21c75a62ae4f4c6f9652c2b518097 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 02:07:14 +0000
Subject: [PATCH 25/58] fix: Fn#memcmp rejects negative offsets and ranges
 whose end overflows int

---
 lib/SPVM/Fn.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Fn.c b/lib/SPVM/Fn.c
index 5c1439c..4675b3e 100644
--- a/lib/SPVM/Fn.c
+++ b/lib/SPVM/Fn.c
@@ -861,7 +861,11 @@ int32_t SPVM__Fn__memcmp(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t data1_elem_size = env->get_elem_size(env, stack, obj_data1);
   int32_t data1_byte_length = data1_elem_size * data1_length;
   
-  if (!(data1_offset + length <= data1_byte_length)) {
+  if (!(data1_offset >= 0)) {
+    return env->die(env, stack, "The offset $data1_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(length <= data1_byte_length - data1_offset)) {
     return env->die(env, stack, "The offset $data1_offset + the length $length must be less than or equal to the length of the data1 $obj_data1.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -870,7 +874,11 @@ int32_t SPVM__Fn__memcmp(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t data2_elem_size = env->get_elem_size(env, stack, obj_data2);
   int32_t data2_byte_length = data2_elem_size * data2_length;
   
-  if (!(data2_offset + length <= data2_byte_length)) {
+  if (!(data2_offset >= 0)) {
+    return env->die(env, stack, "The offset $data2_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(length <= data2_byte_length - data2_offset)) {
     return env->die(env, stack, "The offset $data2_offset + the length $length must be less than or equal to the length of the data2 $data2.", __func__, FILE_NAME, __LINE__);
   }
   
-- 
2.43.0


From 165bbe0f4dda4427f5dcf0ad307f7c606d0b51c0 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 02:29:31 +0000
Subject: [PATCH 26/58] fix: the range checks of Array methods do not overflow

---
 lib/SPVM/Array.c    | 48 ++++++++++++++++++++++-----------------------
 lib/SPVM/Array.spvm | 42 +++++++++++++++++++--------------------
 2 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/lib/SPVM/Array.c b/lib/SPVM/Array.c
index d7f92a6..69361b2 100644
--- a/lib/SPVM/Array.c
+++ b/lib/SPVM/Array.c
@@ -45,11 +45,11 @@ int32_t SPVM__Array__memcpy_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
   int8_t* source = env->get_elems_byte(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -96,11 +96,11 @@ int32_t SPVM__Array__memcpy_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   double* source = env->get_elems_double(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -147,11 +147,11 @@ int32_t SPVM__Array__memcpy_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   float* source = env->get_elems_float(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -198,11 +198,11 @@ int32_t SPVM__Array__memcpy_int(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t* source = env->get_elems_int(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -249,11 +249,11 @@ int32_t SPVM__Array__memcpy_long(SPVM_ENV* env, SPVM_VALUE* stack) {
   int64_t* source = env->get_elems_long(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -300,11 +300,11 @@ int32_t SPVM__Array__memcpy_short(SPVM_ENV* env, SPVM_VALUE* stack) {
   int16_t* source = env->get_elems_short(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -351,11 +351,11 @@ int32_t SPVM__Array__memmove_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
   int8_t* source = env->get_elems_byte(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -402,11 +402,11 @@ int32_t SPVM__Array__memmove_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   double* source = env->get_elems_double(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -453,11 +453,11 @@ int32_t SPVM__Array__memmove_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   float* source = env->get_elems_float(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -504,11 +504,11 @@ int32_t SPVM__Array__memmove_int(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t* source = env->get_elems_int(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -555,11 +555,11 @@ int32_t SPVM__Array__memmove_long(SPVM_ENV* env, SPVM_VALUE* stack) {
   int64_t* source = env->get_elems_long(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -606,11 +606,11 @@ int32_t SPVM__Array__memmove_short(SPVM_ENV* env, SPVM_VALUE* stack) {
   int16_t* source = env->get_elems_short(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
diff --git a/lib/SPVM/Array.spvm b/lib/SPVM/Array.spvm
index 607e93e..1ff6850 100644
--- a/lib/SPVM/Array.spvm
+++ b/lib/SPVM/Array.spvm
@@ -23,7 +23,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -49,7 +49,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -75,7 +75,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -101,7 +101,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -127,7 +127,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -170,7 +170,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -195,7 +195,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -222,7 +222,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -593,11 +593,11 @@ class Array {
     my $dest_length = @$dest;
     my $source_length = @$source;
     
-    unless ($dest_offset + $length <= $dest_length) {
+    unless ((long)$dest_offset + $length <= $dest_length) {
       die "The destination offset \$dest_offset + the length \$length must be less than or equal to the length of the destination \$dest.";
     }
     
-    unless ($source_offset + $length <= $source_length) {
+    unless ((long)$source_offset + $length <= $source_length) {
       die "The source offset \$source_offset + the length \$length must be less than or equal to the length of the source \$source.";
     }
     
@@ -639,11 +639,11 @@ class Array {
     my $dest_length = @$dest;
     my $source_length = @$source;
     
-    unless ($dest_offset + $length <= $dest_length) {
+    unless ((long)$dest_offset + $length <= $dest_length) {
       die "The destination offset \$dest_offset + the length \$length must be less than or equal to the length of the destination \$dest.";
     }
     
-    unless ($source_offset + $length <= $source_length) {
+    unless ((long)$source_offset + $length <= $source_length) {
       die "The source offset \$source_offset + the length \$length must be less than or equal to the length of the source \$source.";
     }
     
@@ -677,7 +677,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -700,7 +700,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -723,7 +723,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -746,7 +746,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -769,7 +769,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -792,7 +792,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -815,7 +815,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -1100,7 +1100,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -1416,7 +1416,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
-- 
2.43.0


From 7e7bd92fa1654ab11996769e794854f9a29a2621 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 02:29:31 +0000
Subject: [PATCH 27/58] fix: the range checks of the replace methods of the
 list classes do not overflow

---
 lib/SPVM/ByteList.spvm   | 2 +-
 lib/SPVM/DoubleList.spvm | 2 +-
 lib/SPVM/FloatList.spvm  | 2 +-
 lib/SPVM/IntList.spvm    | 2 +-
 lib/SPVM/List.spvm       | 2 +-
 lib/SPVM/LongList.spvm   | 2 +-
 lib/SPVM/ShortList.spvm  | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/SPVM/ByteList.spvm b/lib/SPVM/ByteList.spvm
index dac6c47..9924853 100644
--- a/lib/SPVM/ByteList.spvm
+++ b/lib/SPVM/ByteList.spvm
@@ -157,7 +157,7 @@ class ByteList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ((long)$offset + $remove_length <= $self->{length}) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/DoubleList.spvm b/lib/SPVM/DoubleList.spvm
index bb064de..528de22 100644
--- a/lib/SPVM/DoubleList.spvm
+++ b/lib/SPVM/DoubleList.spvm
@@ -157,7 +157,7 @@ class DoubleList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ((long)$offset + $remove_length <= $self->{length}) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/FloatList.spvm b/lib/SPVM/FloatList.spvm
index 32fafca..c731a93 100644
--- a/lib/SPVM/FloatList.spvm
+++ b/lib/SPVM/FloatList.spvm
@@ -157,7 +157,7 @@ class FloatList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ((long)$offset + $remove_length <= $self->{length}) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/IntList.spvm b/lib/SPVM/IntList.spvm
index a5a5b18..a7efb83 100644
--- a/lib/SPVM/IntList.spvm
+++ b/lib/SPVM/IntList.spvm
@@ -157,7 +157,7 @@ class IntList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ((long)$offset + $remove_length <= $self->{length}) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index ddee985..d9e57a7 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -187,7 +187,7 @@ class List {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($index + $remove_length <= $self->{length}) {
+    unless ((long)$index + $remove_length <= $self->{length}) {
       die "The index \$index + the removal length \$remove_length must be less than or equal to the length of this list.";
     }
     
diff --git a/lib/SPVM/LongList.spvm b/lib/SPVM/LongList.spvm
index ffaef68..ab797b6 100644
--- a/lib/SPVM/LongList.spvm
+++ b/lib/SPVM/LongList.spvm
@@ -157,7 +157,7 @@ class LongList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ((long)$offset + $remove_length <= $self->{length}) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/ShortList.spvm b/lib/SPVM/ShortList.spvm
index ffaf6c5..05ce9f2 100644
--- a/lib/SPVM/ShortList.spvm
+++ b/lib/SPVM/ShortList.spvm
@@ -157,7 +157,7 @@ class ShortList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ((long)$offset + $remove_length <= $self->{length}) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
-- 
2.43.0


From 3cbc4b11b955764e52d65f2ffd75d02f8301d649 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 02:29:31 +0000
Subject: [PATCH 28/58] fix: List#insert inserts undef

---
 lib/SPVM/List.spvm | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index d9e57a7..d15cf80 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -114,12 +114,9 @@ class List {
     
     my $remove_length = 0;
     
-    my $array = (object[])undef;
+    my $array = Array->new_proto($self->{array}, 1);
     
-    if ($element) {
-      $array = Array->new_array_proto_element($element, 1);
-      $array->[0] = $element;
-    }
+    $array->[0] = $element;
     
     $self->replace($index, $remove_length, $array);
   }
-- 
2.43.0


From dbb2764beab91c4d823c4c9891ff70f855a0f526 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 02:29:31 +0000
Subject: [PATCH 29/58] fix: List#reserve does not throw an exception after
 elements are shifted

---
 lib/SPVM/List.spvm | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index d15cf80..4693e5c 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -381,11 +381,12 @@ class List {
     
     my $offset = $self->{offset};
     
-    Array->memcpy_object_address($new_array, $offset, $array, $offset, $capacity - $offset);
+    Array->memcpy_object_address($new_array, 0, $array, $offset, $capacity - $offset);
     
-    Array->memcpy_object_address($new_array, $capacity, $array, 0, $offset);
+    Array->memcpy_object_address($new_array, $capacity - $offset, $array, 0, $offset);
     
     $self->{array} = $new_array;
+    $self->{offset} = 0;
     $self->{capacity} = $new_capacity;
   }
 }
-- 
2.43.0


From d2659446692f7b5470f3399c2e0ba5e15b7c041f Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 02:29:31 +0000
Subject: [PATCH 30/58] fix: List#remove and List#replace clear the elements
 after the new length

---
 lib/SPVM/List.spvm | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index 4693e5c..3671bd2 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -217,7 +217,10 @@ class List {
       for (my $i = 0; $i < $move_length; $i++) {
         my $element = $self->get($index + $remove_length + $i);
         $self->set($index + $replace_length + $i, $element);
-        $self->set($index + $remove_length + $i, undef);
+      }
+      
+      for (my $i = $new_length; $i < $self->{length}; $i++) {
+        $self->set($i, undef);
       }
     }
     
-- 
2.43.0


From 9f720e73b5db32166eef3a845b3904fa540de1a4 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 02:29:31 +0000
Subject: [PATCH 31/58] fix: the range checks of Sort methods do not overflow

---
 lib/SPVM/Sort.spvm | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/SPVM/Sort.spvm b/lib/SPVM/Sort.spvm
index 7694a53..1e3414a 100644
--- a/lib/SPVM/Sort.spvm
+++ b/lib/SPVM/Sort.spvm
@@ -29,7 +29,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -65,7 +65,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -101,7 +101,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -137,7 +137,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -173,7 +173,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -209,7 +209,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -240,7 +240,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -276,7 +276,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ((long)$offset + $length <= $array_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
-- 
2.43.0


From 0e7ea833f9ac82686d9a231d6530207ab4cfdd05 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 02:29:31 +0000
Subject: [PATCH 32/58] fix: the range checks of StringBuffer#push and
 StringBuffer#replace do not overflow

---
 lib/SPVM/StringBuffer.spvm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/StringBuffer.spvm b/lib/SPVM/StringBuffer.spvm
index c9db6ff..01ffaf8 100644
--- a/lib/SPVM/StringBuffer.spvm
+++ b/lib/SPVM/StringBuffer.spvm
@@ -78,7 +78,7 @@ class StringBuffer {
       $length = length $string - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ((long)$offset + $length <= $string_length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string $string.";
     }
     
@@ -108,7 +108,7 @@ class StringBuffer {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ((long)$offset + $remove_length <= $self->{length}) {
       die "\$offset + \$removing length must be less than or equal to the length of \$string buffer.";
     }
     
-- 
2.43.0


From d8d5142eb719a4c9bd7bd64e76fe02203c56e97b Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:11:52 +0000
Subject: [PATCH 33/58] fix: the operators < and > do not skip the next
 character

---
 lib/SPVM/Builder/src/spvm_toke.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 034f55a..b14d0e8 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -805,7 +805,6 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
         }
         // <
         else {
-          compiler->ch_ptr++;
           SPVM_OP* op = SPVM_TOKE_new_op(compiler, SPVM_OP_C_ID_NUMERIC_COMPARISON_LT);
           yylvalp->opval = op;
           return NUMLT;
@@ -864,7 +863,6 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
         }
         // >
         else {
-          compiler->ch_ptr++;
           SPVM_OP* op = SPVM_TOKE_new_op(compiler, SPVM_OP_C_ID_NUMERIC_COMPARISON_GT);
           yylvalp->opval = op;
           return NUMGT;
-- 
2.43.0


From dd531a3be3c82e96109e19053d5ff1c9d1d64eb5 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:11:52 +0000
Subject: [PATCH 34/58] fix: Hash keeps the weaken flags of its values when it
 grows

---
 lib/SPVM/Hash.spvm | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Hash.spvm b/lib/SPVM/Hash.spvm
index cac90bc..37eef20 100644
--- a/lib/SPVM/Hash.spvm
+++ b/lib/SPVM/Hash.spvm
@@ -699,13 +699,25 @@ class Hash {
     my $entries_length = @{$self->{entries}};
     $new_entries_length = @{$self->{entries}} * 2;
     my $new_entries = new Hash::Entry [$new_entries_length];
-    my $new_keys_length = 0;
     # iterate entries
     for (my $i = 0; $i < $entries_length; ++$i) {
       my $entry = $self->{entries}->[$i];
       while ($entry) {
-        $self->_set_to_container($new_entries, $new_entries_length, \$new_keys_length, $entry->{key}, $entry->{value});
-        $entry = $entry->{next_entry};
+        # Move the entry itself so that a weakened value stays weakened
+        my $next_entry = $entry->{next_entry};
+        $entry->{next_entry} = undef;
+        my $index = $self->_index_by_key($entry->{key}, $new_entries_length);
+        my $last_entry = $new_entries->[$index];
+        if ($last_entry) {
+          while ($last_entry->{next_entry}) {
+            $last_entry = $last_entry->{next_entry};
+          }
+          $last_entry->{next_entry} = $entry;
+        }
+        else {
+          $new_entries->[$index] = $entry;
+        }
+        $entry = $next_entry;
       }
     }
     $self->{entries} = $new_entries;
-- 
2.43.0


From c8932f8967881252b9f31e9b8f7970115571ae40 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:14:38 +0000
Subject: [PATCH 35/58] fix: the buffers for the names of anonymous classes and
 anonymous methods are large enough

---
 lib/SPVM/Builder/src/spvm_compiler.c | 7 ++++---
 lib/SPVM/Builder/src/spvm_op.c       | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 8b91358..d5f63c7 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -186,13 +186,14 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   // Anon class
   if (source) {
     int32_t int32_max_length = 10;
-    int32_t anon_method_basic_type_name_length = 4 + 2 + 4 + 2 + int32_max_length;
+    int32_t anon_basic_type_name_length = strlen("eval::anon_class::") + int32_max_length;
+    int32_t rel_file_length = strlen("eval/anon_class/") + int32_max_length + strlen(".spvm");
     
-    char* anon_basic_type_name = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_method_basic_type_name_length + 1);
+    char* anon_basic_type_name = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_basic_type_name_length + 1);
     sprintf(anon_basic_type_name, "eval::anon_class::%d", compiler->eval_anon_classes_length);
     compiler->eval_anon_classes_length++;
     
-    char* rel_file = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_method_basic_type_name_length + 1);
+    char* rel_file = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, rel_file_length + 1);
     sprintf(rel_file, "eval/anon_class/%d.spvm", compiler->eval_anon_classes_length);
     
     SPVM_COMPILER_set_class_file_with_members(compiler, anon_basic_type_name, rel_file, source);
diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index ddf6113..5383495 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -1673,7 +1673,7 @@ SPVM_OP* SPVM_OP_build_anon_method(SPVM_COMPILER* compiler, SPVM_OP* op_method)
   const char* outmost_basic_type_name = compiler->current_outmost_class_name;
   int32_t anon_method_defined_line = op_method->line;
   int32_t anon_method_defined_column = op_method->column;
-  int32_t anon_method_basic_type_name_length = 6 + strlen(outmost_basic_type_name) + 2 + int32_max_length + 2 + int32_max_length;
+  int32_t anon_method_basic_type_name_length = strlen(outmost_basic_type_name) + strlen("::anon_method::") + int32_max_length + 2 + int32_max_length;
   
   // Anon class name
   char* name_basic_type_tmp = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_method_basic_type_name_length + 1);
-- 
2.43.0


From f35bdc0ca32391e9cf5b94a70c2a1b372890f8bc Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 36/58] fix: the message about an argument is built in a buffer
 that is large enough for any class name and method name

---
 lib/SPVM/Builder/src/spvm_check.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 1dbbf08..4d15f8c 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3120,15 +3120,18 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
                 
                 // Check if source can be assigned to dist
                 // If needed, numeric conversion op is added
-                char place[255];
                 int32_t call_method_args_length_for_user = call_method_args_length;
                 if (!call_method->method->is_class_method) {
                   call_method_args_length_for_user--;
                 }
-                sprintf(place, "the %dth argument of %s#%s method", call_method_args_length_for_user, op_cur->uv.call_method->method->current_basic_type->name, method_name);
+                const char* call_method_class_name = op_cur->uv.call_method->method->current_basic_type->name;
+                int32_t place_length = strlen("the 2147483647th argument of # method") + strlen(call_method_class_name) + strlen(method_name);
+                char* place = SPVM_ALLOCATOR_alloc_memory_block_tmp(compiler->current_each_compile_allocator, place_length + 1);
+                sprintf(place, "the %dth argument of %s#%s method", call_method_args_length_for_user, call_method_class_name, method_name);
                 
                 // Invocant is not checked.
                 op_operand = SPVM_CHECK_check_assign(compiler, arg_var_decl_type, op_operand, place, op_cur->file, op_cur->line);
+                SPVM_ALLOCATOR_free_memory_block_tmp(compiler->current_each_compile_allocator, place);
                 
                 if (SPVM_COMPILER_get_error_messages_length(compiler) > 0) {
                   return;
-- 
2.43.0


From db434699931deedda2badfd1a9eed97e20ad902d Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:25:35 +0000
Subject: [PATCH 37/58] fix: StringBuffer#replace fills the characters behind
 the new length with null characters

---
 lib/SPVM/StringBuffer.spvm | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/SPVM/StringBuffer.spvm b/lib/SPVM/StringBuffer.spvm
index 01ffaf8..4114b1e 100644
--- a/lib/SPVM/StringBuffer.spvm
+++ b/lib/SPVM/StringBuffer.spvm
@@ -127,6 +127,10 @@ class StringBuffer {
       Fn->memcpy($self->{string}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $self->{length}) {
+      Fn->memset_char($self->{string}, '\0', $new_length, $self->{length} - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
-- 
2.43.0


From 3b88894784921d5a339b58e9b280fd8846b1a005 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:25:35 +0000
Subject: [PATCH 38/58] fix: StringBuffer#set does not clear the buffer if the
 string is not defined

---
 lib/SPVM/StringBuffer.spvm | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/SPVM/StringBuffer.spvm b/lib/SPVM/StringBuffer.spvm
index 4114b1e..94ccaef 100644
--- a/lib/SPVM/StringBuffer.spvm
+++ b/lib/SPVM/StringBuffer.spvm
@@ -200,6 +200,10 @@ class StringBuffer {
   
   method set : void ($string : string) {
     
+    unless ($string) {
+      die "The string \$string must be defined.";
+    }
+    
     $self->set_length(0);
     
     $self->push($string);
-- 
2.43.0


From cc92375c86b98ea702561d0ec0fe30590996f8b1 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:26:44 +0000
Subject: [PATCH 39/58] fix: Packer converts the byte order of every element,
 not of the first one again and again

---
 lib/SPVM/Packer.spvm | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Packer.spvm b/lib/SPVM/Packer.spvm
index 45154b1..998029f 100644
--- a/lib/SPVM/Packer.spvm
+++ b/lib/SPVM/Packer.spvm
@@ -256,10 +256,10 @@ class Packer {
         for (my $i = 0; $i < $process_length; $i++) {
           my $binary_part_offset = $size * $i;
           if ($endian == Packer::Specifier->ENDIAN_BIG_ENDIAN) {
-            Fn->system_endian_to_big_endian($binary_part, $size);
+            Fn->system_endian_to_big_endian($binary_part, $size, $binary_part_offset);
           }
           elsif ($endian == Packer::Specifier->ENDIAN_LITTLE_ENDIAN) {
-            Fn->system_endian_to_little_endian($binary_part, $size);
+            Fn->system_endian_to_little_endian($binary_part, $size, $binary_part_offset);
           }
         }
       }
@@ -364,10 +364,10 @@ class Packer {
         for (my $i = 0; $i < $process_length; $i++) {
           my $binary_part_offset = $size * $i;
           if ($endian == Packer::Specifier->ENDIAN_BIG_ENDIAN) {
-            Fn->big_endian_to_system_endian($binary_part, $size);
+            Fn->big_endian_to_system_endian($binary_part, $size, $binary_part_offset);
           }
           elsif ($endian == Packer::Specifier->ENDIAN_LITTLE_ENDIAN) {
-            Fn->little_endian_to_system_endian($binary_part, $size);
+            Fn->little_endian_to_system_endian($binary_part, $size, $binary_part_offset);
           }
         }
       }
-- 
2.43.0


From be83d80efa66193ae51ce8d19b7d4db9780be4d2 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:26:44 +0000
Subject: [PATCH 40/58] fix: Packer#unpack gives two digits for a byte less
 than 0x10 in a hex string

---
 lib/SPVM/Packer.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Packer.spvm b/lib/SPVM/Packer.spvm
index 998029f..4dbfa02 100644
--- a/lib/SPVM/Packer.spvm
+++ b/lib/SPVM/Packer.spvm
@@ -391,7 +391,7 @@ class Packer {
             $int_object_array->[$i] = Int->new($number & 0xFF);
           }
           
-          my $format = Fn->repeat("%x", $process_length);
+          my $format = Fn->repeat("%02x", $process_length);
           
           my $hex_string_part = (mutable string)Fn->sprintf($format, (object[])$int_object_array);
           
-- 
2.43.0


From e48a47969d9774d67dc79b2bbded646a0af37638 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:26:44 +0000
Subject: [PATCH 41/58] fix: Packer processes all bytes of a hex string with a
 wildcard length

---
 lib/SPVM/Packer.spvm | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lib/SPVM/Packer.spvm b/lib/SPVM/Packer.spvm
index 4dbfa02..ce3b6cd 100644
--- a/lib/SPVM/Packer.spvm
+++ b/lib/SPVM/Packer.spvm
@@ -232,10 +232,10 @@ class Packer {
       }
       else {
         $process_length = $length;
-      }
-      
-      if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
-        $process_length = ($process_length + 1) / 2;
+        
+        if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
+          $process_length = (int)(((long)$process_length + 1) / 2);
+        }
       }
       
       my $binary_part_size = $size * $process_length;
@@ -345,9 +345,8 @@ class Packer {
       if ($has_wildcard_length) {
         $process_length = ($binary_length - $binary_offset) / $size;
       }
-      
-      if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
-        $process_length = ($process_length + 1) / 2;
+      elsif ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
+        $process_length = (int)(((long)$length + 1) / 2);
       }
       
       unless ($binary_offset + $size * $process_length <= $binary_length) {
-- 
2.43.0


From eedbb20295f04541d18dcb00cbc2e088403de6cd Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:26:44 +0000
Subject: [PATCH 42/58] fix: the size checks of Packer#pack and Packer#unpack
 do not overflow

---
 lib/SPVM/Packer.spvm | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Packer.spvm b/lib/SPVM/Packer.spvm
index ce3b6cd..0529a3f 100644
--- a/lib/SPVM/Packer.spvm
+++ b/lib/SPVM/Packer.spvm
@@ -238,6 +238,10 @@ class Packer {
         }
       }
       
+      unless ((long)$size * $process_length <= Fn->INT_MAX) {
+        die "The size $size * the process length $process_length must be less than or equal to the max value of int type.";
+      }
+      
       my $binary_part_size = $size * $process_length;
       
       my $copy_size = 0;
@@ -349,7 +353,7 @@ class Packer {
         $process_length = (int)(((long)$length + 1) / 2);
       }
       
-      unless ($binary_offset + $size * $process_length <= $binary_length) {
+      unless ((long)$binary_offset + (long)$size * $process_length <= $binary_length) {
         die "The current offset $binary_offset plus (the size $size * the process length culcuralted by $length of the specifier) must be less than the length($binary_length) of the binary data \$binary.";
       }
       
-- 
2.43.0


From c0e24cf60994a61379215afbc381e64c2a1e8b42 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 43/58] fix: Format#sprintf does not read beyond the end of its
 buffer for a large floating point number

---
 lib/SPVM/Format.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/lib/SPVM/Format.c b/lib/SPVM/Format.c
index 815f2ce..e39ece8 100644
--- a/lib/SPVM/Format.c
+++ b/lib/SPVM/Format.c
@@ -37,15 +37,19 @@ int32_t SPVM__Format___native_snprintf_f(SPVM_ENV* env, SPVM_VALUE* stack) {
     snprintf(specifier, 14, "%%f");
   }
   
-  // "-9223372036854775808" + "." + width + precision
-  int32_t max_length = 20 + 1 + precision;
-  void* obj_formatted_string = env->new_string(env, stack, NULL, max_length);
+  int32_t length = snprintf(NULL, 0, specifier, value);
+  
+  if (length < 0) {
+    return env->die(env, stack, "The formatted string is too long.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  void* obj_formatted_string = env->new_string(env, stack, NULL, length);
   
   char* formatted_string = (char*)env->get_chars(env, stack, obj_formatted_string);
   
-  int32_t length = snprintf(formatted_string, max_length + 1, specifier, value);
+  snprintf(formatted_string, (size_t)length + 1, specifier, value);
   
-  stack[0].oval = env->new_string(env, stack, formatted_string, length);
+  stack[0].oval = obj_formatted_string;
   
   return 0;
 }
@@ -64,15 +68,19 @@ int32_t SPVM__Format___native_snprintf_g(SPVM_ENV* env, SPVM_VALUE* stack) {
     snprintf(specifier, 14, "%%g");
   }
   
-  // "-9223372036854775808" + "." + width + precision
-  int32_t max_length = 20 + 1 + precision;
-  void* obj_formatted_string = env->new_string(env, stack, NULL, max_length);
+  int32_t length = snprintf(NULL, 0, specifier, value);
+  
+  if (length < 0) {
+    return env->die(env, stack, "The formatted string is too long.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  void* obj_formatted_string = env->new_string(env, stack, NULL, length);
   
   char* formatted_string = (char*)env->get_chars(env, stack, obj_formatted_string);
   
-  int32_t length = snprintf(formatted_string, max_length + 1, specifier, value);
+  snprintf(formatted_string, (size_t)length + 1, specifier, value);
   
-  stack[0].oval = env->new_string(env, stack, formatted_string, length);
+  stack[0].oval = obj_formatted_string;
   
   return 0;
 }
-- 
2.43.0


From 5c0a3a65501f5dded5ad85179a52a506d9df31b6 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 44/58] fix: %s of Format#sprintf does not throw an exception
 for an empty string

---
 lib/SPVM/Format.spvm | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Format.spvm b/lib/SPVM/Format.spvm
index 3a7756a..232cc27 100644
--- a/lib/SPVM/Format.spvm
+++ b/lib/SPVM/Format.spvm
@@ -325,10 +325,20 @@ class Format {
   
   static method _push_formatted_string_unsigned : void($buffer : StringBuffer, $formatted_value : string, $width : int, $pad_char : byte, $left_justified : int) {
     
-    # "+" sign is always ignored.
-    my $plus_sign = 0;
+    # The value has no sign. "+" sign is always ignored.
+    my $space_count = $width - length $formatted_value;
+    
+    if ($left_justified) {
+      $buffer->push($formatted_value);
+    }
     
-    &_push_formatted_string_signed($buffer, $formatted_value, $width, $pad_char, $left_justified, $plus_sign);
+    for (; $space_count > 0; --$space_count) {
+      $buffer->push_char($pad_char);
+    }
+    
+    unless ($left_justified) {
+      $buffer->push($formatted_value);
+    }
   }
 
   precompile static method _push_formatted_string_signed : void($buffer : StringBuffer, $formatted_value : string, $width : int, $pad_char : byte, $left_justified : int, $plus_sign : int) {
-- 
2.43.0


From ca0d65b1e04eda1a7afd7b779d45cad099afd980 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 45/58] fix: zero padding of Format#sprintf puts the zeros
 behind the sign

---
 lib/SPVM/Format.spvm | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Format.spvm b/lib/SPVM/Format.spvm
index 232cc27..3d82905 100644
--- a/lib/SPVM/Format.spvm
+++ b/lib/SPVM/Format.spvm
@@ -366,17 +366,30 @@ class Format {
       }
     }
     else {
+      my $sign_length = 0;
+      
+      # Zeros are padded between the sign and the digits
+      if ($pad_char == '0') {
+        if ($is_minus) {
+          $buffer->push_char('-');
+          $sign_length = 1;
+        }
+        elsif ($plus_sign) {
+          $buffer->push_char('+');
+        }
+      }
+      
       if ($space_count > 0) {
         for (; $space_count > 0; --$space_count) {
           $buffer->push_char($pad_char);
         }
       }
       
-      if (!$is_minus && $plus_sign) {
+      if (!$is_minus && $plus_sign && $pad_char != '0') {
         $buffer->push_char('+');
       }
       
-      $buffer->push($formatted_value);
+      $buffer->push($formatted_value, $sign_length);
     }
   }
 }
-- 
2.43.0


From 8b93b9909551560eee7ebff68b9efd5ee3f9a9bb Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:40:13 +0000
Subject: [PATCH 46/58] fix: Array#repeat repeats the whole array the given
 times

It repeated the first count elements as many times as the array has elements, which is wrong if the count and the length are different.
---
 lib/SPVM/Array.spvm | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Array.spvm b/lib/SPVM/Array.spvm
index 1ff6850..1349bd2 100644
--- a/lib/SPVM/Array.spvm
+++ b/lib/SPVM/Array.spvm
@@ -1497,13 +1497,13 @@ class Array {
     my $ret_array = Array->new_proto_any($array, $ret_length);
     
     if (Fn->is_object_array($array)) {
-      for (my $i = 0; $i < $length; $i++) {
-        Array->memcpy_object_address((object[])$ret_array, $count * $i, (object[])$array, 0, $count);
+      for (my $i = 0; $i < $count; $i++) {
+        Array->memcpy_object_address((object[])$ret_array, $length * $i, (object[])$array, 0, $length);
       }
     }
     else {
-      for (my $i = 0; $i < $length; $i++) {
-        Fn->memcpy($ret_array, $elem_size * $count * $i, $array, 0, $elem_size * $count);
+      for (my $i = 0; $i < $count; $i++) {
+        Fn->memcpy($ret_array, $elem_size * $length * $i, $array, 0, $elem_size * $length);
       }
     }
     
-- 
2.43.0


From 141e152abfff5d92b44abcc3db5eaefff70d99c8 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 47/58] fix: Array memcpy and memmove methods check the offsets
 also if the length is 0

The length check was skipped, so that an offset behind the end of the array was accepted.
---
 lib/SPVM/Array.c | 48 ------------------------------------------------
 1 file changed, 48 deletions(-)

diff --git a/lib/SPVM/Array.c b/lib/SPVM/Array.c
index 69361b2..40f53d2 100644
--- a/lib/SPVM/Array.c
+++ b/lib/SPVM/Array.c
@@ -35,10 +35,6 @@ int32_t SPVM__Array__memcpy_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int8_t* dest = env->get_elems_byte(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -86,10 +82,6 @@ int32_t SPVM__Array__memcpy_double(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   double* dest = env->get_elems_double(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -137,10 +129,6 @@ int32_t SPVM__Array__memcpy_float(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   float* dest = env->get_elems_float(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -188,10 +176,6 @@ int32_t SPVM__Array__memcpy_int(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int32_t* dest = env->get_elems_int(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -239,10 +223,6 @@ int32_t SPVM__Array__memcpy_long(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int64_t* dest = env->get_elems_long(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -290,10 +270,6 @@ int32_t SPVM__Array__memcpy_short(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int16_t* dest = env->get_elems_short(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -341,10 +317,6 @@ int32_t SPVM__Array__memmove_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int8_t* dest = env->get_elems_byte(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -392,10 +364,6 @@ int32_t SPVM__Array__memmove_double(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   double* dest = env->get_elems_double(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -443,10 +411,6 @@ int32_t SPVM__Array__memmove_float(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   float* dest = env->get_elems_float(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -494,10 +458,6 @@ int32_t SPVM__Array__memmove_int(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int32_t* dest = env->get_elems_int(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -545,10 +505,6 @@ int32_t SPVM__Array__memmove_long(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int64_t* dest = env->get_elems_long(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -596,10 +552,6 @@ int32_t SPVM__Array__memmove_short(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int16_t* dest = env->get_elems_short(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
-- 
2.43.0


From 399386051fb65eec8757f17a5b0966ba22324c91 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 48/58] fix: Array#equals compares the elements of float and
 double arrays as numbers

It compared their bytes, so that 0.0 and -0.0 were not equal, unlike with equals_float and equals_double.
---
 lib/SPVM/Array.spvm | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/SPVM/Array.spvm b/lib/SPVM/Array.spvm
index 1349bd2..142d281 100644
--- a/lib/SPVM/Array.spvm
+++ b/lib/SPVM/Array.spvm
@@ -1375,6 +1375,12 @@ class Array {
         $equals = &equals_object((object[])$array1, (object[])$array2, EqualityChecker->default_equality_checker);
       }
     }
+    elsif ($array1 isa float[]) {
+      $equals = &equals_float((float[])$array1, (float[])$array2);
+    }
+    elsif ($array1 isa double[]) {
+      $equals = &equals_double((double[])$array1, (double[])$array2);
+    }
     elsif (Fn->is_any_numeric_array($array1)) {
       
       my $length1 = Fn->array_length($array1);
-- 
2.43.0


From 43beb6b0039e35698f68b00affe3f6e1a5da7176 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 04:00:01 +0000
Subject: [PATCH 49/58] fix: a read-only string is not given to a mutable
 string argument through an interface method

An interface method with a string argument can be implemented by a method with a mutable string argument. The run-time type check of the arguments ignored the read-only flag, so that the bytes of a read-only string, even of a string literal, could be changed.
---
 lib/SPVM/Builder/src/spvm_api.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 29f9bf9..647de55 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -4838,6 +4838,11 @@ int32_t SPVM_API_call_method_common(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTI
               error_id = SPVM_API_die(env, stack, "The object given in the %ith argument must be assigned to the type of the %ith argument of the \"%s\" method in the \"%s\" class.", arg_index, arg_index, method->name, current_basic_type->name, __func__, FILE_NAME, __LINE__);
               break;
             }
+            // The interface method or the parent method by which this method is called can have an argument of non-mutable string type
+            if ((arg->type_flag & SPVM_NATIVE_C_TYPE_FLAG_MUTABLE) && SPVM_API_is_read_only(env, stack, obj_arg)) {
+              error_id = SPVM_API_die(env, stack, "The %ith argument of the \"%s\" method in the \"%s\" class is mutable string type, so a read-only string cannot be given to it.", arg_index, method->name, current_basic_type->name, __func__, FILE_NAME, __LINE__);
+              break;
+            }
           }
         }
       }
-- 
2.43.0


From 42c330a5959e7823fb2520bc144ffe4b16cd98b8 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 04:03:50 +0000
Subject: [PATCH 50/58] fix: Immutable::DoubleList#to_array returns the new
 array

It returned the internal array of the immutable list, so that the elements of the list could be changed.
---
 lib/SPVM/Immutable/DoubleList.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Immutable/DoubleList.spvm b/lib/SPVM/Immutable/DoubleList.spvm
index 636d73e..c476272 100644
--- a/lib/SPVM/Immutable/DoubleList.spvm
+++ b/lib/SPVM/Immutable/DoubleList.spvm
@@ -67,6 +67,6 @@ class Immutable::DoubleList {
     
     Array->memcpy_double($new_array, 0, $array, 0, $length);
     
-    return $array;
+    return $new_array;
   }
 }
-- 
2.43.0


From b2c176130b68fa07cb384f7cfd330e0bcae613c6 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 04:11:08 +0000
Subject: [PATCH 51/58] fix: dump of an object array that contains itself does
 not recurse endlessly

---
 lib/SPVM/Builder/src/spvm_api.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 647de55..2fae01a 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3410,6 +3410,17 @@ void SPVM_API_dump_recursive(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* obje
       int32_t array_length = SPVM_API_length(env, stack, object);
       int32_t element_type_dimension = type_dimension - 1;
       
+      // An object array can contain itself
+      if (SPVM_API_is_object_array(env, stack, object)) {
+        snprintf(tmp_buffer, SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE, "%p", SPVM_API_get_object_no_weaken_address(env, stack, object));
+        if (SPVM_HASH_get(address_symtable, tmp_buffer, strlen(tmp_buffer))) {
+          snprintf(tmp_buffer, SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE, "REUSE_OBJECT(%p)", SPVM_API_get_object_no_weaken_address(env, stack, object));
+          SPVM_STRING_BUFFER_add(string_buffer, tmp_buffer);
+          return;
+        }
+        SPVM_HASH_set(address_symtable, tmp_buffer, strlen(tmp_buffer), (void*)(intptr_t)1);
+      }
+      
       SPVM_STRING_BUFFER_add(string_buffer, "[\n");
             
       SPVM_RUNTIME_BASIC_TYPE* object_basic_type = SPVM_API_get_object_basic_type(env, stack, object);
-- 
2.43.0


From 15c18bce60d25357026448bae126be5bb6110d93 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 04:16:27 +0000
Subject: [PATCH 52/58] fix: weaken reports a failed memory allocation instead
 of dereferencing NULL

---
 lib/SPVM/Builder/src/spvm_api.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 2fae01a..6c4c436 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -5042,15 +5042,19 @@ int32_t SPVM_API_weaken(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT** ref) {
           *ref = NULL;
         }
         else {
+          SPVM_WEAKEN_BACKREF* new_weaken_backref = SPVM_API_new_memory_block(env, stack, sizeof(SPVM_WEAKEN_BACKREF));
+          if (new_weaken_backref == NULL) {
+            SPVM_MUTEX_unlock(runtime_mutex);
+            return SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
+          }
+          new_weaken_backref->ref = ref;
+          
           // Weaken is implemented by tag pointer.
           // If pointer most right bit is 1, object is weaken.
           *ref = (SPVM_OBJECT*)((intptr_t)*ref | 1);
           
           SPVM_API_dec_ref_count(env, stack, object);
           
-          SPVM_WEAKEN_BACKREF* new_weaken_backref = SPVM_API_new_memory_block(env, stack, sizeof(SPVM_WEAKEN_BACKREF));
-          new_weaken_backref->ref = ref;
-          
           // Create a new weaken back refference
           if (object->weaken_backref_head == NULL) {
             object->weaken_backref_head = new_weaken_backref;
-- 
2.43.0


From 5cd970e5588c3ce85453cf9597da86bfb176d9ae Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 04:16:46 +0000
Subject: [PATCH 53/58] fix: string concatenation, copy and the conversions
 between string and byte[] throw an exception if the memory allocation fails

---
 lib/SPVM/Builder/include/spvm_implement.h  | 44 ++++++++++++++++++----
 lib/SPVM/Builder/src/spvm_api.c            |  6 +++
 lib/SPVM/Builder/src/spvm_opcode_builder.c |  4 ++
 lib/SPVM/Builder/src/spvm_precompile.c     |  4 +-
 lib/SPVM/Builder/src/spvm_vm.c             |  4 +-
 5 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index cebfb18..013564d 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -452,7 +452,14 @@ static inline void SPVM_IMPLEMENT_STRING_CONCAT(SPVM_ENV* env, SPVM_VALUE* stack
   }
   else {
     void* string3 = env->concat_no_mortal(env, stack, string1, string2);
-    env->assign_object(env, stack, out, string3);
+    if (!string3) {
+      void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_NEW_STRING_FAILED]);
+      env->set_exception(env, stack, exception);
+      *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
+    }
+    else {
+      env->assign_object(env, stack, out, string3);
+    }
   }
 }
 
@@ -1453,7 +1460,14 @@ static inline void SPVM_IMPLEMENT_DUMP(SPVM_ENV* env, SPVM_VALUE* stack, void**
 
 static inline void SPVM_IMPLEMENT_COPY(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* object, int32_t* error_id) {
   void* object_copy = env->copy_no_mortal(env, stack, object);
-  env->assign_object(env, stack, out, object_copy);
+  if (object && !object_copy) {
+    void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_NEW_OBJECT_FAILED]);
+    env->set_exception(env, stack, exception);
+    *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
+  }
+  else {
+    env->assign_object(env, stack, out, object_copy);
+  }
 }
 
 #define SPVM_IMPLEMENT_REF_BYTE(out, in) (out = in)
@@ -2232,28 +2246,42 @@ static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_STRING_TO_DOUBLE(SPVM_ENV* env
   *out = (double)num;
 }
 
-static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_STRING_TO_BYTE_ARRAY(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* src_string) {
+static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_STRING_TO_BYTE_ARRAY(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* src_string, int32_t* error_id) {
   
   if (src_string) {
     int32_t src_string_length = env->length(env, stack, src_string);
     const char* src_string_data = env->get_chars(env, stack, src_string);
     void* byte_array = env->new_byte_array_no_mortal(env, stack, src_string_length);
-    int8_t* byte_array_data = env->get_elems_byte(env, stack, byte_array);
-    memcpy(byte_array_data, src_string_data, src_string_length);
-    env->assign_object(env, stack, out, byte_array);
+    if (!byte_array) {
+      void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_NEW_ARRAY_FAILED]);
+      env->set_exception(env, stack, exception);
+      *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
+    }
+    else {
+      int8_t* byte_array_data = env->get_elems_byte(env, stack, byte_array);
+      memcpy(byte_array_data, src_string_data, src_string_length);
+      env->assign_object(env, stack, out, byte_array);
+    }
   }
   else {
     env->assign_object(env, stack, out, NULL);
   }
 }
 
-static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_ARRAY_TO_STRING(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* src_byte_array) {
+static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_ARRAY_TO_STRING(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* src_byte_array, int32_t* error_id) {
 
   if (src_byte_array) {
     int32_t src_byte_array_length = env->length(env, stack, src_byte_array);
     int8_t* src_byte_array_data = env->get_elems_byte(env, stack, src_byte_array);
     void* string = env->new_string_no_mortal(env, stack, (const char*)src_byte_array_data, src_byte_array_length);
-    env->assign_object(env, stack, out, string);
+    if (!string) {
+      void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_NEW_STRING_FAILED]);
+      env->set_exception(env, stack, exception);
+      *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
+    }
+    else {
+      env->assign_object(env, stack, out, string);
+    }
   }
   else {
     env->assign_object(env, stack, out, NULL);
diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 6c4c436..6f89535 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -4460,6 +4460,9 @@ SPVM_OBJECT* SPVM_API_copy_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJE
   
   if (SPVM_API_is_string(env, stack, object)) {
     new_object = SPVM_API_new_string_no_mortal(env, stack, NULL, length);
+    if (!new_object) {
+      return NULL;
+    }
     
     const char* object_chars = SPVM_API_get_chars(env, stack, object);
     char* new_object_chars = (char*)SPVM_API_get_chars(env, stack, new_object);
@@ -4468,6 +4471,9 @@ SPVM_OBJECT* SPVM_API_copy_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJE
   }
   else if (SPVM_API_is_numeric_array(env, stack, object) || SPVM_API_is_mulnum_array(env, stack, object)) {
     new_object = SPVM_API_new_array_proto_no_mortal(env, stack, object, length);
+    if (!new_object) {
+      return NULL;
+    }
     
     const char* object_bytes = (const char*)SPVM_API_get_elems_byte(env, stack, object);
     char* new_object_bytes = (char*)SPVM_API_get_elems_byte(env, stack, new_object);
diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index b3e1bf1..08c47e0 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -2631,6 +2631,8 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                       
                       SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
                       
+                      SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception(compiler, opcode_list, eval_block_stack_goto_opcode_index->length, goto_end_of_eval_on_exception_opcode_index_stack, goto_end_of_method_on_exception_opcode_index_stack, method->op_method, op_assign->line);
+                      
                       break;
                     }
                     case SPVM_OP_C_ID_MINUS : {
@@ -3123,6 +3125,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                           }
                           else if (SPVM_TYPE_is_byte_array_type(compiler, src_type->basic_type->id, src_type->dimension, src_type->flag)) {
                             SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_TYPE_CONVERSION_BYTE_ARRAY_TO_STRING);
+                            throw_exception = 1;
                           }
                           else if (SPVM_TYPE_is_any_object_type(compiler, src_type->basic_type->id, src_type->dimension, src_type->flag)) {
                             if (cast_type->flag & SPVM_NATIVE_C_TYPE_FLAG_MUTABLE) {
@@ -3167,6 +3170,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                           }
                           else if (SPVM_TYPE_is_string_type(compiler, src_type->basic_type->id, src_type->dimension, src_type->flag)) {
                             SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_TYPE_CONVERSION_STRING_TO_BYTE_ARRAY);
+                            throw_exception = 1;
                           }
                           else if (SPVM_TYPE_is_any_object_type(compiler, src_type->basic_type->id, src_type->dimension, src_type->flag)) {
                             SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_MOVE_OBJECT_WITH_TYPE_CHECK);
diff --git a/lib/SPVM/Builder/src/spvm_precompile.c b/lib/SPVM/Builder/src/spvm_precompile.c
index fdfca4d..176462d 100644
--- a/lib/SPVM/Builder/src/spvm_precompile.c
+++ b/lib/SPVM/Builder/src/spvm_precompile.c
@@ -4337,7 +4337,7 @@ void SPVM_PRECOMPILE_build_method_source(SPVM_PRECOMPILE* precompile, SPVM_STRIN
         
         SPVM_STRING_BUFFER_add(string_buffer, "  SPVM_IMPLEMENT_TYPE_CONVERSION_STRING_TO_BYTE_ARRAY(env, stack, ");
         SPVM_PRECOMPILE_add_operand_address(precompile, string_buffer, SPVM_PRECOMPILE_C_CTYPE_ID_OBJECT, opcode->operand0);
-        SPVM_STRING_BUFFER_add(string_buffer, "  , src_string);\n");
+        SPVM_STRING_BUFFER_add(string_buffer, "  , src_string, &error_id);\n");
         break;
       }
       case SPVM_OPCODE_C_ID_TYPE_CONVERSION_BYTE_ARRAY_TO_STRING: {
@@ -4347,7 +4347,7 @@ void SPVM_PRECOMPILE_build_method_source(SPVM_PRECOMPILE* precompile, SPVM_STRIN
         
         SPVM_STRING_BUFFER_add(string_buffer, "  SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_ARRAY_TO_STRING(env, stack, ");
         SPVM_PRECOMPILE_add_operand_address(precompile, string_buffer, SPVM_PRECOMPILE_C_CTYPE_ID_OBJECT, opcode->operand0);
-        SPVM_STRING_BUFFER_add(string_buffer, "  , src_byte_array);\n");
+        SPVM_STRING_BUFFER_add(string_buffer, "  , src_byte_array, &error_id);\n");
         break;
       }
       case SPVM_OPCODE_C_ID_TYPE_CONVERSION_BYTE_TO_BYTE_OBJECT: {
diff --git a/lib/SPVM/Builder/src/spvm_vm.c b/lib/SPVM/Builder/src/spvm_vm.c
index 63f0cf8..55f201f 100644
--- a/lib/SPVM/Builder/src/spvm_vm.c
+++ b/lib/SPVM/Builder/src/spvm_vm.c
@@ -2069,12 +2069,12 @@ int32_t SPVM_VM_call_method(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTIME_METHO
       }
       case SPVM_OPCODE_C_ID_TYPE_CONVERSION_STRING_TO_BYTE_ARRAY: {
         void* src_string = object_vars[opcode->operand1];
-        SPVM_IMPLEMENT_TYPE_CONVERSION_STRING_TO_BYTE_ARRAY(env, stack, &object_vars[opcode->operand0], src_string);
+        SPVM_IMPLEMENT_TYPE_CONVERSION_STRING_TO_BYTE_ARRAY(env, stack, &object_vars[opcode->operand0], src_string, &error_id);
         break;
       }
       case SPVM_OPCODE_C_ID_TYPE_CONVERSION_BYTE_ARRAY_TO_STRING: {
         void* src_byte_array = object_vars[opcode->operand1];
-        SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_ARRAY_TO_STRING(env, stack, &object_vars[opcode->operand0], src_byte_array);
+        SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_ARRAY_TO_STRING(env, stack, &object_vars[opcode->operand0], src_byte_array, &error_id);
         break;
       }
       case SPVM_OPCODE_C_ID_TYPE_CONVERSION_BYTE_TO_BYTE_OBJECT: {
-- 
2.43.0


From b3a789031c8bf0be720074fe773268b905fa832f Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 04:19:54 +0000
Subject: [PATCH 54/58] fix: type_name of undef releases the previous value of
 the variable

---
 lib/SPVM/Builder/include/spvm_implement.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index 013564d..e94afcc 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -1445,7 +1445,7 @@ static inline void SPVM_IMPLEMENT_WARN(SPVM_ENV* env, SPVM_VALUE* stack, void* s
 
 static inline void SPVM_IMPLEMENT_TYPE_NAME(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* object) {
   if (object == NULL) {
-    *out = NULL;
+    env->assign_object(env, stack, out, NULL);
   }
   else {
     void* type_name = env->get_type_name_no_mortal(env, stack, object);
-- 
2.43.0


From 685dbb56a045fecce9a8635bb21726e5939dd0d0 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 04:24:49 +0000
Subject: [PATCH 55/58] fix: Native::MethodCall#call checks the type dimension
 of an argument object

---
 lib/SPVM/Native/MethodCall.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index 63a968e..c24ee3d 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -249,7 +249,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         int32_t can_assign = env->api->type->can_assign(
           runtime,
           method_arg_basic_type, method_arg_type_dimension, method_arg_type_flag,
-          arg_basic_type, method_arg_type_dimension, 0
+          arg_basic_type, arg_type_dimension, 0
         );
         
         if (!can_assign) {
-- 
2.43.0


From 53174379e7267280e43978353f369671b21767c3 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 04:24:55 +0000
Subject: [PATCH 56/58] fix: Native::MethodCall#call returns the return value
 of the method called on another runtime stack

---
 lib/SPVM/Native/MethodCall.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index c24ee3d..c31e6a8 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -651,11 +651,21 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t method_return_is_object_type = env->api->type->is_object_type(runtime, method_return_basic_type, method_return_type_dimension, method_return_type_flag);
   
   if (method_return_is_object_type) {
-    int32_t is_binary_compatible_object = env->is_binary_compatible_object(env, stack, self_stack[0].oval);
+    void* obj_return_value = self_stack[0].oval;
+    
+    int32_t is_binary_compatible_object = env->is_binary_compatible_object(env, stack, obj_return_value);
     
     if (!is_binary_compatible_object) {
       return env->die(env, stack, "The return object is not binary compatible.", __func__, FILE_NAME, __LINE__);
     }
+    
+    if (self_stack != stack) {
+      if (obj_return_value) {
+        env->push_mortal(env, stack, obj_return_value);
+      }
+      
+      stack[0].oval = obj_return_value;
+    }
   }
   else {
     int32_t method_return_type_is_ref = method_return_type_flag & SPVM_NATIVE_C_TYPE_FLAG_REF;
@@ -666,7 +676,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
       switch (method_return_basic_type_id) {
         case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE : {
           
-          self_stack[0].ival = self_stack[0].bval;
+          stack[0].ival = self_stack[0].bval;
           env->call_class_method_by_name(env, stack, "Byte", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -674,7 +684,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_SHORT : {
           
-          self_stack[0].ival = self_stack[0].sval;
+          stack[0].ival = self_stack[0].sval;
           env->call_class_method_by_name(env, stack, "Short", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -682,6 +692,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_INT : {
           
+          stack[0].ival = self_stack[0].ival;
           env->call_class_method_by_name(env, stack, "Int", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -689,6 +700,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_LONG : {
           
+          stack[0].lval = self_stack[0].lval;
           env->call_class_method_by_name(env, stack, "Long", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -696,6 +708,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_FLOAT : {
           
+          stack[0].fval = self_stack[0].fval;
           env->call_class_method_by_name(env, stack, "Float", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -703,6 +716,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_DOUBLE : {
           
+          stack[0].dval = self_stack[0].dval;
           env->call_class_method_by_name(env, stack, "Double", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -731,7 +745,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].bval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -745,7 +759,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].sval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -759,7 +773,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].ival;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -773,7 +787,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].lval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -787,7 +801,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].fval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -801,7 +815,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].dval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -811,7 +825,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
       }
     }
     else if (method_return_basic_type_category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_VOID) {
-      self_stack[0].oval = NULL;
+      stack[0].oval = NULL;
     }
     else {
       assert(0);
-- 
2.43.0


From 0837b8980aa18ed5c3873b9eb942e6989dada500 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 04:25:04 +0000
Subject: [PATCH 57/58] fix: Native::MethodCall#call returns undef if the
 called method returns undef

---
 lib/SPVM/Native/MethodCall.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index c31e6a8..a23b8de 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -653,10 +653,12 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
   if (method_return_is_object_type) {
     void* obj_return_value = self_stack[0].oval;
     
-    int32_t is_binary_compatible_object = env->is_binary_compatible_object(env, stack, obj_return_value);
-    
-    if (!is_binary_compatible_object) {
-      return env->die(env, stack, "The return object is not binary compatible.", __func__, FILE_NAME, __LINE__);
+    if (obj_return_value) {
+      int32_t is_binary_compatible_object = env->is_binary_compatible_object(env, stack, obj_return_value);
+      
+      if (!is_binary_compatible_object) {
+        return env->die(env, stack, "The return object is not binary compatible.", __func__, FILE_NAME, __LINE__);
+      }
     }
     
     if (self_stack != stack) {
-- 
2.43.0


From 430ea3e7216b7bde40eeeb46b7a15852137d243f Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 04:25:57 +0000
Subject: [PATCH 58/58] fix: get_field_string_chars_by_name reports an
 undefined object and a field that is not an object type

---
 lib/SPVM/Builder/src/spvm_api.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 6f89535..fc2f266 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -2186,14 +2186,7 @@ SPVM_OBJECT* SPVM_API_get_field_string_by_name(SPVM_ENV* env, SPVM_VALUE* stack,
 
 const char* SPVM_API_get_field_string_chars_by_name(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* object, const char* field_name, int32_t* error_id, const char* func_name, const char* file, int32_t line) {
   
-  *error_id = 0;
-  
-  SPVM_RUNTIME_FIELD* field = SPVM_API_get_field(env, stack, object, field_name);
-  if (!field) {
-    *error_id = SPVM_API_die(env, stack, "The \"%s\" field is not found.", field_name, func_name, file, line);
-    return NULL;
-  };
-  SPVM_OBJECT* value = SPVM_API_get_field_string(env, stack, object, field);
+  SPVM_OBJECT* value = SPVM_API_get_field_string_by_name(env, stack, object, field_name, error_id, func_name, file, line);
   if (value == NULL) {
     return NULL;
   }
-- 
2.43.0

