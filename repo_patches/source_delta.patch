From 191787030bdfee15b9f02669236925d9189fb0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 01/79] fix: division and modulo of the minimum integer by -1
 no longer kill the process

---
 lib/SPVM/Builder/include/spvm_implement.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index bb9b843..bcec784 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -214,6 +214,10 @@ static inline void SPVM_IMPLEMENT_DIVIDE_INT(SPVM_ENV* env, SPVM_VALUE* stack, i
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  else if (__builtin_expect(in2 == -1, 0)) {
+    // The quotient of the minimum value overflows in C and traps on some CPUs
+    *out = (int32_t)(0 - (uint32_t)in1);
+  }
   else {
     *out = in1 / in2;
   }
@@ -225,6 +229,10 @@ static inline void SPVM_IMPLEMENT_DIVIDE_LONG(SPVM_ENV* env, SPVM_VALUE* stack,
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  else if (__builtin_expect(in2 == -1, 0)) {
+    // The quotient of the minimum value overflows in C and traps on some CPUs
+    *out = (int64_t)(0 - (uint64_t)in1);
+  }
   else {
     *out = in1 / in2;
   }
@@ -262,6 +270,10 @@ static inline void SPVM_IMPLEMENT_MODULO_INT(SPVM_ENV* env, SPVM_VALUE* stack, i
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  else if (__builtin_expect(in2 == -1, 0)) {
+    // The quotient of the minimum value overflows in C and traps on some CPUs
+    *out = 0;
+  }
   else {
     int32_t ret = in1 % in2;
     if ((in1 < 0) != (in2 < 0) && ret) { ret += in2; }
@@ -275,6 +287,10 @@ static inline void SPVM_IMPLEMENT_MODULO_LONG(SPVM_ENV* env, SPVM_VALUE* stack,
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
+  else if (__builtin_expect(in2 == -1, 0)) {
+    // The quotient of the minimum value overflows in C and traps on some CPUs
+    *out = 0;
+  }
   else {
     int64_t ret = in1 % in2;
     if ((in1 < 0) != (in2 < 0) && ret) { ret += in2; }
-- 
2.43.0


From 03ad35a340a3e1f0a6fd461ef30dff3993d0c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 02/79] fix: an exception in an eval block is no longer caught
 by a following nested eval block

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 0c82b47..36dc2f5 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -438,9 +438,18 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                   }
                 }
                 else if (block->id == SPVM_BLOCK_C_ID_EVAL) {
+                  int32_t eval_block_opcode_index = (intptr_t)SPVM_LIST_get(eval_block_stack_goto_opcode_index, eval_block_stack_goto_opcode_index->length - 1);
+                  
                   // Set IF_EXCEPTION_CATCH opcode index
                   while (goto_end_of_eval_on_exception_opcode_index_stack->length > 0) {
-                    int32_t goto_end_of_eval_on_exception_goto_opcode_index = (intptr_t)SPVM_LIST_pop(goto_end_of_eval_on_exception_opcode_index_stack);
+                    int32_t goto_end_of_eval_on_exception_goto_opcode_index = (intptr_t)SPVM_LIST_get(goto_end_of_eval_on_exception_opcode_index_stack, goto_end_of_eval_on_exception_opcode_index_stack->length - 1);
+                    
+                    // The exceptions thrown before this eval block starts belong to the outer eval block
+                    if (goto_end_of_eval_on_exception_goto_opcode_index < eval_block_opcode_index) {
+                      break;
+                    }
+                    
+                    SPVM_LIST_pop(goto_end_of_eval_on_exception_opcode_index_stack);
                     
                     SPVM_OPCODE* goto_end_of_eval_on_exception_goto = (opcode_list->values + goto_end_of_eval_on_exception_goto_opcode_index);
                     int32_t goto_end_of_eval_on_exception_goto_opcode_base_index = opcode_list->length;
-- 
2.43.0


From 9ffb1a3bec5db193cfde51918b0099c9926cb041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 03/79] fix: a compilation no longer continues in the class
 file the previous compilation failed in

---
 lib/SPVM/Builder/src/spvm_compiler.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 85365dd..d35ee24 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -216,6 +216,19 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   SPVM_yydebug = 0;
 #endif
 
+  // Reset the tokenizer. If the previous compilation failed, it stopped in the middle of a class file.
+  compiler->current_class_content = NULL;
+  compiler->current_class_content_length = 0;
+  compiler->ch_ptr = NULL;
+  compiler->token_begin_ch_ptr = NULL;
+  compiler->line_begin_ch_ptr = NULL;
+  compiler->next_string_literal_ch_ptr = NULL;
+  compiler->expect_method_name = 0;
+  compiler->expect_field_name = 0;
+  compiler->before_token_is_arrow = 0;
+  compiler->previous_token_is_heredoc = 0;
+  compiler->var_expansion_state = 0;
+  
   compiler->end_of_file = 1;
   
   int32_t yyparse_error_id = SPVM_yyparse(compiler);
-- 
2.43.0


From 9aae23a8815560a392af95b933a633acf8682c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:06 +0000
Subject: [PATCH 04/79] fix: class files loaded by a failed compilation are
 forgotten with it

---
 lib/SPVM/Builder/src/spvm_compiler.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index d35ee24..f03770f 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -173,6 +173,8 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   
   compiler->constant_strings_base_id = compiler_constant_strings_base_id;
   
+  int32_t original_class_files_length = compiler->class_files->length;
+  
   if (compiler->basic_types->length == 0) {
     SPVM_COMPILER_add_basic_types(compiler);
     
@@ -263,6 +265,12 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   assert(compiler->current_each_compile_allocator->memory_blocks_count_tmp == compile_start_memory_blocks_count_tmp);
   
   if (error_id) {
+    // Class files added by this compilation. Their basic types are not necessarily created.
+    while (compiler->class_files->length > original_class_files_length) {
+      const char* class_name = SPVM_LIST_get(compiler->class_file_class_names, compiler->class_file_class_names->length - 1);
+      SPVM_COMPILER_delete_class_file(compiler, class_name);
+    }
+    
     for (int32_t basic_type_id = compiler_basic_types_base_id; basic_type_id < compiler->basic_types->length; basic_type_id++) {
       SPVM_BASIC_TYPE* basic_type = SPVM_LIST_get(compiler->basic_types, basic_type_id);
       
-- 
2.43.0


From 2ff2847d332316c334150396c238b994301b792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 05/79] fix: error messages of weaken, unweaken and isweak no
 longer read a freed field definition

---
 lib/SPVM/Builder/src/spvm_check.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 1c582fd..ccadf21 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3258,21 +3258,21 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             // weaken operator
             if (op_cur->flag & SPVM_OP_C_FLAG_FIELD_ACCESS_WEAKEN) {
               if (!SPVM_TYPE_is_object_type(compiler, field->type->basic_type->id, field->type->dimension, field->type->flag)) {
-                SPVM_COMPILER_error(compiler, "The %s#%s field operated by weaken operator must be an object type.\n  at %s line %d", field->current_basic_type->name, field->op_name->uv.name, op_cur->file, op_cur->line);
+                SPVM_COMPILER_error(compiler, "The %s#%s field operated by weaken operator must be an object type.\n  at %s line %d", field->current_basic_type->name, field->name, op_cur->file, op_cur->line);
                 return;
               }
             }
             // unweaken operator
             else if (op_cur->flag & SPVM_OP_C_FLAG_FIELD_ACCESS_UNWEAKEN) {
               if (!SPVM_TYPE_is_object_type(compiler, field->type->basic_type->id, field->type->dimension, field->type->flag)) {
-                SPVM_COMPILER_error(compiler, "The %s#%s field operated by unweaken operator must be an object type.\n  at %s line %d", field->current_basic_type->name, field->op_name->uv.name, op_cur->file, op_cur->line);
+                SPVM_COMPILER_error(compiler, "The %s#%s field operated by unweaken operator must be an object type.\n  at %s line %d", field->current_basic_type->name, field->name, op_cur->file, op_cur->line);
                 return;
               }
             }
             // isweak operator
             else if (op_cur->flag & SPVM_OP_C_FLAG_FIELD_ACCESS_ISWEAK) {
               if (!SPVM_TYPE_is_object_type(compiler, field->type->basic_type->id, field->type->dimension, field->type->flag)) {
-                SPVM_COMPILER_error(compiler, "The %s#%s field operated by isweak operator must be an object type.\n  at %s line %d", field->current_basic_type->name, field->op_name->uv.name, op_cur->file, op_cur->line);
+                SPVM_COMPILER_error(compiler, "The %s#%s field operated by isweak operator must be an object type.\n  at %s line %d", field->current_basic_type->name, field->name, op_cur->file, op_cur->line);
                 return;
               }
             }
-- 
2.43.0


From 8605513d0b0c261d11978d23f7e8622f3d806400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 06/79] fix: access checks no longer read freed allow
 declarations of classes compiled earlier

---
 lib/SPVM/Builder/src/spvm_allow.c    | 2 +-
 lib/SPVM/Builder/src/spvm_compiler.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_allow.c b/lib/SPVM/Builder/src/spvm_allow.c
index 66b0cdd..f109e5f 100644
--- a/lib/SPVM/Builder/src/spvm_allow.c
+++ b/lib/SPVM/Builder/src/spvm_allow.c
@@ -6,7 +6,7 @@
 #include "spvm_compiler.h"
 
 SPVM_ALLOW* SPVM_ALLOW_new(SPVM_COMPILER* compiler) {
-  SPVM_ALLOW* allow = SPVM_ALLOCATOR_alloc_memory_block_tmp(compiler->current_each_compile_allocator, sizeof(SPVM_ALLOW));
+  SPVM_ALLOW* allow = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, sizeof(SPVM_ALLOW));
   
   return allow;
 }
diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index f03770f..9a1ca61 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -683,8 +683,9 @@ void SPVM_COMPILER_free_memory_tmp_each_compile(SPVM_COMPILER* compiler) {
         break;
       }
       case SPVM_OP_C_ID_ALLOW: {
+        // The allow declaration is needed by the access checks of later compilations
         SPVM_ALLOW* allow = op->uv.allow;
-        SPVM_ALLOCATOR_free_memory_block_tmp(compiler->current_each_compile_allocator, allow);
+        allow->op_allow = NULL;
         break;
       }
       case SPVM_OP_C_ID_INTERFACE: {
-- 
2.43.0


From 7bb6af7bba90e5b309acd0ae682282ad5f7d1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 07/79] fix: error messages about classes compiled earlier no
 longer read freed definitions

---
 lib/SPVM/Builder/src/spvm_compiler.c | 48 +++++++++++++++++++---------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 9a1ca61..394ec21 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -663,7 +663,40 @@ void SPVM_COMPILER_assert_check_basic_type_id(SPVM_COMPILER* compiler, int32_t b
   }
 }
 
+// The op of a definition is freed with its compilation. Its location is needed by the error messages of later compilations.
+static SPVM_OP* SPVM_COMPILER_new_definition_location_op(SPVM_COMPILER* compiler, SPVM_OP* op) {
+  if (!op) {
+    return NULL;
+  }
+  
+  SPVM_OP* op_location = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, sizeof(SPVM_OP));
+  op_location->id = op->id;
+  op_location->file = op->file;
+  op_location->line = op->line;
+  
+  return op_location;
+}
+
 void SPVM_COMPILER_free_memory_tmp_each_compile(SPVM_COMPILER* compiler) {
+  for (int32_t basic_type_id = compiler->basic_types_base_id; basic_type_id < compiler->basic_types->length; basic_type_id++) {
+    SPVM_BASIC_TYPE* basic_type = SPVM_LIST_get(compiler->basic_types, basic_type_id);
+    
+    basic_type->op_class = SPVM_COMPILER_new_definition_location_op(compiler, basic_type->op_class);
+    basic_type->op_name = NULL;
+    basic_type->op_extends = NULL;
+    
+    SPVM_LIST* methods = basic_type->methods;
+    {
+      int32_t method_index;
+      for (method_index = 0; method_index < methods->length; method_index++) {
+        SPVM_METHOD* method = SPVM_LIST_get(methods, method_index);
+        method->op_method = SPVM_COMPILER_new_definition_location_op(compiler, method->op_method);
+        method->op_name = NULL;
+        method->op_block = NULL;
+      }
+    }
+  }
+  
   for (int32_t i = 0; i < compiler->ops->length; i++) {
     SPVM_OP* op = SPVM_LIST_get(compiler->ops, i);
     int32_t op_id = op->id;
@@ -750,21 +783,6 @@ void SPVM_COMPILER_free_memory_tmp_each_compile(SPVM_COMPILER* compiler) {
     SPVM_ALLOCATOR_free_memory_block_tmp(compiler->current_each_compile_allocator, op);
   }
   
-  for (int32_t basic_type_id = compiler->basic_types_base_id; basic_type_id < compiler->basic_types->length; basic_type_id++) {
-    SPVM_BASIC_TYPE* basic_type = SPVM_LIST_get(compiler->basic_types, basic_type_id);
-    
-    SPVM_LIST* methods = basic_type->methods;
-    {
-      int32_t method_index;
-      for (method_index = 0; method_index < methods->length; method_index++) {
-        SPVM_METHOD* method = SPVM_LIST_get(methods, method_index);
-        method->op_method = NULL;
-        method->op_name = NULL;
-        method->op_block = NULL;
-      }
-    }
-  }
-  
   compiler->op_use_stack->length = 0;
   
   compiler->op_types->length = 0;
-- 
2.43.0


From c6c185518315af0b23ea6a693322719bd46ead3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:32 +0000
Subject: [PATCH 08/79] fix: setting undef to an element of object[] throws on
 an undef array or an index out of range

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 36dc2f5..8887771 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4632,6 +4632,8 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                       opcode.operand0 = typed_var_index_array;
                       opcode.operand1 = typed_var_index_index;
                       SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
+
+                      SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception(compiler, opcode_list, eval_block_stack_goto_opcode_index->length, goto_end_of_eval_on_exception_opcode_index_stack, goto_end_of_method_on_exception_opcode_index_stack, method->op_method, op_cur->line);
                     }
                     else {
                       SPVM_OPCODE opcode = {0};
-- 
2.43.0


From cb5b3a3e016d74475edf1b0524d4def130e4342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 09/79] fix: storing into an element of a class array checks
 the type of the value against the runtime array

---
 lib/SPVM/Builder/src/spvm_api.c            |  8 +++++++-
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 23 +++++++++++-----------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 567c659..be3e387 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -4518,7 +4518,13 @@ int32_t SPVM_API_elem_isa(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* array,
   int32_t array_type_dimension = array->type_dimension;
   
   assert(array_type_dimension > 0);
-  int32_t elem_isa = SPVM_API_isa(env, stack, element, array_basic_type, array_type_dimension - 1);
+  int32_t elem_isa;
+  if (element && element->basic_type == array_basic_type && element->type_dimension == array_type_dimension - 1) {
+    elem_isa = 1;
+  }
+  else {
+    elem_isa = SPVM_API_isa(env, stack, element, array_basic_type, array_type_dimension - 1);
+  }
   
   return elem_isa;
 }
diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 8887771..217703c 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4761,18 +4761,17 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                       }
                       else {
                         int32_t is_check_type;
-                        if (array_type_dimension == 1) {
-                          switch (array_basic_type_category) {
-                            case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE:
-                            case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_ANY_OBJECT:
-                            {
-                              is_check_type = 1;
-                              break;
-                            }
-                            default: {
-                              is_check_type = 0;
-                              break;
-                            }
+                        switch (array_basic_type_category) {
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS:
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE:
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_ANY_OBJECT:
+                          {
+                            is_check_type = 1;
+                            break;
+                          }
+                          default: {
+                            is_check_type = 0;
+                            break;
                           }
                         }
                         
-- 
2.43.0


From fb6d11beec5e6756a770c0bb860dcdbd0555d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 10/79] fix: methods with arguments of three or more dimensions
 no longer crash the compiler

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 217703c..7d92577 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -214,7 +214,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
             }
           }
         }
-        else if (arg_type_dimension == 2) {
+        else if (arg_type_dimension >= 2) {
           SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_GET_STACK_OBJECT);
           opcode.operand0 = arg->typed_var_index;
           opcode.operand3 = stack_index & 0xFF;
-- 
2.43.0


From 2c1105faa4cf16093a154f5b4d8e1465ffe18d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 11/79] fix: casts to numeric and multi-numeric arrays accept
 only the types the documentation allows

---
 lib/SPVM/Builder/src/spvm_type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index 70f4ed7..c163e13 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1590,7 +1590,7 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
   // Dist type is numeric array type(except for byte array)
   else if (SPVM_TYPE_is_numeric_array_type(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag)) {
     // Source type equals dist type
-    if (src_type_basic_type_id == dist_type_basic_type_id) {
+    if (SPVM_TYPE_equals(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
       can_cast = 1;
     }
     // Source type is any object type
@@ -1609,7 +1609,7 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
   // Dist type is multi-numeric array
   else if (SPVM_TYPE_is_mulnum_array_type(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag)) {
     // Source type equals dist type
-    if (src_type_basic_type_id == dist_type_basic_type_id) {
+    if (SPVM_TYPE_equals(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
       can_cast = 1;
     }
     // Source type is any object type
-- 
2.43.0


From 5accb6af84c7d573e9da0782ebe1ace7e9fda5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 12/79] fix: a string literal can be assigned to a variable of
 the object type

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 7d92577..fea8b70 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -2713,7 +2713,11 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                        
                         SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
                       }
-                      else if (SPVM_TYPE_is_string_type(compiler, type_dist->basic_type->id, type_dist->dimension, type_dist->flag)) {
+                      else if (
+                        SPVM_TYPE_is_string_type(compiler, type_dist->basic_type->id, type_dist->dimension, type_dist->flag)
+                        || SPVM_TYPE_is_any_object_type(compiler, type_dist->basic_type->id, type_dist->dimension, type_dist->flag)
+                      )
+                      {
                         SPVM_OPCODE opcode = {0};
                         
                         
-- 
2.43.0


From d635ba3d313822bb818971da75ce578bb212569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 13/79] fix: compile_type_name no longer needs the same string
 literal in the class

---
 lib/SPVM/Builder/src/spvm_check.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index ccadf21..a75771c 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -1460,6 +1460,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             SPVM_TYPE* operand_type = SPVM_CHECK_get_type(compiler, op_operand);
             const char* type_name = SPVM_TYPE_new_type_name(compiler, operand_type->basic_type->id, operand_type->dimension, operand_type->flag);
             SPVM_OP* op_stab = SPVM_OP_cut_op(compiler, op_cur);
+            SPVM_BASIC_TYPE_add_constant_string(compiler, basic_type, type_name, strlen(type_name));
             SPVM_OP* op_constant_string = SPVM_OP_new_op_constant_string(compiler, type_name, strlen(type_name), op_cur->file, op_cur->line);
             SPVM_OP_replace_op(compiler, op_stab, op_constant_string);
             op_cur = op_constant_string;
-- 
2.43.0


From 2cf52d6c1e394fec8f362c70c5ebb0679f326718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 14/79] fix: the cast of a non-string object to mutable string
 throws

---
 lib/SPVM/Builder/include/spvm_implement.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index bcec784..ace0bbb 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -413,7 +413,12 @@ static inline void SPVM_IMPLEMENT_MOVE_OBJECT_WITH_TYPE_CHECK(SPVM_ENV* env, SPV
 static inline void SPVM_IMPLEMENT_MOVE_OBJECT_CHECK_READ_ONLY_STRING(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* in, int32_t* error_id) {
   
   void* string = in;
-  if (env->is_string(env, stack, string) && env->is_read_only(env, stack, string)) {
+  if (string && !env->is_string(env, stack, string)) {
+    void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_ASSIGN_NON_ASSIGNABLE_TYPE]);
+    env->set_exception(env, stack, exception);
+    *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
+  }
+  else if (string && env->is_read_only(env, stack, string)) {
     void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_ASSIGN_READ_ONLY_STRING_TO_MUTABLE_TYPE]);
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
-- 
2.43.0


From adad24a94713d921c40ea038bd4c9447c6116e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 15/79] fix: the tenth anonymous class no longer overflows the
 buffer of its file name

---
 lib/SPVM/Builder/src/spvm_compiler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 394ec21..9fc9f24 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -188,7 +188,8 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   // Anon class
   if (source) {
     int32_t int32_max_length = 10;
-    int32_t anon_method_basic_type_name_length = 4 + 2 + 4 + 2 + int32_max_length;
+    // eval::anon_class::10.spvm
+    int32_t anon_method_basic_type_name_length = 4 + 2 + 10 + 2 + int32_max_length + 5;
     
     char* anon_basic_type_name = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_method_basic_type_name_length + 1);
     sprintf(anon_basic_type_name, "eval::anon_class::%d", compiler->eval_anon_classes_length);
-- 
2.43.0


From f28bb81fefd944adfcec41eaf31ea4ff57f92e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 16/79] fix: long names no longer overflow buffers of the
 compiler

---
 lib/SPVM/Builder/src/spvm_check.c | 2 +-
 lib/SPVM/Builder/src/spvm_op.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index a75771c..e546b9a 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3125,7 +3125,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
                 if (!call_method->method->is_class_method) {
                   call_method_args_length_for_user--;
                 }
-                sprintf(place, "the %dth argument of %s#%s method", call_method_args_length_for_user, op_cur->uv.call_method->method->current_basic_type->name, method_name);
+                snprintf(place, sizeof(place), "the %dth argument of %s#%s method", call_method_args_length_for_user, op_cur->uv.call_method->method->current_basic_type->name, method_name);
                 
                 // Invocant is not checked.
                 op_operand = SPVM_CHECK_check_assign(compiler, arg_var_decl_type, op_operand, place, op_cur->file, op_cur->line);
diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index ca211f0..05a2284 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -1667,7 +1667,7 @@ SPVM_OP* SPVM_OP_build_anon_method(SPVM_COMPILER* compiler, SPVM_OP* op_method)
   const char* outmost_basic_type_name = compiler->current_outmost_class_name;
   int32_t anon_method_defined_line = op_method->line;
   int32_t anon_method_defined_column = op_method->column;
-  int32_t anon_method_basic_type_name_length = 6 + strlen(outmost_basic_type_name) + 2 + int32_max_length + 2 + int32_max_length;
+  int32_t anon_method_basic_type_name_length = strlen(outmost_basic_type_name) + strlen("::anon_method::") + int32_max_length + 2 + int32_max_length;
   
   // Anon class name
   char* name_basic_type_tmp = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, anon_method_basic_type_name_length + 1);
-- 
2.43.0


From 09aa4aa53a30d205dfb8f622f75abe8356f48a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 17/79] fix: a "}" after a variable in a string literal no
 longer hangs the compiler

---
 lib/SPVM/Builder/src/spvm_toke.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 041114c..38991e8 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1050,8 +1050,8 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
                     else if (*next_string_literal_ch_ptr == '}') {
                       if (var_have_brace) {
                         next_string_literal_ch_ptr++;
-                        break;
                       }
+                      break;
                     }
                     else {
                       break;
-- 
2.43.0


From 14b2e6f76a00b4b8220c43c7b5441f4f51e3902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 18/79] fix: "0x" without hexadecimal numbers is a compilation
 error and does not read past the end of the source

---
 lib/SPVM/Builder/src/spvm_toke.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 38991e8..da91ee0 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1688,7 +1688,10 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
           
           // Scan Hex number
           if (digit == 16) {
-            compiler->ch_ptr += 2;
+            compiler->ch_ptr += 1;
+            if (!(SPVM_TOKE_is_hex_number(compiler, *compiler->ch_ptr) || *compiler->ch_ptr == '_' || *compiler->ch_ptr == '.')) {
+              SPVM_COMPILER_error(compiler, "\"0x\" must be followed by one or more hexadecimal numbers.\n  at %s line %d", compiler->current_file, compiler->current_line);
+            }
             while(
               SPVM_TOKE_is_hex_number(compiler, *compiler->ch_ptr) || *compiler->ch_ptr == '_'
               || *compiler->ch_ptr == '.' || *compiler->ch_ptr == 'p' || *compiler->ch_ptr == 'P' || *compiler->ch_ptr == '-' || *compiler->ch_ptr == '+'
-- 
2.43.0


From 243d10d427c35c0c823e63e4fa1ef24f4343c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 19/79] fix: literals not terminated at the end of the source
 no longer read past it

---
 lib/SPVM/Builder/src/spvm_toke.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index da91ee0..0c2f95f 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -903,6 +903,11 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
           SPVM_COMPILER_error(compiler, "The character literal cannnot be empty.\n  at %s line %d", compiler->current_file, compiler->current_line);
           compiler->ch_ptr++;
         }
+        // End of source file
+        else if (*compiler->ch_ptr == '\0' || (*compiler->ch_ptr == '\\' && *(compiler->ch_ptr + 1) == '\0')) {
+          SPVM_COMPILER_error(compiler, "The character literal must ends with \"'\".\n  at %s line %d", compiler->current_file, compiler->current_line);
+          return 0;
+        }
         else {
           if (*compiler->ch_ptr == '\\') {
             compiler->ch_ptr++;
@@ -1145,7 +1150,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             }
             else {
               // Escape is always 2 characters
-              if (*compiler->ch_ptr == '\\') {
+              if (*compiler->ch_ptr == '\\' && *(compiler->ch_ptr + 1) != '\0') {
                 compiler->ch_ptr += 2;
               }
               else {
@@ -1572,7 +1577,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
               }
               else {
                 // Escape character
-                if (*compiler->ch_ptr == '\\') {
+                if (*compiler->ch_ptr == '\\' && *(compiler->ch_ptr + 1) != '\0') {
                   compiler->ch_ptr += 2;
                 }
                 else {
-- 
2.43.0


From c0d9ed80f143c119c29e1039ee92fbdf568a60f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 20/79] fix: a syntax error in an allow statement does not
 crash the compiler

---
 lib/SPVM/Builder/src/spvm_compiler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 9fc9f24..237b9ee 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -719,7 +719,9 @@ void SPVM_COMPILER_free_memory_tmp_each_compile(SPVM_COMPILER* compiler) {
       case SPVM_OP_C_ID_ALLOW: {
         // The allow declaration is needed by the access checks of later compilations
         SPVM_ALLOW* allow = op->uv.allow;
-        allow->op_allow = NULL;
+        if (allow) {
+          allow->op_allow = NULL;
+        }
         break;
       }
       case SPVM_OP_C_ID_INTERFACE: {
-- 
2.43.0


From eacdf1a943fd8685de585ca4b3a62eb4cdca37b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 21/79] fix: special assignments and increments of the
 exception variable no longer crash the compiler

---
 lib/SPVM/Builder/src/spvm_op.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 05a2284..7895da7 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -2661,9 +2661,13 @@ SPVM_OP* SPVM_OP_build_special_assign(SPVM_COMPILER* compiler, SPVM_OP* op_speci
   
   if (op_dist->id == SPVM_OP_C_ID_VAR || op_dist->id == SPVM_OP_C_ID_EXCEPTION_VAR) {
     SPVM_OP_build_assign(compiler, op_assign_save_old, op_var_old, op_dist);
-    SPVM_OP* op_var = op_dist;
-    SPVM_OP* op_var_clone = SPVM_OP_clone_op_var(compiler, op_var);
-    SPVM_OP* op_dist_clone = op_var_clone;
+    SPVM_OP* op_dist_clone;
+    if (op_dist->id == SPVM_OP_C_ID_EXCEPTION_VAR) {
+      op_dist_clone = SPVM_OP_new_op(compiler, SPVM_OP_C_ID_EXCEPTION_VAR, op_dist->file, op_dist->line);
+    }
+    else {
+      op_dist_clone = SPVM_OP_clone_op_var(compiler, op_dist);
+    }
     SPVM_OP_build_assign(compiler, op_assign_update, op_dist_clone, op_culc);
   }
   else if (op_dist->id == SPVM_OP_C_ID_DEREFERENCE) {
-- 
2.43.0


From cf1c082206d72b7343bff59ca04a6b83b3767e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 22/79] fix: anonymous methods in anonymous classes no longer
 crash the compiler

---
 lib/SPVM/Builder/src/spvm_op.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 7895da7..29d7251 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -258,8 +258,16 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
   
   const char* basic_type_name;
   
+  // The class of an anon method in the class
+  int32_t is_anon_method_class = 0;
+  if (op_type) {
+    const char* type_name = op_type->uv.type->unresolved_basic_type_name;
+    const char* found_ptr = strstr(type_name, "::anon_method::");
+    is_anon_method_class = found_ptr && (size_t)(found_ptr - type_name) == strlen(compiler->current_outmost_class_name);
+  }
+  
   // Anon class
-  if (strstr(compiler->current_outmost_class_name, "::anon_class::")) {
+  if (strstr(compiler->current_outmost_class_name, "::anon_class::") && !is_anon_method_class) {
     if (op_type) {
       SPVM_COMPILER_error(compiler, "An anon class cannot have its class name.\n  at %s line %d", op_class->file, op_class->line);
       return op_class;
@@ -334,7 +342,9 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
       SPVM_COMPILER_error(compiler, "The class name \"%s\" must be \"%s\".\n  at %s line %d", basic_type_name, compiler->current_outmost_class_name, op_class->file, op_class->line);
       return op_class;
     }
-    
+  }
+  
+  if (!basic_type->is_generated_by_anon_method) {
     SPVM_LIST* anon_op_types = compiler->current_anon_op_types;
     for (int32_t i = 0; i < anon_op_types->length; i++) {
       SPVM_OP* anon_op_type = SPVM_LIST_get(anon_op_types, i);
-- 
2.43.0


From 758cc01aaecce87c70128e349b2bb68fd7e8f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 23/79] fix: an array initialiser with references is rejected
 instead of crashing the compiler

---
 lib/SPVM/Builder/src/spvm_check.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index e546b9a..e257538 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -2171,7 +2171,8 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
               }
             }
             else {
-              assert(0);
+              SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be a reference type.\n  at %s line %d", op_new->file, op_new->line);
+              return;
             }
             
             break;
-- 
2.43.0


From 4b1157afcceade45a40f1a1223990d2dcbc25c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 24/79] fix: the value of an assignment of undef can be used

---
 lib/SPVM/Builder/src/spvm_check.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index e257538..132a381 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3575,8 +3575,22 @@ void SPVM_CHECK_check_ast_assign_unassigned_op_to_var(SPVM_COMPILER* compiler, S
             }
           }
           
+          // undef assigned to something other than a variable needs a variable if the value of the assignment is used
+          SPVM_TYPE* undef_type = NULL;
+          if (op_cur->id == SPVM_OP_C_ID_UNDEF) {
+            SPVM_OP* op_parent = SPVM_OP_get_parent(compiler, op_cur);
+            if (op_parent->id == SPVM_OP_C_ID_ASSIGN && op_parent->first == op_cur && op_parent->last->id != SPVM_OP_C_ID_VAR) {
+              SPVM_OP* op_grandparent = SPVM_OP_get_parent(compiler, op_parent);
+              int32_t is_statement = op_grandparent->id == SPVM_OP_C_ID_LIST && SPVM_OP_get_parent(compiler, op_grandparent)->id == SPVM_OP_C_ID_BLOCK;
+              if (!is_statement) {
+                undef_type = SPVM_CHECK_get_type(compiler, op_parent->last);
+                convert_to_assign = 1;
+              }
+            }
+          }
+          
           if (convert_to_assign) {
-            SPVM_TYPE* tmp_var_type = SPVM_CHECK_get_type(compiler, op_cur);
+            SPVM_TYPE* tmp_var_type = undef_type ? undef_type : SPVM_CHECK_get_type(compiler, op_cur);
             SPVM_OP* op_var_tmp = SPVM_CHECK_new_op_var_tmp(compiler, tmp_var_type, method, op_cur->file, op_cur->line);
             
             if (op_var_tmp == NULL) {
-- 
2.43.0


From 504fb6376085d092aec9a4b0c00b5bf6ade2ec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 25/79] fix: the value of an assignment can be used whatever
 the operand is

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index fea8b70..2dbb645 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4291,7 +4291,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                     // $var_dist = (ASSIGN = $var_src)
                     case SPVM_OP_C_ID_ASSIGN: {
                       SPVM_OP* op_var_src;
-                      if (op_assign_src->first->id == SPVM_OP_C_ID_VAR || op_assign_src->first->id == SPVM_OP_C_ID_ASSIGN) {
+                      if (op_assign_src->first->id == SPVM_OP_C_ID_VAR || op_assign_src->first->id == SPVM_OP_C_ID_ASSIGN || op_assign_src->first->id == SPVM_OP_C_ID_SEQUENCE) {
                         op_var_src = op_assign_src->first;
                       }
                       else if (op_assign_src->last->id == SPVM_OP_C_ID_VAR || op_assign_src->last->id == SPVM_OP_C_ID_ASSIGN) {
@@ -5174,7 +5174,7 @@ int32_t SPVM_OPCODE_BUILDER_get_typed_var_index(SPVM_COMPILER* compiler, SPVM_OP
         op_var = op;
       }
       else if (op->id == SPVM_OP_C_ID_ASSIGN) {
-        if (op->first->id == SPVM_OP_C_ID_VAR || op->first->id == SPVM_OP_C_ID_ASSIGN) {
+        if (op->first->id == SPVM_OP_C_ID_VAR || op->first->id == SPVM_OP_C_ID_ASSIGN || op->first->id == SPVM_OP_C_ID_SEQUENCE) {
           op_var = SPVM_OPCODE_BUILDER_get_op_var(compiler, op->first);
         }
         else if (op->last->id == SPVM_OP_C_ID_VAR || op->last->id == SPVM_OP_C_ID_ASSIGN) {
@@ -5212,7 +5212,7 @@ SPVM_OP* SPVM_OPCODE_BUILDER_get_op_var(SPVM_COMPILER* compiler, SPVM_OP* op) {
     op_var = op;
   }
   else if (op->id == SPVM_OP_C_ID_ASSIGN) {
-    if (op->first->id == SPVM_OP_C_ID_VAR || op->first->id == SPVM_OP_C_ID_ASSIGN) {
+    if (op->first->id == SPVM_OP_C_ID_VAR || op->first->id == SPVM_OP_C_ID_ASSIGN || op->first->id == SPVM_OP_C_ID_SEQUENCE) {
       op_var = SPVM_OPCODE_BUILDER_get_op_var(compiler, op->first);
     }
     else if (op->last->id == SPVM_OP_C_ID_VAR || op->last->id == SPVM_OP_C_ID_ASSIGN) {
-- 
2.43.0


From d0e310d607e3e8b5190aef15acbe5ecffaefcd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 26/79] fix: make_read_only accepts undef

---
 lib/SPVM/Builder/src/spvm_api.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index be3e387..d74fe06 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3665,9 +3665,11 @@ void SPVM_API_dump_recursive(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* obje
 }
 
 void SPVM_API_make_read_only(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* string) {
-  SPVM_RUNTIME_BASIC_TYPE* string_basic_type = SPVM_API_get_object_basic_type(env, stack, string);
-  if (string && string_basic_type->id == SPVM_NATIVE_C_BASIC_TYPE_ID_STRING && string->type_dimension == 0) {
-    string->flag |= SPVM_OBJECT_C_FLAG_IS_READ_ONLY;
+  if (string) {
+    SPVM_RUNTIME_BASIC_TYPE* string_basic_type = SPVM_API_get_object_basic_type(env, stack, string);
+    if (string_basic_type->id == SPVM_NATIVE_C_BASIC_TYPE_ID_STRING && string->type_dimension == 0) {
+      string->flag |= SPVM_OBJECT_C_FLAG_IS_READ_ONLY;
+    }
   }
 }
 
-- 
2.43.0


From e940c3f0ad5aac1da1de602f433c6ee8e03c4e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 27/79] fix: the byte[] to string conversion of undef gives
 undef

---
 lib/SPVM/Builder/include/spvm_implement.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index ace0bbb..62f428b 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -2243,10 +2243,16 @@ static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_STRING_TO_BYTE_ARRAY(SPVM_ENV*
 }
 
 static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_ARRAY_TO_STRING(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* src_byte_array) {
-  int32_t src_byte_array_length = env->length(env, stack, src_byte_array);
-  int8_t* src_byte_array_data = env->get_elems_byte(env, stack, src_byte_array);
-  void* string = env->new_string_no_mortal(env, stack, (const char*)src_byte_array_data, src_byte_array_length);
-  env->assign_object(env, stack, out, string);
+  
+  if (src_byte_array) {
+    int32_t src_byte_array_length = env->length(env, stack, src_byte_array);
+    int8_t* src_byte_array_data = env->get_elems_byte(env, stack, src_byte_array);
+    void* string = env->new_string_no_mortal(env, stack, (const char*)src_byte_array_data, src_byte_array_length);
+    env->assign_object(env, stack, out, string);
+  }
+  else {
+    env->assign_object(env, stack, out, NULL);
+  }
 }
 
 static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_TO_BYTE_OBJECT(SPVM_ENV* env, SPVM_VALUE* stack, void** out, int8_t value, int32_t object_data_offset) {
-- 
2.43.0


From 1590808077e0396b19a6f1b763521bb5868e5031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 28/79] fix: remove and replace of numeric lists no longer
 leave stale elements behind the end

---
 lib/SPVM/ByteList.spvm   | 7 +++++++
 lib/SPVM/DoubleList.spvm | 7 +++++++
 lib/SPVM/FloatList.spvm  | 7 +++++++
 lib/SPVM/IntList.spvm    | 7 +++++++
 lib/SPVM/LongList.spvm   | 7 +++++++
 lib/SPVM/ShortList.spvm  | 7 +++++++
 6 files changed, 42 insertions(+)

diff --git a/lib/SPVM/ByteList.spvm b/lib/SPVM/ByteList.spvm
index dac6c47..355d9ce 100644
--- a/lib/SPVM/ByteList.spvm
+++ b/lib/SPVM/ByteList.spvm
@@ -144,6 +144,8 @@ class ByteList {
     my $move_length = $length - $index - 1;
     Array->memmove_byte($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -176,6 +178,11 @@ class ByteList {
       Array->memcpy_byte($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    my $length = $self->{length};
+    if ($new_length < $length) {
+      Array->memset_byte($self->{array}, 0, $new_length, $length - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/DoubleList.spvm b/lib/SPVM/DoubleList.spvm
index bb064de..c04912c 100644
--- a/lib/SPVM/DoubleList.spvm
+++ b/lib/SPVM/DoubleList.spvm
@@ -144,6 +144,8 @@ class DoubleList {
     my $move_length = $length - $index - 1;
     Array->memmove_double($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -176,6 +178,11 @@ class DoubleList {
       Array->memcpy_double($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    my $length = $self->{length};
+    if ($new_length < $length) {
+      Array->memset_double($self->{array}, 0, $new_length, $length - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/FloatList.spvm b/lib/SPVM/FloatList.spvm
index 32fafca..317b921 100644
--- a/lib/SPVM/FloatList.spvm
+++ b/lib/SPVM/FloatList.spvm
@@ -144,6 +144,8 @@ class FloatList {
     my $move_length = $length - $index - 1;
     Array->memmove_float($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -176,6 +178,11 @@ class FloatList {
       Array->memcpy_float($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    my $length = $self->{length};
+    if ($new_length < $length) {
+      Array->memset_float($self->{array}, 0, $new_length, $length - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/IntList.spvm b/lib/SPVM/IntList.spvm
index a5a5b18..1e4d223 100644
--- a/lib/SPVM/IntList.spvm
+++ b/lib/SPVM/IntList.spvm
@@ -144,6 +144,8 @@ class IntList {
     my $move_length = $length - $index - 1;
     Array->memmove_int($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -176,6 +178,11 @@ class IntList {
       Array->memcpy_int($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    my $length = $self->{length};
+    if ($new_length < $length) {
+      Array->memset_int($self->{array}, 0, $new_length, $length - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/LongList.spvm b/lib/SPVM/LongList.spvm
index ffaef68..fbdd38a 100644
--- a/lib/SPVM/LongList.spvm
+++ b/lib/SPVM/LongList.spvm
@@ -144,6 +144,8 @@ class LongList {
     my $move_length = $length - $index - 1;
     Array->memmove_long($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -176,6 +178,11 @@ class LongList {
       Array->memcpy_long($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    my $length = $self->{length};
+    if ($new_length < $length) {
+      Array->memset_long($self->{array}, 0, $new_length, $length - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/ShortList.spvm b/lib/SPVM/ShortList.spvm
index ffaf6c5..ffa0d70 100644
--- a/lib/SPVM/ShortList.spvm
+++ b/lib/SPVM/ShortList.spvm
@@ -144,6 +144,8 @@ class ShortList {
     my $move_length = $length - $index - 1;
     Array->memmove_short($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -176,6 +178,11 @@ class ShortList {
       Array->memcpy_short($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    my $length = $self->{length};
+    if ($new_length < $length) {
+      Array->memset_short($self->{array}, 0, $new_length, $length - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
-- 
2.43.0


From d123d76b07a42dbd2b5d78f5e1eab1af89368673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 29/79] fix: the range check of replace of the list classes no
 longer overflows

---
 lib/SPVM/ByteList.spvm   | 2 +-
 lib/SPVM/DoubleList.spvm | 2 +-
 lib/SPVM/FloatList.spvm  | 2 +-
 lib/SPVM/IntList.spvm    | 2 +-
 lib/SPVM/List.spvm       | 2 +-
 lib/SPVM/LongList.spvm   | 2 +-
 lib/SPVM/ShortList.spvm  | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/SPVM/ByteList.spvm b/lib/SPVM/ByteList.spvm
index 355d9ce..d5ca21c 100644
--- a/lib/SPVM/ByteList.spvm
+++ b/lib/SPVM/ByteList.spvm
@@ -159,7 +159,7 @@ class ByteList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/DoubleList.spvm b/lib/SPVM/DoubleList.spvm
index c04912c..0fd7a16 100644
--- a/lib/SPVM/DoubleList.spvm
+++ b/lib/SPVM/DoubleList.spvm
@@ -159,7 +159,7 @@ class DoubleList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/FloatList.spvm b/lib/SPVM/FloatList.spvm
index 317b921..383c678 100644
--- a/lib/SPVM/FloatList.spvm
+++ b/lib/SPVM/FloatList.spvm
@@ -159,7 +159,7 @@ class FloatList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/IntList.spvm b/lib/SPVM/IntList.spvm
index 1e4d223..ea6988c 100644
--- a/lib/SPVM/IntList.spvm
+++ b/lib/SPVM/IntList.spvm
@@ -159,7 +159,7 @@ class IntList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index ddee985..f53d76a 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -187,7 +187,7 @@ class List {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($index + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $index) {
       die "The index \$index + the removal length \$remove_length must be less than or equal to the length of this list.";
     }
     
diff --git a/lib/SPVM/LongList.spvm b/lib/SPVM/LongList.spvm
index fbdd38a..488ae14 100644
--- a/lib/SPVM/LongList.spvm
+++ b/lib/SPVM/LongList.spvm
@@ -159,7 +159,7 @@ class LongList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/ShortList.spvm b/lib/SPVM/ShortList.spvm
index ffa0d70..516b55f 100644
--- a/lib/SPVM/ShortList.spvm
+++ b/lib/SPVM/ShortList.spvm
@@ -159,7 +159,7 @@ class ShortList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
-- 
2.43.0


From ab6978f120953b16795325b0e46f006d735c5c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 30/79] fix: List#insert accepts undef

---
 lib/SPVM/List.spvm | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index f53d76a..d8889a7 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -114,12 +114,9 @@ class List {
     
     my $remove_length = 0;
     
-    my $array = (object[])undef;
+    my $array = Array->new_proto($self->{array}, 1);
     
-    if ($element) {
-      $array = Array->new_array_proto_element($element, 1);
-      $array->[0] = $element;
-    }
+    $array->[0] = $element;
     
     $self->replace($index, $remove_length, $array);
   }
-- 
2.43.0


From 87205af2d481af89cf825f2ecd0d21af9dc6f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 31/79] fix: List#replace clears exactly the elements behind
 the new end

---
 lib/SPVM/List.spvm | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index d8889a7..1b24c2a 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -217,7 +217,10 @@ class List {
       for (my $i = 0; $i < $move_length; $i++) {
         my $element = $self->get($index + $remove_length + $i);
         $self->set($index + $replace_length + $i, $element);
-        $self->set($index + $remove_length + $i, undef);
+      }
+      
+      for (my $i = $new_length; $i < $self->{length}; $i++) {
+        $self->set($i, undef);
       }
     }
     
-- 
2.43.0


From 75943a9de7f13525aad20cd84af1a23d42f9f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 32/79] fix: List keeps its elements when a wrapped ring buffer
 is extended

---
 lib/SPVM/List.spvm | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index 1b24c2a..b1874c3 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -384,11 +384,12 @@ class List {
     
     my $offset = $self->{offset};
     
-    Array->memcpy_object_address($new_array, $offset, $array, $offset, $capacity - $offset);
+    Array->memcpy_object_address($new_array, 0, $array, $offset, $capacity - $offset);
     
-    Array->memcpy_object_address($new_array, $capacity, $array, 0, $offset);
+    Array->memcpy_object_address($new_array, $capacity - $offset, $array, 0, $offset);
     
     $self->{array} = $new_array;
+    $self->{offset} = 0;
     $self->{capacity} = $new_capacity;
   }
 }
-- 
2.43.0


From 060b174e19a3d4325f9fff3d38b3b514835461cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 33/79] fix: Immutable::DoubleList#to_array returns a copy

---
 lib/SPVM/Immutable/DoubleList.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Immutable/DoubleList.spvm b/lib/SPVM/Immutable/DoubleList.spvm
index 636d73e..c476272 100644
--- a/lib/SPVM/Immutable/DoubleList.spvm
+++ b/lib/SPVM/Immutable/DoubleList.spvm
@@ -67,6 +67,6 @@ class Immutable::DoubleList {
     
     Array->memcpy_double($new_array, 0, $array, 0, $length);
     
-    return $array;
+    return $new_array;
   }
 }
-- 
2.43.0


From 5f8276d62e0243c6878ab9aba213c2e694d4ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 34/79] fix: rehashing a Hash keeps weakened values weakened

---
 lib/SPVM/Hash.spvm | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Hash.spvm b/lib/SPVM/Hash.spvm
index cac90bc..16d1f29 100644
--- a/lib/SPVM/Hash.spvm
+++ b/lib/SPVM/Hash.spvm
@@ -699,13 +699,18 @@ class Hash {
     my $entries_length = @{$self->{entries}};
     $new_entries_length = @{$self->{entries}} * 2;
     my $new_entries = new Hash::Entry [$new_entries_length];
-    my $new_keys_length = 0;
     # iterate entries
     for (my $i = 0; $i < $entries_length; ++$i) {
       my $entry = $self->{entries}->[$i];
       while ($entry) {
-        $self->_set_to_container($new_entries, $new_entries_length, \$new_keys_length, $entry->{key}, $entry->{value});
-        $entry = $entry->{next_entry};
+        my $next_entry = $entry->{next_entry};
+        
+        # Move the entry itself so that a weakened value stays weakened
+        my $index = $self->_index_by_key($entry->{key}, $new_entries_length);
+        $entry->{next_entry} = $new_entries->[$index];
+        $new_entries->[$index] = $entry;
+        
+        $entry = $next_entry;
       }
     }
     $self->{entries} = $new_entries;
-- 
2.43.0


From fc9c6d56c9fbdacd89d14c9140b86506d8cbd97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 35/79] fix: the range checks of StringBuffer no longer
 overflow

---
 lib/SPVM/StringBuffer.spvm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/StringBuffer.spvm b/lib/SPVM/StringBuffer.spvm
index c9db6ff..2bd8782 100644
--- a/lib/SPVM/StringBuffer.spvm
+++ b/lib/SPVM/StringBuffer.spvm
@@ -78,7 +78,7 @@ class StringBuffer {
       $length = length $string - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ($length <= $string_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string $string.";
     }
     
@@ -108,7 +108,7 @@ class StringBuffer {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$string buffer.";
     }
     
-- 
2.43.0


From adccaee68ff6f715997d234a831af7d37937b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 36/79] fix: StringBuffer#replace no longer leaves old
 characters behind the end

---
 lib/SPVM/StringBuffer.spvm | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/SPVM/StringBuffer.spvm b/lib/SPVM/StringBuffer.spvm
index 2bd8782..8d3c363 100644
--- a/lib/SPVM/StringBuffer.spvm
+++ b/lib/SPVM/StringBuffer.spvm
@@ -127,6 +127,11 @@ class StringBuffer {
       Fn->memcpy($self->{string}, $offset, $replace, 0, $replace_length);
     }
     
+    my $length = $self->{length};
+    if ($new_length < $length) {
+      Fn->memset_char($self->{string}, '\0', $new_length, $length - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
-- 
2.43.0


From bbde41eebf3d46b1b47066e15e02844a80c5aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 37/79] fix: the range checks of Array and Sort no longer
 overflow

---
 lib/SPVM/Array.c    | 48 ++++++++++++++++++++++-----------------------
 lib/SPVM/Array.spvm | 42 +++++++++++++++++++--------------------
 lib/SPVM/Sort.spvm  | 16 +++++++--------
 3 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/lib/SPVM/Array.c b/lib/SPVM/Array.c
index d7f92a6..69361b2 100644
--- a/lib/SPVM/Array.c
+++ b/lib/SPVM/Array.c
@@ -45,11 +45,11 @@ int32_t SPVM__Array__memcpy_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
   int8_t* source = env->get_elems_byte(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -96,11 +96,11 @@ int32_t SPVM__Array__memcpy_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   double* source = env->get_elems_double(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -147,11 +147,11 @@ int32_t SPVM__Array__memcpy_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   float* source = env->get_elems_float(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -198,11 +198,11 @@ int32_t SPVM__Array__memcpy_int(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t* source = env->get_elems_int(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -249,11 +249,11 @@ int32_t SPVM__Array__memcpy_long(SPVM_ENV* env, SPVM_VALUE* stack) {
   int64_t* source = env->get_elems_long(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -300,11 +300,11 @@ int32_t SPVM__Array__memcpy_short(SPVM_ENV* env, SPVM_VALUE* stack) {
   int16_t* source = env->get_elems_short(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -351,11 +351,11 @@ int32_t SPVM__Array__memmove_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
   int8_t* source = env->get_elems_byte(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -402,11 +402,11 @@ int32_t SPVM__Array__memmove_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   double* source = env->get_elems_double(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -453,11 +453,11 @@ int32_t SPVM__Array__memmove_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   float* source = env->get_elems_float(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -504,11 +504,11 @@ int32_t SPVM__Array__memmove_int(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t* source = env->get_elems_int(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -555,11 +555,11 @@ int32_t SPVM__Array__memmove_long(SPVM_ENV* env, SPVM_VALUE* stack) {
   int64_t* source = env->get_elems_long(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -606,11 +606,11 @@ int32_t SPVM__Array__memmove_short(SPVM_ENV* env, SPVM_VALUE* stack) {
   int16_t* source = env->get_elems_short(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(length <= dest_length - dest_offset)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(length <= source_length - source_offset)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
diff --git a/lib/SPVM/Array.spvm b/lib/SPVM/Array.spvm
index 607e93e..fb52906 100644
--- a/lib/SPVM/Array.spvm
+++ b/lib/SPVM/Array.spvm
@@ -23,7 +23,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -49,7 +49,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -75,7 +75,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -101,7 +101,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -127,7 +127,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -170,7 +170,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -195,7 +195,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -222,7 +222,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -593,11 +593,11 @@ class Array {
     my $dest_length = @$dest;
     my $source_length = @$source;
     
-    unless ($dest_offset + $length <= $dest_length) {
+    unless ($length <= $dest_length - $dest_offset) {
       die "The destination offset \$dest_offset + the length \$length must be less than or equal to the length of the destination \$dest.";
     }
     
-    unless ($source_offset + $length <= $source_length) {
+    unless ($length <= $source_length - $source_offset) {
       die "The source offset \$source_offset + the length \$length must be less than or equal to the length of the source \$source.";
     }
     
@@ -639,11 +639,11 @@ class Array {
     my $dest_length = @$dest;
     my $source_length = @$source;
     
-    unless ($dest_offset + $length <= $dest_length) {
+    unless ($length <= $dest_length - $dest_offset) {
       die "The destination offset \$dest_offset + the length \$length must be less than or equal to the length of the destination \$dest.";
     }
     
-    unless ($source_offset + $length <= $source_length) {
+    unless ($length <= $source_length - $source_offset) {
       die "The source offset \$source_offset + the length \$length must be less than or equal to the length of the source \$source.";
     }
     
@@ -677,7 +677,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -700,7 +700,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -723,7 +723,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -746,7 +746,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -769,7 +769,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -792,7 +792,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -815,7 +815,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -1100,7 +1100,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -1416,7 +1416,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
diff --git a/lib/SPVM/Sort.spvm b/lib/SPVM/Sort.spvm
index 7694a53..5d9307c 100644
--- a/lib/SPVM/Sort.spvm
+++ b/lib/SPVM/Sort.spvm
@@ -29,7 +29,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -65,7 +65,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -101,7 +101,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -137,7 +137,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -173,7 +173,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -209,7 +209,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -240,7 +240,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -276,7 +276,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
-- 
2.43.0


From 7c5f8c2180bb9275500bb102978f5088d8a94427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 38/79] fix: Array#repeat repeats the array $count times

---
 lib/SPVM/Array.spvm | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Array.spvm b/lib/SPVM/Array.spvm
index fb52906..a783ca4 100644
--- a/lib/SPVM/Array.spvm
+++ b/lib/SPVM/Array.spvm
@@ -1497,13 +1497,13 @@ class Array {
     my $ret_array = Array->new_proto_any($array, $ret_length);
     
     if (Fn->is_object_array($array)) {
-      for (my $i = 0; $i < $length; $i++) {
-        Array->memcpy_object_address((object[])$ret_array, $count * $i, (object[])$array, 0, $count);
+      for (my $i = 0; $i < $count; $i++) {
+        Array->memcpy_object_address((object[])$ret_array, $length * $i, (object[])$array, 0, $length);
       }
     }
     else {
-      for (my $i = 0; $i < $length; $i++) {
-        Fn->memcpy($ret_array, $elem_size * $count * $i, $array, 0, $elem_size * $count);
+      for (my $i = 0; $i < $count; $i++) {
+        Fn->memcpy($ret_array, $elem_size * $length * $i, $array, 0, $elem_size * $length);
       }
     }
     
-- 
2.43.0


From f6b394d5abd728358d29a653392ce33a9671df18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 39/79] fix: Fn#memcpy, Fn#memmove, and Fn#memcmp reject
 negative offsets

---
 lib/SPVM/Fn.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/lib/SPVM/Fn.c b/lib/SPVM/Fn.c
index d173bb3..2a23dd5 100644
--- a/lib/SPVM/Fn.c
+++ b/lib/SPVM/Fn.c
@@ -371,6 +371,14 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The destination $dest cannnot be be a read-only string.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (!(dest_offset >= 0)) {
+    return env->die(env, stack, "The destination offset $dest_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(source_offset >= 0)) {
+    return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
   if (!(length >= 0)) {
     return env->die(env, stack, "The length $length must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
@@ -430,6 +438,14 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The destination $dest must not be a read-only string.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (!(dest_offset >= 0)) {
+    return env->die(env, stack, "The destination offset $dest_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(source_offset >= 0)) {
+    return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
   if (!(length >= 0)) {
     return env->die(env, stack, "The length $length must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
@@ -832,6 +848,14 @@ int32_t SPVM__Fn__memcmp(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The type of the data2 $data2 must be string type, a numeric array type, or a multi-numeric array type.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (!(data1_offset >= 0)) {
+    return env->die(env, stack, "The offset of the data1 $data1_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(data2_offset >= 0)) {
+    return env->die(env, stack, "The offset of the data2 $data2_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
   if (!(length >= 0)) {
     return env->die(env, stack, "The length $length must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
-- 
2.43.0


From e031db7f6eaf3110c65408b6120b99b04a384537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 40/79] fix: the range checks of Fn#memcpy, Fn#memmove, and
 Fn#memcmp no longer overflow

---
 lib/SPVM/Fn.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/Fn.c b/lib/SPVM/Fn.c
index 2a23dd5..34dcffe 100644
--- a/lib/SPVM/Fn.c
+++ b/lib/SPVM/Fn.c
@@ -392,7 +392,7 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t dest_elem_size = env->get_elem_size(env, stack, obj_dest);
   int32_t dest_byte_length = dest_elem_size * dest_length;
   
-  if (!(dest_offset + length <= dest_byte_length)) {
+  if (!(length <= dest_byte_length - dest_offset)) {
     return env->die(env, stack, "The offset $dest_offset + the length $length must be less than or equal to the length of the dest $obj_dest.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -401,7 +401,7 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t source_elem_size = env->get_elem_size(env, stack, obj_source);
   int32_t source_byte_length = source_elem_size * source_length;
   
-  if (!(source_offset + length <= source_byte_length)) {
+  if (!(length <= source_byte_length - source_offset)) {
     return env->die(env, stack, "The offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -459,7 +459,7 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t dest_elem_size = env->get_elem_size(env, stack, obj_dest);
   int32_t dest_byte_length = dest_elem_size * dest_length;
   
-  if (!(dest_offset + length <= dest_byte_length)) {
+  if (!(length <= dest_byte_length - dest_offset)) {
     return env->die(env, stack, "The offset $dest_offset + the length $length must be less than or equal to the length of the dest $obj_dest.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -468,7 +468,7 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t source_elem_size = env->get_elem_size(env, stack, obj_source);
   int32_t source_byte_length = source_elem_size * source_length;
   
-  if (!(source_offset + length <= source_byte_length)) {
+  if (!(length <= source_byte_length - source_offset)) {
     return env->die(env, stack, "The offset $source_offset + the length $length must be less than or equal to the length of the source $obj_source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -865,7 +865,7 @@ int32_t SPVM__Fn__memcmp(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t data1_elem_size = env->get_elem_size(env, stack, obj_data1);
   int32_t data1_byte_length = data1_elem_size * data1_length;
   
-  if (!(data1_offset + length <= data1_byte_length)) {
+  if (!(length <= data1_byte_length - data1_offset)) {
     return env->die(env, stack, "The offset $data1_offset + the length $length must be less than or equal to the length of the data1 $obj_data1.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -874,7 +874,7 @@ int32_t SPVM__Fn__memcmp(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t data2_elem_size = env->get_elem_size(env, stack, obj_data2);
   int32_t data2_byte_length = data2_elem_size * data2_length;
   
-  if (!(data2_offset + length <= data2_byte_length)) {
+  if (!(length <= data2_byte_length - data2_offset)) {
     return env->die(env, stack, "The offset $data2_offset + the length $length must be less than or equal to the length of the data2 $data2.", __func__, FILE_NAME, __LINE__);
   }
   
-- 
2.43.0


From c749be8d0fd798dd20d01254de2619246e126415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 41/79] fix: Fn#to_int and its relatives reject an empty string
 and a string containing NUL

---
 lib/SPVM/Fn.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Fn.c b/lib/SPVM/Fn.c
index 34dcffe..54e03d7 100644
--- a/lib/SPVM/Fn.c
+++ b/lib/SPVM/Fn.c
@@ -524,7 +524,7 @@ int32_t SPVM__Fn__to_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   double num = strtod(string, &end);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a double number.", __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
@@ -549,7 +549,7 @@ int32_t SPVM__Fn__to_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   float num = strtof(string, &end);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a float number.", __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
@@ -579,7 +579,7 @@ int32_t SPVM__Fn__to_int_with_base(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   int64_t num = strtol(string, &end, digit);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a %d-digit 32-bit integer", digit, __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE || num < INT32_MIN || num > INT32_MAX) {
@@ -609,7 +609,7 @@ int32_t SPVM__Fn__to_long_with_base(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   int64_t num = strtoll(string, &end, digit);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a %d-digit 64-bit integer", digit, __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
-- 
2.43.0


From 3cd7cf6ca5f6daee862385ec13ae9be9e31e2d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 42/79] fix: Fn#equals_string_range uses the offset of the
 second string

---
 lib/SPVM/Fn.spvm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index af56212..86957dc 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -132,12 +132,12 @@ class Fn {
     }
     
     my $string1_length = length $string1;
-    unless ($string1_offset + $length <= $string1_length) {
+    unless ($length <= $string1_length - $string1_offset) {
       return 0;
     }
     
     my $string2_length = length $string2;
-    unless ($string1_offset + $length <= $string2_length) {
+    unless ($length <= $string2_length - $string2_offset) {
       return 0;
     }
     
-- 
2.43.0


From c6458af973cbbb88da60ba282fa6f0d82d2dd1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 43/79] fix: the range checks of the string methods of Fn no
 longer overflow

---
 lib/SPVM/Fn.spvm | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index 86957dc..eaad6b5 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -266,7 +266,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ($length <= $string_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
@@ -813,7 +813,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ($length <= $string_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
@@ -1099,7 +1099,7 @@ class Fn {
           $range = 0;
         }
         else {
-          if ($current_utf8_offset < $utf8_offset + $utf8_length) {
+          if ($current_utf8_offset - $utf8_offset < $utf8_length) {
             $range = 0;
           }
           else {
@@ -1120,7 +1120,7 @@ class Fn {
     }
     
     if ($utf8_length >= 0) {
-      unless ($utf8_offset + $utf8_length <= $current_utf8_offset) {
+      unless ($utf8_length <= $current_utf8_offset - $utf8_offset) {
         die "The offset \$utf8_offset + the length \$utf8_length must be less than or equal to the UTF-8 length of the string \$string.";
       }
     }
@@ -1265,7 +1265,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ($length <= $string_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
@@ -1702,7 +1702,7 @@ class Fn {
     
     my $binary_length = length $binary;
     
-    unless ($offset + $size <= $binary_length) {
+    unless ($size <= $binary_length - $offset) {
       die "The byte size \$size must be less than or equal to the offset \$offset plus the length of the binary data \$binary.";
     }
     
-- 
2.43.0


From 1d237de451da4f6c59286f3d54ed70b84d627c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 44/79] fix: Fn#lcfirst and Fn#ucfirst accept an empty string

---
 lib/SPVM/Fn.spvm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index eaad6b5..78d5234 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -544,8 +544,8 @@ class Fn {
       else {
         $new_string->[0] = $char;
       }
+      Fn->memcpy($new_string, 1, $string, 1, $length - 1);
     }
-    Fn->memcpy($new_string, 1, $string, 1, $length - 1);
     
     return $new_string;
   }
@@ -1047,8 +1047,8 @@ class Fn {
       else {
         $new_string->[0] = $char;
       }
+      Fn->memcpy($new_string, 1, $string, 1, $length - 1);
     }
-    Fn->memcpy($new_string, 1, $string, 1, $length - 1);
     
     return $new_string;
   }
-- 
2.43.0


From 5bf166b88630b6c82a922003a02a47fcb7390a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 45/79] fix: Fn#tr rejects a range of four or more characters

---
 lib/SPVM/Fn.spvm | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index 78d5234..c4679fe 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -1168,12 +1168,11 @@ class Fn {
     my $code_points_length = $code_points_index;
     
     unless ($code_points_length == 3) {
-      if ($code_points_length == 1) {
-        $max_code_point = $min_code_point;
-      }
-      if ($max_code_point < 0) {
+      unless ($code_points_length == 1) {
         die "The range format of the argument name $arg_name must be 1 or 3 characters.";
       }
+      
+      $max_code_point = $min_code_point;
     }
     
     unless ($min_code_point <= $max_code_point) {
-- 
2.43.0


From fc0c58c6d5a60e30474457692a381772cb906e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 46/79] fix: Fn#slice checks its range

---
 lib/SPVM/Fn.spvm | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index c4679fe..20b3c2a 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -1585,6 +1585,18 @@ class Fn {
       die "The type of the array \$array must be an object array type, a numeric array type or a multi-numeric array type.";
     }
     
+    unless ($length >= 0) {
+      die "The length \$length must be greater than or equal to 0.";
+    }
+    
+    unless ($offset >= 0) {
+      die "The offset \$offset must be greater than or equal to 0.";
+    }
+    
+    unless ($length <= Fn->array_length($array) - $offset) {
+      die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
+    }
+    
     my $sliced_array = Array->new_proto_any($array, $length);
     
     if (&is_object_array($array)) {
-- 
2.43.0


From caaf0bc10ca08b70a9c0adb15fa8fbd69f914974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 47/79] fix: Packer converts the byte order of every element

---
 lib/SPVM/Packer.spvm | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Packer.spvm b/lib/SPVM/Packer.spvm
index 45154b1..998029f 100644
--- a/lib/SPVM/Packer.spvm
+++ b/lib/SPVM/Packer.spvm
@@ -256,10 +256,10 @@ class Packer {
         for (my $i = 0; $i < $process_length; $i++) {
           my $binary_part_offset = $size * $i;
           if ($endian == Packer::Specifier->ENDIAN_BIG_ENDIAN) {
-            Fn->system_endian_to_big_endian($binary_part, $size);
+            Fn->system_endian_to_big_endian($binary_part, $size, $binary_part_offset);
           }
           elsif ($endian == Packer::Specifier->ENDIAN_LITTLE_ENDIAN) {
-            Fn->system_endian_to_little_endian($binary_part, $size);
+            Fn->system_endian_to_little_endian($binary_part, $size, $binary_part_offset);
           }
         }
       }
@@ -364,10 +364,10 @@ class Packer {
         for (my $i = 0; $i < $process_length; $i++) {
           my $binary_part_offset = $size * $i;
           if ($endian == Packer::Specifier->ENDIAN_BIG_ENDIAN) {
-            Fn->big_endian_to_system_endian($binary_part, $size);
+            Fn->big_endian_to_system_endian($binary_part, $size, $binary_part_offset);
           }
           elsif ($endian == Packer::Specifier->ENDIAN_LITTLE_ENDIAN) {
-            Fn->little_endian_to_system_endian($binary_part, $size);
+            Fn->little_endian_to_system_endian($binary_part, $size, $binary_part_offset);
           }
         }
       }
-- 
2.43.0


From 39fc2708f5da9e4678f351b9ac700b0895cfab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 48/79] fix: Packer processes all hex digits with * and its
 range check no longer overflows

---
 lib/SPVM/Packer.spvm | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/SPVM/Packer.spvm b/lib/SPVM/Packer.spvm
index 998029f..e8114fa 100644
--- a/lib/SPVM/Packer.spvm
+++ b/lib/SPVM/Packer.spvm
@@ -234,8 +234,10 @@ class Packer {
         $process_length = $length;
       }
       
-      if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
-        $process_length = ($process_length + 1) / 2;
+      unless ($has_wildcard_length) {
+        if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
+          $process_length = $process_length / 2 + $process_length % 2;
+        }
       }
       
       my $binary_part_size = $size * $process_length;
@@ -346,11 +348,13 @@ class Packer {
         $process_length = ($binary_length - $binary_offset) / $size;
       }
       
-      if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
-        $process_length = ($process_length + 1) / 2;
+      unless ($has_wildcard_length) {
+        if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
+          $process_length = $process_length / 2 + $process_length % 2;
+        }
       }
       
-      unless ($binary_offset + $size * $process_length <= $binary_length) {
+      unless ($process_length <= ($binary_length - $binary_offset) / $size) {
         die "The current offset $binary_offset plus (the size $size * the process length culcuralted by $length of the specifier) must be less than the length($binary_length) of the binary data \$binary.";
       }
       
-- 
2.43.0


From ac71f50318c2beb5e079a42c1b45e47d44d83430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 49/79] fix: Packer unpacks bytes less than 0x10 to two hex
 digits

---
 lib/SPVM/Packer.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Packer.spvm b/lib/SPVM/Packer.spvm
index e8114fa..1a2bda0 100644
--- a/lib/SPVM/Packer.spvm
+++ b/lib/SPVM/Packer.spvm
@@ -395,7 +395,7 @@ class Packer {
             $int_object_array->[$i] = Int->new($number & 0xFF);
           }
           
-          my $format = Fn->repeat("%x", $process_length);
+          my $format = Fn->repeat("%02x", $process_length);
           
           my $hex_string_part = (mutable string)Fn->sprintf($format, (object[])$int_object_array);
           
-- 
2.43.0


From 2ebf8235631809df8bce75125caec60a4122b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 50/79] fix: Packer checks the second hex digit

---
 lib/SPVM/Packer.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Packer.spvm b/lib/SPVM/Packer.spvm
index 1a2bda0..e519afc 100644
--- a/lib/SPVM/Packer.spvm
+++ b/lib/SPVM/Packer.spvm
@@ -84,7 +84,7 @@ class Packer {
             my $hex_char_low = '\x30'; # 0
             if ($i + 1 < $hex_string_length) {
               $hex_char_low = $hex_string->[$i + 1];
-              unless (Fn->is_hex_digit($hex_char_high)) {
+              unless (Fn->is_hex_digit($hex_char_low)) {
                 die "Input contains non hex character.";
               }
             }
-- 
2.43.0


From 26d957b6c2d6a2a49115d00fe6390deee51fc180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 51/79] fix: Format no longer reads outside of the string for
 large values of %f and %g

---
 lib/SPVM/Format.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Format.c b/lib/SPVM/Format.c
index 815f2ce..e3f7260 100644
--- a/lib/SPVM/Format.c
+++ b/lib/SPVM/Format.c
@@ -37,8 +37,11 @@ int32_t SPVM__Format___native_snprintf_f(SPVM_ENV* env, SPVM_VALUE* stack) {
     snprintf(specifier, 14, "%%f");
   }
   
-  // "-9223372036854775808" + "." + width + precision
-  int32_t max_length = 20 + 1 + precision;
+  int32_t max_length = snprintf(NULL, 0, specifier, value);
+  if (!(max_length >= 0)) {
+    return env->die(env, stack, "The formatted string is too long.", __func__, FILE_NAME, __LINE__);
+  }
+  
   void* obj_formatted_string = env->new_string(env, stack, NULL, max_length);
   
   char* formatted_string = (char*)env->get_chars(env, stack, obj_formatted_string);
@@ -64,8 +67,11 @@ int32_t SPVM__Format___native_snprintf_g(SPVM_ENV* env, SPVM_VALUE* stack) {
     snprintf(specifier, 14, "%%g");
   }
   
-  // "-9223372036854775808" + "." + width + precision
-  int32_t max_length = 20 + 1 + precision;
+  int32_t max_length = snprintf(NULL, 0, specifier, value);
+  if (!(max_length >= 0)) {
+    return env->die(env, stack, "The formatted string is too long.", __func__, FILE_NAME, __LINE__);
+  }
+  
   void* obj_formatted_string = env->new_string(env, stack, NULL, max_length);
   
   char* formatted_string = (char*)env->get_chars(env, stack, obj_formatted_string);
-- 
2.43.0


From 74c280fd4d56d5d822f99ac0eab4fc6d34a36099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 52/79] fix: Format pads with zeros after the sign and accepts
 an empty string

---
 lib/SPVM/Format.spvm | 59 +++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/lib/SPVM/Format.spvm b/lib/SPVM/Format.spvm
index 3a7756a..80acdf9 100644
--- a/lib/SPVM/Format.spvm
+++ b/lib/SPVM/Format.spvm
@@ -323,50 +323,43 @@ class Format {
   native static method _native_snprintf_g : string ($value : double, $precision : int);
   native static method _native_snprintf_p : string ($value : object);
   
-  static method _push_formatted_string_unsigned : void($buffer : StringBuffer, $formatted_value : string, $width : int, $pad_char : byte, $left_justified : int) {
+  precompile static method _push_formatted_string_unsigned : void($buffer : StringBuffer, $formatted_value : string, $width : int, $pad_char : byte, $left_justified : int) {
     
-    # "+" sign is always ignored.
-    my $plus_sign = 0;
+    my $space_count = $width - length $formatted_value;
+    
+    if ($left_justified) {
+      $buffer->push($formatted_value);
+    }
     
-    &_push_formatted_string_signed($buffer, $formatted_value, $width, $pad_char, $left_justified, $plus_sign);
+    for (; $space_count > 0; --$space_count) {
+      $buffer->push_char($pad_char);
+    }
+    
+    unless ($left_justified) {
+      $buffer->push($formatted_value);
+    }
   }
 
   precompile static method _push_formatted_string_signed : void($buffer : StringBuffer, $formatted_value : string, $width : int, $pad_char : byte, $left_justified : int, $plus_sign : int) {
-    my $is_minus = 0;
+    
+    my $sign = "";
     if ($formatted_value->[0] == '-') {
-       $is_minus = 1;
+      $sign = "-";
+      $formatted_value = Fn->substr($formatted_value, 1);
     }
-    
-    my $space_count = $width - length $formatted_value;
-    if (!$is_minus && $plus_sign) {
-      --$space_count;
+    elsif ($plus_sign) {
+      $sign = "+";
     }
     
-    if ($left_justified) {
-      if (!$is_minus && $plus_sign) {
-        $buffer->push_char('+');
-      }
-      
-      $buffer->push($formatted_value);
-      
-      if ($space_count > 0) {
-        for (; $space_count > 0; --$space_count) {
-          $buffer->push_char($pad_char);
-        }
-      }
+    if ($pad_char == '0') {
+      # The zeros are added between the sign and the digits
+      $buffer->push($sign);
+      $width -= length $sign;
     }
     else {
-      if ($space_count > 0) {
-        for (; $space_count > 0; --$space_count) {
-          $buffer->push_char($pad_char);
-        }
-      }
-      
-      if (!$is_minus && $plus_sign) {
-        $buffer->push_char('+');
-      }
-      
-      $buffer->push($formatted_value);
+      $formatted_value = $sign . $formatted_value;
     }
+    
+    &_push_formatted_string_unsigned($buffer, $formatted_value, $width, $pad_char, $left_justified);
   }
 }
-- 
2.43.0


From 0900e3b248eef24b08fd666290d7bfc222d14a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 53/79] fix: die with an undefined message does not crash

---
 lib/SPVM/Builder/src/spvm_api.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index d74fe06..87599f4 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3147,8 +3147,13 @@ SPVM_OBJECT* SPVM_API_new_stack_trace_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack
   const char* at_part = " at ";
   
   // Exception
-  const char* exception_bytes = SPVM_API_get_chars(env, stack, exception);
-  int32_t exception_length = SPVM_API_length(env, stack, exception);
+  // The message is "Error" if it is not given
+  const char* exception_bytes = "Error";
+  int32_t exception_length = strlen(exception_bytes);
+  if (exception) {
+    exception_bytes = SPVM_API_get_chars(env, stack, exception);
+    exception_length = SPVM_API_length(env, stack, exception);
+  }
   
   // Total string length
   int32_t total_length = 0;
-- 
2.43.0


From de4d41d74aec736516bb1d4f1f5a9046a2884f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 54/79] fix: isa_error with an error id of no class does not
 crash

---
 lib/SPVM/Builder/include/spvm_implement.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index 62f428b..2c8b02a 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -1389,7 +1389,12 @@ static inline void SPVM_IMPLEMENT_ISA(SPVM_ENV* env, SPVM_VALUE* stack, int32_t*
 }
 
 static inline void SPVM_IMPLEMENT_ISA_ERROR(SPVM_ENV* env, SPVM_VALUE* stack, int32_t* out, void* src_basic_type, void* dist_basic_type, int32_t dist_type_dimension) {
-  *out = env->api->type->can_assign(env->runtime, dist_basic_type, dist_type_dimension, 0, src_basic_type, 0, 0);
+  if (src_basic_type) {
+    *out = env->api->type->can_assign(env->runtime, dist_basic_type, dist_type_dimension, 0, src_basic_type, 0, 0);
+  }
+  else {
+    *out = 0;
+  }
 }
 
 static inline void SPVM_IMPLEMENT_IS_TYPE(SPVM_ENV* env, SPVM_VALUE* stack, int32_t* out, void* object, void* dist_basic_type, int32_t dist_type_dimension) {
-- 
2.43.0


From a19dbd8949dab0a5e95f8613e9aa92ab6775c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 55/79] fix: the can operator finds the methods of the super
 classes

---
 lib/SPVM/Builder/src/spvm_check.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 132a381..5c599d1 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3347,11 +3347,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             SPVM_BASIC_TYPE* var_basic_type = SPVM_HASH_get(compiler->basic_type_symtable, var_basic_type_name, strlen(var_basic_type_name));
             
             const char* method_name = op_name_method->uv.name;
-            SPVM_METHOD* found_method = SPVM_HASH_get(
-              var_basic_type->method_symtable,
-              method_name,
-              strlen(method_name)
-            );
+            SPVM_METHOD* found_method = SPVM_CHECK_search_method(compiler, var_basic_type, method_name);
             
             if (!found_method) {
               SPVM_COMPILER_error(compiler, "%s#%s method, the operand of can operator, must be defined.\n  at %s line %d", var_basic_type_name, method_name, op_name_method->file, op_name_method->line);
-- 
2.43.0


From 183ad8f6320c57003d2ef45bc0f76e5a1317f330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 56/79] fix: the args_width operator is not changed by method
 calls

---
 lib/SPVM/Builder/src/spvm_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 87599f4..75d91ae 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -4807,6 +4807,7 @@ int32_t SPVM_API_call_method_common(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTI
   SPVM_RUNTIME* runtime = env->runtime;
   
   int32_t error_id = 0;
+  int32_t caller_args_width = stack[SPVM_API_C_STACK_INDEX_ARGS_WIDTH].ival;
   stack[SPVM_API_C_STACK_INDEX_ARGS_WIDTH].ival = args_width;
   stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival++;
   
@@ -4905,6 +4906,7 @@ int32_t SPVM_API_call_method_common(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTI
   }
   
   stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival--;
+  stack[SPVM_API_C_STACK_INDEX_ARGS_WIDTH].ival = caller_args_width;
   
   return error_id;
 }
-- 
2.43.0


From 23ecc4caf384357827a90fcfb584169446fdb2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 57/79] fix: multi-numeric classes with a short name or with
 fields of different types are reported without reading other memory

---
 lib/SPVM/Builder/src/spvm_check.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 5c599d1..16ca3b2 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -270,7 +270,7 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
         SPVM_FIELD* field = SPVM_LIST_get(fields, field_index);
         SPVM_TYPE* field_type = field->type;
         if (!(field_type->basic_type->id == first_field_type->basic_type->id && field_type->dimension == first_field_type->dimension)) {
-          SPVM_COMPILER_error(compiler, "The fields of the multi-numeric type must be of the same type.\n  at %s line %d", field_type->basic_type->name, field->op_field->file, field->op_field->line);
+          SPVM_COMPILER_error(compiler, "The fields of the multi-numeric type must be of the same type.\n  at %s line %d", field->op_field->file, field->op_field->line);
           return;
         }
       }
@@ -302,8 +302,8 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
       int32_t tail_name_length = (int32_t)strlen(tail_name);
       int32_t basic_type_name_length = strlen(basic_type_name);
       
-      char* found_pos_ptr = strstr(basic_type_name + basic_type_name_length - tail_name_length, tail_name);
-      if (!found_pos_ptr) {
+      int32_t has_tail_name = basic_type_name_length >= tail_name_length && strcmp(basic_type_name + basic_type_name_length - tail_name_length, tail_name) == 0;
+      if (!has_tail_name) {
         SPVM_COMPILER_error(compiler, "The name of the multi-numeric type %s must end with with %s.\n  at %s line %d", basic_type->name, tail_name, basic_type->op_class->file, basic_type->op_class->line);
         return;
       }
-- 
2.43.0


From 2629ce3b5b8f361d7e3f746572f03ed13ddb500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 58/79] fix: the message for too many fields does not crash

---
 lib/SPVM/Builder/src/spvm_check.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 16ca3b2..4fe53d9 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -384,7 +384,7 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
       }
       
       if (!(merged_fields->length <= 65535)) {
-        SPVM_COMPILER_error(compiler, "The length of fields in %s class must be lower than 65535.\n  at %s line %d", basic_type->op_class->file, basic_type->op_class->line);
+        SPVM_COMPILER_error(compiler, "The length of fields in %s class must be lower than 65535.\n  at %s line %d", basic_type->name, basic_type->op_class->file, basic_type->op_class->line);
         return;
       }
       
-- 
2.43.0


From a09a46403ca65de7cd0bb50f729c49425aa5d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 59/79] fix: the fields that follow a field redefined in a
 child class are not lost

---
 lib/SPVM/Builder/src/spvm_check.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 4fe53d9..8ddcca5 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -359,7 +359,7 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
               compile_error = 1;
             }
             
-            break;
+            continue;
           }
           
           SPVM_FIELD* new_field;
-- 
2.43.0


From eeed842b85f5fb94e958765d864146139e558f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 60/79] fix: error reasons are not used as format strings

---
 lib/SPVM/Builder/src/spvm_check.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 8ddcca5..97d68e0 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -495,7 +495,7 @@ void SPVM_CHECK_check_methods(SPVM_COMPILER* compiler) {
               
               if (!satisfy_assignment_requirement) {
                 if (strlen(error_reason)) {
-                  SPVM_COMPILER_error(compiler, error_reason);
+                  SPVM_COMPILER_error(compiler, "%s", error_reason);
                 }
                 
                 SPVM_COMPILER_error(compiler, "The default value of the optional argument %s must be able to be assigned to the argument.\n  at %s line %d", arg_var_decl->var->name, method->op_method->file, method->op_method->line);
@@ -794,7 +794,7 @@ void SPVM_CHECK_check_methods(SPVM_COMPILER* compiler) {
       int32_t has_interface = SPVM_BASIC_TYPE_has_interface_common(compiler, basic_type->id, parent_basic_type->id, error_reason);
       
       if (!has_interface) {
-        SPVM_COMPILER_error(compiler, error_reason);
+        SPVM_COMPILER_error(compiler, "%s", error_reason);
         return;
       }
       
@@ -809,7 +809,7 @@ void SPVM_CHECK_check_methods(SPVM_COMPILER* compiler) {
       int32_t has_interface = SPVM_BASIC_TYPE_has_interface(compiler, basic_type->id, interface_basic_type->id, error_reason);
       
       if (!has_interface) {
-        SPVM_COMPILER_error(compiler, error_reason);
+        SPVM_COMPILER_error(compiler, "%s", error_reason);
         return;
       }
     }
@@ -2223,7 +2223,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
               }
               else {
                 if (strlen(error_reason)) {
-                  SPVM_COMPILER_error(compiler, error_reason);
+                  SPVM_COMPILER_error(compiler, "%s", error_reason);
                 }
                 SPVM_OP* op_stab = SPVM_OP_cut_op(compiler, op_cur);
                 SPVM_OP* op_constant_false = SPVM_OP_new_op_constant_int(compiler, 0, op_cur->file, op_cur->line);
@@ -3379,7 +3379,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             
             if (!castability) {
               if (strlen(error_reason)) {
-                SPVM_COMPILER_error(compiler, error_reason);
+                SPVM_COMPILER_error(compiler, "%s", error_reason);
               }
               
               const char* src_type_name = SPVM_TYPE_new_type_name(compiler, src_type->basic_type->id, src_type->dimension, src_type->flag);
@@ -4256,7 +4256,7 @@ SPVM_OP* SPVM_CHECK_check_assign(SPVM_COMPILER* compiler, SPVM_TYPE* dist_type,
     
   if (!satisfy_assignment_requirement) {
     if (strlen(error_reason)) {
-      SPVM_COMPILER_error(compiler, error_reason);
+      SPVM_COMPILER_error(compiler, "%s", error_reason);
     }
     
     SPVM_COMPILER_error(compiler, "%s type cannot be assigned to %s type in %s.\n  at %s line %d", src_type_name, dist_type_name, place, file, line);
-- 
2.43.0


From db3c806d6c8e1f6028b5e064ea71eade45ab2138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 61/79] fix: the access control of fields is judged by the
 class that defines the field and the outmost class of an anon method

---
 lib/SPVM/Builder/src/spvm_check.c | 15 ++++++---------
 lib/SPVM/Builder/src/spvm_op.c    |  5 ++++-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 97d68e0..5d1c9d7 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3281,16 +3281,13 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
 
             SPVM_FIELD_ACCESS* field_access = op_cur->uv.field_access;
             
-            SPVM_FIELD* found_field_in_current_basic_type = SPVM_HASH_get(method->current_basic_type->unmerged_field_symtable, field_access->field->name, strlen(field_access->field->name));
+            // The class that defines the field. It is the class of the invocant or one of its super classes.
+            SPVM_FIELD* found_unmerged_field = SPVM_CHECK_search_unmerged_field(compiler, field->current_basic_type, field->name);
+            SPVM_BASIC_TYPE* field_basic_type = found_unmerged_field->current_basic_type;
             
-            int32_t is_parent_field = !found_field_in_current_basic_type && !method->current_basic_type->is_generated_by_anon_method;
-            
-            if (!SPVM_CHECK_can_access(compiler, method->current_basic_type,  field_access->field->current_basic_type, field_access->field->access_control_type, is_parent_field)) {
-              if (!SPVM_OP_is_allowed(compiler, method->current_basic_type, field->current_basic_type, is_parent_field)) {
-                
-                SPVM_FIELD* found_unmerged_field = SPVM_CHECK_search_unmerged_field(compiler, field->current_basic_type, field->name);
-                
-                SPVM_COMPILER_error(compiler, "The %s %s#%s field cannnot be accessed from the current class %s.\n  at %s line %d", SPVM_ATTRIBUTE_get_name(compiler, field_access->field->access_control_type), found_unmerged_field->current_basic_type->name, found_unmerged_field->name, method->current_basic_type->name, op_cur->file, op_cur->line);
+            if (!SPVM_CHECK_can_access(compiler, method->current_basic_type, field_basic_type, found_unmerged_field->access_control_type, 0)) {
+              if (!SPVM_OP_is_allowed(compiler, method->current_basic_type, field_basic_type, 0)) {
+                SPVM_COMPILER_error(compiler, "The %s %s#%s field cannnot be accessed from the current class %s.\n  at %s line %d", SPVM_ATTRIBUTE_get_name(compiler, found_unmerged_field->access_control_type), field_basic_type->name, found_unmerged_field->name, method->current_basic_type->name, op_cur->file, op_cur->line);
                 return;
               }
             }
diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 29d7251..1d9bde9 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -3703,10 +3703,13 @@ int32_t SPVM_OP_is_allowed(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic_type_
     is_allowed = 1;
   }
   else {
+    // An anon method class has the same access control as its outmost class
+    const char* outmost_basic_type_name = basic_type_current->is_generated_by_anon_method ? basic_type_current->outmost->name : current_basic_type_name;
+    
     for (int32_t i = 0; i < allows->length; i++) {
       SPVM_ALLOW* allow = SPVM_LIST_get(allows, i);
       const char* allow_basic_type_name = allow->basic_type_name;
-      if (strcmp(current_basic_type_name, allow_basic_type_name) == 0) {
+      if (strcmp(outmost_basic_type_name, allow_basic_type_name) == 0) {
         is_allowed = 1;
         break;
       }
-- 
2.43.0


From 5dbd10b8fcaf9a34c57ed0a6427c0607ebfe3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:43 +0000
Subject: [PATCH 62/79] fix: the cast of a numeric object type to the same type
 is allowed

---
 lib/SPVM/Builder/src/spvm_type.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index c163e13..a533da5 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1471,6 +1471,15 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
         can_cast = 0;
       }
     }
+    // Source type is numeric object type
+    else if (SPVM_TYPE_is_numeric_object_type(compiler, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
+      if (src_type_basic_type_id == dist_type_basic_type_id) {
+        can_cast = 1;
+      }
+      else {
+        can_cast = 0;
+      }
+    }
     // Source type is any object type
     else if (SPVM_TYPE_is_any_object_type(compiler, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
       can_cast = 1;
-- 
2.43.0


From baf417ebb7b6a1330f0da8be458702fad5453938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 63/79] fix: the merge stack is freed when a class has too many
 fields

---
 lib/SPVM/Builder/src/spvm_check.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 5d1c9d7..d001c3c 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -385,6 +385,7 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
       
       if (!(merged_fields->length <= 65535)) {
         SPVM_COMPILER_error(compiler, "The length of fields in %s class must be lower than 65535.\n  at %s line %d", basic_type->name, basic_type->op_class->file, basic_type->op_class->line);
+        SPVM_LIST_free(basic_type_merge_stack);
         return;
       }
       
-- 
2.43.0


From 4c389f216bb9db845f133cc473ec39232bf1c950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 64/79] fix: + and - after a floating point literal are
 operators

---
 lib/SPVM/Builder/src/spvm_toke.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 0c2f95f..ab0c5ff 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1710,6 +1710,9 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
               if (*compiler->ch_ptr == '.' || *compiler->ch_ptr == 'p' || *compiler->ch_ptr == 'P') {
                 is_floating_number = 1;
               }
+              if (*compiler->ch_ptr != '_') {
+                before_is_exponant = 0;
+              }
               if (*compiler->ch_ptr == 'p' || *compiler->ch_ptr == 'P') {
                 is_hex_floating_number = 1;
                 before_is_exponant = 1;
@@ -1743,7 +1746,10 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
               // Floating point literal
               if (*compiler->ch_ptr == '.' || *compiler->ch_ptr == 'e' || *compiler->ch_ptr == 'E') {
                 is_floating_number = 1;
-                before_is_exponant = 1;
+              }
+              // "+" and "-" are the sign of the exponent part only just after "e" or "E"
+              if (*compiler->ch_ptr != '_') {
+                before_is_exponant = *compiler->ch_ptr == 'e' || *compiler->ch_ptr == 'E';
               }
               compiler->ch_ptr++;
             }
-- 
2.43.0


From 5059356264ffefbeabf4e37e92876268740215be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 65/79] fix: 0b and 0x followed by no numbers are refused

---
 lib/SPVM/Builder/src/spvm_toke.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index ab0c5ff..2ebe07c 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1772,6 +1772,10 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             }
             numeric_literal[pos] = '\0';
           }
+          // "0x" and "0b" without numbers
+          if (((digit == 16 && *(number_literal_begin_ptr + 2) == '_') || digit == 2) && numeric_literal[2] == '\0') {
+            SPVM_COMPILER_error(compiler, "\"%s\" must be followed by one or more %s numbers.\n  at %s line %d", numeric_literal, digit == 16 ? "hexadecimal" : "binary", compiler->current_file, compiler->current_line);
+          }
           // Back suffix such as "f" or "F" when hex floating number
           if (is_hex_floating_number && !SPVM_TOKE_isdigit_ascii(compiler, *(compiler->ch_ptr - 1))) {
             compiler->ch_ptr--;
-- 
2.43.0


From d156e1feefee30182b02f0a7ad665af1af025a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 66/79] fix: the < and > operators do not skip the character
 that follows

---
 lib/SPVM/Builder/src/spvm_toke.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 2ebe07c..b6713d9 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -805,7 +805,6 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
         }
         // <
         else {
-          compiler->ch_ptr++;
           SPVM_OP* op = SPVM_TOKE_new_op(compiler, SPVM_OP_C_ID_NUMERIC_COMPARISON_LT);
           yylvalp->opval = op;
           return NUMLT;
@@ -864,7 +863,6 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
         }
         // >
         else {
-          compiler->ch_ptr++;
           SPVM_OP* op = SPVM_TOKE_new_op(compiler, SPVM_OP_C_ID_NUMERIC_COMPARISON_GT);
           yylvalp->opval = op;
           return NUMGT;
-- 
2.43.0


From b317dd86d09268b424b66922d9110e6ebf665cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 67/79] fix: an array is freed when one of its elements is
 refused

---
 SPVM.xs | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/SPVM.xs b/SPVM.xs
index c12ba30..c0d5cee 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -287,6 +287,7 @@ SV* SPVM_XS_UTIL_new_byte_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       
       // New array
       void* spvm_array = env->new_byte_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int8_t* elems = env->get_elems_byte(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -300,7 +301,7 @@ SV* SPVM_XS_UTIL_new_byte_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
         elems[i] = (int8_t)SvIV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -346,6 +347,7 @@ SV* SPVM_XS_UTIL_new_byte_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
       
       // New array
       void* spvm_array = env->new_byte_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int8_t* elems = env->get_elems_byte(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -359,7 +361,7 @@ SV* SPVM_XS_UTIL_new_byte_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
         elems[i] = (int8_t)(uint8_t)SvUV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -405,6 +407,7 @@ SV* SPVM_XS_UTIL_new_short_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_short_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int16_t* elems = env->get_elems_short(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -418,7 +421,7 @@ SV* SPVM_XS_UTIL_new_short_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         elems[i] = (int16_t)SvIV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -464,6 +467,7 @@ SV* SPVM_XS_UTIL_new_short_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** s
       
       // New array
       void* spvm_array = env->new_short_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int16_t* elems = env->get_elems_short(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -477,7 +481,7 @@ SV* SPVM_XS_UTIL_new_short_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** s
         elems[i] = (int16_t)(uint16_t)SvUV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -523,6 +527,7 @@ SV* SPVM_XS_UTIL_new_int_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       
       // New array
       void* spvm_array = env->new_int_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int32_t* elems = env->get_elems_int(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -536,7 +541,7 @@ SV* SPVM_XS_UTIL_new_int_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
         elems[i] = (int32_t)SvIV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -583,6 +588,7 @@ SV* SPVM_XS_UTIL_new_int_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv_
       
       // New array
       void* spvm_array = env->new_int_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int32_t* elems = env->get_elems_int(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -596,7 +602,7 @@ SV* SPVM_XS_UTIL_new_int_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv_
         elems[i] = (int32_t)(uint32_t)SvUV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -643,6 +649,7 @@ SV* SPVM_XS_UTIL_new_long_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       
       // New array
       void* spvm_array = env->new_long_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int64_t* elems = env->get_elems_long(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -656,7 +663,7 @@ SV* SPVM_XS_UTIL_new_long_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
         elems[i] = (int64_t)SvIV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -703,6 +710,7 @@ SV* SPVM_XS_UTIL_new_long_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
       
       // New array
       void* spvm_array = env->new_long_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int64_t* elems = env->get_elems_long(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -716,7 +724,7 @@ SV* SPVM_XS_UTIL_new_long_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
         elems[i] = (int64_t)(uint64_t)SvUV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -763,6 +771,7 @@ SV* SPVM_XS_UTIL_new_float_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_float_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       float* elems = env->get_elems_float(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -776,7 +785,7 @@ SV* SPVM_XS_UTIL_new_float_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         elems[i] = (float)SvNV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -823,6 +832,7 @@ SV* SPVM_XS_UTIL_new_double_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_double_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       double* elems = env->get_elems_double(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -836,7 +846,7 @@ SV* SPVM_XS_UTIL_new_double_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         elems[i] = (double)SvNV(sv_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -883,6 +893,7 @@ SV* SPVM_XS_UTIL_new_string_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_string_array_no_mortal(env, stack, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
@@ -898,7 +909,7 @@ SV* SPVM_XS_UTIL_new_string_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         env->set_elem_string(env, stack, spvm_array, i, spvm_elem);
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -944,6 +955,7 @@ SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
       
       // New array
       void* spvm_array = env->new_object_array_no_mortal(env, stack, basic_type, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
@@ -972,7 +984,7 @@ SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
         }
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -1017,6 +1029,7 @@ SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t ty
       
       // New array
       void* spvm_array = env->new_muldim_array_no_mortal(env, stack, basic_type, type_dimension, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
@@ -1045,7 +1058,7 @@ SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t ty
         }
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
@@ -1092,6 +1105,7 @@ SV* SPVM_XS_UTIL_new_mulnum_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
       
       // New array
       void* spvm_array = env->new_mulnum_array_no_mortal(env, stack, basic_type, length);
+      SV* sv_new_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
@@ -1166,7 +1180,7 @@ SV* SPVM_XS_UTIL_new_mulnum_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
         }
       }
       
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
+      sv_array = sv_new_array;
     }
   }
   else {
-- 
2.43.0


From 5d376256964db2b539b223098abbb6f99fd26b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 68/79] fix: type names in error messages are freed

---
 SPVM.xs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/SPVM.xs b/SPVM.xs
index c0d5cee..9c85024 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -972,9 +972,11 @@ SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
             env->set_elem_object(env, stack, spvm_array, index, elem);
           }
           else {
+            int32_t scope_id = env->enter_scope(env, stack);
             void* spvm_elem_type_name = env->get_type_name(env, stack, elem);
             const char* elem_type_name = env->get_chars(env, stack, spvm_elem_type_name);
             *sv_error = sv_2mortal(newSVpvf("'s %dth element must be the \"%s\" assignable type", index + 1, elem_type_name));
+            env->leave_scope(env, stack, scope_id);
             return &PL_sv_undef;
           }
         }
@@ -1046,9 +1048,11 @@ SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t ty
             env->set_elem_object(env, stack, spvm_array, index, elem);
           }
           else {
+            int32_t scope_id = env->enter_scope(env, stack);
             void* spvm_elem_type_name = env->get_type_name(env, stack, elem);
             const char* elem_type_name = env->get_chars(env, stack, spvm_elem_type_name);
             *sv_error = sv_2mortal(newSVpvf("'s %dth element must be the \"%s\" assignable type", index + 1, elem_type_name));
+            env->leave_scope(env, stack, scope_id);
             return &PL_sv_undef;
           }
         }
@@ -1475,8 +1479,11 @@ _xs_call_method(...)
             
             if (error) {
               const char* arg_basic_type_name = env->api->basic_type->get_name(env->runtime, arg_basic_type);
+              int32_t scope_id = env->enter_scope(env, stack);
               void* spvm_compile_type_name = env->get_compile_type_name(env, stack, arg_basic_type_name, arg_type_dimension, arg_type_flag);
-              const char* compile_type_name = env->get_chars(env, stack, spvm_compile_type_name);
+              SV* sv_compile_type_name = sv_2mortal(newSVpv(env->get_chars(env, stack, spvm_compile_type_name), 0));
+              env->leave_scope(env, stack, scope_id);
+              const char* compile_type_name = SvPV_nolen(sv_compile_type_name);
               croak("The %dth argument of the \"%s\" method in the \"%s\" class must be an SPVM::BlessedObject::Class object of a \"%s\" assignable type or undef\n    %s at %s line %d\n", arg_index_nth, method_name, basic_type_name, compile_type_name, __func__, FILE_NAME, __LINE__);
             }
             
-- 
2.43.0


From 990205b97815dacbfc181b3ca51ca6c370942be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 69/79] fix: the arguments after a multi-dimensional array are
 passed

---
 SPVM.xs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/SPVM.xs b/SPVM.xs
index 9c85024..e9de36f 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -1950,7 +1950,6 @@ _xs_call_method(...)
       stack[stack_index].oval = spvm_array;
       
       stack_index++;
-      break;
     }
     else {
       assert(0);
-- 
2.43.0


From 3f8527804446e65e782f0a2e4b7f2b5e2c5793e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 70/79] fix: calling a method of a class that is not loaded
 throws an exception

---
 SPVM.xs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SPVM.xs b/SPVM.xs
index e9de36f..4a5440d 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -1287,6 +1287,9 @@ _xs_call_method(...)
     class_method_call = 1;
     basic_type_name = SvPV_nolen(sv_invocant);
     void* basic_type = env->api->runtime->get_basic_type_by_name(env->runtime, basic_type_name);
+    if (!basic_type) {
+      croak("The \"%s\" basic type is not found\n    %s at %s line %d\n", basic_type_name, __func__, FILE_NAME, __LINE__);
+    }
     
     method = env->api->basic_type->get_method_by_name(env->runtime, basic_type, method_name);
     
-- 
2.43.0


From 6bef5d684cbcaba61883c4dc65614458e4024cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 71/79] fix: call_method does not change the method name of the
 caller

---
 SPVM.xs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/SPVM.xs b/SPVM.xs
index 4a5440d..5778c64 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -1249,11 +1249,11 @@ _xs_call_method(...)
     
     char* found_char = strrchr(method_name, ':');
     if (found_char) {
-      if (!(*(found_char - 1) == ':')) {
+      if (!(found_char > method_name && *(found_char - 1) == ':')) {
         croak("The static method call must be valid\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
       }
-      *(found_char - 1) = '\0';
-      const char* basic_type_name = method_name;
+      SV* sv_static_call_basic_type_name = sv_2mortal(newSVpvn(method_name, (found_char - 1) - method_name));
+      const char* basic_type_name = SvPV_nolen(sv_static_call_basic_type_name);
       method_name = found_char + 1;
       
       void* static_call_basic_type = env->api->runtime->get_basic_type_by_name(env->runtime, basic_type_name);
@@ -1267,7 +1267,6 @@ _xs_call_method(...)
       }
       
       method = env->api->basic_type->get_method_by_name(env->runtime, static_call_basic_type, method_name);
-      *(found_char - 1) = ':';
     }
     else {
       method = env->get_instance_method(env, stack, object, method_name);
-- 
2.43.0


From 9b50ebe6300515d3a8dca2e9add29918e71d7cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 72/79] fix: get, set and to_elems of array objects judge the
 element by its own type

---
 SPVM.xs | 100 +++++++++++++++++++++++++-------------------------------
 1 file changed, 45 insertions(+), 55 deletions(-)

diff --git a/SPVM.xs b/SPVM.xs
index 5778c64..9350c90 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -157,6 +157,25 @@ SV* SPVM_XS_UTIL_new_sv_blessed_object(pTHX_ SV* sv_api, void* spvm_object, cons
   return sv_blessed_object;
 }
 
+SV* SPVM_XS_UTIL_new_sv_elem_object(pTHX_ SPVM_ENV* env, SPVM_VALUE* stack, SV* sv_api, void* elem) {
+  
+  SV* sv_elem;
+  if (elem == NULL) {
+    sv_elem = &PL_sv_undef;
+  }
+  else if (env->get_object_type_dimension(env, stack, elem) > 0) {
+    sv_elem = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, elem, "SPVM::BlessedObject::Array");
+  }
+  else if (strcmp(env->get_object_basic_type_name(env, stack, elem), "string") == 0) {
+    sv_elem = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, elem, "SPVM::BlessedObject::String");
+  }
+  else {
+    sv_elem = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, elem, "SPVM::BlessedObject::Class");
+  }
+  
+  return sv_elem;
+}
+
 SV* SPVM_XS_UTIL_new_sv_pointer_object(pTHX_ void* pointer, const char* class) {
   
   size_t iv_pointer = PTR2IV(pointer);
@@ -3987,8 +4006,6 @@ _xs_to_elems(...)
   
   AV* av_values = (AV*)sv_2mortal((SV*)newAV());
   if (is_array_type) {
-    int32_t elem_type_dimension = type_dimension - 1;
-    
     int32_t array_is_mulnum_array = env->is_mulnum_array(env, stack, spvm_array);
     int32_t array_is_object_array = env->is_object_array(env, stack, spvm_array);
     
@@ -4051,40 +4068,10 @@ _xs_to_elems(...)
       }
     }
     else if (array_is_object_array) {
-      if (basic_type_id == SPVM_NATIVE_C_BASIC_TYPE_ID_STRING) {
-        for (int32_t i = 0; i < length; i++) {
-          void* object = env->get_elem_string(env, stack, spvm_array, i);
-          
-          SV* sv_value;
-          if (object != NULL) {
-            sv_value = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, object, "SPVM::BlessedObject::String");
-          }
-          else {
-            sv_value = &PL_sv_undef;
-          }
-          
-          av_push(av_values, SvREFCNT_inc(sv_value));
-        }
-      }
-      else {
-        for (int32_t index = 0; index < length; index++) {
-          // Index
-          void* value = env->get_elem_object(env, stack, spvm_array, index);
-          if (value == NULL) {
-            av_push(av_values, &PL_sv_undef);
-          }
-          else {
-            int32_t elem_type_is_array_type = elem_type_dimension > 0;
-            SV* sv_value;
-            if (elem_type_is_array_type) {
-              sv_value = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, value, "SPVM::BlessedObject::Array");
-            }
-            else {
-              sv_value = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, value, "SPVM::BlessedObject::Class");
-            }
-            av_push(av_values, SvREFCNT_inc(sv_value));
-          }
-        }
+      for (int32_t index = 0; index < length; index++) {
+        void* elem = env->get_elem_object(env, stack, spvm_array, index);
+        SV* sv_elem = SPVM_XS_UTIL_new_sv_elem_object(aTHX_ env, stack, sv_api, elem);
+        av_push(av_values, SvREFCNT_inc(sv_elem));
       }
     }
     else {
@@ -4349,6 +4336,11 @@ _xs_set(...)
   int32_t basic_type_id = env->api->basic_type->get_id(env->runtime, basic_type);
   int32_t type_dimension = env->get_object_type_dimension(env, stack, spvm_array);
   
+  if (env->is_mulnum_array(env, stack, spvm_array)) {
+    croak("The set method doesn't support a multi-numeric array\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+  }
+  
+  int32_t elem_is_object = 0;
   if (type_dimension == 1) {
     switch (basic_type_id) {
       case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE: {
@@ -4413,14 +4405,21 @@ _xs_set(...)
         break;
       }
       default: {
-        // Get object
-        void* elem = SPVM_XS_UTIL_get_spvm_object(aTHX_ sv_elem);
-        
-        env->set_elem_object(env, stack, spvm_array, index, elem);
+        elem_is_object = 1;
       }
     }
   }
   else if (type_dimension > 1) {
+    elem_is_object = 1;
+  }
+  else {
+    assert(0);
+  }
+  
+  if (elem_is_object) {
+    if (SvOK(sv_elem) && !(sv_isobject(sv_elem) && sv_derived_from(sv_elem, "SPVM::BlessedObject"))) {
+      croak("$elem must be an SPVM::BlessedObject object or undef\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+    }
     
     // Get object
     void* elem = SPVM_XS_UTIL_get_spvm_object(aTHX_ sv_elem);
@@ -4432,9 +4431,6 @@ _xs_set(...)
     
     env->set_elem_object(env, stack, spvm_array, index, elem);
   }
-  else {
-    assert(0);
-  }
   
   XSRETURN(0);
 }
@@ -4486,6 +4482,10 @@ _xs_get(...)
   int32_t basic_type_id = env->api->basic_type->get_id(env->runtime, basic_type);
   int32_t type_dimension = env->get_object_type_dimension(env, stack, spvm_array);
   
+  if (env->is_mulnum_array(env, stack, spvm_array)) {
+    croak("The get method doesn't support a multi-numeric array\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+  }
+  
   assert(type_dimension >= 1);
   SV* sv_elem = NULL;
   int32_t elem_is_object = 0;
@@ -4543,20 +4543,10 @@ _xs_get(...)
   }
   
   if (elem_is_object) {
-    void* runtime = env->runtime;
-    
-    // Element type dimension
-    int32_t elem_type_dimension = env->get_object_type_dimension(env, stack, spvm_array) - 1;
-    
-    // Index
+    // Element
     void* elem = env->get_elem_object(env, stack, spvm_array, index);
     
-    if (elem_type_dimension == 0) {
-      sv_elem = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, elem, "SPVM::BlessedObject::Class");
-    }
-    else if (elem_type_dimension > 0) {
-      sv_elem = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, elem, "SPVM::BlessedObject::Array");
-    }
+    sv_elem = SPVM_XS_UTIL_new_sv_elem_object(aTHX_ env, stack, sv_api, elem);
   }
   
   XPUSHs(sv_elem);
-- 
2.43.0


From 040c1700ee22bc7148c2deb0ca74de74fe643275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:51 +0000
Subject: [PATCH 73/79] fix: _ at the end of a hexadecimal floating point
 literal is a separator

---
 lib/SPVM/Builder/src/spvm_toke.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index b6713d9..7996241 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1704,6 +1704,11 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
                 break;
               }
               
+              // The exponent part is a decimal number
+              if (is_hex_floating_number && SPVM_TOKE_is_hex_number(compiler, *compiler->ch_ptr) && !SPVM_TOKE_isdigit_ascii(compiler, *compiler->ch_ptr)) {
+                break;
+              }
+              
               // Floating point literal
               if (*compiler->ch_ptr == '.' || *compiler->ch_ptr == 'p' || *compiler->ch_ptr == 'P') {
                 is_floating_number = 1;
@@ -1775,7 +1780,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             SPVM_COMPILER_error(compiler, "\"%s\" must be followed by one or more %s numbers.\n  at %s line %d", numeric_literal, digit == 16 ? "hexadecimal" : "binary", compiler->current_file, compiler->current_line);
           }
           // Back suffix such as "f" or "F" when hex floating number
-          if (is_hex_floating_number && !SPVM_TOKE_isdigit_ascii(compiler, *(compiler->ch_ptr - 1))) {
+          if (is_hex_floating_number && !SPVM_TOKE_isdigit_ascii(compiler, *(compiler->ch_ptr - 1)) && *(compiler->ch_ptr - 1) != '_') {
             compiler->ch_ptr--;
             numeric_literal[pos - 1] = '\0';
           }
-- 
2.43.0


From 9e09645ab9e7f36bf85b6297dfb6f57aaae89d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:29 +0000
Subject: [PATCH 74/79] fix: the precompile C source file is regenerated when
 another class it depends on is changed

---
 lib/SPVM/Builder/CC.pm | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index 854b0b3..3e851eb 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -159,6 +159,11 @@ sub build_precompile_class_source_file {
     input_files => [$class_file],
   });
   
+  # The precompile C source file also depends on the other classes such as their enumeration values
+  unless ($need_generate) {
+    $need_generate = SPVM::Builder::Util::slurp_binary($source_file) ne $precompile_source;
+  }
+  
   # Generate precompile C source file
   if ($need_generate) {
     mkpath dirname $source_file;
-- 
2.43.0


From c63a928d83a561e53f01e6a46a0ac3d1696df442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:29 +0000
Subject: [PATCH 75/79] fix: classes are compiled again when a config file
 loaded by their config file is changed

---
 lib/SPVM/Builder/CC.pm | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index 3e851eb..7ed9706 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -538,7 +538,7 @@ sub compile_class {
         my $resource = $config->get_resource($resource_name);
         my $resource_config = $resource->config;
         
-        push @resource_config_files, $resource_config->file;
+        push @resource_config_files, $resource_config->file, @{$resource_config->get_loaded_config_files};
         
         my $resource_native_include_dir = $resource_config->native_include_dir;
         if (defined $resource_native_include_dir && -d $resource_native_include_dir) {
@@ -563,6 +563,9 @@ sub compile_class {
         push @$input_files, $config->file;
       };
       
+      # Config files loaded by the config file
+      push @$input_files, @{$config->get_loaded_config_files};
+      
       $need_generate = SPVM::Builder::Util::need_generate({
         force => $force,
         output_file => $object_file_name,
-- 
2.43.0


From 1a477219c98915fc80b77e9d494f639f1ed1716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:29 +0000
Subject: [PATCH 76/79] fix: classes of an executable file are compiled again
 when its config file is changed

---
 lib/SPVM/Builder/CC.pm | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index 7ed9706..fa33a0a 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -566,6 +566,11 @@ sub compile_class {
       # Config files loaded by the config file
       push @$input_files, @{$config->get_loaded_config_files};
       
+      # Config files for the executable file
+      if ($config->config_exe) {
+        push @$input_files, @{$config->config_exe->get_loaded_config_files};
+      }
+      
       $need_generate = SPVM::Builder::Util::need_generate({
         force => $force,
         output_file => $object_file_name,
-- 
2.43.0


From 3dbf29183082f1036a797bfc19dbc7796fed1103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:29 +0000
Subject: [PATCH 77/79] fix: a forced compilation of an executable file that
 was stopped is done again

---
 lib/SPVM/Builder/Exe.pm | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/Exe.pm b/lib/SPVM/Builder/Exe.pm
index ad76522..c5d460e 100644
--- a/lib/SPVM/Builder/Exe.pm
+++ b/lib/SPVM/Builder/Exe.pm
@@ -311,6 +311,9 @@ sub build_exe_file {
   $config_linker->output_file($self->{output_file});
   
   $cc_linker->link($class_name, $object_files, {config => $config_linker});
+  
+  # The compilation is completed
+  unlink $self->{incomplete_file};
 }
 
 sub compile {
@@ -862,9 +865,14 @@ sub create_bootstrap_source {
   
   my $force = $self->force || $config_exe->force;
   
-  if (defined $bootstrap_source_original && $bootstrap_source ne $bootstrap_source_original) {
+  # This file exists while the forced compilation is not completed
+  my $incomplete_file = "$bootstrap_source_file.incomplete";
+  $self->{incomplete_file} = $incomplete_file;
+  
+  if ((defined $bootstrap_source_original && $bootstrap_source ne $bootstrap_source_original) || -f $incomplete_file) {
     $force = 1;
     $self->force($force);
+    SPVM::Builder::Util::spurt_binary($incomplete_file, '');
   }
   
   my $need_generate = SPVM::Builder::Util::need_generate({
-- 
2.43.0


From 877f103942f761daa4ad4e5177f496788974c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:16 +0000
Subject: [PATCH 78/79] fix: the dimension of an argument is checked in a
 dynamic method call

---
 lib/SPVM/Native/MethodCall.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index 63a968e..c24ee3d 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -249,7 +249,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         int32_t can_assign = env->api->type->can_assign(
           runtime,
           method_arg_basic_type, method_arg_type_dimension, method_arg_type_flag,
-          arg_basic_type, method_arg_type_dimension, 0
+          arg_basic_type, arg_type_dimension, 0
         );
         
         if (!can_assign) {
-- 
2.43.0


From 5ce325ea648c081a92a6686886d2fdf8c8ac9076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:16 +0000
Subject: [PATCH 79/79] fix: a dynamically called method can return undef

---
 lib/SPVM/Native/MethodCall.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index c24ee3d..2a02c8d 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -651,10 +651,12 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t method_return_is_object_type = env->api->type->is_object_type(runtime, method_return_basic_type, method_return_type_dimension, method_return_type_flag);
   
   if (method_return_is_object_type) {
-    int32_t is_binary_compatible_object = env->is_binary_compatible_object(env, stack, self_stack[0].oval);
-    
-    if (!is_binary_compatible_object) {
-      return env->die(env, stack, "The return object is not binary compatible.", __func__, FILE_NAME, __LINE__);
+    if (self_stack[0].oval) {
+      int32_t is_binary_compatible_object = env->is_binary_compatible_object(env, stack, self_stack[0].oval);
+      
+      if (!is_binary_compatible_object) {
+        return env->die(env, stack, "The return object is not binary compatible.", __func__, FILE_NAME, __LINE__);
+      }
     }
   }
   else {
-- 
2.43.0

