From 17a16d2901ae34d83d1a2bfb91dbeafff1f62c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 01/97] fix: a class file keeps its own copy of the class name

SPVM_COMPILER_add_class_file stored the caller's pointer in the class file, so a
caller that freed the name before compile (Native::Compiler->add_class_file with
a temporary string) had the compiler read freed memory.
---
 lib/SPVM/Builder/src/spvm_compiler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 85365dd..64b2b3a 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -311,7 +311,6 @@ void SPVM_COMPILER_add_class_file(SPVM_COMPILER* compiler, const char* class_nam
   
   if (!class_file) {
     class_file = SPVM_ALLOCATOR_alloc_memory_block_tmp(compiler->class_file_allocator, sizeof(SPVM_CLASS_FILE));
-    class_file->class_name = class_name;
     SPVM_COMPILER_set_class_file(compiler, class_name, class_file);
   }
 }
@@ -360,6 +359,7 @@ void SPVM_COMPILER_set_class_file(SPVM_COMPILER* compiler, const char* class_nam
         SPVM_COMPILER_free_class_file(compiler, compiler->class_files->values[i]);
         compiler->class_files->values[i] = NULL;
       }
+      class_file->class_name = class_file_class_name;
       compiler->class_files->values[i] = class_file;
       found = 1;
       break;
@@ -369,6 +369,7 @@ void SPVM_COMPILER_set_class_file(SPVM_COMPILER* compiler, const char* class_nam
   if (!found) {
     const char* class_name_clone = SPVM_ALLOCATOR_alloc_memory_block_tmp(compiler->class_file_allocator, strlen(class_name) + 1);
     memcpy((void*)class_name_clone, class_name, strlen(class_name));
+    class_file->class_name = class_name_clone;
     SPVM_LIST_push(compiler->class_file_class_names, (void*)class_name_clone);
     SPVM_LIST_push(compiler->class_files, (void*)class_file);
   }
-- 
2.43.0


From f49470652055cb8dc0b6d23a29fcfea79d36fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 02/97] fix: the value of an assignment whose right operand is
 a sequence can be used

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 0c82b47..53d23da 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4278,7 +4278,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                     // $var_dist = (ASSIGN = $var_src)
                     case SPVM_OP_C_ID_ASSIGN: {
                       SPVM_OP* op_var_src;
-                      if (op_assign_src->first->id == SPVM_OP_C_ID_VAR || op_assign_src->first->id == SPVM_OP_C_ID_ASSIGN) {
+                      if (op_assign_src->first->id == SPVM_OP_C_ID_VAR || op_assign_src->first->id == SPVM_OP_C_ID_ASSIGN || op_assign_src->first->id == SPVM_OP_C_ID_SEQUENCE) {
                         op_var_src = op_assign_src->first;
                       }
                       else if (op_assign_src->last->id == SPVM_OP_C_ID_VAR || op_assign_src->last->id == SPVM_OP_C_ID_ASSIGN) {
@@ -5160,7 +5160,7 @@ int32_t SPVM_OPCODE_BUILDER_get_typed_var_index(SPVM_COMPILER* compiler, SPVM_OP
         op_var = op;
       }
       else if (op->id == SPVM_OP_C_ID_ASSIGN) {
-        if (op->first->id == SPVM_OP_C_ID_VAR || op->first->id == SPVM_OP_C_ID_ASSIGN) {
+        if (op->first->id == SPVM_OP_C_ID_VAR || op->first->id == SPVM_OP_C_ID_ASSIGN || op->first->id == SPVM_OP_C_ID_SEQUENCE) {
           op_var = SPVM_OPCODE_BUILDER_get_op_var(compiler, op->first);
         }
         else if (op->last->id == SPVM_OP_C_ID_VAR || op->last->id == SPVM_OP_C_ID_ASSIGN) {
@@ -5198,7 +5198,7 @@ SPVM_OP* SPVM_OPCODE_BUILDER_get_op_var(SPVM_COMPILER* compiler, SPVM_OP* op) {
     op_var = op;
   }
   else if (op->id == SPVM_OP_C_ID_ASSIGN) {
-    if (op->first->id == SPVM_OP_C_ID_VAR || op->first->id == SPVM_OP_C_ID_ASSIGN) {
+    if (op->first->id == SPVM_OP_C_ID_VAR || op->first->id == SPVM_OP_C_ID_ASSIGN || op->first->id == SPVM_OP_C_ID_SEQUENCE) {
       op_var = SPVM_OPCODE_BUILDER_get_op_var(compiler, op->first);
     }
     else if (op->last->id == SPVM_OP_C_ID_VAR || op->last->id == SPVM_OP_C_ID_ASSIGN) {
-- 
2.43.0


From 8172d2c3e0c3d63b5a717cb0ad88abe4a9080618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 03/97] fix: an exception in an eval block leaves that block,
 not a nested one that comes later

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 53d23da..37b1fac 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -438,16 +438,22 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                   }
                 }
                 else if (block->id == SPVM_BLOCK_C_ID_EVAL) {
-                  // Set IF_EXCEPTION_CATCH opcode index
+                  int32_t eval_block_opcode_index = (intptr_t)SPVM_LIST_pop(eval_block_stack_goto_opcode_index);
+                  
+                  // Set IF_EXCEPTION_CATCH opcode index. The opcodes before this eval block belong to the outer eval block.
                   while (goto_end_of_eval_on_exception_opcode_index_stack->length > 0) {
-                    int32_t goto_end_of_eval_on_exception_goto_opcode_index = (intptr_t)SPVM_LIST_pop(goto_end_of_eval_on_exception_opcode_index_stack);
+                    int32_t goto_end_of_eval_on_exception_goto_opcode_index = (intptr_t)SPVM_LIST_get(goto_end_of_eval_on_exception_opcode_index_stack, goto_end_of_eval_on_exception_opcode_index_stack->length - 1);
+                    
+                    if (goto_end_of_eval_on_exception_goto_opcode_index < eval_block_opcode_index) {
+                      break;
+                    }
+                    
+                    SPVM_LIST_pop(goto_end_of_eval_on_exception_opcode_index_stack);
                     
                     SPVM_OPCODE* goto_end_of_eval_on_exception_goto = (opcode_list->values + goto_end_of_eval_on_exception_goto_opcode_index);
                     int32_t goto_end_of_eval_on_exception_goto_opcode_base_index = opcode_list->length;
                     goto_end_of_eval_on_exception_goto->operand0 = goto_end_of_eval_on_exception_goto_opcode_base_index;
                   }
-                  
-                  SPVM_LIST_pop(eval_block_stack_goto_opcode_index);
                 }
                 else if (block->id == SPVM_BLOCK_C_ID_METHOD) {
                   while (return_opcode_index_stack->length > 0) {
-- 
2.43.0


From 6e48a1a5177e5a0550fdff10d68a09210d23ee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 04/97] fix: special assignment and ++/-- on a field of a
 multi-numeric local variable update the variable

---
 lib/SPVM/Builder/include/spvm_var_decl.h | 1 +
 lib/SPVM/Builder/src/spvm_check.c        | 9 +++++++++
 lib/SPVM/Builder/src/spvm_op.c           | 1 +
 3 files changed, 11 insertions(+)

diff --git a/lib/SPVM/Builder/include/spvm_var_decl.h b/lib/SPVM/Builder/include/spvm_var_decl.h
index 92fc029..26d588e 100644
--- a/lib/SPVM/Builder/include/spvm_var_decl.h
+++ b/lib/SPVM/Builder/include/spvm_var_decl.h
@@ -13,6 +13,7 @@ struct spvm_var_decl {
   SPVM_VAR* var;
   const char* name;
   SPVM_OP* op_arg_default;
+  SPVM_OP* op_invocant;
   SPVM_VALUE arg_default_value;
   int32_t index;
   int32_t typed_var_index;
diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 1c582fd..40ad541 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3025,6 +3025,15 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             }
             
             if (found_var_decl) {
+              // The temporary variable for the invocant of a special assignment would be a copy of a multi-numeric value. The value itself must be updated.
+              SPVM_OP* op_invocant = found_var_decl->op_invocant;
+              if (op_invocant && !var->is_declaration && op_invocant->id == SPVM_OP_C_ID_VAR && op_invocant->uv.var->var_decl) {
+                SPVM_TYPE* invocant_type = op_invocant->uv.var->var_decl->type;
+                if (invocant_type && SPVM_TYPE_is_mulnum_type(compiler, invocant_type->basic_type->id, invocant_type->dimension, invocant_type->flag)) {
+                  found_var_decl = op_invocant->uv.var->var_decl;
+                }
+              }
+              
               // Add var_decl var information to var
               var->var_decl = found_var_decl;
             }
diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index ca211f0..5dcd861 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -2767,6 +2767,7 @@ SPVM_OP* SPVM_OP_build_special_assign(SPVM_COMPILER* compiler, SPVM_OP* op_speci
       SPVM_OP* op_var_invocant_get = SPVM_OP_new_op_var(compiler, op_name_var_invocant);
       SPVM_OP* op_var_invocant_get_decl = SPVM_OP_new_op_var_decl(compiler, op_invocant->file,op_invocant->line);
       SPVM_OP_build_var_decl(compiler, op_var_invocant_get_decl, op_var_invocant_get, NULL, NULL);
+      op_var_invocant_get_decl->uv.var_decl->op_invocant = op_invocant;
       op_assign_invocant_get = SPVM_OP_build_assign(compiler, op_assign_invocant_get, op_var_invocant_get, op_invocant);
       SPVM_OP_insert_child(compiler, op_sequence, op_sequence->last, op_assign_invocant_get);
       
-- 
2.43.0


From bed434a7eb9419c05cbdac64528c21b2be0a1cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 05/97] fix: the value of a sequence whose last operand is a
 logical operator is assigned

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 37b1fac..f9bd869 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -943,7 +943,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                 SPVM_OP* op_assign_dist = op_assign->last;
                 SPVM_OP* op_assign_src = op_assign->first;
                 
-                if (op_assign_src->id == SPVM_OP_C_ID_SEQUENCE) {
+                while (op_assign_src->id == SPVM_OP_C_ID_SEQUENCE) {
                   op_assign_src = op_assign_src->last;
                 }
                 
-- 
2.43.0


From 9a9c74cf3b4b7342aa87eac986f15e5c6d5151a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 06/97] fix: the die statement with an undefined message throws
 the exception Error

---
 lib/SPVM/Builder/src/spvm_api.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 567c659..730addc 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3129,7 +3129,13 @@ SPVM_OBJECT* SPVM_API_get_compile_type_name(SPVM_ENV* env, SPVM_VALUE* stack, co
 
 SPVM_OBJECT* SPVM_API_new_stack_trace_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* exception, SPVM_RUNTIME_METHOD* method, int32_t line) {
   
+  // The default error message, used if the message passed to the die statement is undef
+  const char* default_error_message = "Error";
+  
   if (stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival > 100) {
+    if (!exception) {
+      exception = SPVM_API_new_string_no_mortal(env, stack, default_error_message, strlen(default_error_message));
+    }
     return exception;
   }
   
@@ -3147,8 +3153,8 @@ SPVM_OBJECT* SPVM_API_new_stack_trace_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack
   const char* at_part = " at ";
   
   // Exception
-  const char* exception_bytes = SPVM_API_get_chars(env, stack, exception);
-  int32_t exception_length = SPVM_API_length(env, stack, exception);
+  const char* exception_bytes = exception ? SPVM_API_get_chars(env, stack, exception) : default_error_message;
+  int32_t exception_length = exception ? SPVM_API_length(env, stack, exception) : (int32_t)strlen(default_error_message);
   
   // Total string length
   int32_t total_length = 0;
-- 
2.43.0


From ccf8e22e9408b5b1cecffb3ae9851f919e96de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 07/97] fix: integer overflow wraps around in precompiled
 methods as it does in the virtual machine

---
 lib/SPVM/Builder/include/spvm_implement.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index bb9b843..a990c32 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -184,25 +184,25 @@ static inline void SPVM_IMPLEMENT_LEAVE_SCOPE(SPVM_ENV* env, SPVM_VALUE* stack,
   env->api->internal->leave_scope_local(env, stack, object_vars, mortal_stack, mortal_stack_top_ptr, original_mortal_stack_top);
 }
 
-#define SPVM_IMPLEMENT_ADD_INT(out, in1, in2) (out = in1 + in2)
+#define SPVM_IMPLEMENT_ADD_INT(out, in1, in2) (out = (int32_t)((uint32_t)(in1) + (uint32_t)(in2)))
 
-#define SPVM_IMPLEMENT_ADD_LONG(out, in1, in2) (out = in1 + in2)
+#define SPVM_IMPLEMENT_ADD_LONG(out, in1, in2) (out = (int64_t)((uint64_t)(in1) + (uint64_t)(in2)))
 
 #define SPVM_IMPLEMENT_ADD_FLOAT(out, in1, in2) (out = in1 + in2)
 
 #define SPVM_IMPLEMENT_ADD_DOUBLE(out, in1, in2) (out = in1 + in2)
 
-#define SPVM_IMPLEMENT_SUBTRACT_INT(out, in1, in2) (out = in1 - in2)
+#define SPVM_IMPLEMENT_SUBTRACT_INT(out, in1, in2) (out = (int32_t)((uint32_t)(in1) - (uint32_t)(in2)))
 
-#define SPVM_IMPLEMENT_SUBTRACT_LONG(out, in1, in2) (out = in1 - in2)
+#define SPVM_IMPLEMENT_SUBTRACT_LONG(out, in1, in2) (out = (int64_t)((uint64_t)(in1) - (uint64_t)(in2)))
 
 #define SPVM_IMPLEMENT_SUBTRACT_FLOAT(out, in1, in2) (out = in1 - in2)
 
 #define SPVM_IMPLEMENT_SUBTRACT_DOUBLE(out, in1, in2) (out = in1 - in2)
 
-#define SPVM_IMPLEMENT_MULTIPLY_INT(out, in1, in2) (out = in1 * in2)
+#define SPVM_IMPLEMENT_MULTIPLY_INT(out, in1, in2) (out = (int32_t)((uint32_t)(in1) * (uint32_t)(in2)))
 
-#define SPVM_IMPLEMENT_MULTIPLY_LONG(out, in1, in2) (out = in1 * in2)
+#define SPVM_IMPLEMENT_MULTIPLY_LONG(out, in1, in2) (out = (int64_t)((uint64_t)(in1) * (uint64_t)(in2)))
 
 #define SPVM_IMPLEMENT_MULTIPLY_FLOAT(out, in1, in2) (out = in1 * in2)
 
@@ -411,8 +411,8 @@ static inline void SPVM_IMPLEMENT_MOVE_OBJECT_CHECK_READ_ONLY_STRING(SPVM_ENV* e
 
 #define SPVM_IMPLEMENT_BIT_NOT_INT(out, in) (out = ~in)
 #define SPVM_IMPLEMENT_BIT_NOT_LONG(out, in) (out = ~in)
-#define SPVM_IMPLEMENT_NEGATE_INT(out, in) (out = -in)
-#define SPVM_IMPLEMENT_NEGATE_LONG(out, in) (out = -in)
+#define SPVM_IMPLEMENT_NEGATE_INT(out, in) (out = (int32_t)(0 - (uint32_t)(in)))
+#define SPVM_IMPLEMENT_NEGATE_LONG(out, in) (out = (int64_t)(0 - (uint64_t)(in)))
 #define SPVM_IMPLEMENT_NEGATE_FLOAT(out, in) (out = -in)
 #define SPVM_IMPLEMENT_NEGATE_DOUBLE(out, in) (out = -in)
 
-- 
2.43.0


From 1b3e23962fea54ebfbc3cba637ec36d25ca5d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 08/97] fix: dividing the minimum integer by -1 does not kill
 the process

---
 lib/SPVM/Builder/include/spvm_implement.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index a990c32..6379a3a 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -215,7 +215,8 @@ static inline void SPVM_IMPLEMENT_DIVIDE_INT(SPVM_ENV* env, SPVM_VALUE* stack, i
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
   else {
-    *out = in1 / in2;
+    // The quotient of the minimum value and -1 is out of range
+    *out = in2 == -1 ? (int32_t)(0 - (uint32_t)in1) : in1 / in2;
   }
 }
 
@@ -226,7 +227,8 @@ static inline void SPVM_IMPLEMENT_DIVIDE_LONG(SPVM_ENV* env, SPVM_VALUE* stack,
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
   else {
-    *out = in1 / in2;
+    // The quotient of the minimum value and -1 is out of range
+    *out = in2 == -1 ? (int64_t)(0 - (uint64_t)in1) : in1 / in2;
   }
 }
 
@@ -263,7 +265,7 @@ static inline void SPVM_IMPLEMENT_MODULO_INT(SPVM_ENV* env, SPVM_VALUE* stack, i
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
   else {
-    int32_t ret = in1 % in2;
+    int32_t ret = in2 == -1 ? 0 : in1 % in2;
     if ((in1 < 0) != (in2 < 0) && ret) { ret += in2; }
     *out = ret;
   }
@@ -276,7 +278,7 @@ static inline void SPVM_IMPLEMENT_MODULO_LONG(SPVM_ENV* env, SPVM_VALUE* stack,
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
   }
   else {
-    int64_t ret = in1 % in2;
+    int64_t ret = in2 == -1 ? 0 : in1 % in2;
     if ((in1 < 0) != (in2 < 0) && ret) { ret += in2; }
     *out = ret;
   }
-- 
2.43.0


From 69495f7a3da83dd06c6d9c278e2ddd8e67ca602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 09/97] fix: a class without its class name is a compile error

---
 lib/SPVM/Builder/src/spvm_op.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 5dcd861..f291f5e 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -272,6 +272,11 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
   }
   // Class
   else {
+    if (!op_type) {
+      SPVM_COMPILER_error(compiler, "A class must have its class name.\n  at %s line %d", op_class->file, op_class->line);
+      return op_class;
+    }
+    
     basic_type_name = op_type->uv.type->unresolved_basic_type_name;
   }
   
-- 
2.43.0


From a743ea33a332d4004ec69264f0bf2eb06d7b73dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 10/97] fix: the scope of object variables ends properly with
 loop conditions and logical operators

---
 .../Builder/include/spvm_opcode_builder.h     |  2 +
 lib/SPVM/Builder/src/spvm_opcode_builder.c    | 66 +++++++++++++++----
 2 files changed, 54 insertions(+), 14 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_opcode_builder.h b/lib/SPVM/Builder/include/spvm_opcode_builder.h
index 07c7579..0dd9cc6 100644
--- a/lib/SPVM/Builder/include/spvm_opcode_builder.h
+++ b/lib/SPVM/Builder/include/spvm_opcode_builder.h
@@ -24,4 +24,6 @@ int32_t SPVM_OPCODE_BUILDER_get_typed_var_index(SPVM_COMPILER* compiler, SPVM_OP
 
 SPVM_OP* SPVM_OPCODE_BUILDER_get_op_var(SPVM_COMPILER* compiler, SPVM_OP* op);
 
+int32_t SPVM_OPCODE_BUILDER_push_mortals(SPVM_COMPILER* compiler, SPVM_OPCODE_LIST* opcode_list, SPVM_LIST* mortal_stack, SPVM_OP* op_block);
+
 #endif
diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index f9bd869..bb54401 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -331,6 +331,12 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
             int32_t typed_var_indexs_top = mortal_stack->length;
             SPVM_LIST_push(block_stack_typed_var_index_top, (void*)(intptr_t)typed_var_indexs_top);
             
+            // The object variables of the scope are pushed to the mortal stack at the beginning of the scope so that the position of
+            // the mortal stack at run time is the same on every path, including conditionally evaluated operands and iterations of loops.
+            if (!block->no_scope) {
+              mortal_stack_top += SPVM_OPCODE_BUILDER_push_mortals(compiler, opcode_list, mortal_stack, op_cur);
+            }
+            
             break;
           }
           case SPVM_OP_C_ID_SWITCH: {
@@ -797,20 +803,6 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                   SPVM_VAR_DECL* var_decl = op_cur->uv.var->var_decl;
                   
                   SPVM_TYPE* type = SPVM_CHECK_get_type(compiler, var_decl->op_var_decl);
-                  if (SPVM_TYPE_is_object_type(compiler, type->basic_type->id, type->dimension, type->flag)) {
-                    
-                    SPVM_OPCODE opcode = {0};
-                    
-                    SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_PUSH_MORTAL);
-                    int32_t typed_var_index = SPVM_OPCODE_BUILDER_get_typed_var_index(compiler, op_cur);
-                    opcode.operand0 = typed_var_index;
-                    
-                    SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
-                    
-                    SPVM_LIST_push(mortal_stack, (void*)(intptr_t)typed_var_index);
-                    
-                    mortal_stack_top++;
-                  }
                   
                   // Initialized not initialized variable
                   if (!op_cur->uv.var->is_initialized && !op_cur->uv.var->var_decl->is_arg) {
@@ -5231,3 +5223,49 @@ SPVM_OP* SPVM_OPCODE_BUILDER_get_op_var(SPVM_COMPILER* compiler, SPVM_OP* op) {
   return op_var;
 }
 
+int32_t SPVM_OPCODE_BUILDER_push_mortals(SPVM_COMPILER* compiler, SPVM_OPCODE_LIST* opcode_list, SPVM_LIST* mortal_stack, SPVM_OP* op_block) {
+  
+  int32_t push_count = 0;
+  
+  SPVM_OP* op_cur = op_block->first;
+  
+  while (op_cur) {
+    
+    if (op_cur->id == SPVM_OP_C_ID_VAR && op_cur->uv.var->is_declaration) {
+      SPVM_TYPE* type = SPVM_CHECK_get_type(compiler, op_cur->uv.var->var_decl->op_var_decl);
+      if (SPVM_TYPE_is_object_type(compiler, type->basic_type->id, type->dimension, type->flag)) {
+        SPVM_OPCODE opcode = {0};
+        
+        SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_PUSH_MORTAL);
+        int32_t typed_var_index = SPVM_OPCODE_BUILDER_get_typed_var_index(compiler, op_cur);
+        opcode.operand0 = typed_var_index;
+        
+        SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
+        
+        SPVM_LIST_push(mortal_stack, (void*)(intptr_t)typed_var_index);
+        
+        push_count++;
+      }
+    }
+    
+    // An inner block that has its own scope pushes its variables by itself
+    int32_t is_scope_block = op_cur->id == SPVM_OP_C_ID_BLOCK && !op_cur->uv.block->no_scope;
+    
+    if (op_cur->first && !is_scope_block) {
+      op_cur = op_cur->first;
+    }
+    else {
+      while (op_cur != op_block && !op_cur->moresib) {
+        op_cur = op_cur->sibparent;
+      }
+      
+      if (op_cur == op_block) {
+        break;
+      }
+      
+      op_cur = SPVM_OP_sibling(compiler, op_cur);
+    }
+  }
+  
+  return push_count;
+}
-- 
2.43.0


From c36d367137ea9089ea60b8a8e971a399f2849c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 11/97] fix: the tokenizer starts afresh in a compilation that
 follows one with a syntax error

The position in the class file and the token flags were left as they were when
the parser gave up, so the next compilation with the same compiler read freed
class file content or aborted.
---
 lib/SPVM/Builder/src/spvm_compiler.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 64b2b3a..5449ad0 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -216,6 +216,20 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
   SPVM_yydebug = 0;
 #endif
 
+  // A compilation that ended with a syntax error leaves the tokenizer in the middle of a class file
+  compiler->current_file = NULL;
+  compiler->current_class_content = NULL;
+  compiler->current_class_content_length = 0;
+  compiler->ch_ptr = NULL;
+  compiler->token_begin_ch_ptr = NULL;
+  compiler->line_begin_ch_ptr = NULL;
+  compiler->line_begin_after_shebang_line_ch_ptr = NULL;
+  compiler->next_string_literal_ch_ptr = NULL;
+  compiler->expect_method_name = 0;
+  compiler->expect_field_name = 0;
+  compiler->before_token_is_arrow = 0;
+  compiler->previous_token_is_heredoc = 0;
+  compiler->var_expansion_state = 0;
   compiler->end_of_file = 1;
   
   int32_t yyparse_error_id = SPVM_yyparse(compiler);
-- 
2.43.0


From 215168baa1a32aa6700b1e5c93fbdc4808c8a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 12/97] fix: a class with a lower case name in a class file is
 a compile error

The assertion aborted the process before the check of the class name.
---
 lib/SPVM/Builder/src/spvm_op.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index f291f5e..6173b93 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -332,8 +332,6 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
   }
   
   if (!(basic_type->is_anon || basic_type->is_generated_by_anon_method)) {
-    assert(!islower(basic_type_name[0]));
-    
     // If class name is different from the class name corresponding to the class file, compile error occur.
     if (strcmp(basic_type_name, compiler->current_outmost_class_name) != 0) {
       SPVM_COMPILER_error(compiler, "The class name \"%s\" must be \"%s\".\n  at %s line %d", basic_type_name, compiler->current_outmost_class_name, op_class->file, op_class->line);
-- 
2.43.0


From 50a24e0fd28a838a1c3d8edaa1f2525ffd68e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 13/97] fix: the suffix of the name of a multi-numeric type is
 not searched before its beginning

---
 lib/SPVM/Builder/src/spvm_check.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 40ad541..5206989 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -302,8 +302,8 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
       int32_t tail_name_length = (int32_t)strlen(tail_name);
       int32_t basic_type_name_length = strlen(basic_type_name);
       
-      char* found_pos_ptr = strstr(basic_type_name + basic_type_name_length - tail_name_length, tail_name);
-      if (!found_pos_ptr) {
+      int32_t ends_with_tail_name = basic_type_name_length >= tail_name_length && strcmp(basic_type_name + basic_type_name_length - tail_name_length, tail_name) == 0;
+      if (!ends_with_tail_name) {
         SPVM_COMPILER_error(compiler, "The name of the multi-numeric type %s must end with with %s.\n  at %s line %d", basic_type->name, tail_name, basic_type->op_class->file, basic_type->op_class->line);
         return;
       }
-- 
2.43.0


From 756f1585180e43867618cb9f72f6c638fbd70ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 14/97] fix: a character literal at the end of a class file
 does not read past the end

---
 lib/SPVM/Builder/src/spvm_toke.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 041114c..9cb2076 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -948,12 +948,16 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             }
             else {
               SPVM_COMPILER_error(compiler, "\"\\%c\" is the invalid charater literal escape character.\n  at %s line %d", *compiler->ch_ptr, compiler->current_file, compiler->current_line);
-              compiler->ch_ptr++;
+              if (!(*compiler->ch_ptr == '\0')) {
+                compiler->ch_ptr++;
+              }
             }
           }
           else {
             ch = *compiler->ch_ptr;
-            compiler->ch_ptr++;
+            if (!(*compiler->ch_ptr == '\0')) {
+              compiler->ch_ptr++;
+            }
           }
             
           if (*compiler->ch_ptr == '\'') {
-- 
2.43.0


From 8f8d446a1157616c497b7c8b49ab5a0c08802d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 15/97] fix: a "}" after a variable in a string literal does
 not make the tokenizer loop forever

---
 lib/SPVM/Builder/src/spvm_toke.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 9cb2076..e2e886f 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1054,8 +1054,8 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
                     else if (*next_string_literal_ch_ptr == '}') {
                       if (var_have_brace) {
                         next_string_literal_ch_ptr++;
-                        break;
                       }
+                      break;
                     }
                     else {
                       break;
-- 
2.43.0


From 4c5e10fe955fbb0cc978bad43e07a86da5b1e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 16/97] fix: a literal or a directive cut off at the end of a
 class file does not make the tokenizer read past the end

---
 lib/SPVM/Builder/src/spvm_toke.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index e2e886f..d376e09 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -467,7 +467,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             const char* file_begin_ptr = compiler->ch_ptr;
             int32_t file_length = 0;
             while (*compiler->ch_ptr != '"') {
-              if (*compiler->ch_ptr == '\n') {
+              if (*compiler->ch_ptr == '\n' || *compiler->ch_ptr == '\0') {
                 SPVM_COMPILER_error(compiler, "A file in a file directive must end with \".\n  at %s line %d", compiler->current_file, compiler->current_line);
                 return 0;
               }
@@ -527,7 +527,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             
             const char* include_dir_begin_ptr = compiler->ch_ptr;
             while (*compiler->ch_ptr != '"') {
-              if (*compiler->ch_ptr == '\n') {
+              if (*compiler->ch_ptr == '\n' || *compiler->ch_ptr == '\0') {
                 SPVM_COMPILER_error(compiler, "The directory specified by a lib directive must end with \".\n  at %s line %d", compiler->current_file, compiler->current_line);
                 return 0;
               }
@@ -946,11 +946,9 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             else if (*compiler->ch_ptr == 'x') {
               ch = SPVM_TOKE_parse_hex_escape(compiler, &compiler->ch_ptr);
             }
-            else {
+            else if (!(*compiler->ch_ptr == '\0')) {
               SPVM_COMPILER_error(compiler, "\"\\%c\" is the invalid charater literal escape character.\n  at %s line %d", *compiler->ch_ptr, compiler->current_file, compiler->current_line);
-              if (!(*compiler->ch_ptr == '\0')) {
-                compiler->ch_ptr++;
-              }
+              compiler->ch_ptr++;
             }
           }
           else {
@@ -1149,7 +1147,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             }
             else {
               // Escape is always 2 characters
-              if (*compiler->ch_ptr == '\\') {
+              if (*compiler->ch_ptr == '\\' && !(*(compiler->ch_ptr + 1) == '\0')) {
                 compiler->ch_ptr += 2;
               }
               else {
@@ -1576,7 +1574,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
               }
               else {
                 // Escape character
-                if (*compiler->ch_ptr == '\\') {
+                if (*compiler->ch_ptr == '\\' && !(*(compiler->ch_ptr + 1) == '\0')) {
                   compiler->ch_ptr += 2;
                 }
                 else {
-- 
2.43.0


From 53cb91271a420d3a2046eba7aba06de0ea1583a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 17/97] fix: an operator + or - directly after a floating point
 literal is not a part of the literal

---
 lib/SPVM/Builder/src/spvm_toke.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index d376e09..8f8d114 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1699,6 +1699,9 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
               if (!before_is_exponant && (*compiler->ch_ptr == '-' || *compiler->ch_ptr == '+')) {
                 break;
               }
+              if (*compiler->ch_ptr != '_') {
+                before_is_exponant = 0;
+              }
               
               // Floating point literal
               if (*compiler->ch_ptr == '.' || *compiler->ch_ptr == 'p' || *compiler->ch_ptr == 'P') {
@@ -1733,10 +1736,15 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
               if (!before_is_exponant && (*compiler->ch_ptr == '-' || *compiler->ch_ptr == '+')) {
                 break;
               }
+              if (*compiler->ch_ptr != '_') {
+                before_is_exponant = 0;
+              }
               
               // Floating point literal
               if (*compiler->ch_ptr == '.' || *compiler->ch_ptr == 'e' || *compiler->ch_ptr == 'E') {
                 is_floating_number = 1;
+              }
+              if (*compiler->ch_ptr == 'e' || *compiler->ch_ptr == 'E') {
                 before_is_exponant = 1;
               }
               compiler->ch_ptr++;
-- 
2.43.0


From f02ec08318081ec8fb7a840dd5f674b2364000eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 18/97] fix: POD ends with "=cut" only at the beginning of a
 line

---
 lib/SPVM/Builder/src/spvm_toke.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 8f8d114..e50ff0a 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -610,6 +610,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             
             if (
               *compiler->ch_ptr == '='
+              && *(compiler->ch_ptr - 1) == '\n'
               && strncmp(compiler->ch_ptr + 1, "cut", 3) == 0
               && (*(compiler->ch_ptr + 4) == '\0' || SPVM_TOKE_is_white_space(compiler, *(compiler->ch_ptr + 4)))
             )
-- 
2.43.0


From a98b2342f09f17e78dced1b12c8cfe14b7a275ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 19/97] fix: the character after the operators < and > is not
 skipped

$i<10 was compiled as $i < 0.
---
 lib/SPVM/Builder/src/spvm_toke.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index e50ff0a..758cb7b 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -806,7 +806,6 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
         }
         // <
         else {
-          compiler->ch_ptr++;
           SPVM_OP* op = SPVM_TOKE_new_op(compiler, SPVM_OP_C_ID_NUMERIC_COMPARISON_LT);
           yylvalp->opval = op;
           return NUMLT;
@@ -865,7 +864,6 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
         }
         // >
         else {
-          compiler->ch_ptr++;
           SPVM_OP* op = SPVM_TOKE_new_op(compiler, SPVM_OP_C_ID_NUMERIC_COMPARISON_GT);
           yylvalp->opval = op;
           return NUMGT;
-- 
2.43.0


From d4613b7188ee6022822835f1359102798f153e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 20/97] fix: a hexadecimal or binary literal without digits is
 an error and does not swallow the next character

---
 lib/SPVM/Builder/src/spvm_toke.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 758cb7b..429b553 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -1689,7 +1689,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
           
           // Scan Hex number
           if (digit == 16) {
-            compiler->ch_ptr += 2;
+            compiler->ch_ptr += 1;
             while(
               SPVM_TOKE_is_hex_number(compiler, *compiler->ch_ptr) || *compiler->ch_ptr == '_'
               || *compiler->ch_ptr == '.' || *compiler->ch_ptr == 'p' || *compiler->ch_ptr == 'P' || *compiler->ch_ptr == '-' || *compiler->ch_ptr == '+'
@@ -1839,7 +1839,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             
             char *end;
             uint64_t num_uint64_nosign = strtoull(numeric_literal + parse_start_offset, &end, digit);
-            if (*end != '\0') {
+            if (*end != '\0' || ((digit == 16 || digit == 2) && end == numeric_literal + parse_start_offset)) {
               out_of_range = 1;
             }
             else if (errno == ERANGE) {
@@ -1872,7 +1872,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             if (digit == 16 || digit == 8 || digit == 2) {
               num.ival = (int32_t)(uint32_t)num_uint64_nosign;
               if (minus) {
-                num.ival = -num.ival;
+                num.ival = (int32_t)-(uint32_t)num_uint64_nosign;
               }
             }
             else {
@@ -1903,7 +1903,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             
             char *end;
             uint64_t num_uint64_nosign = strtoull(numeric_literal + parse_start_offset, &end, digit);
-            if (*end != '\0') {
+            if (*end != '\0' || ((digit == 16 || digit == 2) && end == numeric_literal + parse_start_offset)) {
               invalid = 1;
             }
             else if (errno == ERANGE) {
@@ -1936,7 +1936,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
             if (digit == 16 || digit == 8 || digit == 2) {
               num.lval = (int64_t)(uint64_t)num_uint64_nosign;
               if (minus) {
-                num.lval = -num.lval;
+                num.lval = (int64_t)-num_uint64_nosign;
               }
             }
             else {
-- 
2.43.0


From 87e9a6b0b3c165d2c3bb5ef63a8e12f3ff68ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 21/97] fix: a special assignment to $@ does not crash the
 compiler

---
 lib/SPVM/Builder/src/spvm_op.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 6173b93..ea12821 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -2664,9 +2664,13 @@ SPVM_OP* SPVM_OP_build_special_assign(SPVM_COMPILER* compiler, SPVM_OP* op_speci
   
   if (op_dist->id == SPVM_OP_C_ID_VAR || op_dist->id == SPVM_OP_C_ID_EXCEPTION_VAR) {
     SPVM_OP_build_assign(compiler, op_assign_save_old, op_var_old, op_dist);
-    SPVM_OP* op_var = op_dist;
-    SPVM_OP* op_var_clone = SPVM_OP_clone_op_var(compiler, op_var);
-    SPVM_OP* op_dist_clone = op_var_clone;
+    SPVM_OP* op_dist_clone = NULL;
+    if (op_dist->id == SPVM_OP_C_ID_EXCEPTION_VAR) {
+      op_dist_clone = SPVM_OP_new_op(compiler, SPVM_OP_C_ID_EXCEPTION_VAR, op_dist->file, op_dist->line);
+    }
+    else {
+      op_dist_clone = SPVM_OP_clone_op_var(compiler, op_dist);
+    }
     SPVM_OP_build_assign(compiler, op_assign_update, op_dist_clone, op_culc);
   }
   else if (op_dist->id == SPVM_OP_C_ID_DEREFERENCE) {
-- 
2.43.0


From fae22c21837104c94ca94357761178ffc066b0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 22/97] fix: the character after the keyword "scalar" is not
 skipped

---
 lib/SPVM/Builder/src/spvm_toke.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 429b553..2245987 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -2449,7 +2449,6 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
                   keyword_token = SHORT;
                 }
                 else if (strcmp(symbol_name, "scalar") == 0) {
-                  compiler->ch_ptr++;
                   SPVM_OP* op = SPVM_TOKE_new_op(compiler, SPVM_OP_C_ID_SCALAR);
                   yylvalp->opval = op;
                   
-- 
2.43.0


From 210db602e97275cfe664ed30ac721a30728a7dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 23/97] fix: the line of a lib directive is counted

---
 lib/SPVM/Builder/src/spvm_toke.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 2245987..2873634 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -558,7 +558,7 @@ int SPVM_yylex(SPVM_YYSTYPE* yylvalp, SPVM_COMPILER* compiler) {
           }
           
           compiler->ch_ptr++;
-          compiler->line_begin_ch_ptr = compiler->ch_ptr;
+          SPVM_TOKE_increment_current_line(compiler);
         }
         // Comment
         else {
-- 
2.43.0


From 4d0a53d6cf40b11099a188837813e19234e308a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 24/97] fix: an argument whose type is an array of three or
 more dimensions does not crash the compiler

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index bb54401..2d9b177 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -214,7 +214,7 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
             }
           }
         }
-        else if (arg_type_dimension == 2) {
+        else if (arg_type_dimension >= 2) {
           SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_GET_STACK_OBJECT);
           opcode.operand0 = arg->typed_var_index;
           opcode.operand3 = stack_index & 0xFF;
-- 
2.43.0


From be676a3ddbac0e506d2d850b53ef33df472eb089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 25/97] fix: a type cast to a numeric array or a multi-numeric
 array checks the type dimension of the source type

---
 lib/SPVM/Builder/src/spvm_type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index 70f4ed7..aeac461 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1590,7 +1590,7 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
   // Dist type is numeric array type(except for byte array)
   else if (SPVM_TYPE_is_numeric_array_type(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag)) {
     // Source type equals dist type
-    if (src_type_basic_type_id == dist_type_basic_type_id) {
+    if (src_type_basic_type_id == dist_type_basic_type_id && src_type_dimension == dist_type_dimension) {
       can_cast = 1;
     }
     // Source type is any object type
@@ -1609,7 +1609,7 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
   // Dist type is multi-numeric array
   else if (SPVM_TYPE_is_mulnum_array_type(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag)) {
     // Source type equals dist type
-    if (src_type_basic_type_id == dist_type_basic_type_id) {
+    if (src_type_basic_type_id == dist_type_basic_type_id && src_type_dimension == dist_type_dimension) {
       can_cast = 1;
     }
     // Source type is any object type
-- 
2.43.0


From 40f50a6b2772aacdd9779b0fb3f7ac1856badbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 26/97] fix: a type cast from a numeric object type to the same
 numeric object type is allowed

---
 lib/SPVM/Builder/src/spvm_type.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index aeac461..2f94a86 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1462,8 +1462,17 @@ int32_t SPVM_TYPE_satisfy_cast_requirement(
   }
   // Dist type is numeric object type
   else if (SPVM_TYPE_is_numeric_object_type(compiler, dist_type_basic_type_id, dist_type_dimension, dist_type_flag)) {
+    // Source type is numeric object type
+    if (SPVM_TYPE_is_numeric_object_type(compiler, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
+      if (dist_type_basic_type_id == src_type_basic_type_id) {
+        can_cast = 1;
+      }
+      else {
+        can_cast = 0;
+      }
+    }
     // Source type is numeric type
-    if (SPVM_TYPE_is_numeric_type(compiler, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
+    else if (SPVM_TYPE_is_numeric_type(compiler, src_type_basic_type_id, src_type_dimension, src_type_flag)) {
       if (dist_type_basic_type_id == src_type_basic_type_id + SPVM_BASIC_TYPE_C_NUMERIC_OBJECT_UPGRADE_SHIFT) {
         can_cast = 1;
       }
-- 
2.43.0


From 3ab864499edd5fabe8a73a35846451fc02d410b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:09 +0000
Subject: [PATCH 27/97] fix: a type cast from any object type to mutable string
 type checks that the object is a string

---
 lib/SPVM/Builder/include/spvm_implement.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index 6379a3a..6f457a9 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -399,7 +399,12 @@ static inline void SPVM_IMPLEMENT_MOVE_OBJECT_WITH_TYPE_CHECK(SPVM_ENV* env, SPV
 static inline void SPVM_IMPLEMENT_MOVE_OBJECT_CHECK_READ_ONLY_STRING(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* in, int32_t* error_id) {
   
   void* string = in;
-  if (env->is_string(env, stack, string) && env->is_read_only(env, stack, string)) {
+  if (string && !env->is_string(env, stack, string)) {
+    void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_ASSIGN_NON_ASSIGNABLE_TYPE]);
+    env->set_exception(env, stack, exception);
+    *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
+  }
+  else if (env->is_string(env, stack, string) && env->is_read_only(env, stack, string)) {
     void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_ASSIGN_READ_ONLY_STRING_TO_MUTABLE_TYPE]);
     env->set_exception(env, stack, exception);
     *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
-- 
2.43.0


From b583123e1b96354f6afe6454f1510f2ce8138666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 28/97] fix: a runtime type check with an interface whose
 method does not match does not crash

---
 lib/SPVM/Builder/src/spvm_type.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index 2f94a86..4aa20f0 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1902,10 +1902,10 @@ int32_t SPVM_TYPE_satisfy_interface_method_requirement(SPVM_COMPILER* compiler,
     );
     
     if (!can_assign) {
-      const char* src_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, src_method_var_decl_type->basic_type->id, src_method_var_decl_type->dimension, src_method_var_decl_type->flag);
-      const char* dist_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_var_decl_type->basic_type->id, dist_method_var_decl_type->dimension, dist_method_var_decl_type->flag);
-      
       if (error_reason) {
+        const char* src_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, src_method_var_decl_type->basic_type->id, src_method_var_decl_type->dimension, src_method_var_decl_type->flag);
+        const char* dist_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_var_decl_type->basic_type->id, dist_method_var_decl_type->dimension, dist_method_var_decl_type->flag);
+        
         snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The %dth argument(%s type) of %s#%s method must be able to be assigned to the %dth argument(%s type) of %s#%s method.\n  at %s line %d", arg_index, src_method_var_decl_type_name, src_basic_type->name, src_method->name, arg_index, dist_method_var_decl_type_name, dist_basic_type->name, dist_method->name, src_method->op_method->file, src_method->op_method->line);
       }
       
@@ -1924,10 +1924,10 @@ int32_t SPVM_TYPE_satisfy_interface_method_requirement(SPVM_COMPILER* compiler,
   );
   
   if (!can_assign) {
-    const char* src_method_return_type_name = SPVM_TYPE_new_type_name(compiler, src_method_return_type->basic_type->id, src_method_return_type->dimension, src_method_return_type->flag);
-    const char* dist_method_return_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_return_type->basic_type->id, dist_method_return_type->dimension, dist_method_return_type->flag);
-    
     if (error_reason) {
+      const char* src_method_return_type_name = SPVM_TYPE_new_type_name(compiler, src_method_return_type->basic_type->id, src_method_return_type->dimension, src_method_return_type->flag);
+      const char* dist_method_return_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_return_type->basic_type->id, dist_method_return_type->dimension, dist_method_return_type->flag);
+      
       snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The return type(%s type) of %s#%s method must be able to be assigned to the return type(%s type) of %s#%s method.\n  at %s line %d", src_method_return_type_name, src_basic_type->name, src_method->name, dist_method_return_type_name, dist_basic_type->name, dist_method->name, src_method->op_method->file, src_method->op_method->line);
     }
     
-- 
2.43.0


From 6ad522e52b1452b5e4245509c304b34f640f03f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 29/97] fix: setting an element of an array of a class type or
 of a multi-dimensional array checks the type of the object

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 23 +++++++++++-----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 2d9b177..2f750f3 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4748,18 +4748,17 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                       }
                       else {
                         int32_t is_check_type;
-                        if (array_type_dimension == 1) {
-                          switch (array_basic_type_category) {
-                            case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE:
-                            case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_ANY_OBJECT:
-                            {
-                              is_check_type = 1;
-                              break;
-                            }
-                            default: {
-                              is_check_type = 0;
-                              break;
-                            }
+                        switch (array_basic_type_category) {
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS:
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE:
+                          case SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_ANY_OBJECT:
+                          {
+                            is_check_type = 1;
+                            break;
+                          }
+                          default: {
+                            is_check_type = 0;
+                            break;
                           }
                         }
                         
-- 
2.43.0


From a0b07bef7408484a33b3fdb9c2bddd1f26f20c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 30/97] fix: isa_error with an ID that is not a basic type's
 returns 0 instead of crashing

---
 lib/SPVM/Builder/include/spvm_implement.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index 6f457a9..ec03045 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -1375,7 +1375,8 @@ static inline void SPVM_IMPLEMENT_ISA(SPVM_ENV* env, SPVM_VALUE* stack, int32_t*
 }
 
 static inline void SPVM_IMPLEMENT_ISA_ERROR(SPVM_ENV* env, SPVM_VALUE* stack, int32_t* out, void* src_basic_type, void* dist_basic_type, int32_t dist_type_dimension) {
-  *out = env->api->type->can_assign(env->runtime, dist_basic_type, dist_type_dimension, 0, src_basic_type, 0, 0);
+  // The basic type ID given to the die statement is possibly not the one of a basic type
+  *out = src_basic_type && env->api->type->can_assign(env->runtime, dist_basic_type, dist_type_dimension, 0, src_basic_type, 0, 0);
 }
 
 static inline void SPVM_IMPLEMENT_IS_TYPE(SPVM_ENV* env, SPVM_VALUE* stack, int32_t* out, void* object, void* dist_basic_type, int32_t dist_type_dimension) {
-- 
2.43.0


From c5eb6a39addbff682d427f78b16213d6d3c2438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 31/97] fix: Fn#equals_string_range checks the range of the
 second string with its own offset

---
 lib/SPVM/Fn.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index af56212..1f9142b 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -137,7 +137,7 @@ class Fn {
     }
     
     my $string2_length = length $string2;
-    unless ($string1_offset + $length <= $string2_length) {
+    unless ($string2_offset + $length <= $string2_length) {
       return 0;
     }
     
-- 
2.43.0


From 4ec26facbbf6b3d8cf3f1bdd16687876040b933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 32/97] fix: Fn#memcpy, Fn#memmove and Fn#memcmp reject a
 negative offset and a range that overflows instead of accessing memory out of
 bounds

---
 lib/SPVM/Fn.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/Fn.c b/lib/SPVM/Fn.c
index d173bb3..cfd9f33 100644
--- a/lib/SPVM/Fn.c
+++ b/lib/SPVM/Fn.c
@@ -384,7 +384,11 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t dest_elem_size = env->get_elem_size(env, stack, obj_dest);
   int32_t dest_byte_length = dest_elem_size * dest_length;
   
-  if (!(dest_offset + length <= dest_byte_length)) {
+  if (!(dest_offset >= 0)) {
+    return env->die(env, stack, "The offset $dest_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(dest_offset <= dest_byte_length - length)) {
     return env->die(env, stack, "The offset $dest_offset + the length $length must be less than or equal to the length of the dest $obj_dest.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -393,7 +397,11 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t source_elem_size = env->get_elem_size(env, stack, obj_source);
   int32_t source_byte_length = source_elem_size * source_length;
   
-  if (!(source_offset + length <= source_byte_length)) {
+  if (!(source_offset >= 0)) {
+    return env->die(env, stack, "The offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(source_offset <= source_byte_length - length)) {
     return env->die(env, stack, "The offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -443,7 +451,11 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t dest_elem_size = env->get_elem_size(env, stack, obj_dest);
   int32_t dest_byte_length = dest_elem_size * dest_length;
   
-  if (!(dest_offset + length <= dest_byte_length)) {
+  if (!(dest_offset >= 0)) {
+    return env->die(env, stack, "The offset $dest_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(dest_offset <= dest_byte_length - length)) {
     return env->die(env, stack, "The offset $dest_offset + the length $length must be less than or equal to the length of the dest $obj_dest.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -452,7 +464,11 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t source_elem_size = env->get_elem_size(env, stack, obj_source);
   int32_t source_byte_length = source_elem_size * source_length;
   
-  if (!(source_offset + length <= source_byte_length)) {
+  if (!(source_offset >= 0)) {
+    return env->die(env, stack, "The offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(source_offset <= source_byte_length - length)) {
     return env->die(env, stack, "The offset $source_offset + the length $length must be less than or equal to the length of the source $obj_source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -841,7 +857,11 @@ int32_t SPVM__Fn__memcmp(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t data1_elem_size = env->get_elem_size(env, stack, obj_data1);
   int32_t data1_byte_length = data1_elem_size * data1_length;
   
-  if (!(data1_offset + length <= data1_byte_length)) {
+  if (!(data1_offset >= 0)) {
+    return env->die(env, stack, "The offset $data1_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(data1_offset <= data1_byte_length - length)) {
     return env->die(env, stack, "The offset $data1_offset + the length $length must be less than or equal to the length of the data1 $obj_data1.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -850,7 +870,11 @@ int32_t SPVM__Fn__memcmp(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t data2_elem_size = env->get_elem_size(env, stack, obj_data2);
   int32_t data2_byte_length = data2_elem_size * data2_length;
   
-  if (!(data2_offset + length <= data2_byte_length)) {
+  if (!(data2_offset >= 0)) {
+    return env->die(env, stack, "The offset $data2_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  if (!(data2_offset <= data2_byte_length - length)) {
     return env->die(env, stack, "The offset $data2_offset + the length $length must be less than or equal to the length of the data2 $data2.", __func__, FILE_NAME, __LINE__);
   }
   
-- 
2.43.0


From e845d6689d254a754d5b52445b860f38edbb52ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 33/97] fix: Fn#to_int, to_long, to_float and to_double reject
 a string that is empty or continues after a null character

---
 lib/SPVM/Fn.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Fn.c b/lib/SPVM/Fn.c
index cfd9f33..04d4534 100644
--- a/lib/SPVM/Fn.c
+++ b/lib/SPVM/Fn.c
@@ -524,7 +524,7 @@ int32_t SPVM__Fn__to_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   double num = strtod(string, &end);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a double number.", __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
@@ -549,7 +549,7 @@ int32_t SPVM__Fn__to_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   float num = strtof(string, &end);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a float number.", __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
@@ -579,7 +579,7 @@ int32_t SPVM__Fn__to_int_with_base(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   int64_t num = strtol(string, &end, digit);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a %d-digit 32-bit integer", digit, __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE || num < INT32_MIN || num > INT32_MAX) {
@@ -609,7 +609,7 @@ int32_t SPVM__Fn__to_long_with_base(SPVM_ENV* env, SPVM_VALUE* stack) {
   char *end;
   errno = 0;
   int64_t num = strtoll(string, &end, digit);
-  if (*end != '\0') {
+  if (end == string || end != string + env->length(env, stack, obj_string)) {
     return env->die(env, stack, "The string $string must be the string that can be parsed as a %d-digit 64-bit integer", digit, __func__, FILE_NAME, __LINE__);
   }
   else if (errno == ERANGE) {
-- 
2.43.0


From 902130f6a6b8af9b86b7be24788bae0d5b8c062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 34/97] fix: Fn#lcfirst and Fn#ucfirst accept an empty string

---
 lib/SPVM/Fn.spvm | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index 1f9142b..d3f355b 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -545,7 +545,9 @@ class Fn {
         $new_string->[0] = $char;
       }
     }
-    Fn->memcpy($new_string, 1, $string, 1, $length - 1);
+    if ($length > 1) {
+      Fn->memcpy($new_string, 1, $string, 1, $length - 1);
+    }
     
     return $new_string;
   }
@@ -1048,7 +1050,9 @@ class Fn {
         $new_string->[0] = $char;
       }
     }
-    Fn->memcpy($new_string, 1, $string, 1, $length - 1);
+    if ($length > 1) {
+      Fn->memcpy($new_string, 1, $string, 1, $length - 1);
+    }
     
     return $new_string;
   }
-- 
2.43.0


From 06b9b1f0456fad036ccbaafc73cea3da00c53dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 35/97] fix: Fn#tr rejects a range of more than 3 characters

---
 lib/SPVM/Fn.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index d3f355b..07b25c4 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -1175,7 +1175,7 @@ class Fn {
       if ($code_points_length == 1) {
         $max_code_point = $min_code_point;
       }
-      if ($max_code_point < 0) {
+      else {
         die "The range format of the argument name $arg_name must be 1 or 3 characters.";
       }
     }
-- 
2.43.0


From 49aad8a88315d9e9094c7d2c95e5ab1ffc75a07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 36/97] fix: the range checks in Fn do not overflow

---
 lib/SPVM/Fn.spvm | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/SPVM/Fn.spvm b/lib/SPVM/Fn.spvm
index 07b25c4..d58e958 100644
--- a/lib/SPVM/Fn.spvm
+++ b/lib/SPVM/Fn.spvm
@@ -132,12 +132,12 @@ class Fn {
     }
     
     my $string1_length = length $string1;
-    unless ($string1_offset + $length <= $string1_length) {
+    unless ($string1_offset <= $string1_length - $length) {
       return 0;
     }
     
     my $string2_length = length $string2;
-    unless ($string2_offset + $length <= $string2_length) {
+    unless ($string2_offset <= $string2_length - $length) {
       return 0;
     }
     
@@ -266,7 +266,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ($offset <= $string_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
@@ -815,7 +815,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ($offset <= $string_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
@@ -1103,7 +1103,7 @@ class Fn {
           $range = 0;
         }
         else {
-          if ($current_utf8_offset < $utf8_offset + $utf8_length) {
+          if ($current_utf8_offset - $utf8_offset < $utf8_length) {
             $range = 0;
           }
           else {
@@ -1124,7 +1124,7 @@ class Fn {
     }
     
     if ($utf8_length >= 0) {
-      unless ($utf8_offset + $utf8_length <= $current_utf8_offset) {
+      unless ($utf8_offset <= $current_utf8_offset - $utf8_length) {
         die "The offset \$utf8_offset + the length \$utf8_length must be less than or equal to the UTF-8 length of the string \$string.";
       }
     }
@@ -1269,7 +1269,7 @@ class Fn {
       $length = $string_length - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ($offset <= $string_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string \$string.";
     }
     
@@ -1590,6 +1590,10 @@ class Fn {
       die "The type of the array \$array must be an object array type, a numeric array type or a multi-numeric array type.";
     }
     
+    unless ($offset >= 0 && $length >= 0 && $offset <= &array_length($array) - $length) {
+      die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
+    }
+    
     my $sliced_array = Array->new_proto_any($array, $length);
     
     if (&is_object_array($array)) {
@@ -1706,7 +1710,7 @@ class Fn {
     
     my $binary_length = length $binary;
     
-    unless ($offset + $size <= $binary_length) {
+    unless ($offset <= $binary_length - $size) {
       die "The byte size \$size must be less than or equal to the offset \$offset plus the length of the binary data \$binary.";
     }
     
-- 
2.43.0


From 3008f8f13bb0be6d282cbe5a836b35c354adc1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 37/97] fix: Array#repeat repeats the whole array the given
 number of times

---
 lib/SPVM/Array.spvm | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Array.spvm b/lib/SPVM/Array.spvm
index 607e93e..f39ef81 100644
--- a/lib/SPVM/Array.spvm
+++ b/lib/SPVM/Array.spvm
@@ -1497,13 +1497,13 @@ class Array {
     my $ret_array = Array->new_proto_any($array, $ret_length);
     
     if (Fn->is_object_array($array)) {
-      for (my $i = 0; $i < $length; $i++) {
-        Array->memcpy_object_address((object[])$ret_array, $count * $i, (object[])$array, 0, $count);
+      for (my $i = 0; $i < $count; $i++) {
+        Array->memcpy_object_address((object[])$ret_array, $length * $i, (object[])$array, 0, $length);
       }
     }
     else {
-      for (my $i = 0; $i < $length; $i++) {
-        Fn->memcpy($ret_array, $elem_size * $count * $i, $array, 0, $elem_size * $count);
+      for (my $i = 0; $i < $count; $i++) {
+        Fn->memcpy($ret_array, $elem_size * $length * $i, $array, 0, $elem_size * $length);
       }
     }
     
-- 
2.43.0


From 199373a38ce988ce6a90a5a3403415b2f4315373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 38/97] fix: the range checks in Array do not overflow

---
 lib/SPVM/Array.c    | 48 ++++++++++++++++++++++-----------------------
 lib/SPVM/Array.spvm | 42 +++++++++++++++++++--------------------
 2 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/lib/SPVM/Array.c b/lib/SPVM/Array.c
index d7f92a6..72aa106 100644
--- a/lib/SPVM/Array.c
+++ b/lib/SPVM/Array.c
@@ -45,11 +45,11 @@ int32_t SPVM__Array__memcpy_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
   int8_t* source = env->get_elems_byte(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(dest_offset <= dest_length - length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(source_offset <= source_length - length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -96,11 +96,11 @@ int32_t SPVM__Array__memcpy_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   double* source = env->get_elems_double(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(dest_offset <= dest_length - length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(source_offset <= source_length - length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -147,11 +147,11 @@ int32_t SPVM__Array__memcpy_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   float* source = env->get_elems_float(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(dest_offset <= dest_length - length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(source_offset <= source_length - length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -198,11 +198,11 @@ int32_t SPVM__Array__memcpy_int(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t* source = env->get_elems_int(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(dest_offset <= dest_length - length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(source_offset <= source_length - length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -249,11 +249,11 @@ int32_t SPVM__Array__memcpy_long(SPVM_ENV* env, SPVM_VALUE* stack) {
   int64_t* source = env->get_elems_long(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(dest_offset <= dest_length - length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(source_offset <= source_length - length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -300,11 +300,11 @@ int32_t SPVM__Array__memcpy_short(SPVM_ENV* env, SPVM_VALUE* stack) {
   int16_t* source = env->get_elems_short(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(dest_offset <= dest_length - length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(source_offset <= source_length - length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -351,11 +351,11 @@ int32_t SPVM__Array__memmove_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
   int8_t* source = env->get_elems_byte(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(dest_offset <= dest_length - length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(source_offset <= source_length - length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -402,11 +402,11 @@ int32_t SPVM__Array__memmove_double(SPVM_ENV* env, SPVM_VALUE* stack) {
   double* source = env->get_elems_double(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(dest_offset <= dest_length - length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(source_offset <= source_length - length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -453,11 +453,11 @@ int32_t SPVM__Array__memmove_float(SPVM_ENV* env, SPVM_VALUE* stack) {
   float* source = env->get_elems_float(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(dest_offset <= dest_length - length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(source_offset <= source_length - length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -504,11 +504,11 @@ int32_t SPVM__Array__memmove_int(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t* source = env->get_elems_int(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(dest_offset <= dest_length - length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(source_offset <= source_length - length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -555,11 +555,11 @@ int32_t SPVM__Array__memmove_long(SPVM_ENV* env, SPVM_VALUE* stack) {
   int64_t* source = env->get_elems_long(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(dest_offset <= dest_length - length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(source_offset <= source_length - length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
@@ -606,11 +606,11 @@ int32_t SPVM__Array__memmove_short(SPVM_ENV* env, SPVM_VALUE* stack) {
   int16_t* source = env->get_elems_short(env, stack, obj_source);
   int32_t source_length = env->length(env, stack, obj_source);
   
-  if (!(dest_offset + length <= dest_length)) {
+  if (!(dest_offset <= dest_length - length)) {
     return env->die(env, stack, "The destination offset $dest_offset + the length $length must be less than or equal to the length of the destination $dest.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (!(source_offset + length <= source_length)) {
+  if (!(source_offset <= source_length - length)) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
diff --git a/lib/SPVM/Array.spvm b/lib/SPVM/Array.spvm
index f39ef81..c825c08 100644
--- a/lib/SPVM/Array.spvm
+++ b/lib/SPVM/Array.spvm
@@ -23,7 +23,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -49,7 +49,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -75,7 +75,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -101,7 +101,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -127,7 +127,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -170,7 +170,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -195,7 +195,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -222,7 +222,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -593,11 +593,11 @@ class Array {
     my $dest_length = @$dest;
     my $source_length = @$source;
     
-    unless ($dest_offset + $length <= $dest_length) {
+    unless ($dest_offset <= $dest_length - $length) {
       die "The destination offset \$dest_offset + the length \$length must be less than or equal to the length of the destination \$dest.";
     }
     
-    unless ($source_offset + $length <= $source_length) {
+    unless ($source_offset <= $source_length - $length) {
       die "The source offset \$source_offset + the length \$length must be less than or equal to the length of the source \$source.";
     }
     
@@ -639,11 +639,11 @@ class Array {
     my $dest_length = @$dest;
     my $source_length = @$source;
     
-    unless ($dest_offset + $length <= $dest_length) {
+    unless ($dest_offset <= $dest_length - $length) {
       die "The destination offset \$dest_offset + the length \$length must be less than or equal to the length of the destination \$dest.";
     }
     
-    unless ($source_offset + $length <= $source_length) {
+    unless ($source_offset <= $source_length - $length) {
       die "The source offset \$source_offset + the length \$length must be less than or equal to the length of the source \$source.";
     }
     
@@ -677,7 +677,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -700,7 +700,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -723,7 +723,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -746,7 +746,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -769,7 +769,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -792,7 +792,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -815,7 +815,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -1100,7 +1100,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -1416,7 +1416,7 @@ class Array {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length - $length) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
-- 
2.43.0


From 7009ac20e06aa2879cd1055ec11f80bd3336823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 39/97] fix: List#reserve works after the beginning of the list
 moved

---
 lib/SPVM/List.spvm | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index ddee985..873c28f 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -384,10 +384,16 @@ class List {
     
     my $offset = $self->{offset};
     
-    Array->memcpy_object_address($new_array, $offset, $array, $offset, $capacity - $offset);
+    my $first_length = $capacity - $offset;
+    if ($first_length > $length) {
+      $first_length = $length;
+    }
+    
+    Array->memcpy_object_address($new_array, 0, $array, $offset, $first_length);
     
-    Array->memcpy_object_address($new_array, $capacity, $array, 0, $offset);
+    Array->memcpy_object_address($new_array, $first_length, $array, 0, $length - $first_length);
     
+    $self->{offset} = 0;
     $self->{array} = $new_array;
     $self->{capacity} = $new_capacity;
   }
-- 
2.43.0


From 63287a4b62dc24ea73d45beb6562775228f2e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 40/97] fix: List#replace clears the elements it removes from
 the end of the list

---
 lib/SPVM/List.spvm | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index 873c28f..7bf4a1f 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -222,6 +222,10 @@ class List {
         $self->set($index + $replace_length + $i, $element);
         $self->set($index + $remove_length + $i, undef);
       }
+      
+      for (my $i = $new_length; $i < $self->{length}; $i++) {
+        $self->set($i, undef);
+      }
     }
     
     $self->{length} = $new_length;
-- 
2.43.0


From 5107eb4b9c1734a5794f0d865c3d19c172a4dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 41/97] fix: the range checks in the list classes, StringBuffer
 and Sort do not overflow

---
 lib/SPVM/ByteList.spvm     |  2 +-
 lib/SPVM/DoubleList.spvm   |  2 +-
 lib/SPVM/FloatList.spvm    |  2 +-
 lib/SPVM/IntList.spvm      |  2 +-
 lib/SPVM/List.spvm         |  2 +-
 lib/SPVM/LongList.spvm     |  2 +-
 lib/SPVM/ShortList.spvm    |  2 +-
 lib/SPVM/Sort.spvm         | 16 ++++++++--------
 lib/SPVM/StringBuffer.spvm |  4 ++--
 9 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/lib/SPVM/ByteList.spvm b/lib/SPVM/ByteList.spvm
index dac6c47..513b96d 100644
--- a/lib/SPVM/ByteList.spvm
+++ b/lib/SPVM/ByteList.spvm
@@ -157,7 +157,7 @@ class ByteList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($offset <= $self->{length} && $remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/DoubleList.spvm b/lib/SPVM/DoubleList.spvm
index bb064de..fb9734f 100644
--- a/lib/SPVM/DoubleList.spvm
+++ b/lib/SPVM/DoubleList.spvm
@@ -157,7 +157,7 @@ class DoubleList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($offset <= $self->{length} && $remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/FloatList.spvm b/lib/SPVM/FloatList.spvm
index 32fafca..6aca75a 100644
--- a/lib/SPVM/FloatList.spvm
+++ b/lib/SPVM/FloatList.spvm
@@ -157,7 +157,7 @@ class FloatList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($offset <= $self->{length} && $remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/IntList.spvm b/lib/SPVM/IntList.spvm
index a5a5b18..a0cf3f9 100644
--- a/lib/SPVM/IntList.spvm
+++ b/lib/SPVM/IntList.spvm
@@ -157,7 +157,7 @@ class IntList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($offset <= $self->{length} && $remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index 7bf4a1f..9ba024f 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -187,7 +187,7 @@ class List {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($index + $remove_length <= $self->{length}) {
+    unless ($index <= $self->{length} && $remove_length <= $self->{length} - $index) {
       die "The index \$index + the removal length \$remove_length must be less than or equal to the length of this list.";
     }
     
diff --git a/lib/SPVM/LongList.spvm b/lib/SPVM/LongList.spvm
index ffaef68..c2af051 100644
--- a/lib/SPVM/LongList.spvm
+++ b/lib/SPVM/LongList.spvm
@@ -157,7 +157,7 @@ class LongList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($offset <= $self->{length} && $remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/ShortList.spvm b/lib/SPVM/ShortList.spvm
index ffaf6c5..4e25cbc 100644
--- a/lib/SPVM/ShortList.spvm
+++ b/lib/SPVM/ShortList.spvm
@@ -157,7 +157,7 @@ class ShortList {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($offset <= $self->{length} && $remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$list.";
     }
     
diff --git a/lib/SPVM/Sort.spvm b/lib/SPVM/Sort.spvm
index 7694a53..987cda9 100644
--- a/lib/SPVM/Sort.spvm
+++ b/lib/SPVM/Sort.spvm
@@ -29,7 +29,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length && $length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -65,7 +65,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length && $length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -101,7 +101,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length && $length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -137,7 +137,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length && $length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -173,7 +173,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length && $length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -209,7 +209,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length && $length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -240,7 +240,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length && $length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
@@ -276,7 +276,7 @@ class Sort {
       $length = $array_length - $offset;
     }
     
-    unless ($offset + $length <= $array_length) {
+    unless ($offset <= $array_length && $length <= $array_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the array \$array.";
     }
     
diff --git a/lib/SPVM/StringBuffer.spvm b/lib/SPVM/StringBuffer.spvm
index c9db6ff..deca8f5 100644
--- a/lib/SPVM/StringBuffer.spvm
+++ b/lib/SPVM/StringBuffer.spvm
@@ -78,7 +78,7 @@ class StringBuffer {
       $length = length $string - $offset;
     }
     
-    unless ($offset + $length <= $string_length) {
+    unless ($offset <= $string_length && $length <= $string_length - $offset) {
       die "The offset \$offset + the length \$length must be less than or equal to the length of the string $string.";
     }
     
@@ -108,7 +108,7 @@ class StringBuffer {
     unless ($remove_length >= 0) {
       die "The removal length \$remove_length must be greater than or equal to 0.";
     }
-    unless ($offset + $remove_length <= $self->{length}) {
+    unless ($offset <= $self->{length} && $remove_length <= $self->{length} - $offset) {
       die "\$offset + \$removing length must be less than or equal to the length of \$string buffer.";
     }
     
-- 
2.43.0


From 05e71de762e49476f1fb4396b868a32d69941115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 42/97] fix: StringBuffer#set_length fills the exceeding part
 with null characters

---
 lib/SPVM/StringBuffer.spvm | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/StringBuffer.spvm b/lib/SPVM/StringBuffer.spvm
index deca8f5..72fb18b 100644
--- a/lib/SPVM/StringBuffer.spvm
+++ b/lib/SPVM/StringBuffer.spvm
@@ -186,10 +186,15 @@ class StringBuffer {
     
     $self->_maybe_extend($length);
     
+    my $clear_offset = $self->{length};
+    if ($length < $clear_offset) {
+      $clear_offset = $length;
+    }
+    
     $self->{length} = $length;
     
-    if ($length < $self->{capacity}) {
-      Fn->memset_char($self->{string}, '\0', $length, $self->{capacity} - $length);
+    if ($clear_offset < $self->{capacity}) {
+      Fn->memset_char($self->{string}, '\0', $clear_offset, $self->{capacity} - $clear_offset);
     }
     
   }
-- 
2.43.0


From 3e4de4dcb7ea81a3e0843b75c557bc755a5a2002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 43/97] fix: the values of a hash stay weak when the hash is
 rehashed

---
 lib/SPVM/Hash.spvm | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Hash.spvm b/lib/SPVM/Hash.spvm
index cac90bc..e891c7f 100644
--- a/lib/SPVM/Hash.spvm
+++ b/lib/SPVM/Hash.spvm
@@ -699,13 +699,26 @@ class Hash {
     my $entries_length = @{$self->{entries}};
     $new_entries_length = @{$self->{entries}} * 2;
     my $new_entries = new Hash::Entry [$new_entries_length];
-    my $new_keys_length = 0;
     # iterate entries
     for (my $i = 0; $i < $entries_length; ++$i) {
       my $entry = $self->{entries}->[$i];
       while ($entry) {
-        $self->_set_to_container($new_entries, $new_entries_length, \$new_keys_length, $entry->{key}, $entry->{value});
-        $entry = $entry->{next_entry};
+        my $next_entry = $entry->{next_entry};
+        $entry->{next_entry} = undef;
+        
+        my $index = $self->_index_by_key($entry->{key}, $new_entries_length);
+        my $last_entry = $new_entries->[$index];
+        if ($last_entry) {
+          while ($last_entry->{next_entry}) {
+            $last_entry = $last_entry->{next_entry};
+          }
+          $last_entry->{next_entry} = $entry;
+        }
+        else {
+          $new_entries->[$index] = $entry;
+        }
+        
+        $entry = $next_entry;
       }
     }
     $self->{entries} = $new_entries;
-- 
2.43.0


From 4528ae7fde113ca7a44bbf139b43f84a19aee968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 44/97] fix: List#insert inserts an undef element

---
 lib/SPVM/List.spvm | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/List.spvm b/lib/SPVM/List.spvm
index 9ba024f..6b93a15 100644
--- a/lib/SPVM/List.spvm
+++ b/lib/SPVM/List.spvm
@@ -114,12 +114,8 @@ class List {
     
     my $remove_length = 0;
     
-    my $array = (object[])undef;
-    
-    if ($element) {
-      $array = Array->new_array_proto_element($element, 1);
-      $array->[0] = $element;
-    }
+    my $array = Array->new_proto($self->{array}, 1);
+    $array->[0] = $element;
     
     $self->replace($index, $remove_length, $array);
   }
-- 
2.43.0


From c87d8d3f2f06198c5e086321fe65b0915eda14e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 45/97] fix: remove and a shrinking replace of the numeric
 lists clear the freed positions

---
 lib/SPVM/ByteList.spvm   | 6 ++++++
 lib/SPVM/DoubleList.spvm | 6 ++++++
 lib/SPVM/FloatList.spvm  | 6 ++++++
 lib/SPVM/IntList.spvm    | 6 ++++++
 lib/SPVM/LongList.spvm   | 6 ++++++
 lib/SPVM/ShortList.spvm  | 6 ++++++
 6 files changed, 36 insertions(+)

diff --git a/lib/SPVM/ByteList.spvm b/lib/SPVM/ByteList.spvm
index 513b96d..a164f2b 100644
--- a/lib/SPVM/ByteList.spvm
+++ b/lib/SPVM/ByteList.spvm
@@ -144,6 +144,8 @@ class ByteList {
     my $move_length = $length - $index - 1;
     Array->memmove_byte($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -176,6 +178,10 @@ class ByteList {
       Array->memcpy_byte($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $self->{length}) {
+      Array->memset_byte($self->{array}, 0, $new_length, $self->{length} - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/DoubleList.spvm b/lib/SPVM/DoubleList.spvm
index fb9734f..d50f4ff 100644
--- a/lib/SPVM/DoubleList.spvm
+++ b/lib/SPVM/DoubleList.spvm
@@ -144,6 +144,8 @@ class DoubleList {
     my $move_length = $length - $index - 1;
     Array->memmove_double($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -176,6 +178,10 @@ class DoubleList {
       Array->memcpy_double($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $self->{length}) {
+      Array->memset_double($self->{array}, 0, $new_length, $self->{length} - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/FloatList.spvm b/lib/SPVM/FloatList.spvm
index 6aca75a..d1d5379 100644
--- a/lib/SPVM/FloatList.spvm
+++ b/lib/SPVM/FloatList.spvm
@@ -144,6 +144,8 @@ class FloatList {
     my $move_length = $length - $index - 1;
     Array->memmove_float($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -176,6 +178,10 @@ class FloatList {
       Array->memcpy_float($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $self->{length}) {
+      Array->memset_float($self->{array}, 0, $new_length, $self->{length} - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/IntList.spvm b/lib/SPVM/IntList.spvm
index a0cf3f9..44290a2 100644
--- a/lib/SPVM/IntList.spvm
+++ b/lib/SPVM/IntList.spvm
@@ -144,6 +144,8 @@ class IntList {
     my $move_length = $length - $index - 1;
     Array->memmove_int($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -176,6 +178,10 @@ class IntList {
       Array->memcpy_int($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $self->{length}) {
+      Array->memset_int($self->{array}, 0, $new_length, $self->{length} - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/LongList.spvm b/lib/SPVM/LongList.spvm
index c2af051..ddc07dc 100644
--- a/lib/SPVM/LongList.spvm
+++ b/lib/SPVM/LongList.spvm
@@ -144,6 +144,8 @@ class LongList {
     my $move_length = $length - $index - 1;
     Array->memmove_long($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -176,6 +178,10 @@ class LongList {
       Array->memcpy_long($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $self->{length}) {
+      Array->memset_long($self->{array}, 0, $new_length, $self->{length} - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
diff --git a/lib/SPVM/ShortList.spvm b/lib/SPVM/ShortList.spvm
index 4e25cbc..d34129d 100644
--- a/lib/SPVM/ShortList.spvm
+++ b/lib/SPVM/ShortList.spvm
@@ -144,6 +144,8 @@ class ShortList {
     my $move_length = $length - $index - 1;
     Array->memmove_short($elements, $dist_index, $elements, $src_index, $move_length);
     
+    $elements->[$length - 1] = 0;
+    
     $self->{length}--;
     
     return $remove_value;
@@ -176,6 +178,10 @@ class ShortList {
       Array->memcpy_short($self->{array}, $offset, $replace, 0, $replace_length);
     }
     
+    if ($new_length < $self->{length}) {
+      Array->memset_short($self->{array}, 0, $new_length, $self->{length} - $new_length);
+    }
+    
     $self->{length} = $new_length;
   }
   
-- 
2.43.0


From ba0e8f26d09986d2057d4ec5788307279c554ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 46/97] fix: Immutable::DoubleList#to_array returns a copy of
 the internal array

---
 lib/SPVM/Immutable/DoubleList.spvm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Immutable/DoubleList.spvm b/lib/SPVM/Immutable/DoubleList.spvm
index 636d73e..c476272 100644
--- a/lib/SPVM/Immutable/DoubleList.spvm
+++ b/lib/SPVM/Immutable/DoubleList.spvm
@@ -67,6 +67,6 @@ class Immutable::DoubleList {
     
     Array->memcpy_double($new_array, 0, $array, 0, $length);
     
-    return $array;
+    return $new_array;
   }
 }
-- 
2.43.0


From 0feb759bd7255b4789c4228ea53e41af463960bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 47/97] fix: make_read_only does nothing for undef

---
 lib/SPVM/Builder/src/spvm_api.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 730addc..d6c78b9 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3671,9 +3671,11 @@ void SPVM_API_dump_recursive(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* obje
 }
 
 void SPVM_API_make_read_only(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* string) {
-  SPVM_RUNTIME_BASIC_TYPE* string_basic_type = SPVM_API_get_object_basic_type(env, stack, string);
-  if (string && string_basic_type->id == SPVM_NATIVE_C_BASIC_TYPE_ID_STRING && string->type_dimension == 0) {
-    string->flag |= SPVM_OBJECT_C_FLAG_IS_READ_ONLY;
+  if (string) {
+    SPVM_RUNTIME_BASIC_TYPE* string_basic_type = SPVM_API_get_object_basic_type(env, stack, string);
+    if (string_basic_type->id == SPVM_NATIVE_C_BASIC_TYPE_ID_STRING && string->type_dimension == 0) {
+      string->flag |= SPVM_OBJECT_C_FLAG_IS_READ_ONLY;
+    }
   }
 }
 
-- 
2.43.0


From 8061b125758b578e40efc89093343f31dac6453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 48/97] fix: memcpy and memmove of Array and Fn check the
 ranges also when the length is 0

---
 lib/SPVM/Array.c | 96 ++++++++++++++++++++++++------------------------
 lib/SPVM/Fn.c    | 16 ++++----
 2 files changed, 56 insertions(+), 56 deletions(-)

diff --git a/lib/SPVM/Array.c b/lib/SPVM/Array.c
index 72aa106..eb43187 100644
--- a/lib/SPVM/Array.c
+++ b/lib/SPVM/Array.c
@@ -35,10 +35,6 @@ int32_t SPVM__Array__memcpy_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int8_t* dest = env->get_elems_byte(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -53,6 +49,10 @@ int32_t SPVM__Array__memcpy_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (length == 0) {
+    return 0;
+  }
+  
   memcpy((char*)(dest + dest_offset), (char*)(source + source_offset), length);
   
   return 0;
@@ -86,10 +86,6 @@ int32_t SPVM__Array__memcpy_double(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   double* dest = env->get_elems_double(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -104,6 +100,10 @@ int32_t SPVM__Array__memcpy_double(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (length == 0) {
+    return 0;
+  }
+  
   memcpy((char*)(dest + dest_offset), (char*)(source + source_offset), length * sizeof(double));
   
   return 0;
@@ -137,10 +137,6 @@ int32_t SPVM__Array__memcpy_float(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   float* dest = env->get_elems_float(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -155,6 +151,10 @@ int32_t SPVM__Array__memcpy_float(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (length == 0) {
+    return 0;
+  }
+  
   memcpy((char*)(dest + dest_offset), (char*)(source + source_offset), length * sizeof(float));
   
   return 0;
@@ -188,10 +188,6 @@ int32_t SPVM__Array__memcpy_int(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int32_t* dest = env->get_elems_int(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -206,6 +202,10 @@ int32_t SPVM__Array__memcpy_int(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (length == 0) {
+    return 0;
+  }
+  
   memcpy((char*)(dest + dest_offset), (char*)(source + source_offset), length * sizeof(int32_t));
   
   return 0;
@@ -239,10 +239,6 @@ int32_t SPVM__Array__memcpy_long(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int64_t* dest = env->get_elems_long(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -257,6 +253,10 @@ int32_t SPVM__Array__memcpy_long(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (length == 0) {
+    return 0;
+  }
+  
   memcpy((char*)(dest + dest_offset), (char*)(source + source_offset), length * sizeof(int64_t));
   
   return 0;
@@ -290,10 +290,6 @@ int32_t SPVM__Array__memcpy_short(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int16_t* dest = env->get_elems_short(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -308,6 +304,10 @@ int32_t SPVM__Array__memcpy_short(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (length == 0) {
+    return 0;
+  }
+  
   memcpy((char*)(dest + dest_offset), (char*)(source + source_offset), length * sizeof(int16_t));
   
   return 0;
@@ -341,10 +341,6 @@ int32_t SPVM__Array__memmove_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int8_t* dest = env->get_elems_byte(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -359,6 +355,10 @@ int32_t SPVM__Array__memmove_byte(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (length == 0) {
+    return 0;
+  }
+  
   memmove((char*)(dest + dest_offset), (char*)(source + source_offset), length);
   
   return 0;
@@ -392,10 +392,6 @@ int32_t SPVM__Array__memmove_double(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   double* dest = env->get_elems_double(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -410,6 +406,10 @@ int32_t SPVM__Array__memmove_double(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (length == 0) {
+    return 0;
+  }
+  
   memmove((char*)(dest + dest_offset), (char*)(source + source_offset), length * sizeof(double));
   
   return 0;
@@ -443,10 +443,6 @@ int32_t SPVM__Array__memmove_float(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   float* dest = env->get_elems_float(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -461,6 +457,10 @@ int32_t SPVM__Array__memmove_float(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (length == 0) {
+    return 0;
+  }
+  
   memmove((char*)(dest + dest_offset), (char*)(source + source_offset), length * sizeof(float));
   
   return 0;
@@ -494,10 +494,6 @@ int32_t SPVM__Array__memmove_int(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int32_t* dest = env->get_elems_int(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -512,6 +508,10 @@ int32_t SPVM__Array__memmove_int(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (length == 0) {
+    return 0;
+  }
+  
   memmove((char*)(dest + dest_offset), (char*)(source + source_offset), length * sizeof(int32_t));
   
   return 0;
@@ -545,10 +545,6 @@ int32_t SPVM__Array__memmove_long(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int64_t* dest = env->get_elems_long(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -563,6 +559,10 @@ int32_t SPVM__Array__memmove_long(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (length == 0) {
+    return 0;
+  }
+  
   memmove((char*)(dest + dest_offset), (char*)(source + source_offset), length * sizeof(int64_t));
   
   return 0;
@@ -596,10 +596,6 @@ int32_t SPVM__Array__memmove_short(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   int16_t* dest = env->get_elems_short(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   
@@ -614,6 +610,10 @@ int32_t SPVM__Array__memmove_short(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The source offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (length == 0) {
+    return 0;
+  }
+  
   memmove((char*)(dest + dest_offset), (char*)(source + source_offset), length * sizeof(int16_t));
   
   return 0;
diff --git a/lib/SPVM/Fn.c b/lib/SPVM/Fn.c
index 04d4534..9420a06 100644
--- a/lib/SPVM/Fn.c
+++ b/lib/SPVM/Fn.c
@@ -375,10 +375,6 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The length $length must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   char* dest = (char*)env->get_chars(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   int32_t dest_elem_size = env->get_elem_size(env, stack, obj_dest);
@@ -405,6 +401,10 @@ int32_t SPVM__Fn__memcpy(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The offset $source_offset + the length $length must be less than or equal to the length of the source $source.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (length == 0) {
+    return 0;
+  }
+  
   memcpy((char*)(dest + dest_offset), (char*)(source + source_offset), length);
   
   return 0;
@@ -442,10 +442,6 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The length $length must be greater than or equal to 0.", __func__, FILE_NAME, __LINE__);
   }
   
-  if (length == 0) {
-    return 0;
-  }
-  
   char* dest = (char*)env->get_chars(env, stack, obj_dest);
   int32_t dest_length = env->length(env, stack, obj_dest);
   int32_t dest_elem_size = env->get_elem_size(env, stack, obj_dest);
@@ -472,6 +468,10 @@ int32_t SPVM__Fn__memmove(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "The offset $source_offset + the length $length must be less than or equal to the length of the source $obj_source.", __func__, FILE_NAME, __LINE__);
   }
   
+  if (length == 0) {
+    return 0;
+  }
+  
   memmove((char*)(dest + dest_offset), (char*)(source + source_offset), length);
   
   return 0;
-- 
2.43.0


From 607ba2ef05702abc42f66267fd2ee017161efe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 49/97] fix: sprintf does not read beyond its buffer for long f
 and g results

---
 lib/SPVM/Format.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/SPVM/Format.c b/lib/SPVM/Format.c
index 815f2ce..1b65a07 100644
--- a/lib/SPVM/Format.c
+++ b/lib/SPVM/Format.c
@@ -37,15 +37,18 @@ int32_t SPVM__Format___native_snprintf_f(SPVM_ENV* env, SPVM_VALUE* stack) {
     snprintf(specifier, 14, "%%f");
   }
   
-  // "-9223372036854775808" + "." + width + precision
-  int32_t max_length = 20 + 1 + precision;
-  void* obj_formatted_string = env->new_string(env, stack, NULL, max_length);
+  int32_t length = snprintf(NULL, 0, specifier, value);
+  if (!(length >= 0)) {
+    return env->die(env, stack, "The formatted string is too long.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  void* obj_formatted_string = env->new_string(env, stack, NULL, length);
   
   char* formatted_string = (char*)env->get_chars(env, stack, obj_formatted_string);
   
-  int32_t length = snprintf(formatted_string, max_length + 1, specifier, value);
+  snprintf(formatted_string, length + 1, specifier, value);
   
-  stack[0].oval = env->new_string(env, stack, formatted_string, length);
+  stack[0].oval = obj_formatted_string;
   
   return 0;
 }
@@ -64,15 +67,18 @@ int32_t SPVM__Format___native_snprintf_g(SPVM_ENV* env, SPVM_VALUE* stack) {
     snprintf(specifier, 14, "%%g");
   }
   
-  // "-9223372036854775808" + "." + width + precision
-  int32_t max_length = 20 + 1 + precision;
-  void* obj_formatted_string = env->new_string(env, stack, NULL, max_length);
+  int32_t length = snprintf(NULL, 0, specifier, value);
+  if (!(length >= 0)) {
+    return env->die(env, stack, "The formatted string is too long.", __func__, FILE_NAME, __LINE__);
+  }
+  
+  void* obj_formatted_string = env->new_string(env, stack, NULL, length);
   
   char* formatted_string = (char*)env->get_chars(env, stack, obj_formatted_string);
   
-  int32_t length = snprintf(formatted_string, max_length + 1, specifier, value);
+  snprintf(formatted_string, length + 1, specifier, value);
   
-  stack[0].oval = env->new_string(env, stack, formatted_string, length);
+  stack[0].oval = obj_formatted_string;
   
   return 0;
 }
-- 
2.43.0


From 8fb0dcfb6ba4f5722125dd787ba32344e78bd99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 50/97] fix: sprintf puts the sign before padding zeros and
 accepts an empty string for s

---
 lib/SPVM/Format.spvm | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Format.spvm b/lib/SPVM/Format.spvm
index 3a7756a..1fa495e 100644
--- a/lib/SPVM/Format.spvm
+++ b/lib/SPVM/Format.spvm
@@ -323,12 +323,22 @@ class Format {
   native static method _native_snprintf_g : string ($value : double, $precision : int);
   native static method _native_snprintf_p : string ($value : object);
   
-  static method _push_formatted_string_unsigned : void($buffer : StringBuffer, $formatted_value : string, $width : int, $pad_char : byte, $left_justified : int) {
+  precompile static method _push_formatted_string_unsigned : void($buffer : StringBuffer, $formatted_value : string, $width : int, $pad_char : byte, $left_justified : int) {
     
-    # "+" sign is always ignored.
-    my $plus_sign = 0;
+    # "+" sign is always ignored. The value is not examined because it may be an empty string or may begin with "-".
+    my $space_count = $width - length $formatted_value;
+    
+    if ($left_justified) {
+      $buffer->push($formatted_value);
+    }
+    
+    for (; $space_count > 0; --$space_count) {
+      $buffer->push_char($pad_char);
+    }
     
-    &_push_formatted_string_signed($buffer, $formatted_value, $width, $pad_char, $left_justified, $plus_sign);
+    unless ($left_justified) {
+      $buffer->push($formatted_value);
+    }
   }
 
   precompile static method _push_formatted_string_signed : void($buffer : StringBuffer, $formatted_value : string, $width : int, $pad_char : byte, $left_justified : int, $plus_sign : int) {
@@ -356,6 +366,18 @@ class Format {
       }
     }
     else {
+      # The sign precedes the zeros of zero padding
+      if ($pad_char == '0') {
+        if ($is_minus) {
+          $buffer->push_char('-');
+          $formatted_value = Fn->substr($formatted_value, 1);
+        }
+        elsif ($plus_sign) {
+          $buffer->push_char('+');
+          $plus_sign = 0;
+        }
+      }
+      
       if ($space_count > 0) {
         for (; $space_count > 0; --$space_count) {
           $buffer->push_char($pad_char);
-- 
2.43.0


From 53912ec4e4455d8983ba5d02604bbf451cad3946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 51/97] fix: Packer converts the byte order of each element,
 and all digits of hex strings

---
 lib/SPVM/Packer.spvm | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/lib/SPVM/Packer.spvm b/lib/SPVM/Packer.spvm
index 45154b1..17c46b1 100644
--- a/lib/SPVM/Packer.spvm
+++ b/lib/SPVM/Packer.spvm
@@ -84,7 +84,7 @@ class Packer {
             my $hex_char_low = '\x30'; # 0
             if ($i + 1 < $hex_string_length) {
               $hex_char_low = $hex_string->[$i + 1];
-              unless (Fn->is_hex_digit($hex_char_high)) {
+              unless (Fn->is_hex_digit($hex_char_low)) {
                 die "Input contains non hex character.";
               }
             }
@@ -234,8 +234,12 @@ class Packer {
         $process_length = $length;
       }
       
-      if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
-        $process_length = ($process_length + 1) / 2;
+      if (!$has_wildcard_length && ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH)) {
+        $process_length = $process_length / 2 + $process_length % 2;
+      }
+      
+      unless ($process_length <= Fn->INT_MAX / $size) {
+        die "The size of the binary data of the specifier at index $i must be less than or equal to the max value of int type.";
       }
       
       my $binary_part_size = $size * $process_length;
@@ -256,10 +260,10 @@ class Packer {
         for (my $i = 0; $i < $process_length; $i++) {
           my $binary_part_offset = $size * $i;
           if ($endian == Packer::Specifier->ENDIAN_BIG_ENDIAN) {
-            Fn->system_endian_to_big_endian($binary_part, $size);
+            Fn->system_endian_to_big_endian($binary_part, $size, $binary_part_offset);
           }
           elsif ($endian == Packer::Specifier->ENDIAN_LITTLE_ENDIAN) {
-            Fn->system_endian_to_little_endian($binary_part, $size);
+            Fn->system_endian_to_little_endian($binary_part, $size, $binary_part_offset);
           }
         }
       }
@@ -346,11 +350,11 @@ class Packer {
         $process_length = ($binary_length - $binary_offset) / $size;
       }
       
-      if ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH) {
-        $process_length = ($process_length + 1) / 2;
+      if (!$has_wildcard_length && ($specifier_type == Packer::Specifier->TYPE_HEX_STRING_LOW || $specifier_type == Packer::Specifier->TYPE_HEX_STRING_HIGH)) {
+        $process_length = $process_length / 2 + $process_length % 2;
       }
       
-      unless ($binary_offset + $size * $process_length <= $binary_length) {
+      unless ($process_length <= ($binary_length - $binary_offset) / $size) {
         die "The current offset $binary_offset plus (the size $size * the process length culcuralted by $length of the specifier) must be less than the length($binary_length) of the binary data \$binary.";
       }
       
@@ -364,10 +368,10 @@ class Packer {
         for (my $i = 0; $i < $process_length; $i++) {
           my $binary_part_offset = $size * $i;
           if ($endian == Packer::Specifier->ENDIAN_BIG_ENDIAN) {
-            Fn->big_endian_to_system_endian($binary_part, $size);
+            Fn->big_endian_to_system_endian($binary_part, $size, $binary_part_offset);
           }
           elsif ($endian == Packer::Specifier->ENDIAN_LITTLE_ENDIAN) {
-            Fn->little_endian_to_system_endian($binary_part, $size);
+            Fn->little_endian_to_system_endian($binary_part, $size, $binary_part_offset);
           }
         }
       }
@@ -391,7 +395,7 @@ class Packer {
             $int_object_array->[$i] = Int->new($number & 0xFF);
           }
           
-          my $format = Fn->repeat("%x", $process_length);
+          my $format = Fn->repeat("%02x", $process_length);
           
           my $hex_string_part = (mutable string)Fn->sprintf($format, (object[])$int_object_array);
           
-- 
2.43.0


From e7e1e0ca1cbe3af08c84be4af593ca2912b0ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 52/97] fix: the conversion of an undefined byte array to a
 string returns undef

---
 lib/SPVM/Builder/include/spvm_implement.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_implement.h b/lib/SPVM/Builder/include/spvm_implement.h
index ec03045..9ffe857 100644
--- a/lib/SPVM/Builder/include/spvm_implement.h
+++ b/lib/SPVM/Builder/include/spvm_implement.h
@@ -2230,10 +2230,15 @@ static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_STRING_TO_BYTE_ARRAY(SPVM_ENV*
 }
 
 static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_ARRAY_TO_STRING(SPVM_ENV* env, SPVM_VALUE* stack, void** out, void* src_byte_array) {
-  int32_t src_byte_array_length = env->length(env, stack, src_byte_array);
-  int8_t* src_byte_array_data = env->get_elems_byte(env, stack, src_byte_array);
-  void* string = env->new_string_no_mortal(env, stack, (const char*)src_byte_array_data, src_byte_array_length);
-  env->assign_object(env, stack, out, string);
+  if (src_byte_array) {
+    int32_t src_byte_array_length = env->length(env, stack, src_byte_array);
+    int8_t* src_byte_array_data = env->get_elems_byte(env, stack, src_byte_array);
+    void* string = env->new_string_no_mortal(env, stack, (const char*)src_byte_array_data, src_byte_array_length);
+    env->assign_object(env, stack, out, string);
+  }
+  else {
+    env->assign_object(env, stack, out, NULL);
+  }
 }
 
 static inline void SPVM_IMPLEMENT_TYPE_CONVERSION_BYTE_TO_BYTE_OBJECT(SPVM_ENV* env, SPVM_VALUE* stack, void** out, int8_t value, int32_t object_data_offset) {
-- 
2.43.0


From 0718a8d9cc2b264f2a0b65ddd25d13d560e22eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 53/97] fix: an exception of assigning undef to an element of
 an any object array is raised at that statement

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 2f750f3..0e2b12d 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4621,6 +4621,8 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                       opcode.operand0 = typed_var_index_array;
                       opcode.operand1 = typed_var_index_index;
                       SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
+
+                      SPVM_OPCODE_BUILDER_push_goto_end_of_eval_or_method_on_exception(compiler, opcode_list, eval_block_stack_goto_opcode_index->length, goto_end_of_eval_on_exception_opcode_index_stack, goto_end_of_method_on_exception_opcode_index_stack, method->op_method, op_cur->line);
                     }
                     else {
                       SPVM_OPCODE opcode = {0};
-- 
2.43.0


From 52958c03f5d4613cac85f52edca9bd8866c1319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 54/97] fix: a private field of a parent class cannot be
 accessed in an anon method

---
 lib/SPVM/Builder/src/spvm_check.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 5206989..f802e91 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3288,9 +3288,15 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
 
             SPVM_FIELD_ACCESS* field_access = op_cur->uv.field_access;
             
-            SPVM_FIELD* found_field_in_current_basic_type = SPVM_HASH_get(method->current_basic_type->unmerged_field_symtable, field_access->field->name, strlen(field_access->field->name));
+            // An anon method class has the same access control as its outmost class except for its own fields
+            SPVM_BASIC_TYPE* access_basic_type = method->current_basic_type;
+            if (access_basic_type->is_generated_by_anon_method && strcmp(access_basic_type->name, field_access->field->current_basic_type->name) != 0) {
+              access_basic_type = access_basic_type->outmost;
+            }
+            
+            SPVM_FIELD* found_field_in_current_basic_type = SPVM_HASH_get(access_basic_type->unmerged_field_symtable, field_access->field->name, strlen(field_access->field->name));
             
-            int32_t is_parent_field = !found_field_in_current_basic_type && !method->current_basic_type->is_generated_by_anon_method;
+            int32_t is_parent_field = !found_field_in_current_basic_type;
             
             if (!SPVM_CHECK_can_access(compiler, method->current_basic_type,  field_access->field->current_basic_type, field_access->field->access_control_type, is_parent_field)) {
               if (!SPVM_OP_is_allowed(compiler, method->current_basic_type, field->current_basic_type, is_parent_field)) {
-- 
2.43.0


From 8eca438db4ea24dde6a5cbcf59148f244ddc3d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 55/97] fix: the allow statement is applied to anon methods of
 the allowed class

---
 lib/SPVM/Builder/src/spvm_op.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index ea12821..1c54da2 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -3697,6 +3697,11 @@ int32_t SPVM_OP_is_allowed(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic_type_
     is_allowed = 1;
   }
   else {
+    // An anon method class has the same access control as its outmost class
+    if (basic_type_current->is_generated_by_anon_method) {
+      current_basic_type_name = basic_type_current->outmost->name;
+    }
+    
     for (int32_t i = 0; i < allows->length; i++) {
       SPVM_ALLOW* allow = SPVM_LIST_get(allows, i);
       const char* allow_basic_type_name = allow->basic_type_name;
-- 
2.43.0


From da48bbf5b8b00174ca18f517a8fd9fc6176c186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 56/97] fix: the compile_type_name operator adds the type name
 to the constant strings

---
 lib/SPVM/Builder/src/spvm_check.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index f802e91..a06620a 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -1460,6 +1460,7 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             SPVM_TYPE* operand_type = SPVM_CHECK_get_type(compiler, op_operand);
             const char* type_name = SPVM_TYPE_new_type_name(compiler, operand_type->basic_type->id, operand_type->dimension, operand_type->flag);
             SPVM_OP* op_stab = SPVM_OP_cut_op(compiler, op_cur);
+            SPVM_BASIC_TYPE_add_constant_string(compiler, basic_type, type_name, strlen(type_name));
             SPVM_OP* op_constant_string = SPVM_OP_new_op_constant_string(compiler, type_name, strlen(type_name), op_cur->file, op_cur->line);
             SPVM_OP_replace_op(compiler, op_stab, op_constant_string);
             op_cur = op_constant_string;
-- 
2.43.0


From 092ec8bfc16a900cee723d49ca2624c760c4bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 57/97] fix: the definition of a class variable or a field of a
 reference type is a compilation error

---
 lib/SPVM/Builder/src/spvm_check.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index a06620a..4e4260f 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -238,6 +238,12 @@ void SPVM_CHECK_check_class_vars(SPVM_COMPILER* compiler) {
         SPVM_COMPILER_error(compiler, "The multi-numeric type cannnot used in the definition of the class variable.\n  at %s line %d", class_var->op_class_var->file, class_var->op_class_var->line);
         return;
       }
+      
+      // A reference type cannnot become class variable
+      if (SPVM_TYPE_is_ref_type(compiler, class_var_type->basic_type->id, class_var_type->dimension, class_var_type->flag)) {
+        SPVM_COMPILER_error(compiler, "The reference type cannnot used in the definition of the class variable.\n  at %s line %d", class_var->op_class_var->file, class_var->op_class_var->line);
+        return;
+      }
     }
     
     // Class variable
@@ -320,6 +326,12 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
         SPVM_COMPILER_error(compiler, "The multi-numeric type cannnot used in the definition of the field.\n  at %s line %d", field->op_field->file, field->op_field->line);
         return;
       }
+      
+      // A reference type cannnot become field
+      if (SPVM_TYPE_is_ref_type(compiler, field_type->basic_type->id, field_type->dimension, field_type->flag)) {
+        SPVM_COMPILER_error(compiler, "The reference type cannnot used in the definition of the field.\n  at %s line %d", field->op_field->file, field->op_field->line);
+        return;
+      }
     }
     
     {
-- 
2.43.0


From 71e0f870950f24ed31d514d371290887fd1d8784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 58/97] fix: the new operator for a type that is not a class
 type is a compilation error

---
 lib/SPVM/Builder/src/spvm_check.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 4e4260f..fcde488 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -2161,6 +2161,11 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
               SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be a numeric type.\n  at %s line %d", op_new->file, op_new->line);
               return;
             }
+            // Multi-numeric type
+            else if (SPVM_TYPE_is_mulnum_type(compiler, type->basic_type->id, type->dimension, type->flag)) {
+              SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be a multi-numeric type.\n  at %s line %d", op_new->file, op_new->line);
+              return;
+            }
             // Object type
             else if (SPVM_TYPE_is_object_type(compiler, type->basic_type->id, type->dimension, type->flag)) {
               SPVM_BASIC_TYPE* basic_type = SPVM_HASH_get(compiler->basic_type_symtable, type->basic_type->name, strlen(type->basic_type->name));
@@ -2169,8 +2174,8 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
                 SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be an interface type.\n  at %s line %d", op_new->file, op_new->line);
                 return;
               }
-              else if (basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_MULNUM) {
-                SPVM_COMPILER_error(compiler, "The type of the operand of new operator cannnot be a multi-numeric type.\n  at %s line %d", op_new->file, op_new->line);
+              else if (basic_type->category != SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS) {
+                SPVM_COMPILER_error(compiler, "The type of the operand of new operator must be a class type.\n  at %s line %d", op_new->file, op_new->line);
                 return;
               }
 
-- 
2.43.0


From 496fb68b05a768c732d697425b43a3b15098b9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:33 +0000
Subject: [PATCH 59/97] fix: args_width keeps the width of the method's own
 arguments after other method calls

---
 lib/SPVM/Builder/src/spvm_api.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index d6c78b9..308cc03 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -4802,6 +4802,9 @@ int32_t SPVM_API_call_method_common(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTI
   SPVM_RUNTIME* runtime = env->runtime;
   
   int32_t error_id = 0;
+  
+  // The caller's own stack length of the arguments is put back after the method call.
+  int32_t caller_args_width = stack[SPVM_API_C_STACK_INDEX_ARGS_WIDTH].ival;
   stack[SPVM_API_C_STACK_INDEX_ARGS_WIDTH].ival = args_width;
   stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival++;
   
@@ -4900,6 +4903,7 @@ int32_t SPVM_API_call_method_common(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTI
   }
   
   stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival--;
+  stack[SPVM_API_C_STACK_INDEX_ARGS_WIDTH].ival = caller_args_width;
   
   return error_id;
 }
-- 
2.43.0


From a2ac762f6609e42a1a7517e433be6e3b6d2d7408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 60/97] fix: the new array methods of the exchange API free the
 array if an element is invalid

---
 SPVM.xs | 42 ++++++++++++++----------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/SPVM.xs b/SPVM.xs
index c12ba30..1362361 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -287,6 +287,7 @@ SV* SPVM_XS_UTIL_new_byte_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       
       // New array
       void* spvm_array = env->new_byte_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int8_t* elems = env->get_elems_byte(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -299,8 +300,6 @@ SV* SPVM_XS_UTIL_new_byte_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
         }
         elems[i] = (int8_t)SvIV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -346,6 +345,7 @@ SV* SPVM_XS_UTIL_new_byte_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
       
       // New array
       void* spvm_array = env->new_byte_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int8_t* elems = env->get_elems_byte(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -358,8 +358,6 @@ SV* SPVM_XS_UTIL_new_byte_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
         }
         elems[i] = (int8_t)(uint8_t)SvUV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -405,6 +403,7 @@ SV* SPVM_XS_UTIL_new_short_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_short_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int16_t* elems = env->get_elems_short(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -417,8 +416,6 @@ SV* SPVM_XS_UTIL_new_short_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         }
         elems[i] = (int16_t)SvIV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -464,6 +461,7 @@ SV* SPVM_XS_UTIL_new_short_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** s
       
       // New array
       void* spvm_array = env->new_short_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int16_t* elems = env->get_elems_short(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -476,8 +474,6 @@ SV* SPVM_XS_UTIL_new_short_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** s
         }
         elems[i] = (int16_t)(uint16_t)SvUV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -523,6 +519,7 @@ SV* SPVM_XS_UTIL_new_int_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       
       // New array
       void* spvm_array = env->new_int_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int32_t* elems = env->get_elems_int(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -535,8 +532,6 @@ SV* SPVM_XS_UTIL_new_int_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
         }
         elems[i] = (int32_t)SvIV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -583,6 +578,7 @@ SV* SPVM_XS_UTIL_new_int_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv_
       
       // New array
       void* spvm_array = env->new_int_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int32_t* elems = env->get_elems_int(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -595,8 +591,6 @@ SV* SPVM_XS_UTIL_new_int_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv_
         }
         elems[i] = (int32_t)(uint32_t)SvUV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -643,6 +637,7 @@ SV* SPVM_XS_UTIL_new_long_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
       
       // New array
       void* spvm_array = env->new_long_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int64_t* elems = env->get_elems_long(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -655,8 +650,6 @@ SV* SPVM_XS_UTIL_new_long_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error) {
         }
         elems[i] = (int64_t)SvIV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -703,6 +696,7 @@ SV* SPVM_XS_UTIL_new_long_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
       
       // New array
       void* spvm_array = env->new_long_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       int64_t* elems = env->get_elems_long(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -715,8 +709,6 @@ SV* SPVM_XS_UTIL_new_long_array_unsigned(pTHX_ SV* sv_api, SV* sv_array, SV** sv
         }
         elems[i] = (int64_t)(uint64_t)SvUV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -763,6 +755,7 @@ SV* SPVM_XS_UTIL_new_float_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_float_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       float* elems = env->get_elems_float(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -775,8 +768,6 @@ SV* SPVM_XS_UTIL_new_float_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         }
         elems[i] = (float)SvNV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -823,6 +814,7 @@ SV* SPVM_XS_UTIL_new_double_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_double_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       double* elems = env->get_elems_double(env, stack, spvm_array);
       for (int32_t i = 0; i < length; i++) {
@@ -835,8 +827,6 @@ SV* SPVM_XS_UTIL_new_double_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         }
         elems[i] = (double)SvNV(sv_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -883,6 +873,7 @@ SV* SPVM_XS_UTIL_new_string_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
       
       // New array
       void* spvm_array = env->new_string_array_no_mortal(env, stack, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t i = 0; i < length; i++) {
         SV** sv_elem_ptr = av_fetch(av_array, i, 0);
@@ -897,8 +888,6 @@ SV* SPVM_XS_UTIL_new_string_array(pTHX_ SV* sv_api, SV* sv_array, SV** sv_error)
         void* spvm_elem = SPVM_XS_UTIL_get_spvm_object(aTHX_ sv_elem);
         env->set_elem_string(env, stack, spvm_array, i, spvm_elem);
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -944,6 +933,7 @@ SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
       
       // New array
       void* spvm_array = env->new_object_array_no_mortal(env, stack, basic_type, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
@@ -971,8 +961,6 @@ SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
           return &PL_sv_undef;
         }
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -1017,6 +1005,7 @@ SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t ty
       
       // New array
       void* spvm_array = env->new_muldim_array_no_mortal(env, stack, basic_type, type_dimension, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
@@ -1044,8 +1033,6 @@ SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t ty
           return &PL_sv_undef;
         }
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
@@ -1092,6 +1079,7 @@ SV* SPVM_XS_UTIL_new_mulnum_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
       
       // New array
       void* spvm_array = env->new_mulnum_array_no_mortal(env, stack, basic_type, length);
+      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
       
       for (int32_t index = 0; index < length; index++) {
         SV** sv_elem_ptr = av_fetch(av_array, index, 0);
@@ -1165,8 +1153,6 @@ SV* SPVM_XS_UTIL_new_mulnum_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
           return &PL_sv_undef;
         }
       }
-      
-      sv_array = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_array, "SPVM::BlessedObject::Array");
     }
   }
   else {
-- 
2.43.0


From efe57beaa051c08880749c9d539b594822f09fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 61/97] fix: calling a method of an unknown class from Perl is
 an exception

---
 SPVM.xs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SPVM.xs b/SPVM.xs
index 1362361..7817d70 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -1256,6 +1256,10 @@ _xs_call_method(...)
     basic_type_name = SvPV_nolen(sv_invocant);
     void* basic_type = env->api->runtime->get_basic_type_by_name(env->runtime, basic_type_name);
     
+    if (!basic_type) {
+      croak("The \"%s\" basic type is not found\n    %s at %s line %d\n", basic_type_name, __func__, FILE_NAME, __LINE__);
+    }
+    
     method = env->api->basic_type->get_method_by_name(env->runtime, basic_type, method_name);
     
     if (method) {
-- 
2.43.0


From befa0143e30c37c4a2f1fc967fe6ea7d3a056a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 62/97] fix: a static method call from Perl does not modify the
 method name of the caller

---
 SPVM.xs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SPVM.xs b/SPVM.xs
index 7817d70..515d9e7 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -1215,9 +1215,12 @@ _xs_call_method(...)
     void* object = SPVM_XS_UTIL_get_spvm_object(aTHX_ sv_invocant);
     basic_type_name = env->get_object_basic_type_name(env, stack, object);
     
+    // The method name is copied because it is divided at the last "::"
+    method_name = SvPV_nolen(sv_2mortal(newSVpv(method_name, 0)));
+    
     char* found_char = strrchr(method_name, ':');
     if (found_char) {
-      if (!(*(found_char - 1) == ':')) {
+      if (!(found_char > method_name && *(found_char - 1) == ':')) {
         croak("The static method call must be valid\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
       }
       *(found_char - 1) = '\0';
@@ -1235,7 +1238,6 @@ _xs_call_method(...)
       }
       
       method = env->api->basic_type->get_method_by_name(env->runtime, static_call_basic_type, method_name);
-      *(found_char - 1) = ':';
     }
     else {
       method = env->get_instance_method(env, stack, object, method_name);
-- 
2.43.0


From db5a2191bf1affafa6efba24bc0474effddd261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 63/97] fix: the get, set and to_elems methods of
 SPVM::BlessedObject::Array handle the types of elements

---
 SPVM.xs | 74 +++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 28 deletions(-)

diff --git a/SPVM.xs b/SPVM.xs
index 515d9e7..4886ae4 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -157,6 +157,23 @@ SV* SPVM_XS_UTIL_new_sv_blessed_object(pTHX_ SV* sv_api, void* spvm_object, cons
   return sv_blessed_object;
 }
 
+SV* SPVM_XS_UTIL_new_sv_blessed_object_by_type(pTHX_ SV* sv_api, SPVM_ENV* env, SPVM_VALUE* stack, void* spvm_object) {
+  
+  if (!spvm_object) {
+    return &PL_sv_undef;
+  }
+  
+  const char* class = "SPVM::BlessedObject::Class";
+  if (env->get_object_type_dimension(env, stack, spvm_object) > 0) {
+    class = "SPVM::BlessedObject::Array";
+  }
+  else if (strcmp(env->get_object_basic_type_name(env, stack, spvm_object), "string") == 0) {
+    class = "SPVM::BlessedObject::String";
+  }
+  
+  return SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, spvm_object, class);
+}
+
 SV* SPVM_XS_UTIL_new_sv_pointer_object(pTHX_ void* pointer, const char* class) {
   
   size_t iv_pointer = PTR2IV(pointer);
@@ -4044,14 +4061,7 @@ _xs_to_elems(...)
             av_push(av_values, &PL_sv_undef);
           }
           else {
-            int32_t elem_type_is_array_type = elem_type_dimension > 0;
-            SV* sv_value;
-            if (elem_type_is_array_type) {
-              sv_value = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, value, "SPVM::BlessedObject::Array");
-            }
-            else {
-              sv_value = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, value, "SPVM::BlessedObject::Class");
-            }
+            SV* sv_value = SPVM_XS_UTIL_new_sv_blessed_object_by_type(aTHX_ sv_api, env, stack, value);
             av_push(av_values, SvREFCNT_inc(sv_value));
           }
         }
@@ -4319,6 +4329,8 @@ _xs_set(...)
   int32_t basic_type_id = env->api->basic_type->get_id(env->runtime, basic_type);
   int32_t type_dimension = env->get_object_type_dimension(env, stack, spvm_array);
   
+  int32_t elem_is_object = 0;
+  
   if (type_dimension == 1) {
     switch (basic_type_id) {
       case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE: {
@@ -4383,28 +4395,38 @@ _xs_set(...)
         break;
       }
       default: {
-        // Get object
-        void* elem = SPVM_XS_UTIL_get_spvm_object(aTHX_ sv_elem);
-        
-        env->set_elem_object(env, stack, spvm_array, index, elem);
+        elem_is_object = 1;
       }
     }
   }
   else if (type_dimension > 1) {
+    elem_is_object = 1;
+  }
+  else {
+    assert(0);
+  }
+  
+  if (elem_is_object) {
+    if (env->is_mulnum_array(env, stack, spvm_array)) {
+      croak("The array must not be a multi-numeric array\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+    }
     
     // Get object
-    void* elem = SPVM_XS_UTIL_get_spvm_object(aTHX_ sv_elem);
-    
-    int32_t elem_isa = env->elem_isa(env, stack, spvm_array, elem);
-    if (!elem_isa) {
-      croak("$elem must be assigned to the element of the array\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+    void* elem = NULL;
+    if (SvOK(sv_elem)) {
+      if (!(sv_isobject(sv_elem) && sv_derived_from(sv_elem, "SPVM::BlessedObject"))) {
+        croak("$elem must be an SPVM::BlessedObject object or undef\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+      }
+      elem = SPVM_XS_UTIL_get_spvm_object(aTHX_ sv_elem);
+      
+      int32_t elem_isa = env->elem_isa(env, stack, spvm_array, elem);
+      if (!elem_isa) {
+        croak("$elem must be assigned to the element of the array\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+      }
     }
     
     env->set_elem_object(env, stack, spvm_array, index, elem);
   }
-  else {
-    assert(0);
-  }
   
   XSRETURN(0);
 }
@@ -4515,18 +4537,14 @@ _xs_get(...)
   if (elem_is_object) {
     void* runtime = env->runtime;
     
-    // Element type dimension
-    int32_t elem_type_dimension = env->get_object_type_dimension(env, stack, spvm_array) - 1;
+    if (env->is_mulnum_array(env, stack, spvm_array)) {
+      croak("The array must not be a multi-numeric array\n    %s at %s line %d\n", __func__, FILE_NAME, __LINE__);
+    }
     
     // Index
     void* elem = env->get_elem_object(env, stack, spvm_array, index);
     
-    if (elem_type_dimension == 0) {
-      sv_elem = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, elem, "SPVM::BlessedObject::Class");
-    }
-    else if (elem_type_dimension > 0) {
-      sv_elem = SPVM_XS_UTIL_new_sv_blessed_object(aTHX_ sv_api, elem, "SPVM::BlessedObject::Array");
-    }
+    sv_elem = SPVM_XS_UTIL_new_sv_blessed_object_by_type(aTHX_ sv_api, env, stack, elem);
   }
   
   XPUSHs(sv_elem);
-- 
2.43.0


From 9234dd9a7599c097b15bf182d11590f5423f044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 64/97] fix: calling a method from Perl with an object of an
 invalid type does not leak the type name

---
 SPVM.xs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SPVM.xs b/SPVM.xs
index 4886ae4..e69cfad 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -1470,8 +1470,10 @@ _xs_call_method(...)
             
             if (error) {
               const char* arg_basic_type_name = env->api->basic_type->get_name(env->runtime, arg_basic_type);
+              int32_t scope_id = env->enter_scope(env, stack);
               void* spvm_compile_type_name = env->get_compile_type_name(env, stack, arg_basic_type_name, arg_type_dimension, arg_type_flag);
-              const char* compile_type_name = env->get_chars(env, stack, spvm_compile_type_name);
+              const char* compile_type_name = SvPV_nolen(sv_2mortal(newSVpv(env->get_chars(env, stack, spvm_compile_type_name), 0)));
+              env->leave_scope(env, stack, scope_id);
               croak("The %dth argument of the \"%s\" method in the \"%s\" class must be an SPVM::BlessedObject::Class object of a \"%s\" assignable type or undef\n    %s at %s line %d\n", arg_index_nth, method_name, basic_type_name, compile_type_name, __func__, FILE_NAME, __LINE__);
             }
             
-- 
2.43.0


From 4dfc8b057549a041b2d988ea5cd574618344083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 65/97] fix: creating an object array from Perl with an element
 of an invalid type does not leak the type name

---
 SPVM.xs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SPVM.xs b/SPVM.xs
index e69cfad..e1009a1 100644
--- a/SPVM.xs
+++ b/SPVM.xs
@@ -967,9 +967,11 @@ SV* SPVM_XS_UTIL_new_object_array(pTHX_ SV* sv_api, void* basic_type, SV* sv_arr
             env->set_elem_object(env, stack, spvm_array, index, elem);
           }
           else {
+            int32_t scope_id = env->enter_scope(env, stack);
             void* spvm_elem_type_name = env->get_type_name(env, stack, elem);
             const char* elem_type_name = env->get_chars(env, stack, spvm_elem_type_name);
             *sv_error = sv_2mortal(newSVpvf("'s %dth element must be the \"%s\" assignable type", index + 1, elem_type_name));
+            env->leave_scope(env, stack, scope_id);
             return &PL_sv_undef;
           }
         }
@@ -1039,9 +1041,11 @@ SV* SPVM_XS_UTIL_new_muldim_array(pTHX_ SV* sv_api, void* basic_type, int32_t ty
             env->set_elem_object(env, stack, spvm_array, index, elem);
           }
           else {
+            int32_t scope_id = env->enter_scope(env, stack);
             void* spvm_elem_type_name = env->get_type_name(env, stack, elem);
             const char* elem_type_name = env->get_chars(env, stack, spvm_elem_type_name);
             *sv_error = sv_2mortal(newSVpvf("'s %dth element must be the \"%s\" assignable type", index + 1, elem_type_name));
+            env->leave_scope(env, stack, scope_id);
             return &PL_sv_undef;
           }
         }
-- 
2.43.0


From fb1f5758810f1ecb3f72e199a138f5e27227f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:41 +0000
Subject: [PATCH 66/97] fix: a multi-numeric value is assigned through a
 reference

---
 lib/SPVM/Builder/src/spvm_opcode_builder.c | 51 ++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_opcode_builder.c b/lib/SPVM/Builder/src/spvm_opcode_builder.c
index 0e2b12d..ba13527 100644
--- a/lib/SPVM/Builder/src/spvm_opcode_builder.c
+++ b/lib/SPVM/Builder/src/spvm_opcode_builder.c
@@ -4525,6 +4525,57 @@ void SPVM_OPCODE_BUILDER_build_opcodes(SPVM_COMPILER* compiler) {
                     SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
                   }
                 }
+                // $$var_mulnum_ref = $var
+                else if (op_assign_dist->id == SPVM_OP_C_ID_DEREFERENCE && SPVM_TYPE_is_mulnum_type(compiler, SPVM_CHECK_get_type(compiler, op_assign_dist)->basic_type->id, SPVM_CHECK_get_type(compiler, op_assign_dist)->dimension, SPVM_CHECK_get_type(compiler, op_assign_dist)->flag)) {
+                  SPVM_TYPE* type = SPVM_CHECK_get_type(compiler, op_assign_dist);
+                  
+                  // A multi-numeric value is assigned field by field
+                  int32_t typed_var_index_ref = SPVM_OPCODE_BUILDER_get_typed_var_index(compiler, op_assign_dist);
+                  int32_t typed_var_index_in = SPVM_OPCODE_BUILDER_get_typed_var_index(compiler, op_assign_src);
+                  
+                  SPVM_FIELD* first_field = SPVM_LIST_get(type->basic_type->fields, 0);
+                  int32_t field_basic_type_id = first_field->type->basic_type->id;
+                  
+                  for (int32_t field_index = 0; field_index < type->basic_type->fields->length; field_index++) {
+                    SPVM_OPCODE opcode = {0};
+                  
+                    switch (field_basic_type_id) {
+                      case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE: {
+                        SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_BYTE);
+                        break;
+                      }
+                      case SPVM_NATIVE_C_BASIC_TYPE_ID_SHORT: {
+                        SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_SHORT);
+                        break;
+                      }
+                      case SPVM_NATIVE_C_BASIC_TYPE_ID_INT: {
+                        SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_INT);
+                        break;
+                      }
+                      case SPVM_NATIVE_C_BASIC_TYPE_ID_LONG: {
+                        SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_LONG);
+                        break;
+                      }
+                      case SPVM_NATIVE_C_BASIC_TYPE_ID_FLOAT: {
+                        SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_FLOAT);
+                        break;
+                      }
+                      case SPVM_NATIVE_C_BASIC_TYPE_ID_DOUBLE: {
+                        SPVM_OPCODE_BUILDER_set_opcode_id(compiler, &opcode, SPVM_OPCODE_C_ID_SET_MULNUM_FIELD_DEREF_DOUBLE);
+                        break;
+                      }
+                      default: {
+                        assert(0);
+                      }
+                    }
+                  
+                    opcode.operand0 = typed_var_index_ref;
+                    opcode.operand1 = typed_var_index_in + field_index;
+                    opcode.operand2 = field_index;
+                  
+                    SPVM_OPCODE_LIST_push_opcode(compiler, opcode_list, &opcode);
+                  }
+                }
                 // $$var_ref = $var
                 else if (op_assign_dist->id == SPVM_OP_C_ID_DEREFERENCE) {
                   SPVM_OP* op_deref = op_assign_dist;
-- 
2.43.0


From 12069599c14d49ad0c82d066cb2b4397191344f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 67/97] fix: the length of an object of a class type is 0 as
 documented

---
 lib/SPVM/Builder/src/spvm_api.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 308cc03..0d8682a 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3808,11 +3808,9 @@ SPVM_OBJECT* SPVM_API_new_object_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack, SPV
   }
   
   // Alloc body length + 1
-  int32_t fields_length = basic_type->fields_length;
-  
   size_t alloc_size = (size_t)SPVM_API_RUNTIME_get_object_data_offset(env->runtime) + basic_type->fields_size + 1;
   
-  SPVM_OBJECT* object = SPVM_API_new_object_common(env, stack, alloc_size, basic_type, 0, fields_length, 0);
+  SPVM_OBJECT* object = SPVM_API_new_object_common(env, stack, alloc_size, basic_type, 0, 0, 0);
   
   return object;
 }
-- 
2.43.0


From d00c6e8e863eb43fffa1ccfc26c59a2305dc94c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 68/97] fix: the creation of a multi-numeric array fails given
 a negative length or a type that is not multi-numeric

---
 lib/SPVM/Builder/src/spvm_api.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 0d8682a..31f1d82 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -4056,6 +4056,14 @@ SPVM_OBJECT* SPVM_API_new_muldim_array(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RU
 
 SPVM_OBJECT* SPVM_API_new_mulnum_array_no_mortal(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_RUNTIME_BASIC_TYPE* basic_type, int32_t length) {
   
+  if (length < 0) {
+    return NULL;
+  }
+  
+  if (basic_type->category != SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_MULNUM) {
+    return NULL;
+  }
+  
   SPVM_RUNTIME* runtime = env->runtime;
   
   // valut_t array dimension must be 1
-- 
2.43.0


From 16c31070069a1502ca1dbb258fba04feccfec53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 69/97] fix: get_field_string_chars_by_name throws an exception
 given an object or a field of an invalid type

---
 lib/SPVM/Builder/src/spvm_api.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 31f1d82..965ffe6 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -2188,12 +2188,9 @@ const char* SPVM_API_get_field_string_chars_by_name(SPVM_ENV* env, SPVM_VALUE* s
   
   *error_id = 0;
   
-  SPVM_RUNTIME_FIELD* field = SPVM_API_get_field(env, stack, object, field_name);
-  if (!field) {
-    *error_id = SPVM_API_die(env, stack, "The \"%s\" field is not found.", field_name, func_name, file, line);
-    return NULL;
-  };
-  SPVM_OBJECT* value = SPVM_API_get_field_string(env, stack, object, field);
+  SPVM_OBJECT* value = SPVM_API_get_field_string_by_name(env, stack, object, field_name, error_id, func_name, file, line);
+  if (*error_id) { return NULL; }
+  
   if (value == NULL) {
     return NULL;
   }
-- 
2.43.0


From 4b032519c85231ab4711589f4ee32ff6fb1477c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:06 +0000
Subject: [PATCH 70/97] fix: a sequence operator that ends with undef is
 evaluated in a condition

---
 lib/SPVM/Builder/src/spvm_check.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index fcde488..1903f05 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -1635,6 +1635,10 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
               
               is_valid_type = 1;
               
+              while (op_operand->id == SPVM_OP_C_ID_SEQUENCE) {
+                op_operand = op_operand->last;
+              }
+              
               SPVM_OP* op_constant_zero = SPVM_OP_new_op_constant_int(compiler, 0, op_operand->file, op_operand->line);
               SPVM_OP* op_stab = SPVM_OP_cut_op(compiler, op_operand);
               SPVM_OP_replace_op(compiler, op_stab, op_constant_zero);
-- 
2.43.0


From f02ab384ea83fb08d66493e4c222e9c2e0968edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:44 +0000
Subject: [PATCH 71/97] fix: a captured variable of an anon method can be
 initialized with any operator

---
 lib/SPVM/Builder/src/spvm_op.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 1c54da2..02f332f 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -1713,8 +1713,6 @@ SPVM_OP* SPVM_OP_build_anon_method_field(SPVM_COMPILER* compiler, SPVM_OP* op_fi
   }
   else if (op_name_field->id == SPVM_OP_C_ID_VAR) {
     
-    assert(op_default->id == SPVM_OP_C_ID_VAR);
-    
     op_name_field = SPVM_OP_new_op_name(compiler, op_name_field->uv.var->name + 1, op_name_field->file, op_name_field->line);
     
     is_decl_var_in_anon_method = 1;
-- 
2.43.0


From 52cc325848292d16c42824739c02238e22a9b8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:44 +0000
Subject: [PATCH 72/97] fix: an anon method in an anon class compiles

---
 lib/SPVM/Builder/src/spvm_op.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 02f332f..5d57311 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -258,8 +258,10 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
   
   const char* basic_type_name;
   
+  int32_t is_class_generated_by_anon_method = op_type && !!strstr(op_type->uv.type->unresolved_basic_type_name, "::anon_method::");
+  
   // Anon class
-  if (strstr(compiler->current_outmost_class_name, "::anon_class::")) {
+  if (strstr(compiler->current_outmost_class_name, "::anon_class::") && !is_class_generated_by_anon_method) {
     if (op_type) {
       SPVM_COMPILER_error(compiler, "An anon class cannot have its class name.\n  at %s line %d", op_class->file, op_class->line);
       return op_class;
@@ -331,7 +333,7 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
     basic_type->is_anon = 1;
   }
   
-  if (!(basic_type->is_anon || basic_type->is_generated_by_anon_method)) {
+  if (!basic_type->is_generated_by_anon_method) {
     // If class name is different from the class name corresponding to the class file, compile error occur.
     if (strcmp(basic_type_name, compiler->current_outmost_class_name) != 0) {
       SPVM_COMPILER_error(compiler, "The class name \"%s\" must be \"%s\".\n  at %s line %d", basic_type_name, compiler->current_outmost_class_name, op_class->file, op_class->line);
-- 
2.43.0


From b832d4925c10d975832f8977261bbdb309a51d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:44 +0000
Subject: [PATCH 73/97] fix: constant strings of a failed compilation are
 forgotten by their value and length

---
 lib/SPVM/Builder/src/spvm_compiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_compiler.c b/lib/SPVM/Builder/src/spvm_compiler.c
index 5449ad0..44217fa 100644
--- a/lib/SPVM/Builder/src/spvm_compiler.c
+++ b/lib/SPVM/Builder/src/spvm_compiler.c
@@ -280,8 +280,8 @@ int32_t SPVM_COMPILER_compile_common(SPVM_COMPILER* compiler, const char* basic_
     compiler->basic_types->length = compiler_basic_types_base_id;
      
     for (int32_t constant_string_id = compiler_constant_strings_base_id; constant_string_id < compiler->constant_strings->length; constant_string_id++) {
-      SPVM_BASIC_TYPE* constant_string = SPVM_LIST_get(compiler->constant_strings, constant_string_id);
-      SPVM_HASH_set(compiler->constant_string_symtable, constant_string->name, strlen(constant_string->name), NULL);
+      SPVM_STRING* constant_string = SPVM_LIST_get(compiler->constant_strings, constant_string_id);
+      SPVM_HASH_set(compiler->constant_string_symtable, constant_string->value, constant_string->length, NULL);
     }
     compiler->constant_strings->length = compiler_constant_strings_base_id;
     
-- 
2.43.0


From 5cda5376b37861eaf2bab2511dff0ebd3e9beba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:45 +0000
Subject: [PATCH 74/97] fix: error messages do not use the freed operators of
 an earlier compilation

---
 lib/SPVM/Builder/include/spvm_basic_type.h |  1 +
 lib/SPVM/Builder/include/spvm_method.h     |  2 ++
 lib/SPVM/Builder/src/spvm_basic_type.c     |  8 ++++----
 lib/SPVM/Builder/src/spvm_check.c          |  6 +++---
 lib/SPVM/Builder/src/spvm_op.c             |  3 +++
 lib/SPVM/Builder/src/spvm_type.c           | 10 +++++-----
 6 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/lib/SPVM/Builder/include/spvm_basic_type.h b/lib/SPVM/Builder/include/spvm_basic_type.h
index 4bd82cb..2dd8391 100644
--- a/lib/SPVM/Builder/include/spvm_basic_type.h
+++ b/lib/SPVM/Builder/include/spvm_basic_type.h
@@ -18,6 +18,7 @@ struct spvm_basic_type {
   SPVM_OP* op_name;
   SPVM_OP* op_extends;
   const char* file;
+  int32_t line;
   const char* class_dir;
   const char* class_rel_file;
   const char* version_string;
diff --git a/lib/SPVM/Builder/include/spvm_method.h b/lib/SPVM/Builder/include/spvm_method.h
index b86dc85..c5be5e1 100644
--- a/lib/SPVM/Builder/include/spvm_method.h
+++ b/lib/SPVM/Builder/include/spvm_method.h
@@ -12,6 +12,8 @@ struct spvm_method {
   SPVM_OP* op_method;
   SPVM_OP* op_name;
   SPVM_OP* op_block;
+  const char* file;
+  int32_t line;
   SPVM_TYPE* return_type;
   SPVM_LIST* var_decls;
   SPVM_LIST* anon_method_fields;
diff --git a/lib/SPVM/Builder/src/spvm_basic_type.c b/lib/SPVM/Builder/src/spvm_basic_type.c
index 05c40f1..97a3b14 100644
--- a/lib/SPVM/Builder/src/spvm_basic_type.c
+++ b/lib/SPVM/Builder/src/spvm_basic_type.c
@@ -227,7 +227,7 @@ int32_t SPVM_BASIC_TYPE_has_interface(SPVM_COMPILER* compiler, int32_t src_basic
   
   if (!(dist_basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE)) {
     if (error_reason) {
-      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The destination type %s must be an interface type.\n  at %s line %d", dist_basic_type->name, dist_basic_type->op_class->file, dist_basic_type->op_class->line);
+      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The destination type %s must be an interface type.\n  at %s line %d", dist_basic_type->name, dist_basic_type->file, dist_basic_type->line);
     }
     return 0;
   }
@@ -243,14 +243,14 @@ int32_t SPVM_BASIC_TYPE_has_interface_common(SPVM_COMPILER* compiler, int32_t sr
   
   if (!(src_basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS || src_basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE)) {
     if (error_reason) {
-      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The source type %s of the operand must be a class type or an interface type.\n  at %s line %d", src_basic_type->name, src_basic_type->op_class->file, src_basic_type->op_class->line);
+      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The source type %s of the operand must be a class type or an interface type.\n  at %s line %d", src_basic_type->name, src_basic_type->file, src_basic_type->line);
     }
     return 0;
   }
   
   if (!(dist_basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_CLASS || dist_basic_type->category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_INTERFACE)) {
     if (error_reason) {
-      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The destination type %s must be an interface type.\n  at %s line %d", dist_basic_type->name, dist_basic_type->op_class->file, dist_basic_type->op_class->line);
+      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The destination type %s must be an interface type.\n  at %s line %d", dist_basic_type->name, dist_basic_type->file, dist_basic_type->line);
     }
     return 0;
   }
@@ -294,7 +294,7 @@ int32_t SPVM_BASIC_TYPE_has_interface_common(SPVM_COMPILER* compiler, int32_t sr
       
       if (dist_method->is_required && !src_method) {
         if (error_reason) {
-          snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "%s %s must define %s method because its interface method is defined as a required method in %s %s.\n  at %s line %d", src_basic_type->name, src_basic_type_category_name, dist_method->name, dist_basic_type->name, dist_basic_type_category_name, dist_basic_type->op_class->file, dist_basic_type->op_class->line);
+          snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "%s %s must define %s method because its interface method is defined as a required method in %s %s.\n  at %s line %d", src_basic_type->name, src_basic_type_category_name, dist_method->name, dist_basic_type->name, dist_basic_type_category_name, dist_basic_type->file, dist_basic_type->line);
         }
         return 0;
       }
diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 1903f05..82a2b9e 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3289,21 +3289,21 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
             // weaken operator
             if (op_cur->flag & SPVM_OP_C_FLAG_FIELD_ACCESS_WEAKEN) {
               if (!SPVM_TYPE_is_object_type(compiler, field->type->basic_type->id, field->type->dimension, field->type->flag)) {
-                SPVM_COMPILER_error(compiler, "The %s#%s field operated by weaken operator must be an object type.\n  at %s line %d", field->current_basic_type->name, field->op_name->uv.name, op_cur->file, op_cur->line);
+                SPVM_COMPILER_error(compiler, "The %s#%s field operated by weaken operator must be an object type.\n  at %s line %d", field->current_basic_type->name, field->name, op_cur->file, op_cur->line);
                 return;
               }
             }
             // unweaken operator
             else if (op_cur->flag & SPVM_OP_C_FLAG_FIELD_ACCESS_UNWEAKEN) {
               if (!SPVM_TYPE_is_object_type(compiler, field->type->basic_type->id, field->type->dimension, field->type->flag)) {
-                SPVM_COMPILER_error(compiler, "The %s#%s field operated by unweaken operator must be an object type.\n  at %s line %d", field->current_basic_type->name, field->op_name->uv.name, op_cur->file, op_cur->line);
+                SPVM_COMPILER_error(compiler, "The %s#%s field operated by unweaken operator must be an object type.\n  at %s line %d", field->current_basic_type->name, field->name, op_cur->file, op_cur->line);
                 return;
               }
             }
             // isweak operator
             else if (op_cur->flag & SPVM_OP_C_FLAG_FIELD_ACCESS_ISWEAK) {
               if (!SPVM_TYPE_is_object_type(compiler, field->type->basic_type->id, field->type->dimension, field->type->flag)) {
-                SPVM_COMPILER_error(compiler, "The %s#%s field operated by isweak operator must be an object type.\n  at %s line %d", field->current_basic_type->name, field->op_name->uv.name, op_cur->file, op_cur->line);
+                SPVM_COMPILER_error(compiler, "The %s#%s field operated by isweak operator must be an object type.\n  at %s line %d", field->current_basic_type->name, field->name, op_cur->file, op_cur->line);
                 return;
               }
             }
diff --git a/lib/SPVM/Builder/src/spvm_op.c b/lib/SPVM/Builder/src/spvm_op.c
index 5d57311..8c61f93 100644
--- a/lib/SPVM/Builder/src/spvm_op.c
+++ b/lib/SPVM/Builder/src/spvm_op.c
@@ -301,6 +301,7 @@ SPVM_OP* SPVM_OP_build_class(SPVM_COMPILER* compiler, SPVM_OP* op_class, SPVM_OP
   type->basic_type->class_dir = compiler->current_class_dir;
   type->basic_type->class_rel_file = compiler->current_class_rel_file;
   type->basic_type->file = compiler->current_file;
+  type->basic_type->line = op_class->line;
   
   if (op_extends) {
     SPVM_OP* op_type_parent_basic_type = op_extends->first;
@@ -1582,6 +1583,8 @@ SPVM_OP* SPVM_OP_build_method(SPVM_COMPILER* compiler, SPVM_OP* op_method, SPVM_
   method->op_block = op_block;
   
   method->op_method = op_method;
+  method->file = op_method->file;
+  method->line = op_method->line;
   
   op_method->uv.method = method;
   
diff --git a/lib/SPVM/Builder/src/spvm_type.c b/lib/SPVM/Builder/src/spvm_type.c
index 4aa20f0..e9dc2ca 100644
--- a/lib/SPVM/Builder/src/spvm_type.c
+++ b/lib/SPVM/Builder/src/spvm_type.c
@@ -1863,14 +1863,14 @@ int32_t SPVM_TYPE_satisfy_interface_method_requirement(SPVM_COMPILER* compiler,
   
   if (src_method->is_class_method) {
     if (error_reason) {
-      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "%s#%s method must be an instance method because its interface method is defined in %s %s.\n  at %s line %d", src_basic_type->name, src_method->name, dist_basic_type->name, dist_basic_type_category_name, src_method->op_method->file, src_method->op_method->line);
+      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "%s#%s method must be an instance method because its interface method is defined in %s %s.\n  at %s line %d", src_basic_type->name, src_method->name, dist_basic_type->name, dist_basic_type_category_name, src_method->file, src_method->line);
     }
     return 0;
   }
   
   if (dist_method->is_class_method) {
     if (error_reason) {
-      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "%s#%s method must be an instance method.\n  at %s line %d", dist_basic_type->name, dist_method->name, dist_method->op_method->file, dist_method->op_method->line);
+      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "%s#%s method must be an instance method.\n  at %s line %d", dist_basic_type->name, dist_method->name, dist_method->file, dist_method->line);
     }
     return 0;
   }
@@ -1878,7 +1878,7 @@ int32_t SPVM_TYPE_satisfy_interface_method_requirement(SPVM_COMPILER* compiler,
   if (!(dist_method->args_length >= src_method->required_args_length)) {
     
     if (error_reason) {
-      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The length of the arguments of %s#%s method must be greater than or equal to the length of the required arguments of %s#%s method.\n  at %s line %d", dist_basic_type->name, dist_method->name, src_basic_type->name, src_method->name, dist_method->op_method->file, dist_method->op_method->line);
+      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The length of the arguments of %s#%s method must be greater than or equal to the length of the required arguments of %s#%s method.\n  at %s line %d", dist_basic_type->name, dist_method->name, src_basic_type->name, src_method->name, dist_method->file, dist_method->line);
     }
     return 0;
   }
@@ -1906,7 +1906,7 @@ int32_t SPVM_TYPE_satisfy_interface_method_requirement(SPVM_COMPILER* compiler,
         const char* src_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, src_method_var_decl_type->basic_type->id, src_method_var_decl_type->dimension, src_method_var_decl_type->flag);
         const char* dist_method_var_decl_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_var_decl_type->basic_type->id, dist_method_var_decl_type->dimension, dist_method_var_decl_type->flag);
         
-        snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The %dth argument(%s type) of %s#%s method must be able to be assigned to the %dth argument(%s type) of %s#%s method.\n  at %s line %d", arg_index, src_method_var_decl_type_name, src_basic_type->name, src_method->name, arg_index, dist_method_var_decl_type_name, dist_basic_type->name, dist_method->name, src_method->op_method->file, src_method->op_method->line);
+        snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The %dth argument(%s type) of %s#%s method must be able to be assigned to the %dth argument(%s type) of %s#%s method.\n  at %s line %d", arg_index, src_method_var_decl_type_name, src_basic_type->name, src_method->name, arg_index, dist_method_var_decl_type_name, dist_basic_type->name, dist_method->name, src_method->file, src_method->line);
       }
       
       return 0;
@@ -1928,7 +1928,7 @@ int32_t SPVM_TYPE_satisfy_interface_method_requirement(SPVM_COMPILER* compiler,
       const char* src_method_return_type_name = SPVM_TYPE_new_type_name(compiler, src_method_return_type->basic_type->id, src_method_return_type->dimension, src_method_return_type->flag);
       const char* dist_method_return_type_name = SPVM_TYPE_new_type_name(compiler, dist_method_return_type->basic_type->id, dist_method_return_type->dimension, dist_method_return_type->flag);
       
-      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The return type(%s type) of %s#%s method must be able to be assigned to the return type(%s type) of %s#%s method.\n  at %s line %d", src_method_return_type_name, src_basic_type->name, src_method->name, dist_method_return_type_name, dist_basic_type->name, dist_method->name, src_method->op_method->file, src_method->op_method->line);
+      snprintf(error_reason, SPVM_COMPILER_C_ERROR_REASON_SIZE, "The return type(%s type) of %s#%s method must be able to be assigned to the return type(%s type) of %s#%s method.\n  at %s line %d", src_method_return_type_name, src_basic_type->name, src_method->name, dist_method_return_type_name, dist_basic_type->name, dist_method->name, src_method->file, src_method->line);
     }
     
     return 0;
-- 
2.43.0


From 1b54423b58470b3f6d14e12ba73e4d776884fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:45 +0000
Subject: [PATCH 75/97] fix: file names of a class live as long as the class

---
 lib/SPVM/Builder/src/spvm_toke.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_toke.c b/lib/SPVM/Builder/src/spvm_toke.c
index 2873634..5ba0e2e 100644
--- a/lib/SPVM/Builder/src/spvm_toke.c
+++ b/lib/SPVM/Builder/src/spvm_toke.c
@@ -2834,23 +2834,24 @@ int32_t SPVM_TOKE_load_class_file(SPVM_COMPILER* compiler) {
           
           compiler->current_class_content_length = class_file->content_length;
           
-          compiler->current_class_dir = class_file->dir;
+          // The class file can be changed or deleted after this compilation
+          compiler->current_class_dir = class_file->dir ? SPVM_STRING_new_global(compiler, class_file->dir, strlen(class_file->dir))->value : NULL;
           
           if (!class_file->rel_file) {
             SPVM_COMPILER_error(compiler, "The relative file path of the class file in the \"%s\" must be defined.\n  at %s line %d", basic_type_name, op_use->file, op_use->line);
             return 0;
           }
           
-          compiler->current_class_rel_file = class_file->rel_file;
+          compiler->current_class_rel_file = SPVM_STRING_new_global(compiler, class_file->rel_file, strlen(class_file->rel_file))->value;
           
-          compiler->current_outmost_class_name = class_file->class_name;
+          compiler->current_outmost_class_name = SPVM_STRING_new_global(compiler, class_file->class_name, strlen(class_file->class_name))->value;
           
           // If we get current class file path, set it. Otherwise, set module relative file path
           if (class_file->file) {
-            compiler->current_file = class_file->file;
+            compiler->current_file = SPVM_STRING_new_global(compiler, class_file->file, strlen(class_file->file))->value;
           }
           else {
-            compiler->current_file = class_file->rel_file;
+            compiler->current_file = compiler->current_class_rel_file;
           }
           
           int32_t content_length = class_file->content_length;
-- 
2.43.0


From 45488ed28181f2039956cc55f5b5777d7a6198fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:45 +0000
Subject: [PATCH 76/97] fix: the fields following a redefined field of the
 parent class are kept

---
 lib/SPVM/Builder/src/spvm_check.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 82a2b9e..9f2b206 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -371,7 +371,7 @@ void SPVM_CHECK_check_fields(SPVM_COMPILER* compiler) {
               compile_error = 1;
             }
             
-            break;
+            continue;
           }
           
           SPVM_FIELD* new_field;
-- 
2.43.0


From 1afbc58ee477262a071c749af9061f165a35111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:45 +0000
Subject: [PATCH 77/97] fix: dump of an array that contains itself ends

---
 lib/SPVM/Builder/src/spvm_api.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_api.c b/lib/SPVM/Builder/src/spvm_api.c
index 965ffe6..29159a7 100644
--- a/lib/SPVM/Builder/src/spvm_api.c
+++ b/lib/SPVM/Builder/src/spvm_api.c
@@ -3405,8 +3405,16 @@ void SPVM_API_dump_recursive(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* obje
       
       SPVM_STRING_BUFFER_add(string_buffer, "\"");
     }
+    else if (type_dimension > 0 && SPVM_HASH_get(address_symtable, (const char*)&object, sizeof(object))) {
+      // The array contains itself
+      snprintf(tmp_buffer, SPVM_NATIVE_C_STACK_TMP_BUFFER_SIZE, "REUSE_OBJECT(%p)", object);
+      SPVM_STRING_BUFFER_add(string_buffer, tmp_buffer);
+    }
     else if (type_dimension > 0) {
       int32_t array_length = SPVM_API_length(env, stack, object);
+      
+      // This array is being dumped
+      SPVM_HASH_set(address_symtable, (const char*)&object, sizeof(object), (void*)(intptr_t)1);
       int32_t element_type_dimension = type_dimension - 1;
       
       SPVM_STRING_BUFFER_add(string_buffer, "[\n");
@@ -3550,6 +3558,8 @@ void SPVM_API_dump_recursive(SPVM_ENV* env, SPVM_VALUE* stack, SPVM_OBJECT* obje
       for (int32_t depth_index = 0; depth_index < *depth; depth_index++) {
         SPVM_STRING_BUFFER_add(string_buffer, "  ");
       }
+      SPVM_HASH_set(address_symtable, (const char*)&object, sizeof(object), NULL);
+      
       SPVM_STRING_BUFFER_add(string_buffer, "]");
       
       SPVM_STRING_BUFFER_add(string_buffer, " : ");
-- 
2.43.0


From ded42b56e15ad3321eb1cc873aa1c8990e7d1043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:51 +0000
Subject: [PATCH 78/97] fix: the source of a precompiled class is written again
 when it changes

---
 lib/SPVM/Builder/CC.pm | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index 854b0b3..3054b38 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -152,9 +152,12 @@ sub build_precompile_class_source_file {
   my $source_rel_file = SPVM::Builder::Util::convert_class_name_to_rel_file($class_name, 'precompile.c');
   my $source_file = "$cc_input_dir/$source_rel_file";
   
+  # The source also depends on the classes that the class uses
+  my $is_changed = -f $source_file && SPVM::Builder::Util::slurp_binary($source_file) ne $precompile_source;
+  
   # Check if generating is needed
   my $need_generate = SPVM::Builder::Util::need_generate({
-    force => $force,
+    force => $force || $is_changed,
     output_file => $source_file,
     input_files => [$class_file],
   });
-- 
2.43.0


From aa3aeb44d93d8c673fe30fe4a536b3bc042a8a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:51 +0000
Subject: [PATCH 79/97] fix: objects are compiled again when a config file they
 were made from changes

---
 lib/SPVM/Builder/CC.pm | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index 3054b38..d8bb3c8 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -561,6 +561,18 @@ sub compile_class {
         push @$input_files, $config->file;
       };
       
+      # Config files loaded by the config file
+      push @$input_files, @{$config->get_loaded_config_files};
+      
+      # Config files that determine the mode and the arguments of the resource
+      if ($config->used_as_resource) {
+        my $resource_loader_config = $config->resource_loader_config;
+        if (defined $resource_loader_config->file) {
+          push @$input_files, $resource_loader_config->file;
+        }
+        push @$input_files, @{$resource_loader_config->get_loaded_config_files};
+      }
+      
       $need_generate = SPVM::Builder::Util::need_generate({
         force => $force,
         output_file => $object_file_name,
-- 
2.43.0


From 7ef8a492a847979ec4f489f6f9902f24234fc832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:51 +0000
Subject: [PATCH 80/97] fix: resources are compiled with the quiet and force
 options

---
 lib/SPVM/Builder/CC.pm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index d8bb3c8..3d9f323 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -401,6 +401,8 @@ sub compile_class {
       # Build native classes
       my $builder_cc_resource = SPVM::Builder::CC->new(
         build_dir => $self->build_dir,
+        quiet => $self->quiet,
+        force => $self->force,
       );
       
       my $resource_class_name;
-- 
2.43.0


From a453bccd9eb33c0268e0ebc2b330308493308817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:51 +0000
Subject: [PATCH 81/97] fix: add_lib_abs and add_static_lib_abs work when the
 library is found

---
 lib/SPVM/Builder/CC.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/CC.pm b/lib/SPVM/Builder/CC.pm
index 3d9f323..40689a8 100644
--- a/lib/SPVM/Builder/CC.pm
+++ b/lib/SPVM/Builder/CC.pm
@@ -857,7 +857,7 @@ sub create_link_info {
       }
       
       if (defined $found_lib_file) {
-        $lib_info->file = $found_lib_file;
+        $lib_info->file($found_lib_file);
       }
     }
     
-- 
2.43.0


From 9e3c01e33c9b8494aeff873e978a00ad3060da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:51 +0000
Subject: [PATCH 82/97] fix: a resource used again keeps its place

---
 lib/SPVM/Builder/Config.pm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Builder/Config.pm b/lib/SPVM/Builder/Config.pm
index 3a353ed..b8a852d 100644
--- a/lib/SPVM/Builder/Config.pm
+++ b/lib/SPVM/Builder/Config.pm
@@ -961,7 +961,8 @@ sub use_resource {
   
   $resource->config($config);
   
-  my $index = keys %{$self->{resources}};
+  my $used_resource = $self->{resources}->{$resource_class_name};
+  my $index = $used_resource ? $used_resource->{index} : keys %{$self->{resources}};
   
   $self->{resources}->{$resource_class_name} = {resource => $resource, index => $index};
   
-- 
2.43.0


From 66c680dfe3bcee80b2ada471ddcfb3649f1343de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:51 +0000
Subject: [PATCH 83/97] fix: spvmdist --quiet prints nothing

---
 lib/SPVM/Dist.pm | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Dist.pm b/lib/SPVM/Dist.pm
index 0600e45..f8fea16 100644
--- a/lib/SPVM/Dist.pm
+++ b/lib/SPVM/Dist.pm
@@ -24,6 +24,17 @@ sub force {
   }
 }
 
+sub quiet {
+  my $self = shift;
+  if (@_) {
+    $self->{quiet} = $_[0];
+    return $self;
+  }
+  else {
+    return $self->{quiet};
+  }
+}
+
 sub class_name {
   my $self = shift;
   if (@_) {
@@ -226,11 +237,11 @@ sub generate_file {
   
   my $force = $self->force;
   if ($force || !-f $file) {
-    print "  [write]$file\n";
+    print "  [write]$file\n" unless $self->quiet;
     SPVM::Builder::Util::spurt_binary($file, $content);
   }
   else {
-    print "  [exists]$file\n";
+    print "  [exists]$file\n" unless $self->quiet;
   }
 }
 
@@ -239,7 +250,7 @@ sub generate_dir {
   
   my @created = mkpath $rel_dir;
   if (@created) {
-    print "  [mkdir]$rel_dir\n";
+    print "  [mkdir]$rel_dir\n" unless $self->quiet;
   }
 }
 
-- 
2.43.0


From e2e22d72a04d72cb0cccb6adcf34b4003f1281a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:51 +0000
Subject: [PATCH 84/97] fix: a user name with a quote makes a valid Makefile.PL

---
 lib/SPVM/Dist.pm | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Dist.pm b/lib/SPVM/Dist.pm
index f8fea16..124300c 100644
--- a/lib/SPVM/Dist.pm
+++ b/lib/SPVM/Dist.pm
@@ -828,6 +828,10 @@ sub generate_makefile_pl_file {
     $user_email = '[--user-email]'
   }
   
+  # Author in a single-quoted string
+  my $author = "$user_name<$user_email>";
+  $author =~ s/([\\'])/\\$1/g;
+  
   # "Makefile.PL" content
   my $makefile_pl_content = <<"EOS";
 use 5.008_007;
@@ -857,7 +861,7 @@ WriteMakefile(
   LICENSE => 'mit',
   (\$] >= 5.005 ?
     (ABSTRACT_FROM => '$perl_class_rel_file',
-     AUTHOR => '$user_name<$user_email>') : ()),
+     AUTHOR => '$author') : ()),
   test => {TESTS => 't/*.t t/*/*.t t/*/*/*.t'},
   clean => {FILES => ['.spvm_build', 't/.spvm_build']},
   META_MERGE => {
-- 
2.43.0


From cddb674d53569911ac7686a6588838051f262865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:57 +0000
Subject: [PATCH 85/97] fix: a long class or method name does not overflow the
 place of argument checks

---
 lib/SPVM/Builder/src/spvm_check.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 9f2b206..2a4c49f 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -3150,12 +3150,15 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
                 
                 // Check if source can be assigned to dist
                 // If needed, numeric conversion op is added
-                char place[255];
                 int32_t call_method_args_length_for_user = call_method_args_length;
                 if (!call_method->method->is_class_method) {
                   call_method_args_length_for_user--;
                 }
-                sprintf(place, "the %dth argument of %s#%s method", call_method_args_length_for_user, op_cur->uv.call_method->method->current_basic_type->name, method_name);
+                const char* place_format = "the %dth argument of %s#%s method";
+                const char* call_method_basic_type_name = op_cur->uv.call_method->method->current_basic_type->name;
+                int32_t place_length = snprintf(NULL, 0, place_format, call_method_args_length_for_user, call_method_basic_type_name, method_name);
+                char* place = SPVM_ALLOCATOR_alloc_memory_block_permanent(compiler->current_each_compile_allocator, place_length + 1);
+                snprintf(place, place_length + 1, place_format, call_method_args_length_for_user, call_method_basic_type_name, method_name);
                 
                 // Invocant is not checked.
                 op_operand = SPVM_CHECK_check_assign(compiler, arg_var_decl_type, op_operand, place, op_cur->file, op_cur->line);
-- 
2.43.0


From 8e21da055b796ec017312606d7a570f3513e770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:57 +0000
Subject: [PATCH 86/97] fix: an array of more than 255 dimensions is a compile
 error

---
 lib/SPVM/Builder/src/spvm_check.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/SPVM/Builder/src/spvm_check.c b/lib/SPVM/Builder/src/spvm_check.c
index 2a4c49f..b2e3af0 100644
--- a/lib/SPVM/Builder/src/spvm_check.c
+++ b/lib/SPVM/Builder/src/spvm_check.c
@@ -957,6 +957,9 @@ void SPVM_CHECK_check_op_type(SPVM_COMPILER* compiler, SPVM_OP* op_type) {
     SPVM_COMPILER_error(compiler, "The multi dimensional array of any object is not allowed.\n  at %s line %d", op_type->file, op_type->line);
   }
   
+  if (!(type->dimension <= UINT8_MAX)) {
+    SPVM_COMPILER_error(compiler, "The dimension of the type must be less than or equal to %d.\n  at %s line %d", UINT8_MAX, op_type->file, op_type->line);
+  }
 
 }
 
@@ -2157,6 +2160,10 @@ void SPVM_CHECK_check_ast_syntax(SPVM_COMPILER* compiler, SPVM_BASIC_TYPE* basic
                 SPVM_COMPILER_error(compiler, "The creation of a multi dimensional array of any object is not allowed.\n  at %s line %d", op_new->file, op_new->line);
                 return;
               }
+              else if (!(type->dimension <= UINT8_MAX)) {
+                SPVM_COMPILER_error(compiler, "The dimension of the array created by new operator must be less than or equal to %d.\n  at %s line %d", UINT8_MAX, op_new->file, op_new->line);
+                return;
+              }
               
               SPVM_CHECK_perform_integer_promotional_conversion(compiler, op_length);
             }
-- 
2.43.0


From adc91917cd73e1ac8a970efbc04c3bbb4c1b255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:57 +0000
Subject: [PATCH 87/97] fix: a dot in the directory of a script does not cut
 the path of its config file

---
 lib/SPVM/Builder/Exe.pm | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Builder/Exe.pm b/lib/SPVM/Builder/Exe.pm
index ad76522..f8178da 100644
--- a/lib/SPVM/Builder/Exe.pm
+++ b/lib/SPVM/Builder/Exe.pm
@@ -204,7 +204,7 @@ sub new {
   
   # Config
   my $config_file = $script_name;
-  $config_file =~ s/\..*$//;
+  $config_file =~ s/\.[^\/\\]*$//;
   $config_file .= '.config';
   
   my $config;
@@ -1015,7 +1015,7 @@ sub compile_native_class {
   my $config_file;
   if ($class_name eq $self->class_name) {
     $config_file = $script_name;
-    $config_file =~ s/\..*$//;
+    $config_file =~ s/\.[^\/\\]*$//;
     $config_file .= '.config';
   }
   else {
-- 
2.43.0


From f4905bdf0b3f2d34253a814fa52133697816deba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:57 +0000
Subject: [PATCH 88/97] fix: Native::MethodCall checks the dimension of an
 array argument

---
 lib/SPVM/Native/MethodCall.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index 63a968e..c24ee3d 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -249,7 +249,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         int32_t can_assign = env->api->type->can_assign(
           runtime,
           method_arg_basic_type, method_arg_type_dimension, method_arg_type_flag,
-          arg_basic_type, method_arg_type_dimension, 0
+          arg_basic_type, arg_type_dimension, 0
         );
         
         if (!can_assign) {
-- 
2.43.0


From c9cd9144bb725b5f9980ae7a190182886eabcda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:57 +0000
Subject: [PATCH 89/97] fix: Native::MethodCall does not pass a read-only
 string to a mutable string argument

---
 lib/SPVM/Native/MethodCall.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index c24ee3d..7e1c9d5 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -256,6 +256,14 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
           return env->die(env, stack, "%s#%s method failed to execute. The %dth argument cannot be assigned.", class_name, method_name, arg_index + 1, __func__, FILE_NAME, __LINE__);
         }
         
+        // A read-only string cannot be assigned to the mutable string type
+        int32_t method_arg_type_is_mutable_string = method_arg_basic_type_id == SPVM_NATIVE_C_BASIC_TYPE_ID_STRING
+          && method_arg_type_dimension == 0 && (method_arg_type_flag & SPVM_NATIVE_C_TYPE_FLAG_MUTABLE);
+        
+        if (method_arg_type_is_mutable_string && env->is_read_only(env, stack, obj_arg)) {
+          return env->die(env, stack, "%s#%s method failed to execute. The %dth argument cannot be assigned because the type of the %dth argument is the mutable string type and the string is read-only.", class_name, method_name, arg_index + 1, arg_index + 1, __func__, FILE_NAME, __LINE__);
+        }
+        
         int32_t is_binary_compatible_object = self_env->is_binary_compatible_object(self_env, self_stack, obj_arg);
         
         if (!is_binary_compatible_object) {
-- 
2.43.0


From a68ffb4f0bf4c00716abfe209a1b7512542355ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:57 +0000
Subject: [PATCH 90/97] fix: Native::MethodCall returns undef of a method with
 an object return type

---
 lib/SPVM/Native/MethodCall.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index 7e1c9d5..20171ca 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -659,10 +659,12 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t method_return_is_object_type = env->api->type->is_object_type(runtime, method_return_basic_type, method_return_type_dimension, method_return_type_flag);
   
   if (method_return_is_object_type) {
-    int32_t is_binary_compatible_object = env->is_binary_compatible_object(env, stack, self_stack[0].oval);
-    
-    if (!is_binary_compatible_object) {
-      return env->die(env, stack, "The return object is not binary compatible.", __func__, FILE_NAME, __LINE__);
+    if (self_stack[0].oval) {
+      int32_t is_binary_compatible_object = env->is_binary_compatible_object(env, stack, self_stack[0].oval);
+      
+      if (!is_binary_compatible_object) {
+        return env->die(env, stack, "The return object is not binary compatible.", __func__, FILE_NAME, __LINE__);
+      }
     }
   }
   else {
-- 
2.43.0


From b1d634a5deeea7dca5fe88c0ea23ed871652c571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 91/97] fix: Native::MethodCall returns the value of a method
 called in another runtime environment

---
 lib/SPVM/Native/MethodCall.c | 63 ++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/lib/SPVM/Native/MethodCall.c b/lib/SPVM/Native/MethodCall.c
index 20171ca..293a7a2 100644
--- a/lib/SPVM/Native/MethodCall.c
+++ b/lib/SPVM/Native/MethodCall.c
@@ -194,7 +194,11 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
   void* obj_method = env->get_field_object_by_name(env, stack, obj_self, "method", &error_id, __func__, FILE_NAME, __LINE__);
   if (error_id) { return error_id; }
   
-  void* runtime = env->runtime;
+  void* obj_self_env = env->get_field_object_by_name(env, stack, obj_self, "env", &error_id, __func__, FILE_NAME, __LINE__);
+  if (error_id) { return error_id; }
+  SPVM_ENV* self_env = env->get_pointer(env, stack, obj_self_env);
+  
+  void* runtime = self_env->runtime;
   
   void* method = env->get_pointer(env, stack, obj_method);
   
@@ -216,10 +220,6 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
     return env->die(env, stack, "%s#%s method failed to execute. Too many arguments.", class_name, method_name, __func__, FILE_NAME, __LINE__);
   }
   
-  void* obj_self_env = env->get_field_object_by_name(env, stack, obj_self, "env", &error_id, __func__, FILE_NAME, __LINE__);
-  if (error_id) { return error_id; }
-  SPVM_ENV* self_env = env->get_pointer(env, stack, obj_self_env);
-  
   void* obj_self_stack = env->get_field_object_by_name(env, stack, obj_self, "stack", &error_id, __func__, FILE_NAME, __LINE__);
   if (error_id) { return error_id; }
   SPVM_VALUE* self_stack = env->get_pointer(env, stack, obj_self_stack);
@@ -241,6 +241,12 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
     if (method_arg_is_object_type) {
       
       if (obj_arg) {
+        int32_t is_binary_compatible_object = self_env->is_binary_compatible_object(self_env, self_stack, obj_arg);
+        
+        if (!is_binary_compatible_object) {
+          return env->die(env, stack, "%s#%s method failed to execute. The object of the %dth argument is not binary compatible.", class_name, method_name, arg_index + 1, __func__, FILE_NAME, __LINE__);
+        }
+        
         void* arg_basic_type = env->get_object_basic_type(env, stack, obj_arg);
         const char* arg_basic_type_name = env->api->basic_type->get_name(runtime, arg_basic_type);
         
@@ -263,12 +269,6 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         if (method_arg_type_is_mutable_string && env->is_read_only(env, stack, obj_arg)) {
           return env->die(env, stack, "%s#%s method failed to execute. The %dth argument cannot be assigned because the type of the %dth argument is the mutable string type and the string is read-only.", class_name, method_name, arg_index + 1, arg_index + 1, __func__, FILE_NAME, __LINE__);
         }
-        
-        int32_t is_binary_compatible_object = self_env->is_binary_compatible_object(self_env, self_stack, obj_arg);
-        
-        if (!is_binary_compatible_object) {
-          return env->die(env, stack, "%s#%s method failed to execute. The object of the %dth argument is not binary compatible.", class_name, method_name, arg_index + 1, __func__, FILE_NAME, __LINE__);
-        }
       }
       
       self_stack[stack_index].oval = obj_arg;
@@ -638,6 +638,8 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
   int32_t error_id_exception_thrown = env->get_basic_type_id_by_name(env, stack, "Native::MethodCall::Error::ExceptionThrown", &error_id, __func__, FILE_NAME, __LINE__);
   if (error_id) { return error_id; }
   
+  int32_t self_mortal_stack_top = self_env->enter_scope(self_env, self_stack);
+  
   int32_t self_error_id = self_env->call_method(self_env, self_stack, method, stack_length);
   if (obj_error_id_ref) {
     int32_t* error_id_ref = env->get_elems_int(env, stack, obj_error_id_ref);
@@ -646,6 +648,11 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
   
   if (self_error_id) {
     env->set_exception(env, stack, env->get_exception(env, self_stack));
+    
+    if (self_stack != stack) {
+      self_env->leave_scope(self_env, self_stack, self_mortal_stack_top);
+    }
+    
     return error_id_exception_thrown;
   }
   
@@ -658,6 +665,16 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
   
   int32_t method_return_is_object_type = env->api->type->is_object_type(runtime, method_return_basic_type, method_return_type_dimension, method_return_type_flag);
   
+  // The temporary objects on another runtime stack are released here, the return value is handed over to the current one
+  if (self_stack != stack) {
+    if (method_return_is_object_type && self_stack[0].oval) {
+      error_id = env->push_mortal(env, stack, self_stack[0].oval);
+      if (error_id) { return error_id; }
+    }
+    
+    self_env->leave_scope(self_env, self_stack, self_mortal_stack_top);
+  }
+  
   if (method_return_is_object_type) {
     if (self_stack[0].oval) {
       int32_t is_binary_compatible_object = env->is_binary_compatible_object(env, stack, self_stack[0].oval);
@@ -666,6 +683,8 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         return env->die(env, stack, "The return object is not binary compatible.", __func__, FILE_NAME, __LINE__);
       }
     }
+    
+    stack[0].oval = self_stack[0].oval;
   }
   else {
     int32_t method_return_type_is_ref = method_return_type_flag & SPVM_NATIVE_C_TYPE_FLAG_REF;
@@ -676,7 +695,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
       switch (method_return_basic_type_id) {
         case SPVM_NATIVE_C_BASIC_TYPE_ID_BYTE : {
           
-          self_stack[0].ival = self_stack[0].bval;
+          stack[0].ival = self_stack[0].bval;
           env->call_class_method_by_name(env, stack, "Byte", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -684,7 +703,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_SHORT : {
           
-          self_stack[0].ival = self_stack[0].sval;
+          stack[0].ival = self_stack[0].sval;
           env->call_class_method_by_name(env, stack, "Short", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -692,6 +711,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_INT : {
           
+          stack[0].ival = self_stack[0].ival;
           env->call_class_method_by_name(env, stack, "Int", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -699,6 +719,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_LONG : {
           
+          stack[0].lval = self_stack[0].lval;
           env->call_class_method_by_name(env, stack, "Long", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -706,6 +727,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_FLOAT : {
           
+          stack[0].fval = self_stack[0].fval;
           env->call_class_method_by_name(env, stack, "Float", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -713,6 +735,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
         }
         case SPVM_NATIVE_C_BASIC_TYPE_ID_DOUBLE : {
           
+          stack[0].dval = self_stack[0].dval;
           env->call_class_method_by_name(env, stack, "Double", "new", 1, &error_id, __func__, FILE_NAME, __LINE__);
           if (error_id) { return error_id; }
           
@@ -741,7 +764,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].bval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -755,7 +778,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].sval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -769,7 +792,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].ival;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -783,7 +806,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].lval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -797,7 +820,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].fval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -811,7 +834,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
             return_value_ref[i] = self_stack[i].dval;
           }
           
-          self_stack[0].oval = obj_return_value;
+          stack[0].oval = obj_return_value;
           
           break;
         }
@@ -821,7 +844,7 @@ int32_t SPVM__Native__MethodCall__call(SPVM_ENV* env, SPVM_VALUE* stack) {
       }
     }
     else if (method_return_basic_type_category == SPVM_NATIVE_C_BASIC_TYPE_CATEGORY_VOID) {
-      self_stack[0].oval = NULL;
+      stack[0].oval = NULL;
     }
     else {
       assert(0);
-- 
2.43.0


From f32249825d25eab2cb7a5cd623b2d23594836fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 92/97] fix: a compilation error message is not used as a
 format

---
 lib/SPVM/Native.c          | 2 +-
 lib/SPVM/Native/Compiler.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/SPVM/Native.c b/lib/SPVM/Native.c
index 8f64da3..dbda894 100644
--- a/lib/SPVM/Native.c
+++ b/lib/SPVM/Native.c
@@ -87,7 +87,7 @@ int32_t SPVM__Native__check_bootstrap_method(SPVM_ENV* env, SPVM_VALUE* stack) {
   
   error_id = env->check_bootstrap_method(env, stack, basic_type_name);
   if (error_id) {
-    return env->die(env, stack, env->get_chars(env, stack, env->get_exception(env, stack)), __func__, FILE_NAME, __LINE__);
+    return env->die(env, stack, "%s", env->get_chars(env, stack, env->get_exception(env, stack)), __func__, FILE_NAME, __LINE__);
   }
   
   return 0;
diff --git a/lib/SPVM/Native/Compiler.c b/lib/SPVM/Native/Compiler.c
index 33d8208..eebf104 100644
--- a/lib/SPVM/Native/Compiler.c
+++ b/lib/SPVM/Native/Compiler.c
@@ -113,7 +113,7 @@ int32_t SPVM__Native__Compiler__compile(SPVM_ENV* env, SPVM_VALUE* stack) {
       obj_error_messages_string = env->concat(env, stack, obj_error_messages_string, obj_lf);
     }
     
-    env->die(env, stack, env->get_chars(env, stack, obj_error_messages_string), __func__, FILE_NAME, __LINE__);
+    env->die(env, stack, "%s", env->get_chars(env, stack, obj_error_messages_string), __func__, FILE_NAME, __LINE__);
     
     return SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_COMPILE_CLASS;
   }
@@ -304,7 +304,7 @@ int32_t SPVM__Native__Compiler__compile_anon_class(SPVM_ENV* env, SPVM_VALUE* st
       obj_error_messages_string = env->concat(env, stack, obj_error_messages_string, obj_lf);
     }
     
-    env->die(env, stack, env->get_chars(env, stack, obj_error_messages_string), __func__, FILE_NAME, __LINE__);
+    env->die(env, stack, "%s", env->get_chars(env, stack, obj_error_messages_string), __func__, FILE_NAME, __LINE__);
     
     return SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_COMPILE_CLASS;
   }
-- 
2.43.0


From e2889c251892709d1ade5d548ed75e026d41dc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 93/97] fix: the version string of a basic type without a
 version is undef

---
 lib/SPVM/Native/BasicType.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Native/BasicType.c b/lib/SPVM/Native/BasicType.c
index 924be6b..c759e67 100644
--- a/lib/SPVM/Native/BasicType.c
+++ b/lib/SPVM/Native/BasicType.c
@@ -168,7 +168,10 @@ int32_t SPVM__Native__BasicType__get_version_string(SPVM_ENV* env, SPVM_VALUE* s
   
   const char* version_string = env->api->basic_type->get_version_string(runtime, self);
   
-  void* obj_version_string = env->new_string_nolen(env, stack, version_string);
+  void* obj_version_string = NULL;
+  if (version_string) {
+    obj_version_string = env->new_string_nolen(env, stack, version_string);
+  }
   
   stack[0].oval = obj_version_string;
   
-- 
2.43.0


From 3a98863fc74cad51675e1c70d188f5f59d60d899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 94/97] fix: Native::BasicType#get_parent returns the parent

---
 lib/SPVM/Native/BasicType.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SPVM/Native/BasicType.c b/lib/SPVM/Native/BasicType.c
index c759e67..923f890 100644
--- a/lib/SPVM/Native/BasicType.c
+++ b/lib/SPVM/Native/BasicType.c
@@ -121,7 +121,7 @@ int32_t SPVM__Native__BasicType__get_parent(SPVM_ENV* env, SPVM_VALUE* stack) {
     stack[0].oval = obj_address_parent;
     env->call_class_method_by_name(env, stack, "Native::BasicType", "new_with_pointer", 1, &error_id, __func__, FILE_NAME, __LINE__);
     if (error_id) { return error_id; }
-    void* obj_parent = stack[0].oval;
+    obj_parent = stack[0].oval;
     env->set_no_free(env, stack, obj_parent, 1);
     
     env->set_field_object_by_name(env, stack, obj_parent, "runtime", obj_runtime, &error_id, __func__, FILE_NAME, __LINE__);
-- 
2.43.0


From fdeb01385386b4cac26201d60c595568a72aae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 95/97] fix: Native::API#set_exception sets the exception of
 its own stack

---
 lib/SPVM/Native/API.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/SPVM/Native/API.c b/lib/SPVM/Native/API.c
index 0b6beb8..0bde5d9 100644
--- a/lib/SPVM/Native/API.c
+++ b/lib/SPVM/Native/API.c
@@ -185,9 +185,23 @@ int32_t SPVM__Native__API__get_exception(SPVM_ENV* env, SPVM_VALUE* stack) {
 
 int32_t SPVM__Native__API__set_exception(SPVM_ENV* env, SPVM_VALUE* stack) {
   
-  void* obj_exception = stack[0].oval;
+  int32_t error_id = 0;
+  
+  void* obj_self = stack[0].oval;
+  
+  void* obj_api_env = env->get_field_object_by_name(env, stack, obj_self, "env", &error_id, __func__, FILE_NAME, __LINE__);
+  if (error_id) { return error_id; }
+  
+  SPVM_ENV* api_env = env->get_pointer(env, stack, obj_api_env);
+  
+  void* obj_api_stack = env->get_field_object_by_name(env, stack, obj_self, "stack", &error_id, __func__, FILE_NAME, __LINE__);
+  if (error_id) { return error_id; }
+  
+  SPVM_VALUE* api_stack = env->get_pointer(env, stack, obj_api_stack);
+  
+  void* obj_exception = stack[1].oval;
   
-  env->set_exception(env, stack, obj_exception);
+  api_env->set_exception(api_env, api_stack, obj_exception);
   
   return 0;
 }
-- 
2.43.0


From 53148ec325249e5d52782425192f455c80f48452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 96/97] fix: the methods of Native::API throw the exception of
 the native API they call

---
 lib/SPVM/Native/API.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/SPVM/Native/API.c b/lib/SPVM/Native/API.c
index 0bde5d9..8930b9f 100644
--- a/lib/SPVM/Native/API.c
+++ b/lib/SPVM/Native/API.c
@@ -61,7 +61,11 @@ int32_t SPVM__Native__API__call_init_methods(SPVM_ENV* env, SPVM_VALUE* stack) {
   
   SPVM_VALUE* api_stack = env->get_pointer(env, stack, obj_api_stack);
   
-  api_env->call_init_methods(api_env, api_stack);
+  error_id = api_env->call_init_methods(api_env, api_stack);
+  if (error_id) {
+    env->set_exception(env, stack, api_env->get_exception(api_env, api_stack));
+    return error_id;
+  }
   
   return 0;
 }
@@ -106,7 +110,10 @@ int32_t SPVM__Native__API__set_command_info_program_name(SPVM_ENV* env, SPVM_VAL
   void* obj_program_name = stack[1].oval;
   
   error_id = api_env->set_command_info_program_name(api_env, api_stack, obj_program_name);
-  if (error_id) { return error_id; }
+  if (error_id) {
+    env->set_exception(env, stack, api_env->get_exception(api_env, api_stack));
+    return error_id;
+  }
   
   return 0;
 }
@@ -131,7 +138,10 @@ int32_t SPVM__Native__API__set_command_info_argv(SPVM_ENV* env, SPVM_VALUE* stac
   void* obj_argv = stack[1].oval;
   
   error_id = api_env->set_command_info_argv(api_env, api_stack, obj_argv);
-  if (error_id) { return error_id; }
+  if (error_id) {
+    env->set_exception(env, stack, api_env->get_exception(api_env, api_stack));
+    return error_id;
+  }
   
   return 0;
 }
@@ -155,7 +165,10 @@ int32_t SPVM__Native__API__set_command_info_base_time(SPVM_ENV* env, SPVM_VALUE*
   int64_t base_time = stack[1].lval;
   
   error_id = api_env->set_command_info_base_time(api_env, api_stack, base_time);
-  if (error_id) { return error_id; }
+  if (error_id) {
+    env->set_exception(env, stack, api_env->get_exception(api_env, api_stack));
+    return error_id;
+  }
   
   return 0;
 }
-- 
2.43.0


From 2c82113c1f3e30cdca9f0e7908eec29d932fee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 97/97] fix: Native::API copies the program name and the
 command line arguments

---
 lib/SPVM/Native/API.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/lib/SPVM/Native/API.c b/lib/SPVM/Native/API.c
index 8930b9f..b7c1aa7 100644
--- a/lib/SPVM/Native/API.c
+++ b/lib/SPVM/Native/API.c
@@ -109,7 +109,16 @@ int32_t SPVM__Native__API__set_command_info_program_name(SPVM_ENV* env, SPVM_VAL
   
   void* obj_program_name = stack[1].oval;
   
+  int32_t scope_id = api_env->enter_scope(api_env, api_stack);
+  
+  if (obj_program_name) {
+    obj_program_name = api_env->new_string(api_env, api_stack, env->get_chars(env, stack, obj_program_name), env->length(env, stack, obj_program_name));
+  }
+  
   error_id = api_env->set_command_info_program_name(api_env, api_stack, obj_program_name);
+  
+  api_env->leave_scope(api_env, api_stack, scope_id);
+  
   if (error_id) {
     env->set_exception(env, stack, api_env->get_exception(api_env, api_stack));
     return error_id;
@@ -137,7 +146,28 @@ int32_t SPVM__Native__API__set_command_info_argv(SPVM_ENV* env, SPVM_VALUE* stac
   
   void* obj_argv = stack[1].oval;
   
-  error_id = api_env->set_command_info_argv(api_env, api_stack, obj_argv);
+  int32_t scope_id = api_env->enter_scope(api_env, api_stack);
+  
+  void* obj_argv_copy = NULL;
+  if (obj_argv) {
+    int32_t argv_length = env->length(env, stack, obj_argv);
+    
+    obj_argv_copy = api_env->new_string_array(api_env, api_stack, argv_length);
+    
+    for (int32_t i = 0; i < argv_length; i++) {
+      void* obj_arg = env->get_elem_object(env, stack, obj_argv, i);
+      
+      if (obj_arg) {
+        void* obj_arg_copy = api_env->new_string(api_env, api_stack, env->get_chars(env, stack, obj_arg), env->length(env, stack, obj_arg));
+        api_env->set_elem_object(api_env, api_stack, obj_argv_copy, i, obj_arg_copy);
+      }
+    }
+  }
+  
+  error_id = api_env->set_command_info_argv(api_env, api_stack, obj_argv_copy);
+  
+  api_env->leave_scope(api_env, api_stack, scope_id);
+  
   if (error_id) {
     env->set_exception(env, stack, api_env->get_exception(api_env, api_stack));
     return error_id;
-- 
2.43.0

