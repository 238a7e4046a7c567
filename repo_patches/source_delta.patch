From 37dc62db81657e715dfafa4b572f7a6008b1ca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:48 +0000
Subject: [PATCH 01/96] verif hooks: poison and count arena allocations under
 GRAY_VERIF

---
 grayc/src/runtime/runtime.c     | 30 ++++++++++++++++-
 grayc/src/runtime/verif_arena.h | 60 +++++++++++++++++++++++++++++++++
 2 files changed, 89 insertions(+), 1 deletion(-)
 create mode 100644 grayc/src/runtime/verif_arena.h

diff --git a/grayc/src/runtime/runtime.c b/grayc/src/runtime/runtime.c
index 497b268..43fb95e 100644
--- a/grayc/src/runtime/runtime.c
+++ b/grayc/src/runtime/runtime.c
@@ -35,6 +35,20 @@ _Thread_local GrayArena *gray_heap_arena = NULL;
 
 #define ALIGN_UP(x, a) (((x) + (a) - 1) & ~((a) - 1))
 
+/* Verification hooks (-DGRAY_VERIF, off by default): make every arena
+ * allocation visible to AddressSanitizer and count arena events. */
+#ifdef GRAY_VERIF
+#include "verif_arena.h"
+#else
+#define VERIF_REDZONE 0
+#define VERIF_BLOCK_NEW(block, size)           ((void)0)
+#define VERIF_BLOCK_FREE(block)                ((void)0)
+#define VERIF_ALLOC_BEGIN(ptr, size)           ((void)0)
+#define VERIF_ALLOC_END(ptr, requested, size)  ((void)0)
+#define VERIF_RECLAIM(block)                   ((void)0)
+#define VERIF_ARENA(event)                     ((void)0)
+#endif
+
 static GrayArenaBlock *gray_arena_block_create(size_t size) {
     GrayArenaBlock *block = (GrayArenaBlock *)malloc(sizeof(GrayArenaBlock) + size);
     if (!block) {
@@ -44,6 +58,7 @@ static GrayArenaBlock *gray_arena_block_create(size_t size) {
     block->next = NULL;
     block->size = size;
     block->used = 0;
+    VERIF_BLOCK_NEW(block, size);
     return block;
 }
 
@@ -57,13 +72,17 @@ GrayArena *gray_arena_create(size_t initial_size) {
     arena->first = gray_arena_block_create(initial_size);
     arena->current = arena->first;
     arena->destroyed = false;
+    VERIF_ARENA(created);
     return arena;
 }
 
 void *gray_arena_alloc(GrayArena *arena, size_t size) {
     if (arena->destroyed)
         gray_panic_code("P0001", "cannot allocate from a destroyed arena; mem.destroy() was already called on this arena");
-    size = ALIGN_UP(size, 8);
+#ifdef GRAY_VERIF
+    const size_t requested = size;
+#endif
+    size = ALIGN_UP(size, 8) + VERIF_REDZONE;
     if (arena->current->used + size > arena->current->size) {
         size_t block_size = arena->default_block_size;
         if (size > block_size) block_size = size;
@@ -73,7 +92,9 @@ void *gray_arena_alloc(GrayArena *arena, size_t size) {
     }
     void *ptr = arena->current->data + arena->current->used;
     arena->current->used += size;
+    VERIF_ALLOC_BEGIN(ptr, size);
     memset(ptr, 0, size);
+    VERIF_ALLOC_END(ptr, requested, size);
     return ptr;
 }
 
@@ -82,8 +103,10 @@ void gray_arena_reset(GrayArena *arena) {
     GrayArenaBlock *block = arena->first;
     while (block) {
         block->used = 0;
+        VERIF_RECLAIM(block);
         block = block->next;
     }
+    VERIF_ARENA(reset);
     arena->current = arena->first;
 }
 
@@ -94,12 +117,14 @@ void gray_arena_destroy(GrayArena *arena, const char *file, int line) {
     GrayArenaBlock *block = arena->first;
     while (block) {
         GrayArenaBlock *next = block->next;
+        VERIF_BLOCK_FREE(block);
         free(block);
         block = next;
     }
     arena->first = NULL;
     arena->current = NULL;
     arena->destroyed = true;
+    VERIF_ARENA(destroyed);
     /* Don't free the arena struct — keep it alive so the destroyed flag
      * can be checked if the user calls destroy again. It will be cleaned
      * up at process exit. */
@@ -199,10 +224,13 @@ void gray_scope_restore(GrayArena *arena, GrayScopeMark mark) {
     GrayArenaBlock *block = mark.block->next;
     while (block) {
         block->used = 0;
+        VERIF_RECLAIM(block);
         block = block->next;
     }
     /* Reset the marked block to the saved position */
     mark.block->used = mark.used;
+    VERIF_RECLAIM(mark.block);
+    VERIF_ARENA(restored);
     arena->current = mark.block;
 }
 
diff --git a/grayc/src/runtime/verif_arena.h b/grayc/src/runtime/verif_arena.h
new file mode 100644
index 0000000..2135675
--- /dev/null
+++ b/grayc/src/runtime/verif_arena.h
@@ -0,0 +1,60 @@
+/*
+ * verif_arena.h — verification hooks for the arena allocator.
+ * Included by runtime.c only when GRAY_VERIF is defined. Every allocation is
+ * followed by a poisoned redzone, reclaimed memory is poisoned, and arena
+ * events are counted; with $GRAY_VERIF_LOG set, the counters are appended to
+ * that file at exit.
+ */
+
+#ifndef GRAY_VERIF_ARENA_H
+#define GRAY_VERIF_ARENA_H
+
+#ifdef GRAY_VERIF_ASAN
+#include <sanitizer/asan_interface.h>
+#define VERIF_REDZONE 16
+#define VERIF_POISON(p, n)   ASAN_POISON_MEMORY_REGION((p), (n))
+#define VERIF_UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION((p), (n))
+#else
+#define VERIF_REDZONE 0
+#define VERIF_POISON(p, n)   ((void)0)
+#define VERIF_UNPOISON(p, n) ((void)0)
+#endif
+
+static unsigned long verif_allocs, verif_bytes, verif_blocks_new, verif_blocks_freed,
+    verif_created, verif_destroyed, verif_reset, verif_restored;
+static long verif_live_bytes, verif_peak_bytes;
+
+#define VERIF_INC(c) __atomic_add_fetch(&(c), 1, __ATOMIC_RELAXED)
+
+static void verif_live(long delta) {
+    long now = __atomic_add_fetch(&verif_live_bytes, delta, __ATOMIC_RELAXED);
+    long peak = __atomic_load_n(&verif_peak_bytes, __ATOMIC_RELAXED);
+    while (now > peak && !__atomic_compare_exchange_n(&verif_peak_bytes, &peak, now, 1,
+                                                      __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
+    }
+}
+
+#define VERIF_BLOCK_NEW(block, n) do { VERIF_INC(verif_blocks_new); \
+        verif_live((long)(n)); VERIF_POISON((block)->data, (n)); } while (0)
+#define VERIF_BLOCK_FREE(block) do { VERIF_INC(verif_blocks_freed); \
+        verif_live(-(long)(block)->size); VERIF_UNPOISON((block)->data, (block)->size); } while (0)
+#define VERIF_ALLOC_BEGIN(ptr, n) VERIF_UNPOISON((ptr), (n))
+#define VERIF_ALLOC_END(ptr, requested, n) do { VERIF_INC(verif_allocs); \
+        __atomic_add_fetch(&verif_bytes, (requested), __ATOMIC_RELAXED); \
+        VERIF_POISON((char *)(ptr) + (requested), (n) - (requested)); } while (0)
+#define VERIF_RECLAIM(block) VERIF_POISON((block)->data + (block)->used, (block)->size - (block)->used)
+#define VERIF_ARENA(event) VERIF_INC(verif_##event)
+
+__attribute__((destructor)) static void verif_report(void) {
+    const char *path = getenv("GRAY_VERIF_LOG");
+    FILE *f = path ? fopen(path, "a") : NULL;
+    if (!f) return;
+    fprintf(f, "{\"allocs\":%lu,\"bytes\":%lu,\"blocks_new\":%lu,\"blocks_freed\":%lu,"
+        "\"arenas_created\":%lu,\"arenas_destroyed\":%lu,\"resets\":%lu,\"restores\":%lu,"
+        "\"live_bytes\":%ld,\"peak_bytes\":%ld}\n",
+        verif_allocs, verif_bytes, verif_blocks_new, verif_blocks_freed, verif_created,
+        verif_destroyed, verif_reset, verif_restored, verif_live_bytes, verif_peak_bytes);
+    fclose(f);
+}
+
+#endif
-- 
2.43.0


From d5a7c4067a39895f3b99a292a2f15ca54baa56bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:27 +0000
Subject: [PATCH 02/96] fix: nil-checked pointer access is assignable (p.f++,
 p.f.g += x, p^.f++ emitted invalid C)

---
 grayc/src/codegen/codegen.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 8f433e2..d0a27a7 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -2138,9 +2138,9 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
     case NODE_POSTFIX_EXPR:
         if (node->data.postfix.op == TOK_CARET) {
             /* Pointer dereference: p^ → (*p) with nil check */
-            emit(codegen, "({ __auto_type _dp = ");
+            emit(codegen, "(*({ __auto_type _dp = ");
             emit_expression(codegen, node->data.postfix.left);
-            emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } *_dp; })", codegen->file, node->token.line);
+            emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp; }))", codegen->file, node->token.line);
         } else if (node->data.postfix.op == TOK_INCREMENT) {
             /* Overflow-checked increment; sized types need bounds check */
             GrayType *postfix_type = codegen->type_table ? typetable_get(codegen->type_table, node->data.postfix.left) : NULL;
@@ -2438,9 +2438,9 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 is_reference_variable(codegen, node->data.member.object->data.label.value));
             if (!obj_is_ref && obj_t && obj_t->kind == TK_POINTER) {
                 /* Nil-guarded pointer field access */
-                emit(codegen, "({ __auto_type _dp = ");
+                emit(codegen, "(*({ __auto_type _dp = ");
                 emit_expression(codegen, node->data.member.object);
-                emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp->%s; })",
+                emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } &_dp->%s; }))",
                     codegen->file, node->token.line, sanitize_name(node->data.member.member));
             } else if (!obj_is_ref && obj_t && obj_t->kind == TK_ERROR) {
                 emit_expression(codegen, node->data.member.object);
-- 
2.43.0


From eba010a14cceb1929e4ae5943120f78019275e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:08 +0000
Subject: [PATCH 03/96] fix: codegen state starts zeroed (in_const_decl was
 indeterminate and could drop every overflow and division check)

---
 grayc/src/codegen/codegen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index d0a27a7..502b953 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -9296,6 +9296,7 @@ static int codegen_enum_index(CodeGen *codegen, const char *name) {
 
 CodeGen codegen_create(const char *file) {
     CodeGen codegen;
+    memset(&codegen, 0, sizeof(codegen));
     codegen.output = buffer_create(OUTPUT_BUF_INITIAL);
     codegen.global_init = buffer_create(MSG_BUF_SIZE);
     codegen.indent = 0;
-- 
2.43.0


From d481fe7ee95b402b470dbc07d5e3bdde141a3c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:19 +0000
Subject: [PATCH 04/96] fix: sized overflow checks cannot themselves overflow
 (u32 * u32 past 2^63 wrapped without a panic)

---
 grayc/src/runtime/runtime.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index a180ac8..e053290 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -226,24 +226,24 @@ static inline uint64_t gray_umul_check(uint64_t a, uint64_t b, const char *file,
 /* Sized signed integer overflow checks (i8, i16, i32) */
 static inline int64_t gray_sized_add_check(int64_t a, int64_t b, int64_t min_val, int64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a + b;
-    if (result < min_val || result > max_val)
+    int64_t result;
+    if (__builtin_add_overflow(a, b, &result) || result < min_val || result > max_val)
         gray_panic_code_at(file, line, "P0011", "%s addition result is too large; value exceeds the range of this type", type_name);
     return result;
 }
 
 static inline int64_t gray_sized_sub_check(int64_t a, int64_t b, int64_t min_val, int64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a - b;
-    if (result < min_val || result > max_val)
+    int64_t result;
+    if (__builtin_sub_overflow(a, b, &result) || result < min_val || result > max_val)
         gray_panic_code_at(file, line, "P0012", "%s subtraction result is too large; value exceeds the range of this type", type_name);
     return result;
 }
 
 static inline int64_t gray_sized_mul_check(int64_t a, int64_t b, int64_t min_val, int64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a * b;
-    if (result < min_val || result > max_val)
+    int64_t result;
+    if (__builtin_mul_overflow(a, b, &result) || result < min_val || result > max_val)
         gray_panic_code_at(file, line, "P0013", "%s multiplication result is too large; value exceeds the range of this type", type_name);
     return result;
 }
@@ -262,7 +262,9 @@ static inline int64_t gray_sized_neg_check(int64_t a, int64_t min_val, int64_t m
  * silently wrap to a large uint64 and trigger the wrong P0015 path. */
 static inline uint64_t gray_usized_add_check(int64_t a, int64_t b, uint64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a + b;
+    int64_t result;
+    if (__builtin_add_overflow(a, b, &result))
+        result = a < 0 ? INT64_MIN : INT64_MAX;
     if (result < 0)
         gray_panic_code_at(file, line, "P0016", "%s addition result is negative, but this unsigned type cannot hold negative values", type_name);
     if ((uint64_t)result > max_val)
@@ -272,7 +274,9 @@ static inline uint64_t gray_usized_add_check(int64_t a, int64_t b, uint64_t max_
 
 static inline uint64_t gray_usized_sub_check(int64_t a, int64_t b, uint64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a - b;
+    int64_t result;
+    if (__builtin_sub_overflow(a, b, &result))
+        result = a < 0 ? INT64_MIN : INT64_MAX;
     if (result < 0)
         gray_panic_code_at(file, line, "P0016", "%s subtraction result is negative, but this unsigned type cannot hold negative values", type_name);
     if ((uint64_t)result > max_val)
@@ -282,7 +286,9 @@ static inline uint64_t gray_usized_sub_check(int64_t a, int64_t b, uint64_t max_
 
 static inline uint64_t gray_usized_mul_check(int64_t a, int64_t b, uint64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a * b;
+    int64_t result;
+    if (__builtin_mul_overflow(a, b, &result))
+        result = (a < 0) != (b < 0) ? INT64_MIN : INT64_MAX;
     if (result < 0)
         gray_panic_code_at(file, line, "P0016", "%s multiplication result is negative, but this unsigned type cannot hold negative values", type_name);
     if ((uint64_t)result > max_val)
-- 
2.43.0


From 1dd98211e6af30815574df93986b274f09d98fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:19 +0000
Subject: [PATCH 05/96] fix: bit_not and shifts on sized integers yield the
 operand's type

---
 grayc/src/codegen/codegen.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 502b953..9be6dbb 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -1737,8 +1737,8 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
          * value that fails the runtime byte range check. */
         if (node->data.prefix.op == TOK_BIT_NOT) {
             GrayType *bn_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.prefix.right) : NULL;
-            if (bn_t && bn_t->kind == TK_BYTE) {
-                emit(codegen, "((uint8_t)(~(");
+            if (bn_t && bn_t->name && (bn_t->kind == TK_BYTE || bn_t->kind == TK_UINT) && !is_bigint_type(bn_t->name)) {
+                emit_formatted(codegen, "((%s)(~(", gray_type_to_c_codegen(codegen, bn_t->name));
                 emit_expression(codegen, node->data.prefix.right);
                 emit(codegen, ")))");
             } else {
@@ -1834,13 +1834,20 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
          * in C. Capture the amount once, validate it, then shift. */
         if (op == TOK_BIT_SHIFT_LEFT || op == TOK_BIT_SHIFT_RIGHT) {
             const char *c_op = operator_to_c_string(op);
-            bool left_is_literal = node->data.infix.left->kind == NODE_INT_VALUE;
+            /* Shift in 64 bits, then bring the result back to the operand's type. */
+            const char *result_type = "int64_t";
+            bool left_unsigned = left_type && (left_type->kind == TK_UINT || left_type->kind == TK_BYTE);
+            if (left_type && left_type->name && node->data.infix.left->kind != NODE_INT_VALUE &&
+                (left_unsigned || left_type->kind == TK_INT || left_type->kind == TK_CHAR)) {
+                result_type = gray_type_to_c_codegen(codegen, left_type->name);
+            }
             emit(codegen, "({ int64_t _sa = (int64_t)(");
             emit_expression(codegen, node->data.infix.right);
-            emit_formatted(codegen, "); if (_sa < 0 || _sa >= 64) { gray_panic_code_at(\"%s\", %d, \"P0092\", \"shift amount %%lld is out of range; must be in [0, 63]\", (long long)_sa); } (", codegen->file, node->token.line);
-            if (left_is_literal) emit(codegen, "(int64_t)");
+            emit_formatted(codegen, "); if (_sa < 0 || _sa >= 64) { gray_panic_code_at(\"%s\", %d, \"P0092\", \"shift amount %%lld is out of range; must be in [0, 63]\", (long long)_sa); } (%s)((%s)(",
+                codegen->file, node->token.line, result_type,
+                (left_unsigned || op == TOK_BIT_SHIFT_LEFT) ? "uint64_t" : "int64_t");
             emit_expression(codegen, node->data.infix.left);
-            emit_formatted(codegen, ") %s (int)_sa; })", c_op);
+            emit_formatted(codegen, ") %s (int)_sa); })", c_op);
             break;
         }
 
-- 
2.43.0


From 9d7dc7dc874fc931fa5600d5059d4c6a8afd216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:27 +0000
Subject: [PATCH 06/96] fix: byte and u8 division by a literal emitted invalid
 C ("(null)" bounds)

---
 grayc/src/codegen/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 9be6dbb..370daff 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -2019,7 +2019,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 if (is_signed) {
                     const char *sized_name = (left_type && left_type->name) ? left_type->name : ((right_type && right_type->name) ? right_type->name : NULL);
                     const char *_unused_max; bool _unused_u;
-                    if (!sized_name || !sized_int_bounds(sized_name, &signed_min, &_unused_max, &_unused_u))
+                    if (!sized_name || !sized_int_bounds(sized_name, &signed_min, &_unused_max, &_unused_u) || _unused_u)
                         signed_min = "(-9223372036854775807LL - 1)";
                 }
                 emit(codegen, "({ __auto_type _dv = ");
-- 
2.43.0


From 7ec4862741f3596be824bee52f4bc9ba3ef0986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:28 +0000
Subject: [PATCH 07/96] fix: uint array elements and map values read back
 unsigned

---
 grayc/src/codegen/codegen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 370daff..249a1e2 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -438,6 +438,7 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
  * Uses gray_type_to_c_codegen for struct/array/map types, hardcoded for primitives.
  * Routes the input through codegen_effective_type_string so '?' inside a generic
  * instantiation resolves to the active wildcard binding. */
+static bool is_bigint_type(const char *type_str);
 static const char *gray_map_element_c_type(CodeGen *codegen, const char *gray_tn) {
     if (!gray_tn) return "int64_t";
     gray_tn = codegen_effective_type_string(codegen, gray_tn);
@@ -448,6 +449,7 @@ static const char *gray_map_element_c_type(CodeGen *codegen, const char *gray_tn
     if (!type) return "int64_t";
     switch (type->kind) {
     case TK_FLOAT:   return "double";
+    case TK_UINT:    return is_bigint_type(gray_tn) ? "int64_t" : "uint64_t";
     case TK_STRING:  return "GrayString";
     case TK_BOOL:    return "bool";
     case TK_CHAR:    return "int32_t";
@@ -2487,6 +2489,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 else if (et->kind == TK_POINTER) {
                     static char idx_ptr_buf[MSG_BUF_SIZE];
                     const char *pointee = et->element_type ? et->element_type : "void";
+                else if (et->kind == TK_UINT) c_elem = "uint64_t";
                     snprintf(idx_ptr_buf, sizeof(idx_ptr_buf), "%s *", gray_type_to_c_codegen(codegen, pointee));
                     c_elem = idx_ptr_buf;
                 }
-- 
2.43.0


From dc975d8e65bae8bd96c3b0f7db954b4abf99a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:34 +0000
Subject: [PATCH 08/96] fix: array and string indexes are no longer truncated
 to 32 bits before the bounds check

---
 grayc/src/codegen/codegen.c | 4 ++--
 grayc/src/runtime/array.c   | 8 ++++----
 grayc/src/runtime/array.h   | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 249a1e2..60da569 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -2583,9 +2583,9 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             /* String indexing with bounds check: s.data[i] */
             emit_formatted(codegen, "({ GrayString _es = ");
             emit_expression(codegen, node->data.index_expr.left);
-            emit_formatted(codegen, "; int32_t _ei = (int32_t)(");
+            emit_formatted(codegen, "; int64_t _ei = (int64_t)(");
             emit_expression(codegen, node->data.index_expr.index);
-            emit_formatted(codegen, "); if (_ei < 0 || _ei >= _es.len) { gray_panic_code_at(\"%s\", %d, \"P0082\", \"string index %%d out of bounds (length %%d)\", _ei, _es.len); } ", codegen->file, node->token.line);
+            emit_formatted(codegen, "); if (_ei < 0 || _ei >= _es.len) { gray_panic_code_at(\"%s\", %d, \"P0082\", \"string index %%lld out of bounds (length %%d)\", (long long)_ei, _es.len); } ", codegen->file, node->token.line);
             emit(codegen, "(int32_t)(unsigned char)_es.data[_ei]; })");
         } else {
             /* Fallback */
diff --git a/grayc/src/runtime/array.c b/grayc/src/runtime/array.c
index 0df9c17..e891299 100644
--- a/grayc/src/runtime/array.c
+++ b/grayc/src/runtime/array.c
@@ -34,18 +34,18 @@ GrayArray gray_array_from(GrayArena *arena, const void *data, int32_t elem_size,
     return arr;
 }
 
-void *gray_array_get_ptr(GrayArray *arr, int32_t index, const char *file, int line) {
+void *gray_array_get_ptr(GrayArray *arr, int64_t index, const char *file, int line) {
     if (index < 0 || index >= arr->len) {
-        gray_panic_code("P0033", "index out of bounds; tried to access index %d but the length is %d", index, arr->len);
+        gray_panic_code("P0033", "index out of bounds; tried to access index %lld but the length is %d", (long long)index, arr->len);
     }
     return (char *)arr->data + (size_t)index * (size_t)arr->elem_size;
 }
 
-void gray_array_set(GrayArray *arr, int32_t index, const void *value, const char *file, int line) {
+void gray_array_set(GrayArray *arr, int64_t index, const void *value, const char *file, int line) {
     if (arr->iterating > 0)
         gray_panic_code("P0034", "cannot modify array during for_each iteration");
     if (index < 0 || index >= arr->len) {
-        gray_panic_code("P0033", "index out of bounds; tried to access index %d but the length is %d", index, arr->len);
+        gray_panic_code("P0033", "index out of bounds; tried to access index %lld but the length is %d", (long long)index, arr->len);
     }
     memcpy((char *)arr->data + (size_t)index * (size_t)arr->elem_size,
            value, (size_t)arr->elem_size);
diff --git a/grayc/src/runtime/array.h b/grayc/src/runtime/array.h
index 218e92b..7fa8813 100644
--- a/grayc/src/runtime/array.h
+++ b/grayc/src/runtime/array.h
@@ -31,10 +31,10 @@ GrayArray gray_array_new(GrayArena *arena, int32_t elem_size, int32_t initial_ca
 GrayArray gray_array_from(GrayArena *arena, const void *data, int32_t elem_size, int32_t count);
 
 /* Get a pointer to element at index (with bounds checking) */
-void *gray_array_get_ptr(GrayArray *arr, int32_t index, const char *file, int line);
+void *gray_array_get_ptr(GrayArray *arr, int64_t index, const char *file, int line);
 
 /* Set element at index (with bounds checking) */
-void gray_array_set(GrayArray *arr, int32_t index, const void *value, const char *file, int line);
+void gray_array_set(GrayArray *arr, int64_t index, const void *value, const char *file, int line);
 
 /* Append an element (may reallocate on the arena) */
 void gray_array_push(GrayArena *arena, GrayArray *arr, const void *value);
-- 
2.43.0


From 949a520f89b9ef29fd759479216e459bab3de9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:34 +0000
Subject: [PATCH 09/96] fix: compound assignment to elements, map values and
 pointer fields is checked like plain arithmetic; elements use one storage
 type

---
 grayc/src/codegen/codegen.c | 262 ++++++++++++++++++------------------
 1 file changed, 132 insertions(+), 130 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 60da569..a86b23c 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -462,6 +462,18 @@ static const char *gray_map_element_c_type(CodeGen *codegen, const char *gray_tn
     }
 }
 
+/* C type of one stored array element. Sized integers other than byte are kept
+ * in 64 bits and floats as double, as array literals, indexing, for_each and
+ * append all assume. */
+static const char *array_storage_c_type(CodeGen *codegen, const char *elem_type) {
+    const char *name = codegen_effective_type_string(codegen, elem_type);
+    GrayType *type = name ? type_from_name(name) : NULL;
+    if (type && type->kind == TK_INT && !is_bigint_type(name)) return "int64_t";
+    if (type && type->kind == TK_UINT && !is_bigint_type(name)) return "uint64_t";
+    if (type && type->kind == TK_FLOAT) return "double";
+    return gray_type_to_c_codegen(codegen, elem_type);
+}
+
 /* Map a C key type back to its GrayMap key-kind macro so the codegen can
  * tag each gray_map_new_kind call. Float keys need this so -0.0/+0.0 and
  * NaN are normalized at lookup time; other 8-byte keys (int, pointer)
@@ -1470,6 +1482,8 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             const char *cvt = codegen->current_var_type;
             if (strcmp(cvt, "[float]") == 0 || strcmp(cvt, "[f32]") == 0 || strcmp(cvt, "[f64]") == 0)
                 tk = TK_FLOAT;
+            if (strcmp(cvt, "[byte]") == 0 || strncmp(cvt, "[byte,", 6) == 0)
+                tk = TK_BYTE;
         }
 
         const char *c_type;
@@ -2475,6 +2489,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             } else if (elem_tn) {
                 GrayType *et = type_from_name(elem_tn);
                 if (et->kind == TK_FLOAT) c_elem = "double";
+                else if (et->kind == TK_UINT) c_elem = "uint64_t";
                 else if (et->kind == TK_BOOL) c_elem = "bool";
                 else if (et->kind == TK_STRING) c_elem = "GrayString";
                 else if (et->kind == TK_CHAR) c_elem = "int32_t";
@@ -2489,7 +2504,6 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 else if (et->kind == TK_POINTER) {
                     static char idx_ptr_buf[MSG_BUF_SIZE];
                     const char *pointee = et->element_type ? et->element_type : "void";
-                else if (et->kind == TK_UINT) c_elem = "uint64_t";
                     snprintf(idx_ptr_buf, sizeof(idx_ptr_buf), "%s *", gray_type_to_c_codegen(codegen, pointee));
                     c_elem = idx_ptr_buf;
                 }
@@ -2525,19 +2539,19 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             if (arr_ptr_obj) {
                 static int arr_dp_ctr = 0;
                 int my_dp = arr_dp_ctr++;
-                emit_formatted(codegen, "({ __auto_type _adp%d = ", my_dp);
+                emit_formatted(codegen, "(*({ __auto_type _adp%d = ", my_dp);
                 emit_expression(codegen, arr_ptr_obj);
                 emit_formatted(codegen, "; if (!_adp%d) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } "
-                          "GRAY_ARRAY_GET(_adp%d->%s, %s, ",
+                          "&GRAY_ARRAY_GET(_adp%d->%s, %s, ",
                       my_dp, codegen->file, node->token.line, my_dp, sanitize_name(arr_ptr_field), c_elem);
                 emit_expression(codegen, node->data.index_expr.index);
-                emit(codegen, "); })");
+                emit(codegen, "); }))");
             } else if (node->data.index_expr.left->kind == NODE_CALL_EXPR) {
-                emit_formatted(codegen, "({ GrayArray _ea = ");
+                emit_formatted(codegen, "(*({ GrayArray _ea = ");
                 emit_expression(codegen, node->data.index_expr.left);
-                emit_formatted(codegen, "; GRAY_ARRAY_GET(_ea, %s, ", c_elem);
+                emit_formatted(codegen, "; &GRAY_ARRAY_GET(_ea, %s, ", c_elem);
                 emit_expression(codegen, node->data.index_expr.index);
-                emit(codegen, "); })");
+                emit(codegen, "); }))");
             } else {
                 emit_formatted(codegen, "GRAY_ARRAY_GET(");
                 emit_expression(codegen, node->data.index_expr.left);
@@ -2565,19 +2579,19 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                     map_is_rvalue = true;
             }
             if (map_is_rvalue) {
-                emit_formatted(codegen, "({ GrayMap _mt = ");
+                emit_formatted(codegen, "(*({ GrayMap _mt = ");
                 emit_expression(codegen, node->data.index_expr.left);
                 emit_formatted(codegen, "; %s _mk = ", c_key);
                 emit_expression(codegen, node->data.index_expr.index);
                 emit_formatted(codegen, "; void *_mv = gray_map_get(&_mt, &_mk); if (!_mv) { gray_panic_code_at(\"%s\", %d, \"P0081\", \"key not found in map\"); } ", codegen->file, node->token.line);
-                emit_formatted(codegen, "*(%s *)_mv; })", c_val);
+                emit_formatted(codegen, "(%s *)_mv; }))", c_val);
             } else {
-                emit_formatted(codegen, "({ %s _mk = ", c_key);
+                emit_formatted(codegen, "(*({ %s _mk = ", c_key);
                 emit_expression(codegen, node->data.index_expr.index);
                 emit_formatted(codegen, "; void *_mv = gray_map_get(&");
                 emit_expression(codegen, node->data.index_expr.left);
                 emit_formatted(codegen, ", &_mk); if (!_mv) { gray_panic_code_at(\"%s\", %d, \"P0081\", \"key not found in map\"); } ", codegen->file, node->token.line);
-                emit_formatted(codegen, "*(%s *)_mv; })", c_val);
+                emit_formatted(codegen, "(%s *)_mv; }))", c_val);
             }
         } else if (left_t && left_t->kind == TK_STRING) {
             /* String indexing with bounds check: s.data[i] */
@@ -3201,7 +3215,7 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
         const char *elem_tn = type->element_type ? type->element_type : "int";
         GrayType *elem_t = type_from_name(elem_tn);
         char c_elem[TYPE_NAME_MAX];
-        strncpy(c_elem, gray_type_to_c_codegen(codegen, elem_tn), sizeof(c_elem) - 1);
+        strncpy(c_elem, array_storage_c_type(codegen, elem_tn), sizeof(c_elem) - 1);
         c_elem[sizeof(c_elem) - 1] = '\0';
 
         emit_indent(codegen);
@@ -5311,13 +5325,14 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *elem_tn = (arr_t && arr_t->kind == TK_ARRAY) ? arr_t->element_type : "int";
         const char *c_elem = gray_type_to_c_codegen(codegen, elem_tn);
+        const char *c_store = array_storage_c_type(codegen, elem_tn);
         emit(codegen, "({ GrayArray _m_src = ");
         emit_expression(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "; %s (*_m_fn)(%s) = (void *)", c_elem, c_elem);
         emit_expression(codegen, node->data.call.args[1]);
-        emit_formatted(codegen, "; GrayArray _m_res = gray_array_new(gray_default_arena, sizeof(%s), _m_src.len);", c_elem);
+        emit_formatted(codegen, "; GrayArray _m_res = gray_array_new(gray_default_arena, sizeof(%s), _m_src.len);", c_store);
         emit_formatted(codegen, "for (int32_t _m_i = 0; _m_i < _m_src.len; _m_i++) { ");
-        emit_formatted(codegen, "%s _m_v = _m_fn(((%s *)_m_src.data)[_m_i]); ", c_elem, c_elem);
+        emit_formatted(codegen, "%s _m_v = _m_fn(((%s *)_m_src.data)[_m_i]); ", c_store, c_store);
         emit_formatted(codegen, "gray_arrays_append(gray_default_arena, &_m_res, &_m_v); } _m_res; })");
         return true;
     }
@@ -5325,13 +5340,14 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *elem_tn = (arr_t && arr_t->kind == TK_ARRAY) ? arr_t->element_type : "int";
         const char *c_elem = gray_type_to_c_codegen(codegen, elem_tn);
+        const char *c_store = array_storage_c_type(codegen, elem_tn);
         emit(codegen, "({ GrayArray _f_src = ");
         emit_expression(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "; bool (*_f_fn)(%s) = (void *)", c_elem);
         emit_expression(codegen, node->data.call.args[1]);
-        emit_formatted(codegen, "; GrayArray _f_res = gray_array_new(gray_default_arena, sizeof(%s), _f_src.len);", c_elem);
+        emit_formatted(codegen, "; GrayArray _f_res = gray_array_new(gray_default_arena, sizeof(%s), _f_src.len);", c_store);
         emit_formatted(codegen, "for (int32_t _f_i = 0; _f_i < _f_src.len; _f_i++) { ");
-        emit_formatted(codegen, "%s _f_v = ((%s *)_f_src.data)[_f_i]; ", c_elem, c_elem);
+        emit_formatted(codegen, "%s _f_v = ((%s *)_f_src.data)[_f_i]; ", c_store, c_store);
         emit_formatted(codegen, "if (_f_fn(_f_v)) { gray_arrays_append(gray_default_arena, &_f_res, &_f_v); } } _f_res; })");
         return true;
     }
@@ -5339,32 +5355,35 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *elem_tn = (arr_t && arr_t->kind == TK_ARRAY) ? arr_t->element_type : "int";
         const char *c_elem = gray_type_to_c_codegen(codegen, elem_tn);
+        const char *c_store = array_storage_c_type(codegen, elem_tn);
         emit(codegen, "({ GrayArray _a_src = ");
         emit_expression(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "; bool (*_a_fn)(%s) = (void *)", c_elem);
         emit_expression(codegen, node->data.call.args[1]);
         emit_formatted(codegen, "; bool _a_res = false; ");
         emit_formatted(codegen, "for (int32_t _a_i = 0; _a_i < _a_src.len; _a_i++) { ");
-        emit_formatted(codegen, "if (_a_fn(((%s *)_a_src.data)[_a_i])) { _a_res = true; break; } } _a_res; })", c_elem);
+        emit_formatted(codegen, "if (_a_fn(((%s *)_a_src.data)[_a_i])) { _a_res = true; break; } } _a_res; })", c_store);
         return true;
     }
     if (strcmp(func, "all") == 0 && node->data.call.arg_count == 2) {
         GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *elem_tn = (arr_t && arr_t->kind == TK_ARRAY) ? arr_t->element_type : "int";
         const char *c_elem = gray_type_to_c_codegen(codegen, elem_tn);
+        const char *c_store = array_storage_c_type(codegen, elem_tn);
         emit(codegen, "({ GrayArray _l_src = ");
         emit_expression(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "; bool (*_l_fn)(%s) = (void *)", c_elem);
         emit_expression(codegen, node->data.call.args[1]);
         emit_formatted(codegen, "; bool _l_res = true; ");
         emit_formatted(codegen, "for (int32_t _l_i = 0; _l_i < _l_src.len; _l_i++) { ");
-        emit_formatted(codegen, "if (!_l_fn(((%s *)_l_src.data)[_l_i])) { _l_res = false; break; } } _l_res; })", c_elem);
+        emit_formatted(codegen, "if (!_l_fn(((%s *)_l_src.data)[_l_i])) { _l_res = false; break; } } _l_res; })", c_store);
         return true;
     }
     if (strcmp(func, "reduce") == 0 && node->data.call.arg_count == 3) {
         GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *elem_tn = (arr_t && arr_t->kind == TK_ARRAY) ? arr_t->element_type : "int";
         const char *c_elem = gray_type_to_c_codegen(codegen, elem_tn);
+        const char *c_store = array_storage_c_type(codegen, elem_tn);
         emit(codegen, "({ GrayArray _r_src = ");
         emit_expression(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "; %s _r_acc = ", c_elem);
@@ -5372,7 +5391,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         emit_formatted(codegen, "; %s (*_r_fn)(%s, %s) = (void *)", c_elem, c_elem, c_elem);
         emit_expression(codegen, node->data.call.args[2]);
         emit_formatted(codegen, "; for (int32_t _r_i = 0; _r_i < _r_src.len; _r_i++) { ");
-        emit_formatted(codegen, "_r_acc = _r_fn(_r_acc, ((%s *)_r_src.data)[_r_i]); } _r_acc; })", c_elem);
+        emit_formatted(codegen, "_r_acc = _r_fn(_r_acc, ((%s *)_r_src.data)[_r_i]); } _r_acc; })", c_store);
         return true;
     }
 
@@ -7081,7 +7100,7 @@ static void emit_fixed_size_array_initializer(CodeGen *codegen, AstNode *value,
                                        const char *elem_type, int fixed_size) {
     if (value && value->kind == NODE_ARRAY_VALUE &&
         value->data.array_value.count < fixed_size) {
-        const char *c_elem_type = gray_type_to_c_codegen(codegen, elem_type);
+        const char *c_elem_type = array_storage_c_type(codegen, elem_type);
         int count = value->data.array_value.count;
         emit_formatted(codegen, "gray_array_from(gray_default_arena, (%s[%d]){", c_elem_type, fixed_size);
         for (int i = 0; i < count; i++) {
@@ -7135,7 +7154,7 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
                 if (node->data.var_decl.value) {
                     emit_fixed_size_array_initializer(codegen, node->data.var_decl.value, elem_type, fixed_size);
                 } else {
-                    const char *c_elem_type = gray_type_to_c_codegen(codegen, elem_type);
+                    const char *c_elem_type = array_storage_c_type(codegen, elem_type);
                     emit_formatted(codegen, "gray_array_new(gray_default_arena, sizeof(%s), %d)", c_elem_type, fixed_size);
                 }
                 emit(codegen, ";\n");
@@ -7175,7 +7194,7 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
         }
 
         /* Dynamic array: use GrayArray */
-        const char *c_elem_type = gray_type_to_c_codegen(codegen, elem_type);
+        const char *c_elem_type = array_storage_c_type(codegen, elem_type);
         if (codegen->indent == 0) {
             emit_formatted(codegen, "GrayArray %s;\n", sanitize_name(node->data.var_decl.name));
             Buf saved = codegen->output; codegen->output = codegen->global_init; codegen->indent = 1;
@@ -7575,6 +7594,66 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
     emit(codegen, ";\n");
 }
 
+/* Emit the checked result of `cur OP value` for a compound assignment whose
+ * target has the given Grayscale type. Shared by every kind of target so that
+ * a OP= b panics exactly where a = a OP b does. */
+static void emit_compound_value(CodeGen *codegen, AstNode *node,
+                                const char *type_name, const char *cur) {
+    TokenType aop = node->data.assign.op;
+    AstNode *value = node->data.assign.value;
+    bool is_div = (aop == TOK_SLASH_ASSIGN || aop == TOK_PERCENT_ASSIGN);
+    const char *binop = aop == TOK_PLUS_ASSIGN ? "+" : aop == TOK_MINUS_ASSIGN ? "-" :
+                        aop == TOK_ASTERISK_ASSIGN ? "*" : aop == TOK_SLASH_ASSIGN ? "/" : "%";
+    type_name = codegen_effective_type_string(codegen, type_name);
+    GrayType *type = type_name ? type_from_name(type_name) : NULL;
+    if (type_name && is_bigint_type(type_name)) {
+        const char *pfx = bigint_prefix(type_name);
+        const char *fn_op = aop == TOK_PLUS_ASSIGN ? "add_checked" : aop == TOK_MINUS_ASSIGN ? "sub_checked" :
+                            aop == TOK_ASTERISK_ASSIGN ? "mul_checked" : aop == TOK_SLASH_ASSIGN ? "div" : "mod";
+        emit_formatted(codegen, "%s_%s(%s, ", pfx, fn_op, cur);
+        emit_bigint_operand(codegen, value, pfx, type_name, NULL);
+        if (is_div) emit(codegen, ")");
+        else emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
+        return;
+    }
+    bool is_int = type && (type->kind == TK_INT || type->kind == TK_UINT || type->kind == TK_BYTE);
+    bool is_unsigned = type && (type->kind == TK_UINT || type->kind == TK_BYTE);
+    const char *smin = NULL, *smax = NULL;
+    bool su = false;
+    if (type_name) sized_int_bounds(type_name, &smin, &smax, &su);
+    if (is_int && is_div) {
+        emit(codegen, "({ __auto_type _dv = ");
+        emit_expression(codegen, value);
+        emit_formatted(codegen, "; if (!_dv) { gray_panic_code_at(\"%s\", %d, \"P0078\", \"division by zero\"); } ",
+            codegen->file, node->token.line);
+        if (!is_unsigned) {
+            emit_formatted(codegen, "if ((int64_t)%s == %s && _dv == -1) { gray_panic_code_at(\"%s\", %d, \"P0079\", \"%s result is too large; value exceeds the range of this type\"); } ",
+                cur, smin ? smin : "(-9223372036854775807LL - 1)", codegen->file, node->token.line,
+                aop == TOK_SLASH_ASSIGN ? "division" : "modulo");
+        }
+        emit_formatted(codegen, "%s %s _dv; })", cur, binop);
+        return;
+    }
+    if (is_int) {
+        const char *base = binop[0] == '+' ? "add" : binop[0] == '-' ? "sub" : "mul";
+        if (smax) emit_formatted(codegen, "%s(%s, ", sized_check_func(aop, su), cur);
+        else emit_formatted(codegen, "gray_%s%s_check(%s, ", is_unsigned ? "u" : "", base, cur);
+        emit_expression(codegen, value);
+        if (smax && su) emit_formatted(codegen, ", %s, \"%s\"", smax, type_name);
+        else if (smax) emit_formatted(codegen, ", %s, %s, \"%s\"", smin, smax, type_name);
+        emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
+        return;
+    }
+    emit_formatted(codegen, "%s %s (", cur, binop);
+    emit_expression(codegen, value);
+    emit(codegen, ")");
+}
+
+static bool is_compound_assign(TokenType op) {
+    return op == TOK_PLUS_ASSIGN || op == TOK_MINUS_ASSIGN || op == TOK_ASTERISK_ASSIGN ||
+           op == TOK_SLASH_ASSIGN || op == TOK_PERCENT_ASSIGN;
+}
+
 static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
     emit_indent(codegen);
 
@@ -7588,107 +7667,28 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                 if (strcmp(left_t->element_type, "func") == 0 || strncmp(left_t->element_type, "func(", 5) == 0) {
                     c_elem = "void *";
                 } else {
-                    c_elem = gray_type_to_c_codegen(codegen, left_t->element_type);
-                }
-            }
-            /* Check for array field through struct pointer (rvalue assignability issue).
-             * b.items[i] = val where b: ^Bag — the normal member emit produces a
-             * GCC statement expression (rvalue); GRAY_ARRAY_SET's &(arr) would fail.
-             * Inline the nil check and use _dp->field directly as an assignable target. */
-            {
-                AstNode *_set_ptr_obj = NULL;
-                const char *_set_ptr_field = NULL;
-                if (left->kind == NODE_MEMBER_EXPR) {
-                    AstNode *_sobj = left->data.member.object;
-                    GrayType *_sobj_t = codegen->type_table ? typetable_get(codegen->type_table, _sobj) : NULL;
-                    if (_sobj_t && _sobj_t->kind == TK_POINTER) {
-                        _set_ptr_obj = _sobj;
-                        _set_ptr_field = left->data.member.member;
-                    } else if (_sobj->kind == NODE_POSTFIX_EXPR &&
-                               _sobj->data.postfix.op == TOK_CARET) {
-                        _set_ptr_obj = _sobj->data.postfix.left;
-                        _set_ptr_field = left->data.member.member;
-                    }
-                }
-                if (_set_ptr_obj) {
-                    static int arr_set_dp_ctr = 0;
-                    int my_dp = arr_set_dp_ctr++;
-                    TokenType aop2 = node->data.assign.op;
-                    bool is_compound2 = (aop2 == TOK_PLUS_ASSIGN || aop2 == TOK_MINUS_ASSIGN || aop2 == TOK_ASTERISK_ASSIGN);
-                    emit_formatted(codegen, "{ __auto_type _asdp%d = ", my_dp);
-                    emit_expression(codegen, _set_ptr_obj);
-                    emit_formatted(codegen, "; if (!_asdp%d) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } "
-                              "GRAY_ARRAY_SET(_asdp%d->%s, %s, ",
-                          my_dp, codegen->file, node->token.line, my_dp, sanitize_name(_set_ptr_field), c_elem);
-                    emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                    emit(codegen, ", ");
-                    if (is_compound2) {
-                        const char *binop = "+";
-                        if (aop2 == TOK_MINUS_ASSIGN) binop = "-";
-                        else if (aop2 == TOK_ASTERISK_ASSIGN) binop = "*";
-                        emit_formatted(codegen, "GRAY_ARRAY_GET(_asdp%d->%s, %s, ", my_dp, sanitize_name(_set_ptr_field), c_elem);
-                        emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                        emit_formatted(codegen, ") %s (", binop);
-                        emit_expression(codegen, node->data.assign.value);
-                        emit(codegen, ")");
-                    } else {
-                        emit_expression(codegen, node->data.assign.value);
-                    }
-                    emit(codegen, "); }\n");
-                    return;
+                    c_elem = array_storage_c_type(codegen, left_t->element_type);
                 }
             }
-            /* Compound assignment on array element with sized-type overflow check */
-            TokenType aop = node->data.assign.op;
-            bool is_compound = (aop == TOK_PLUS_ASSIGN || aop == TOK_MINUS_ASSIGN || aop == TOK_ASTERISK_ASSIGN);
-            if (is_compound && left_t->element_type) {
-                const char *sn = left_t->element_type;
-                const char *smin = NULL, *smax = NULL;
-                bool su = false;
-                sized_int_bounds(sn, &smin, &smax, &su);
-                if (smax) {
-                    const char *function_name = sized_check_func(aop, su);
-                    if (function_name) {
-                        /* GRAY_ARRAY_SET/GET use int64_t (internal storage width) */
-                        emit_formatted(codegen, "GRAY_ARRAY_SET(");
-                        emit_expression(codegen, left);
-                        emit(codegen, ", int64_t, ");
-                        emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                        emit_formatted(codegen, ", %s(GRAY_ARRAY_GET(", function_name);
-                        emit_expression(codegen, left);
-                        emit(codegen, ", int64_t, ");
-                        emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                        emit(codegen, "), ");
-                        emit_expression(codegen, node->data.assign.value);
-                        if (su) {
-                            emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d));\n", smax, sn, codegen->file, node->token.line);
-                        } else {
-                            emit_formatted(codegen, ", %s, %s, \"%s\", \"%s\", %d));\n", smin, smax, sn, codegen->file, node->token.line);
-                        }
-                        return;
-                    }
-                }
+            /* Compound assignment: read-modify-write through the target's address,
+             * evaluating the array and index expressions once. */
+            if (is_compound_assign(node->data.assign.op)) {
+                emit(codegen, "{ GrayArray *_ca = &(");
+                emit_expression(codegen, left);
+                emit(codegen, "); int64_t _ci = ");
+                emit_expression(codegen, node->data.assign.target->data.index_expr.index);
+                emit_formatted(codegen, "; %s _cc = GRAY_ARRAY_GET(*_ca, %s, _ci); GRAY_ARRAY_SET(*_ca, %s, _ci, ",
+                    c_elem, c_elem, c_elem);
+                emit_compound_value(codegen, node, left_t->element_type, "_cc");
+                emit(codegen, "); }\n");
+                return;
             }
             emit_formatted(codegen, "GRAY_ARRAY_SET(");
             emit_expression(codegen, left);
             emit_formatted(codegen, ", %s, ", c_elem);
             emit_expression(codegen, node->data.assign.target->data.index_expr.index);
             emit(codegen, ", ");
-            /* Non-sized compound assignment on array element: read-modify-write */
-            if (is_compound) {
-                const char *binop = "+";
-                if (aop == TOK_MINUS_ASSIGN) binop = "-";
-                else if (aop == TOK_ASTERISK_ASSIGN) binop = "*";
-                emit_formatted(codegen, "GRAY_ARRAY_GET(");
-                emit_expression(codegen, left);
-                emit_formatted(codegen, ", %s, ", c_elem);
-                emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                emit_formatted(codegen, ") %s (", binop);
-                emit_expression(codegen, node->data.assign.value);
-                emit(codegen, ")");
-            } else {
-                emit_expression(codegen, node->data.assign.value);
-            }
+            emit_expression(codegen, node->data.assign.value);
             emit(codegen, ");\n");
             return;
         }
@@ -7717,18 +7717,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                 if (obj_t && obj_t->kind == TK_POINTER) map_via_ptr = true;
             }
 
-            bool ms_compound = (node->data.assign.op != TOK_ASSIGN);
-            const char *ms_base_op = NULL;
-            if (ms_compound) {
-                switch (node->data.assign.op) {
-                    case TOK_PLUS_ASSIGN:     ms_base_op = "+"; break;
-                    case TOK_MINUS_ASSIGN:    ms_base_op = "-"; break;
-                    case TOK_ASTERISK_ASSIGN: ms_base_op = "*"; break;
-                    case TOK_SLASH_ASSIGN:    ms_base_op = "/"; break;
-                    case TOK_PERCENT_ASSIGN:  ms_base_op = "%"; break;
-                    default: ms_compound = false; break;
-                }
-            }
+            bool ms_compound = is_compound_assign(node->data.assign.op);
             emit_formatted(codegen, "{ %s _mk = ", c_key);
             emit_expression(codegen, node->data.assign.target->data.index_expr.index);
             emit(codegen, "; ");
@@ -7762,9 +7751,9 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             }
             emit_formatted(codegen, "%s _mv = ", c_val);
             if (ms_compound) {
-                emit_formatted(codegen, "*(%s*)_cur %s (", c_val, ms_base_op);
-                emit_expression(codegen, node->data.assign.value);
-                emit(codegen, ")");
+                char cur_val[MSG_BUF_SIZE];
+                snprintf(cur_val, sizeof(cur_val), "(*(%s*)_cur)", c_val);
+                emit_compound_value(codegen, node, left_t->value_type, cur_val);
             } else {
                 emit_expression(codegen, node->data.assign.value);
             }
@@ -7800,6 +7789,19 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         }
     }
 
+    /* Compound assignment through a pointer (p^ += v, p.f += v, a.p.f += v): the
+     * nil-checked access is assignable, so take its address once. */
+    if (is_compound_assign(node->data.assign.op) && node->data.assign.target->kind != NODE_LABEL) {
+        GrayType *tgt_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
+        const char *tgt_tn = (tgt_t && tgt_t->name) ? tgt_t->name : resolve_bigint_type(codegen, node->data.assign.target);
+        emit(codegen, "{ __auto_type _tgt = &(");
+        emit_expression(codegen, node->data.assign.target);
+        emit(codegen, "); *_tgt = ");
+        emit_compound_value(codegen, node, tgt_tn, "(*_tgt)");
+        emit(codegen, "; }\n");
+        return;
+    }
+
     /* Pointer dereference assignment: p^ = value → nil check + *p = value */
     if (node->data.assign.target->kind == NODE_POSTFIX_EXPR &&
         node->data.assign.target->data.postfix.op == TOK_CARET) {
-- 
2.43.0


From 2451f25f1c03190a965eccfa26eaf8a8e398e2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:44 +0000
Subject: [PATCH 10/96] fix: comparisons and arithmetic on integers of
 different types are by value

i8(-1) < u32(1) was false and 0(i8) + 18446744073709551615(uint) gave -1, because
C's usual conversions reinterpreted the negative operand.
---
 grayc/src/codegen/codegen.c | 50 +++++++++++++++++++++++++++++++++++++
 grayc/src/runtime/runtime.h | 28 +++++++++++++++++++++
 2 files changed, 78 insertions(+)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index a86b23c..41c9822 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -211,6 +211,19 @@ static const char *sized_check_func(TokenType op, bool is_unsigned) {
     return NULL;
 }
 
+/* Whether an infix expression has integer operands (up to 64 bits) of types
+ * whose values C would not compare or combine by value: differing signedness,
+ * or a sized type with a full-width unsigned one. */
+static bool mixed_int_operands(AstNode *node, const GrayType *left_type, const GrayType *right_type) {
+    if (!left_type || !right_type || !left_type->name || !right_type->name) return false;
+    if (node->data.infix.left->kind == NODE_INT_VALUE || node->data.infix.right->kind == NODE_INT_VALUE) return false;
+    int left_rank = int_type_rank(left_type->name), right_rank = int_type_rank(right_type->name);
+    if (left_rank < 1 || left_rank > 4 || right_rank < 1 || right_rank > 4) return false;
+    bool left_unsigned = left_type->kind != TK_INT, right_unsigned = right_type->kind != TK_INT;
+    if (left_unsigned != right_unsigned) return true;
+    return left_unsigned && left_rank != right_rank && (left_rank == 4 || right_rank == 4);
+}
+
 static const char *sanitize_name(const char *name) {
     if (!name || !is_c_keyword(name)) return name;
     static char bufs[4][MSG_BUF_SIZE];
@@ -2013,6 +2026,43 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             }
         }
 
+        /* Operands of different integer types: C's usual conversions would
+         * reinterpret a negative operand as a large unsigned one, so compare
+         * by value and compute exactly before checking the range. */
+        if (!codegen->in_const_decl && mixed_int_operands(node, left_type, right_type)) {
+            if (op == TOK_EQ || op == TOK_NOT_EQ || op == TOK_LT || op == TOK_GT ||
+                op == TOK_LT_EQ || op == TOK_GT_EQ) {
+                emit(codegen, "((gray_wide_int)(");
+                emit_expression(codegen, node->data.infix.left);
+                emit_formatted(codegen, ") %s (gray_wide_int)(", operator_to_c_string(op));
+                emit_expression(codegen, node->data.infix.right);
+                emit(codegen, "))");
+                break;
+            }
+            if (op == TOK_PLUS || op == TOK_MINUS || op == TOK_ASTERISK ||
+                op == TOK_SLASH || op == TOK_PERCENT) {
+                bool left_unsigned = left_type->kind != TK_INT;
+                int left_rank = int_type_rank(left_type->name), right_rank = int_type_rank(right_type->name);
+                const char *range_name = left_type->name;
+                if (right_rank <= 3 && (left_rank > 3 || right_rank > left_rank)) range_name = right_type->name;
+                const char *range_min = NULL, *range_max = NULL;
+                bool range_unsigned = false;
+                if (!sized_int_bounds(range_name, &range_min, &range_max, &range_unsigned)) {
+                    range_min = "INT64_MIN";
+                    range_max = left_unsigned ? "UINT64_MAX" : "INT64_MAX";
+                }
+                if (left_unsigned || range_unsigned) range_min = "0";
+                emit_formatted(codegen, "(%s)gray_mixed_check('%s', ", left_unsigned ? "uint64_t" : "int64_t",
+                    operator_to_c_string(op));
+                emit_expression(codegen, node->data.infix.left);
+                emit(codegen, ", ");
+                emit_expression(codegen, node->data.infix.right);
+                emit_formatted(codegen, ", %s, %s, \"%s\", \"%s\", %d)", range_min, range_max, range_name,
+                    codegen->file, node->token.line);
+                break;
+            }
+        }
+
         /* Runtime division/modulo by zero check.
          * GNU statement expressions are not valid as C file-scope initializers,
          * so skip the runtime check when inside a const declaration. */
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index e053290..fad9e9e 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -223,6 +223,34 @@ static inline uint64_t gray_umul_check(uint64_t a, uint64_t b, const char *file,
     return result;
 }
 
+/* Arithmetic on two 64-bit-or-narrower operands of different integer types:
+ * computed exactly, then checked against the range of the result type. */
+__extension__ typedef __int128 gray_wide_int;
+static inline gray_wide_int gray_mixed_check(char op, gray_wide_int a, gray_wide_int b,
+    gray_wide_int min_val, gray_wide_int max_val, const char *type_name, const char *file, int line) {
+    gray_wide_int result = 0;
+    if ((op == '/' || op == '%') && b == 0)
+        gray_panic_code_at(file, line, "P0078", "division by zero");
+    switch (op) {
+        case '+': result = a + b; break;
+        case '-': result = a - b; break;
+        case '*': result = a * b; break;
+        case '/': result = a / b; break;
+        default:  result = a % b; break;
+    }
+    if (result < min_val || result > max_val) {
+        if (op == '/' || op == '%')
+            gray_panic_code_at(file, line, "P0079", "%s result is too large; value exceeds the range of this type",
+                op == '/' ? "division" : "modulo");
+        gray_panic_code_at(file, line,
+            min_val < 0 ? (op == '+' ? "P0011" : op == '-' ? "P0012" : "P0013")
+                        : (result < 0 ? "P0016" : "P0015"),
+            "%s %s result is out of range; value exceeds the range of this type", type_name,
+            op == '+' ? "addition" : op == '-' ? "subtraction" : "multiplication");
+    }
+    return result;
+}
+
 /* Sized signed integer overflow checks (i8, i16, i32) */
 static inline int64_t gray_sized_add_check(int64_t a, int64_t b, int64_t min_val, int64_t max_val,
     const char *type_name, const char *file, int line) {
-- 
2.43.0


From ecf0faf7a720d174c66c5481240e21dc1e3e4b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:44 +0000
Subject: [PATCH 11/96] fix: constant integer expressions fold exactly at file
 scope

Folding wrapped at 64 bits (const uint 18446744073709551615 + 1 was 0), missed the
range of sized types reached through constants, stopped the compiler with SIGFPE on
INT64_MIN / -1, and left file-scope mut initialisers unfolded, which emitted C
statement expressions outside functions.
---
 grayc/src/codegen/codegen.c         |  2 +-
 grayc/src/typechecker/typechecker.c | 95 ++++++++++++++++-------------
 grayc/src/typechecker/typechecker.h |  5 +-
 3 files changed, 58 insertions(+), 44 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 41c9822..a61e719 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -7496,7 +7496,7 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
          * runtime function calls; C rejects them as file-scope initializers.
          * The typechecker has already verified no overflow for such exprs. */
         bool prev_in_const_decl = codegen->in_const_decl;
-        if (codegen->indent == 0 && !node->data.var_decl.mutable)
+        if (codegen->indent == 0)
             codegen->in_const_decl = true;
         /* Bigint literal zero: emit zero constant instead of plain 0 */
         if (type_name && is_bigint_type(type_name) &&
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index f468208..438b864 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -1865,12 +1865,14 @@ static bool is_bigint_type(const char *tn) {
 static bool try_get_literal_int(AstNode *node, int64_t *out) {
     if (!node) return false;
     if (node->kind == NODE_INT_VALUE) {
+        if (node->data.int_value.overflow) return false; /* not an int64 value */
         *out = node->data.int_value.value;
         return true;
     }
     if (node->kind == NODE_PREFIX_EXPR && node->data.prefix.op == TOK_MINUS &&
         node->data.prefix.right && node->data.prefix.right->kind == NODE_INT_VALUE) {
-        *out = -node->data.prefix.right->data.int_value.value;
+        *out = node->data.prefix.right->data.int_value.overflow ? INT64_MIN
+             : -node->data.prefix.right->data.int_value.value;
         return true;
     }
     /* Simple constant folding for literal +, -, * */
@@ -1878,23 +1880,24 @@ static bool try_get_literal_int(AstNode *node, int64_t *out) {
         int64_t left_value, right_value;
         if (try_get_literal_int(node->data.infix.left, &left_value) &&
             try_get_literal_int(node->data.infix.right, &right_value)) {
-            if (node->data.infix.op == TOK_PLUS) { *out = left_value + right_value; return true; }
-            if (node->data.infix.op == TOK_MINUS) { *out = left_value - right_value; return true; }
-            if (node->data.infix.op == TOK_ASTERISK) { *out = left_value * right_value; return true; }
-            if (node->data.infix.op == TOK_SLASH && right_value != 0) { *out = left_value / right_value; return true; }
+            if (node->data.infix.op == TOK_PLUS) return !__builtin_add_overflow(left_value, right_value, out);
+            if (node->data.infix.op == TOK_MINUS) return !__builtin_sub_overflow(left_value, right_value, out);
+            if (node->data.infix.op == TOK_ASTERISK) return !__builtin_mul_overflow(left_value, right_value, out);
+            if (node->data.infix.op == TOK_SLASH && right_value != 0 &&
+                !(left_value == INT64_MIN && right_value == -1)) { *out = left_value / right_value; return true; }
         }
     }
     return false;
 }
 
 /* Register a file-scope const integer value for later constant folding. */
-static void typechecker_register_const_int(TypeChecker *checker, const char *name, int64_t value) {
+static void typechecker_register_const_int(TypeChecker *checker, const char *name, ConstInt value) {
     if (checker->const_int_count >= checker->const_int_cap) {
         checker->const_int_cap = checker->const_int_cap ? checker->const_int_cap * 2 : 8;
         checker->const_int_names = xrealloc(checker->const_int_names,
             sizeof(const char *) * (size_t)checker->const_int_cap);
         checker->const_int_values = xrealloc(checker->const_int_values,
-            sizeof(int64_t) * (size_t)checker->const_int_cap);
+            sizeof(ConstInt) * (size_t)checker->const_int_cap);
     }
     checker->const_int_names[checker->const_int_count] = name;
     checker->const_int_values[checker->const_int_count] = value;
@@ -1945,7 +1948,7 @@ static void typechecker_resolve_array_size(TypeChecker *checker, AstNode *node)
     int64_t resolved = 0;
     for (int i = 0; i < checker->const_int_count; i++) {
         if (strcmp(checker->const_int_names[i], size_buf) == 0) {
-            resolved = checker->const_int_values[i];
+            resolved = (int64_t)checker->const_int_values[i];
             found = true;
             break;
         }
@@ -1988,24 +1991,19 @@ static void typechecker_resolve_array_size(TypeChecker *checker, AstNode *node)
  * Returns true if the expression folded to *out with no overflow.
  * Returns false if:
  *   - any operand is not a known constant (*overflowed unchanged), or
- *   - arithmetic overflowed int64 (*overflowed set to true).
+ *   - a result left the 64-bit range of the declared type's signedness
+ *     (*overflowed set to true).
  */
-static bool typechecker_fold_const_int(TypeChecker *checker, AstNode *node,
-                               int64_t *out, bool *overflowed) {
+static bool typechecker_fold_const_int(TypeChecker *checker, AstNode *node, bool is_unsigned,
+                               ConstInt *out, bool *overflowed) {
     if (!node) return false;
     if (node->kind == NODE_INT_VALUE) {
         /* overflow_u64 means the literal exceeds uint64 range entirely;
          * overflow alone only means it exceeds int64 range (still valid
-         * for unsigned Grayscale types).  Only treat overflow_u64 as a hard
-         * failure here since we fold using the raw int64 bit pattern. */
+         * for unsigned Grayscale types). */
         if (node->data.int_value.overflow_u64) { *overflowed = true; return false; }
-        *out = node->data.int_value.value;
-        return true;
-    }
-    if (node->kind == NODE_PREFIX_EXPR && node->data.prefix.op == TOK_MINUS &&
-        node->data.prefix.right && node->data.prefix.right->kind == NODE_INT_VALUE) {
-        if (node->data.prefix.right->data.int_value.overflow_u64) { *overflowed = true; return false; }
-        *out = -node->data.prefix.right->data.int_value.value;
+        *out = node->data.int_value.overflow ? (ConstInt)(uint64_t)node->data.int_value.value
+                                             : node->data.int_value.value;
         return true;
     }
     if (node->kind == NODE_LABEL) {
@@ -2018,33 +2016,38 @@ static bool typechecker_fold_const_int(TypeChecker *checker, AstNode *node,
         }
         return false;
     }
-    if (node->kind == NODE_INFIX_EXPR) {
-        int64_t left_value, right_value;
+    ConstInt result;
+    if (node->kind == NODE_PREFIX_EXPR && node->data.prefix.op == TOK_MINUS) {
+        if (!typechecker_fold_const_int(checker, node->data.prefix.right, is_unsigned, &result, overflowed))
+            return false;
+        result = -result;
+    } else if (node->kind == NODE_INFIX_EXPR) {
+        ConstInt left_value, right_value;
         bool left_overflowed = false, right_overflowed = false;
-        bool left_ok = typechecker_fold_const_int(checker, node->data.infix.left, &left_value, &left_overflowed);
-        bool right_ok = typechecker_fold_const_int(checker, node->data.infix.right, &right_value, &right_overflowed);
+        bool left_ok = typechecker_fold_const_int(checker, node->data.infix.left, is_unsigned, &left_value, &left_overflowed);
+        bool right_ok = typechecker_fold_const_int(checker, node->data.infix.right, is_unsigned, &right_value, &right_overflowed);
         if (!left_ok || !right_ok) {
             if (left_overflowed || right_overflowed) *overflowed = true;
             return false;
         }
         TokenType op = node->data.infix.op;
-        int64_t result;
-        if (op == TOK_PLUS) {
-            if (__builtin_add_overflow(left_value, right_value, &result)) { *overflowed = true; return false; }
-            *out = result; return true;
-        }
-        if (op == TOK_MINUS) {
-            if (__builtin_sub_overflow(left_value, right_value, &result)) { *overflowed = true; return false; }
-            *out = result; return true;
-        }
-        if (op == TOK_ASTERISK) {
+        if (op == TOK_PLUS) result = left_value + right_value;
+        else if (op == TOK_MINUS) result = left_value - right_value;
+        else if (op == TOK_ASTERISK) {
             if (__builtin_mul_overflow(left_value, right_value, &result)) { *overflowed = true; return false; }
-            *out = result; return true;
         }
-        if (op == TOK_SLASH && right_value != 0) { *out = left_value / right_value; return true; }
-        if (op == TOK_PERCENT && right_value != 0) { *out = left_value % right_value; return true; }
+        else if (op == TOK_SLASH && right_value != 0) result = left_value / right_value;
+        else if (op == TOK_PERCENT && right_value != 0) result = left_value % right_value;
+        else return false;
+    } else {
+        return false;
     }
-    return false;
+    if (result < INT64_MIN || result > (is_unsigned ? (ConstInt)UINT64_MAX : (ConstInt)INT64_MAX)) {
+        *overflowed = true;
+        return false;
+    }
+    *out = result;
+    return true;
 }
 
 /* Check if a literal integer value fits in the declared sized type.
@@ -7710,7 +7713,7 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
          * as C file-scope initializers.  The typechecker must evaluate and
          * reject overflowing expressions before codegen runs.
          * E5039: constant expression overflows the declared integer type. */
-        if (!node->data.var_decl.mutable &&
+        if ((!node->data.var_decl.mutable || checker->func_depth == 0) &&
             node->data.var_decl.type_name && node->data.var_decl.value) {
             const char *tn = node->data.var_decl.type_name;
             /* Track integer types (signed and unsigned) in the const table.
@@ -7727,10 +7730,18 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                 strcmp(tn, "u8") == 0 || strcmp(tn, "u16") == 0 || strcmp(tn, "u32") == 0 ||
                 strcmp(tn, "u128") == 0 || strcmp(tn, "u256") == 0;
             if (is_int_type) {
-                int64_t folded = 0;
+                ConstInt folded = 0;
                 bool overflowed = false;
-                bool ok = typechecker_fold_const_int(checker, node->data.var_decl.value, &folded, &overflowed);
-                if (ok) {
+                bool ok = typechecker_fold_const_int(checker, node->data.var_decl.value,
+                    is_unsigned_type(tn), &folded, &overflowed);
+                int64_t literal_value;
+                if (ok && folded <= INT64_MAX &&
+                    !try_get_literal_int(node->data.var_decl.value, &literal_value)) {
+                    /* Literal expressions are range-checked with the declaration. */
+                    check_integer_range(checker->diag, NODE_FILE(checker, node),
+                        node->token.line, node->token.column, tn, (int64_t)folded);
+                }
+                if (ok && !node->data.var_decl.mutable) {
                     /* Expression is a valid compile-time constant.  Register
                      * the value so later const declarations can reference it. */
                     typechecker_register_const_int(checker, node->data.var_decl.name, folded);
diff --git a/grayc/src/typechecker/typechecker.h b/grayc/src/typechecker/typechecker.h
index dbfc21a..d327ce4 100644
--- a/grayc/src/typechecker/typechecker.h
+++ b/grayc/src/typechecker/typechecker.h
@@ -17,6 +17,9 @@
 #include "../util/error.h"
 #include "../util/arena.h"
 
+/* Value of a folded constant integer expression, exact for int and uint. */
+__extension__ typedef __int128 ConstInt;
+
 /* Type annotation table: maps AST node pointers to resolved types.
  * Uses open-addressing hash table with pointer hashing for O(1) lookup. */
 #define TYPETABLE_INIT_CAP 256
@@ -190,7 +193,7 @@ typedef struct {
      * Used to constant-fold expressions in subsequent const initializers
      * and to detect overflow before codegen runs. */
     const char **const_int_names;
-    int64_t *const_int_values;
+    ConstInt *const_int_values;
     int const_int_count;
     int const_int_cap;
 
-- 
2.43.0


From ceb1af401de87a4b8b63e4656ad53e94a0b4d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:27 +0000
Subject: [PATCH 12/96] fix: wide integers compute exactly or panic in every
 form; rvalue arrays and maps passed by address stay alive

i128/u128/i256/u256: borrow propagation in 256-bit subtraction and division,
overflow checks for division, negation and conversions (located panics),
literals in any base, ++/--, array, map and struct slots, iteration, printing,
and names looked up by checked type instead of a scope-less table. Map keys
and values use the map's storage types (get_or_default truncated to int).
Array and map rvalues passed by address no longer point to a dead temporary.
---
 grayc/src/codegen/codegen.c         | 423 ++++++++++++----------------
 grayc/src/runtime/bigint.h          | 258 +++++++++--------
 grayc/src/typechecker/typechecker.c |   6 +-
 3 files changed, 329 insertions(+), 358 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index a61e719..4c7eedb 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -460,9 +460,10 @@ static const char *gray_map_element_c_type(CodeGen *codegen, const char *gray_tn
     if (strcmp(gray_tn, "func") == 0 || strncmp(gray_tn, "func(", 5) == 0) return "void *";
     GrayType *type = type_from_name(gray_tn);
     if (!type) return "int64_t";
+    if (is_bigint_type(gray_tn)) return gray_type_to_c_codegen(codegen, gray_tn);
     switch (type->kind) {
     case TK_FLOAT:   return "double";
-    case TK_UINT:    return is_bigint_type(gray_tn) ? "int64_t" : "uint64_t";
+    case TK_UINT:    return "uint64_t";
     case TK_STRING:  return "GrayString";
     case TK_BOOL:    return "bool";
     case TK_CHAR:    return "int32_t";
@@ -842,6 +843,10 @@ static const char *bigint_prefix(const char *type_str) {
 static const char *resolve_bigint_type(CodeGen *codegen, AstNode *node) {
     if (!node) return NULL;
     if (node->kind == NODE_LABEL) {
+        /* The checked type decides; the table of declared names does not know scopes. */
+        GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, node) : NULL;
+        if (type && type->name && (type->kind == TK_INT || type->kind == TK_UINT))
+            return is_bigint_type(type->name) ? type->name : NULL;
         return lookup_bigint_variable(codegen, node->data.label.value);
     }
     /* If the node is a call to a bigint cast function */
@@ -857,6 +862,12 @@ static const char *resolve_bigint_type(CodeGen *codegen, AstNode *node) {
         return resolve_bigint_type(codegen, node->data.prefix.right);
     /* If this is an infix expression, check left operand */
     if (node->kind == NODE_INFIX_EXPR) {
+        switch (node->data.infix.op) {
+        case TOK_EQ: case TOK_NOT_EQ: case TOK_LT: case TOK_GT: case TOK_LT_EQ: case TOK_GT_EQ:
+            return NULL; /* a comparison yields bool */
+        default:
+            break;
+        }
         const char *left_type = resolve_bigint_type(codegen, node->data.infix.left);
         if (left_type) return left_type;
         return resolve_bigint_type(codegen, node->data.infix.right);
@@ -869,9 +880,49 @@ static const char *resolve_bigint_type(CodeGen *codegen, AstNode *node) {
             is_bigint_type(ptr_t->element_type))
             return ptr_t->element_type;
     }
+    /* Fields, elements, map values, calls: the checked type of the expression */
+    if (node->kind == NODE_MEMBER_EXPR || node->kind == NODE_INDEX_EXPR || node->kind == NODE_CALL_EXPR) {
+        GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, node) : NULL;
+        if (type && type->name && is_bigint_type(type->name)) return type->name;
+    }
     return NULL;
 }
 
+/* Emit the range-checked conversion of any integer expression to a wide type. */
+static void emit_bigint_conversion(CodeGen *codegen, AstNode *value, const char *target, int line) {
+    const char *source = resolve_bigint_type(codegen, value);
+    GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, value) : NULL;
+    if (!source && type && type->name && is_bigint_type(type->name)) source = type->name;
+    if (source && strcmp(source, target) == 0) {
+        emit_expression(codegen, value);
+        return;
+    }
+    if (source) {
+        emit_formatted(codegen, "gray_wide_to_%s(gray_wide_from_%s(", target, source);
+    } else if (value->kind == NODE_INT_VALUE && value->data.int_value.overflow) {
+        emit_formatted(codegen, "%s_from_decimal(\"%s\")", bigint_prefix(target), value->data.int_value.literal);
+        return;
+    } else if (type && (type->kind == TK_UINT || type->kind == TK_BYTE)) {
+        emit_formatted(codegen, "gray_wide_to_%s(gray_wide_from_u64((uint64_t)", target);
+    } else {
+        emit_formatted(codegen, "gray_wide_to_%s(gray_wide_from_i64((int64_t)", target);
+    }
+    emit(codegen, "(");
+    emit_expression(codegen, value);
+    emit_formatted(codegen, ")), \"%s\", \"%s\", %d)", source ? source : (type && type->name ? type->name : "int"),
+        codegen->file, line);
+}
+
+/* Emit a value for a slot of C type c_type: literals and narrower integers are
+ * widened when the slot holds a wide integer. */
+static void emit_expression_as(CodeGen *codegen, AstNode *value, const char *c_type) {
+    if (strncmp(c_type, "gray_", 5) == 0 && is_bigint_type(c_type + 5)) {
+        emit_bigint_conversion(codegen, value, c_type + 5, value->token.line);
+    } else {
+        emit_expression(codegen, value);
+    }
+}
+
 /* Emit a bigint operand, widening smaller integer or bigint operands so
  * mixed-width expressions like i128+i64 or i256+i128 pass correctly typed
  * values to the bigint arithmetic helpers. */
@@ -896,50 +947,13 @@ static void emit_bigint_operand(CodeGen *codegen, AstNode *operand,
             emit_formatted(codegen, "%s_from_decimal(\"-%s\")", pfx,
                   operand->data.prefix.right->data.int_value.literal);
         } else {
-            emit_formatted(codegen, "%s_from_i64(%lldLL)", pfx,
-                  -(long long)operand->data.prefix.right->data.int_value.value);
-        }
-        return;
-    }
-    /* Check if operand is a bigint label and if it needs widening to a larger bigint */
-    if (operand->kind == NODE_LABEL) {
-        const char *src_bi = lookup_bigint_variable(codegen, operand->data.label.value);
-        if (src_bi) {
-            /* Operand is already a bigint — emit directly if same type,
-             * or wrap with a widening constructor for bigint→bigint promotion. */
-            if (strcmp(src_bi, bi_type) == 0) {
-                emit_expression(codegen, operand);
-            } else if (strcmp(bi_type, "i256") == 0 && strcmp(src_bi, "i128") == 0) {
-                emit_formatted(codegen, "gray_i256_from_i128(");
-                emit_expression(codegen, operand);
-                emit(codegen, ")");
-            } else if (strcmp(bi_type, "u256") == 0 && strcmp(src_bi, "u128") == 0) {
-                emit_formatted(codegen, "gray_u256_from_u128(");
-                emit_expression(codegen, operand);
-                emit(codegen, ")");
-            } else {
-                /* Unknown bigint-to-bigint: emit directly and let C catch it */
-                emit_expression(codegen, operand);
-            }
-            return;
-        }
-        /* Non-bigint label: widen to the target bigint type.
-         * Use operand_t kind when available; fall back to target signedness. */
-        bool target_unsigned = (strcmp(bi_type, "u128") == 0 || strcmp(bi_type, "u256") == 0);
-        bool src_unsigned = operand_t
-            ? (operand_t->kind == TK_UINT || operand_t->kind == TK_BYTE)
-            : target_unsigned;
-        if (src_unsigned) {
-            emit_formatted(codegen, "%s_from_u64((uint64_t)(", pfx);
-        } else {
-            emit_formatted(codegen, "%s_from_i64((int64_t)(", pfx);
+            emit_bigint_conversion(codegen, operand, bi_type, operand->token.line);
         }
-        emit_expression(codegen, operand);
-        emit(codegen, "))");
         return;
     }
-    /* Non-label expression — emit directly */
-    emit_expression(codegen, operand);
+    /* Anything else: widen (or check) to the operation's type. */
+    (void)operand_t;
+    emit_bigint_conversion(codegen, operand, bi_type, operand->token.line);
 }
 
 static bool is_mutable_parameter(CodeGen *codegen, const char *name) {
@@ -1463,6 +1477,11 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
         /* Also check var decl context for bigint element type */
         if (!bi_elem && codegen->current_var_type && is_bigint_type(codegen->current_var_type))
             bi_elem = codegen->current_var_type;
+        if (codegen->current_var_type && codegen->current_var_type[0] == '[') {
+            GrayType *declared_t = type_from_name(codegen->current_var_type);
+            if (declared_t && declared_t->element_type && is_bigint_type(declared_t->element_type))
+                bi_elem = declared_t->element_type;
+        }
         /* Fall back to the declared array type when the typetable has no
          * entry for the first element (happens for module-qualified struct
          * function calls — the call's return type isn't always threaded
@@ -1554,7 +1573,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
         emit_formatted(codegen, "gray_array_from(gray_default_arena, (%s[]){", c_type);
         for (int i = 0; i < count; i++) {
             if (i > 0) emit(codegen, ", ");
-            emit_expression(codegen, node->data.array_value.elements[i]);
+            emit_expression_as(codegen, node->data.array_value.elements[i], c_type);
         }
         emit_formatted(codegen, "}, sizeof(%s), %d)", c_type, count);
         break;
@@ -1611,7 +1630,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
 
         for (int i = 0; i < count; i++) {
             emit_formatted(codegen, "{ %s _mk = ", c_key_type);
-            emit_expression(codegen, node->data.map_value.keys[i]);
+            emit_expression_as(codegen, node->data.map_value.keys[i], c_key_type);
             emit_formatted(codegen, "; %s _mv = ", c_val_type);
             if (inner_var_type) {
                 const char *saved = codegen->current_var_type;
@@ -1619,7 +1638,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 emit_expression(codegen, node->data.map_value.values[i]);
                 codegen->current_var_type = saved;
             } else {
-                emit_expression(codegen, node->data.map_value.values[i]);
+                emit_expression_as(codegen, node->data.map_value.values[i], c_val_type);
             }
             emit_formatted(codegen, "; gray_map_set(gray_default_arena, &_ml%d, &_mk, &_mv); } ", my_counter);
         }
@@ -1683,7 +1702,11 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             if (field_type) {
                 const char *saved = codegen->current_var_type;
                 codegen->current_var_type = field_type;
-                emit_expression(codegen, node->data.struct_value.field_values[i]);
+                if (is_bigint_type(field_type)) {
+                    emit_bigint_conversion(codegen, node->data.struct_value.field_values[i], field_type, node->token.line);
+                } else {
+                    emit_expression(codegen, node->data.struct_value.field_values[i]);
+                }
                 codegen->current_var_type = saved;
             } else {
                 emit_expression(codegen, node->data.struct_value.field_values[i]);
@@ -1731,9 +1754,9 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
         if (node->data.prefix.op == TOK_MINUS) {
             const char *bi_type = resolve_bigint_type(codegen, node->data.prefix.right);
             if (bi_type && (strcmp(bi_type, "i128") == 0 || strcmp(bi_type, "i256") == 0)) {
-                emit_formatted(codegen, "%s_neg(", bigint_prefix(bi_type));
+                emit_formatted(codegen, "%s_neg_checked(", bigint_prefix(bi_type));
                 emit_expression(codegen, node->data.prefix.right);
-                emit(codegen, ")");
+                emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
                 break;
             }
         }
@@ -1924,8 +1947,9 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             /* Map membership: key in map → gray_maps_has_key */
             if (arr_t && arr_t->kind == TK_MAP) {
                 if (negated) emit(codegen, "!");
-                emit_formatted(codegen, "({ %s _ik = ", gray_map_element_c_type(codegen, arr_t->key_type));
-                emit_expression(codegen, node->data.infix.left);
+                const char *c_key = gray_map_element_c_type(codegen, arr_t->key_type);
+                emit_formatted(codegen, "({ %s _ik = ", c_key);
+                emit_expression_as(codegen, node->data.infix.left, c_key);
                 emit(codegen, "; gray_maps_has_key(&");
                 emit_expression(codegen, node->data.infix.right);
                 emit(codegen, ", &_ik); })");
@@ -2007,7 +2031,8 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 else if (op == TOK_LT_EQ) fn_op = "le";
                 else if (op == TOK_GT_EQ) fn_op = "ge";
                 if (fn_op) {
-                    bool is_checked = (strcmp(fn_op, "add") == 0 || strcmp(fn_op, "sub") == 0 || strcmp(fn_op, "mul") == 0);
+                    bool is_checked = op == TOK_PLUS || op == TOK_MINUS || op == TOK_ASTERISK ||
+                        op == TOK_SLASH || op == TOK_PERCENT;
                     if (is_checked) {
                         emit_formatted(codegen, "%s_%s_checked(", pfx, fn_op);
                     } else {
@@ -2214,6 +2239,15 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             emit(codegen, "(*({ __auto_type _dp = ");
             emit_expression(codegen, node->data.postfix.left);
             emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp; }))", codegen->file, node->token.line);
+        } else if ((node->data.postfix.op == TOK_INCREMENT || node->data.postfix.op == TOK_DECREMENT) &&
+                   resolve_bigint_type(codegen, node->data.postfix.left)) {
+            const char *big_name = resolve_bigint_type(codegen, node->data.postfix.left);
+            const char *pfx = bigint_prefix(big_name);
+            emit_formatted(codegen, "({ %s *_bt = &(", gray_type_to_c_codegen(codegen, big_name));
+            emit_expression(codegen, node->data.postfix.left);
+            emit_formatted(codegen, "); *_bt = %s_%s_checked(*_bt, %s_from_%s(1), \"%s\", %d); })",
+                pfx, node->data.postfix.op == TOK_INCREMENT ? "add" : "sub",
+                pfx, big_name[0] == 'u' ? "u64" : "i64", codegen->file, node->token.line);
         } else if (node->data.postfix.op == TOK_INCREMENT) {
             /* Overflow-checked increment; sized types need bounds check */
             GrayType *postfix_type = codegen->type_table ? typetable_get(codegen->type_table, node->data.postfix.left) : NULL;
@@ -2632,12 +2666,12 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 emit_formatted(codegen, "(*({ GrayMap _mt = ");
                 emit_expression(codegen, node->data.index_expr.left);
                 emit_formatted(codegen, "; %s _mk = ", c_key);
-                emit_expression(codegen, node->data.index_expr.index);
+                emit_expression_as(codegen, node->data.index_expr.index, c_key);
                 emit_formatted(codegen, "; void *_mv = gray_map_get(&_mt, &_mk); if (!_mv) { gray_panic_code_at(\"%s\", %d, \"P0081\", \"key not found in map\"); } ", codegen->file, node->token.line);
                 emit_formatted(codegen, "(%s *)_mv; }))", c_val);
             } else {
                 emit_formatted(codegen, "(*({ %s _mk = ", c_key);
-                emit_expression(codegen, node->data.index_expr.index);
+                emit_expression_as(codegen, node->data.index_expr.index, c_key);
                 emit_formatted(codegen, "; void *_mv = gray_map_get(&");
                 emit_expression(codegen, node->data.index_expr.left);
                 emit_formatted(codegen, ", &_mk); if (!_mv) { gray_panic_code_at(\"%s\", %d, \"P0081\", \"key not found in map\"); } ", codegen->file, node->token.line);
@@ -2750,24 +2784,15 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             const char *src_bi = (val_t && val_t->name && is_bigint_type(val_t->name))
                 ? val_t->name : resolve_bigint_type(codegen, val);
             if (target_is_bi || src_bi) {
-                if (target_is_bi && !src_bi) {
-                    /* scalar → wide: use from_i64 / from_u64 */
-                    bool dst_unsigned = (target[0] == 'u');
-                    if (dst_unsigned) {
-                        emit_formatted(codegen, "%s_from_u64((uint64_t)(", bigint_prefix(target));
-                    } else {
-                        emit_formatted(codegen, "%s_from_i64((int64_t)(", bigint_prefix(target));
-                    }
-                    emit_expression(codegen, val);
-                    emit(codegen, "))");
-                } else if (!target_is_bi && src_bi) {
+                if (target_is_bi) {
+                    emit_bigint_conversion(codegen, val, target, node->token.line);
+                } else {
                     /* wide → scalar: range-checked extraction to int64/uint64,
                      * with additional narrow-range check for sub-64-bit targets */
                     bool dst_unsigned = (strcmp(target, "uint") == 0 || strcmp(target, "u64") == 0 ||
                         strcmp(target, "u8") == 0 || strcmp(target, "byte") == 0 ||
                         strcmp(target, "u16") == 0 || strcmp(target, "u32") == 0);
-                    const char *bp = bigint_prefix(src_bi);
-
+                    
                     /* Determine if an additional narrow range check is needed */
                     const char *nmin = NULL, *nmax = NULL;
                     bool narrow_unsigned = false;
@@ -2779,38 +2804,24 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                     else if (strcmp(target, "u32") == 0) { narrow_unsigned = true; nmax = "4294967295ULL"; }
 
                     if (nmax && narrow_unsigned) {
-                        emit_formatted(codegen, "(%s)gray_ucast_check((int64_t)%s_to_u64(", gray_type_to_c_codegen(codegen, target), bp);
+                        emit_formatted(codegen, "(%s)gray_ucast_check((int64_t)gray_wide_to_u64(gray_wide_from_%s(", gray_type_to_c_codegen(codegen, target), src_bi);
                         emit_expression(codegen, val);
-                        emit_formatted(codegen, "), %s, \"%s\", \"%s\", %d)", nmax, target, codegen->file, node->token.line);
+                        emit_formatted(codegen, "), \"%s\", \"%s\", %d), %s, \"%s\", \"%s\", %d)",
+                            src_bi, codegen->file, node->token.line, nmax, target, codegen->file, node->token.line);
                     } else if (nmax) {
-                        emit_formatted(codegen, "(%s)gray_cast_check(%s_to_i64(", gray_type_to_c_codegen(codegen, target), bp);
+                        emit_formatted(codegen, "(%s)gray_cast_check(gray_wide_to_i64(gray_wide_from_%s(", gray_type_to_c_codegen(codegen, target), src_bi);
                         emit_expression(codegen, val);
-                        emit_formatted(codegen, "), %s, %s, \"%s\", \"%s\", %d)", nmin, nmax, target, codegen->file, node->token.line);
+                        emit_formatted(codegen, "), \"%s\", \"%s\", %d), %s, %s, \"%s\", \"%s\", %d)",
+                            src_bi, codegen->file, node->token.line, nmin, nmax, target, codegen->file, node->token.line);
                     } else if (dst_unsigned) {
-                        emit_formatted(codegen, "(%s)%s_to_u64(", gray_type_to_c_codegen(codegen, target), bp);
+                        emit_formatted(codegen, "(%s)gray_wide_to_u64(gray_wide_from_%s(", gray_type_to_c_codegen(codegen, target), src_bi);
                         emit_expression(codegen, val);
-                        emit(codegen, ")");
+                        emit_formatted(codegen, "), \"%s\", \"%s\", %d)", src_bi, codegen->file, node->token.line);
                     } else {
-                        emit_formatted(codegen, "(%s)%s_to_i64(", gray_type_to_c_codegen(codegen, target), bp);
+                        emit_formatted(codegen, "(%s)gray_wide_to_i64(gray_wide_from_%s(", gray_type_to_c_codegen(codegen, target), src_bi);
                         emit_expression(codegen, val);
-                        emit(codegen, ")");
+                        emit_formatted(codegen, "), \"%s\", \"%s\", %d)", src_bi, codegen->file, node->token.line);
                     }
-                } else {
-                    /* wide → wide: use cross-type constructors */
-                    if (strcmp(src_bi, "i128") == 0 && strcmp(target, "u128") == 0)
-                        { emit(codegen, "gray_u128_from_i128("); emit_expression(codegen, val); emit(codegen, ")"); }
-                    else if (strcmp(src_bi, "u128") == 0 && strcmp(target, "i128") == 0)
-                        { emit(codegen, "gray_i128_from_u128("); emit_expression(codegen, val); emit(codegen, ")"); }
-                    else if (strcmp(src_bi, "i128") == 0 && strcmp(target, "i256") == 0)
-                        { emit(codegen, "gray_i256_from_i128("); emit_expression(codegen, val); emit(codegen, ")"); }
-                    else if (strcmp(src_bi, "u128") == 0 && strcmp(target, "u256") == 0)
-                        { emit(codegen, "gray_u256_from_u128("); emit_expression(codegen, val); emit(codegen, ")"); }
-                    else if (strcmp(src_bi, "i256") == 0 && strcmp(target, "i128") == 0)
-                        { emit(codegen, "gray_i128_from_i256("); emit_expression(codegen, val); emit(codegen, ")"); }
-                    else if (strcmp(src_bi, "u256") == 0 && strcmp(target, "u128") == 0)
-                        { emit(codegen, "gray_u128_from_u256("); emit_expression(codegen, val); emit(codegen, ")"); }
-                    else
-                        { emit_expression(codegen, val); } /* same-type no-op */
                 }
                 break;
             }
@@ -3220,6 +3231,13 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
         return;
     }
 
+    if ((type->kind == TK_INT || type->kind == TK_UINT) && is_bigint_type(type->name)) {
+        emit_indent(codegen);
+        emit_formatted(codegen, "{ GrayString _bs = %s_to_string(gray_default_arena, %s); fprintf(%s, \"%%.*s\", _bs.len, _bs.data); }\n",
+            bigint_prefix(type->name), c_expr, stream);
+        return;
+    }
+
     switch (type->kind) {
     case TK_INT: case TK_BYTE: case TK_ENUM:
         emit_indent(codegen);
@@ -3280,7 +3298,7 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
         /* For composite element types, capture in temp var */
         char elem_expr[MSG_BUF_SIZE];
         if (elem_t->kind == TK_STRUCT || elem_t->kind == TK_ARRAY ||
-            elem_t->kind == TK_MAP || elem_t->kind == TK_POINTER) {
+            elem_t->kind == TK_MAP || elem_t->kind == TK_POINTER || is_bigint_type(elem_tn)) {
             int euid = _gray_print_uid++;
             emit_indent(codegen);
             emit_formatted(codegen, "%s _gray_pv%d = GRAY_ARRAY_GET((%s), %s, _gray_pi%d);\n",
@@ -3870,20 +3888,7 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
     /* Bigint conversion functions: i128(), u128(), i256(), u256() */
     if (node->data.call.arg_count == 1 && is_bigint_type(func)) {
         AstNode *carg = node->data.call.args[0];
-        const char *src_bi = resolve_bigint_type(codegen, carg);
-        const char *pfx = bigint_prefix(func);
-        if (src_bi) {
-            /* Bigint→bigint cast */
-            emit_formatted(codegen, "%s_from_%s(", pfx, src_bi);
-            emit_expression(codegen, carg);
-            emit(codegen, ")");
-        } else {
-            /* Scalar→bigint: e.g., gray_i128_from_i64(x) */
-            const char *from_suffix = (strcmp(func, "u128") == 0 || strcmp(func, "u256") == 0) ? "u64" : "i64";
-            emit_formatted(codegen, "%s_from_%s(", pfx, from_suffix);
-            emit_expression(codegen, carg);
-            emit(codegen, ")");
-        }
+        emit_bigint_conversion(codegen, carg, func, node->token.line);
         return true;
     }
 
@@ -3901,13 +3906,10 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
             /* Bigint→scalar: e.g., int(x128) → gray_i128_to_i64(x128) */
             const char *src_bi = resolve_bigint_type(codegen, carg);
             if (src_bi) {
-                const char *src_pfx = bigint_prefix(src_bi);
-                bool src_unsigned = (strcmp(src_bi, "u128") == 0 || strcmp(src_bi, "u256") == 0);
-                bool dst_unsigned = (strcmp(func, "uint") == 0);
-                const char *to_suffix = (src_unsigned || dst_unsigned) ? "u64" : "i64";
-                emit_formatted(codegen, "((%s)%s_to_%s(", cast_type, src_pfx, to_suffix);
+                emit_formatted(codegen, "((%s)gray_wide_to_%s(gray_wide_from_%s(", cast_type,
+                    strcmp(func, "uint") == 0 ? "u64" : "i64", src_bi);
                 emit_expression(codegen, carg);
-                emit(codegen, "))");
+                emit_formatted(codegen, "), \"%s\", \"%s\", %d))", src_bi, codegen->file, node->token.line);
                 return true;
             }
             /* String→numeric conversion */
@@ -4198,25 +4200,31 @@ static bool emit_math_call(CodeGen *codegen, AstNode *node, const char *func) {
 }
 
 /* Helper: returns true when the expression is an assignable target whose address can be
- * taken directly with &.  For rvalues (function calls, literals, etc.) we must
- * materialise into a statement-expression temporary first. */
+ * taken directly with &.  For rvalues (function calls, literals, members of a
+ * returned struct, etc.) we must materialise into a temporary first. */
 static bool expression_is_assignable(AstNode *expr) {
+    if (expr->kind == NODE_MEMBER_EXPR) {
+        return expr->data.member.object->kind != NODE_CALL_EXPR &&
+               (expr->data.member.object->kind != NODE_MEMBER_EXPR ||
+                expression_is_assignable(expr->data.member.object));
+    }
     return expr->kind == NODE_LABEL ||
-           expr->kind == NODE_MEMBER_EXPR ||
            expr->kind == NODE_INDEX_EXPR;
 }
 
-/* Emit &expr, materialising rvalues into a statement-expression temporary.
- * `tmp` is the temp variable name (must be unique within the enclosing expr). */
-static void emit_address_of(CodeGen *codegen, AstNode *expr, const char *tmp) {
+/* Emit &expr for an array or map argument. An rvalue is materialised into a
+ * compound literal: unlike a temporary declared inside a statement expression,
+ * it stays alive until the block that contains the call ends. */
+static void emit_address_of(CodeGen *codegen, AstNode *expr) {
     if (expression_is_assignable(expr)) {
         emit(codegen, "&");
         emit_expression(codegen, expr);
-    } else {
-        emit_formatted(codegen, "({ __auto_type %s = ", tmp);
-        emit_expression(codegen, expr);
-        emit_formatted(codegen, "; &%s; })", tmp);
+        return;
     }
+    GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, expr) : NULL;
+    emit_formatted(codegen, "(%s[1]){ ", type && type->kind == TK_MAP ? "GrayMap" : "GrayArray");
+    emit_expression(codegen, expr);
+    emit(codegen, " }");
 }
 
 /* --- @maps module --- */
@@ -4224,13 +4232,13 @@ static void emit_address_of(CodeGen *codegen, AstNode *expr, const char *tmp) {
 static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
     if (strcmp(func, "get_keys") == 0 && node->data.call.arg_count == 1) {
         emit(codegen, "gray_maps_get_keys(gray_default_arena, ");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ")");
         return true;
     }
     if (strcmp(func, "get_values") == 0 && node->data.call.arg_count == 1) {
         emit(codegen, "gray_maps_get_values(gray_default_arena, ");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ")");
         return true;
     }
@@ -4245,9 +4253,9 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
         if (map_t && map_t->kind == TK_MAP && map_t->key_type)
             c_key = gray_map_element_c_type(codegen, map_t->key_type);
         emit_formatted(codegen, "({ %s _hk = ", c_key);
-        emit_expression(codegen, node->data.call.args[1]);
+        emit_expression_as(codegen, node->data.call.args[1], c_key);
         emit(codegen, "; gray_maps_has_key(");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ", &_hk); })");
         return true;
     }
@@ -4258,29 +4266,29 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
         if (map_t && map_t->kind == TK_MAP && map_t->key_type)
             c_key = gray_map_element_c_type(codegen, map_t->key_type);
         emit_formatted(codegen, "({ %s _rk = ", c_key);
-        emit_expression(codegen, node->data.call.args[1]);
+        emit_expression_as(codegen, node->data.call.args[1], c_key);
         emit(codegen, "; gray_map_remove(");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ", &_rk); })");
         return true;
     }
     if (strcmp(func, "clear") == 0 && node->data.call.arg_count == 1) {
         emit(codegen, "gray_map_clear(");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ")");
         return true;
     }
     if (strcmp(func, "is_empty") == 0 && node->data.call.arg_count == 1) {
         emit(codegen, "gray_maps_is_empty(");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ")");
         return true;
     }
     if (strcmp(func, "merge") == 0 && node->data.call.arg_count == 2) {
         emit(codegen, "gray_maps_merge(gray_default_arena, ");
-        emit_address_of(codegen, node->data.call.args[0], "_m0");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
-        emit_address_of(codegen, node->data.call.args[1], "_m1");
+        emit_address_of(codegen, node->data.call.args[1]);
         emit(codegen, ")");
         return true;
     }
@@ -4289,9 +4297,9 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
         bool str_keys = map_t && map_t->key_type && strcmp(map_t->key_type, "string") == 0;
         bool str_values = map_t && map_t->value_type && strcmp(map_t->value_type, "string") == 0;
         emit(codegen, "gray_maps_is_equal(");
-        emit_address_of(codegen, node->data.call.args[0], "_m0");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
-        emit_address_of(codegen, node->data.call.args[1], "_m1");
+        emit_address_of(codegen, node->data.call.args[1]);
         emit_formatted(codegen, ", %s, %s)", str_keys ? "true" : "false", str_values ? "true" : "false");
         return true;
     }
@@ -4299,30 +4307,27 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
         /* Determine value type from map to ensure correct size */
         GrayType *map_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *c_val_type = "int64_t";
-        if (map_t && map_t->value_type) {
-            GrayType *vt = type_from_name(map_t->value_type);
-            if (vt->kind == TK_FLOAT) c_val_type = "double";
-            else if (vt->kind == TK_BOOL) c_val_type = "bool";
-            else if (vt->kind == TK_STRING) c_val_type = "GrayString";
-        }
+        if (map_t && map_t->value_type) c_val_type = gray_map_element_c_type(codegen, map_t->value_type);
         emit_formatted(codegen, "({ %s _cv = ", c_val_type);
-        emit_expression(codegen, node->data.call.args[1]);
+        emit_expression_as(codegen, node->data.call.args[1], c_val_type);
         emit(codegen, "; gray_maps_contains_value(");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ", &_cv); })");
         return true;
     }
     if (strcmp(func, "get_or_default") == 0 && node->data.call.arg_count == 3) {
         /* get_or_default(m, key, default); lookup key, return default if missing */
-        emit(codegen, "({ __auto_type _gk = ");
-        emit_expression(codegen, node->data.call.args[1]);
+        GrayType *map_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
+        const char *c_key = map_t && map_t->key_type ? gray_map_element_c_type(codegen, map_t->key_type) : "int64_t";
+        emit_formatted(codegen, "({ %s _gk = ", c_key);
+        emit_expression_as(codegen, node->data.call.args[1], c_key);
+        const char *c_val = map_t && map_t->value_type ? gray_map_element_c_type(codegen, map_t->value_type) : "int64_t";
+        emit_formatted(codegen, "; %s _gd = ", c_val);
+        emit_expression_as(codegen, node->data.call.args[2], c_val);
         emit(codegen, "; void *_gv = gray_map_get(");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
-        emit(codegen, ", &_gk); _gv ? *(__typeof__(");
-        emit_expression(codegen, node->data.call.args[2]);
-        emit(codegen, ") *)_gv : ");
-        emit_expression(codegen, node->data.call.args[2]);
-        emit(codegen, "; })");
+        emit_address_of(codegen, node->data.call.args[0]);
+        c_val = map_t && map_t->value_type ? gray_map_element_c_type(codegen, map_t->value_type) : "int64_t";
+        emit_formatted(codegen, ", &_gk); _gv ? *(%s *)_gv : _gd; })", c_val);
         return true;
     }
     return false;
@@ -4445,7 +4450,7 @@ static bool emit_server_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     if (strcmp(func, "add_route") == 0 && node->data.call.arg_count == 4) {
         emit(codegen, "gray_server_route(");
-        emit_address_of(codegen, node->data.call.args[0], "_sa");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, ", ");
@@ -4460,7 +4465,7 @@ static bool emit_server_call(CodeGen *codegen, AstNode *node, const char *func)
         emit(codegen, "gray_server_listen(");
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, ", ");
-        emit_address_of(codegen, node->data.call.args[0], "_sa");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ")");
         return true;
     }
@@ -4471,7 +4476,7 @@ static bool emit_server_call(CodeGen *codegen, AstNode *node, const char *func)
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[2]);
         emit(codegen, ", ");
-        emit_address_of(codegen, node->data.call.args[0], "_sa");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ")");
         return true;
     }
@@ -4509,7 +4514,7 @@ static bool emit_server_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     if (strcmp(func, "cors") == 0 && node->data.call.arg_count == 2) {
         emit(codegen, "gray_server_cors(");
-        emit_address_of(codegen, node->data.call.args[0], "_sa");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, ")");
@@ -4517,7 +4522,7 @@ static bool emit_server_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     if (strcmp(func, "use") == 0 && node->data.call.arg_count == 2) {
         emit(codegen, "gray_server_use(");
-        emit_address_of(codegen, node->data.call.args[0], "_sa");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ", (GrayMiddleware)");
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, ")");
@@ -4692,7 +4697,7 @@ static bool emit_bytes_call(CodeGen *codegen, AstNode *node, const char *func) {
     emit_formatted(codegen, "gray_bytes_%s(", func);
     if (needs_arena || needs_arena_ptr) emit(codegen, "gray_default_arena, ");
     if (needs_arena_ptr) {
-        emit_address_of(codegen, node->data.call.args[0], "_ba");
+        emit_address_of(codegen, node->data.call.args[0]);
     } else {
         emit_expression(codegen, node->data.call.args[0]);
     }
@@ -4717,7 +4722,7 @@ static bool emit_binary_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     if (is_encode) emit(codegen, "gray_default_arena, ");
     if (is_decode) {
-        emit_address_of(codegen, node->data.call.args[0], "_ba");
+        emit_address_of(codegen, node->data.call.args[0]);
     } else {
         emit_expression(codegen, node->data.call.args[0]);
     }
@@ -4996,13 +5001,13 @@ static bool emit_random_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     if (strcmp(func, "shuffle") == 0) {
         emit(codegen, "gray_random_shuffle(gray_default_arena, ");
-        emit_address_of(codegen, node->data.call.args[0], "_ra");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ")");
         return true;
     }
     if (strcmp(func, "sample") == 0) {
         emit(codegen, "gray_random_sample(gray_default_arena, ");
-        emit_address_of(codegen, node->data.call.args[0], "_ra");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, ")");
@@ -5069,17 +5074,7 @@ static void emit_array_argument_address(CodeGen *codegen, AstNode *arg) {
             return;
         }
     }
-    /* Default: take address of the expression directly.
-     * If the expression is an rvalue (e.g. a function call), materialise it
-     * into a statement-expression temporary so the generated C is valid. */
-    if (arg->kind == NODE_LABEL || arg->kind == NODE_MEMBER_EXPR || arg->kind == NODE_INDEX_EXPR) {
-        emit(codegen, "&");
-        emit_expression(codegen, arg);
-    } else {
-        emit(codegen, "({ __auto_type _aa = ");
-        emit_expression(codegen, arg);
-        emit(codegen, "; &_aa; })");
-    }
+    emit_address_of(codegen, arg);
 }
 
 static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func) {
@@ -5457,15 +5452,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
     for (int i = 1; i < node->data.call.arg_count; i++) {
         emit(codegen, ", ");
         if (ref_args) {
-            AstNode *rarg = node->data.call.args[i];
-            if (rarg->kind == NODE_LABEL || rarg->kind == NODE_MEMBER_EXPR || rarg->kind == NODE_INDEX_EXPR) {
-                emit(codegen, "&");
-                emit_expression(codegen, rarg);
-            } else {
-                emit(codegen, "({ __auto_type _aa = ");
-                emit_expression(codegen, rarg);
-                emit(codegen, "; &_aa; })");
-            }
+            emit_address_of(codegen, node->data.call.args[i]);
         } else {
             emit_expression(codegen, node->data.call.args[i]);
         }
@@ -5619,7 +5606,7 @@ static bool emit_strings_call(CodeGen *codegen, AstNode *node, const char *func)
         emit(codegen, "gray_default_arena, ");
     }
     if (strcmp(func, "from_chars") == 0) {
-        emit_address_of(codegen, node->data.call.args[0], "_ca");
+        emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ")");
         return true;
     }
@@ -7026,7 +7013,7 @@ static void emit_call_expression(CodeGen *codegen, AstNode *node) {
                     const char *c_key = "GrayString";
                     if (left_t->key_type) c_key = gray_map_element_c_type(codegen, left_t->key_type);
                     emit_formatted(codegen, "({ %s _mk = ", c_key);
-                    emit_expression(codegen, idx_node->data.index_expr.index);
+                    emit_expression_as(codegen, idx_node->data.index_expr.index, c_key);
                     emit(codegen, "; void *_mv = gray_map_get(&");
                     emit_expression(codegen, idx_node->data.index_expr.left);
                     emit_formatted(codegen, ", &_mk); if (!_mv) { gray_panic_code_at(\"%s\", %d, \"P0081\", \"key not found in map\"); } ", codegen->file, node->token.line);
@@ -7501,6 +7488,7 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
         /* Bigint literal zero: emit zero constant instead of plain 0 */
         if (type_name && is_bigint_type(type_name) &&
             node->data.var_decl.value->kind == NODE_INT_VALUE &&
+            !node->data.var_decl.value->data.int_value.overflow &&
             node->data.var_decl.value->data.int_value.value == 0) {
             if (strcmp(type_name, "i128") == 0) emit(codegen, "GRAY_I128_ZERO");
             else if (strcmp(type_name, "u128") == 0) emit(codegen, "GRAY_U128_ZERO");
@@ -7561,18 +7549,11 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
             else if (op == TOK_SLASH) fn_op = "div";
             else if (op == TOK_PERCENT) fn_op = "mod";
             if (fn_op) {
-                bool is_checked = (strcmp(fn_op, "add") == 0 || strcmp(fn_op, "sub") == 0 || strcmp(fn_op, "mul") == 0);
-                if (is_checked)
-                    emit_formatted(codegen, "%s_%s_checked(", pfx, fn_op);
-                else
-                    emit_formatted(codegen, "%s_%s(", pfx, fn_op);
+                emit_formatted(codegen, "%s_%s_checked(", pfx, fn_op);
                 EMIT_BIGINT_OPERAND(codegen, infix->data.infix.left, pfx, type_name, NULL);
                 emit(codegen, ", ");
                 EMIT_BIGINT_OPERAND(codegen, infix->data.infix.right, pfx, type_name, NULL);
-                if (is_checked)
-                    emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
-                else
-                    emit(codegen, ")");
+                emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
             } else {
                 emit_expression(codegen, node->data.var_decl.value);
             }
@@ -7607,19 +7588,7 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
             /* Scalar variable/expression assigned to a wide integer type.
              * Wrap with from_i64/from_u64 so the C assignment is valid.
              * Covers: mut big i128 = some_int_var */
-            const char *pfx = bigint_prefix(type_name);
-            bool dst_unsigned = (type_name[0] == 'u');
-            GrayType *val_t = codegen->type_table
-                ? typetable_get(codegen->type_table, node->data.var_decl.value) : NULL;
-            bool src_unsigned = (val_t && val_t->kind == TK_UINT);
-            if (dst_unsigned) {
-                emit_formatted(codegen, "%s_from_u64((uint64_t)(", pfx);
-            } else {
-                emit_formatted(codegen, "%s_from_i64((int64_t)(", pfx);
-            }
-            (void)src_unsigned;
-            emit_expression(codegen, node->data.var_decl.value);
-            emit(codegen, "))");
+            emit_bigint_conversion(codegen, node->data.var_decl.value, type_name, node->token.line);
         } else if (!emit_narrowing_cast(codegen, type_name, node->data.var_decl.value, node->token.line)) {
             emit_expression(codegen, node->data.var_decl.value);
         }
@@ -7659,11 +7628,10 @@ static void emit_compound_value(CodeGen *codegen, AstNode *node,
     if (type_name && is_bigint_type(type_name)) {
         const char *pfx = bigint_prefix(type_name);
         const char *fn_op = aop == TOK_PLUS_ASSIGN ? "add_checked" : aop == TOK_MINUS_ASSIGN ? "sub_checked" :
-                            aop == TOK_ASTERISK_ASSIGN ? "mul_checked" : aop == TOK_SLASH_ASSIGN ? "div" : "mod";
+                            aop == TOK_ASTERISK_ASSIGN ? "mul_checked" : aop == TOK_SLASH_ASSIGN ? "div_checked" : "mod_checked";
         emit_formatted(codegen, "%s_%s(%s, ", pfx, fn_op, cur);
         emit_bigint_operand(codegen, value, pfx, type_name, NULL);
-        if (is_div) emit(codegen, ")");
-        else emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
+        emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
         return;
     }
     bool is_int = type && (type->kind == TK_INT || type->kind == TK_UINT || type->kind == TK_BYTE);
@@ -7769,7 +7737,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
 
             bool ms_compound = is_compound_assign(node->data.assign.op);
             emit_formatted(codegen, "{ %s _mk = ", c_key);
-            emit_expression(codegen, node->data.assign.target->data.index_expr.index);
+            emit_expression_as(codegen, node->data.assign.target->data.index_expr.index, c_key);
             emit(codegen, "; ");
             if (codegen->loop_scope_depth > 0) {
                 if (ms_str_key) {
@@ -7805,7 +7773,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                 snprintf(cur_val, sizeof(cur_val), "(*(%s*)_cur)", c_val);
                 emit_compound_value(codegen, node, left_t->value_type, cur_val);
             } else {
-                emit_expression(codegen, node->data.assign.value);
+                emit_expression_as(codegen, node->data.assign.value, c_val);
             }
             emit(codegen, "; ");
             if (codegen->loop_scope_depth > 0) {
@@ -7981,32 +7949,12 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             const char *tgt_bi = sn && is_bigint_type(sn) ? sn
                 : resolve_bigint_type(codegen, node->data.assign.target);
             if (tgt_bi) {
-                const char *pfx = bigint_prefix(tgt_bi);
-                if (is_arith_compound) {
-                    const char *fn_op = NULL;
-                    if (aop == TOK_PLUS_ASSIGN) fn_op = "add";
-                    else if (aop == TOK_MINUS_ASSIGN) fn_op = "sub";
-                    else if (aop == TOK_ASTERISK_ASSIGN) fn_op = "mul";
-                    if (fn_op) {
-                        emit_expression(codegen, node->data.assign.target);
-                        emit_formatted(codegen, " = %s_%s_checked(", pfx, fn_op);
-                        emit_expression(codegen, node->data.assign.target);
-                        emit(codegen, ", ");
-                        EMIT_BIGINT_OPERAND(codegen, node->data.assign.value, pfx, tgt_bi, NULL);
-                        emit_formatted(codegen, ", \"%s\", %d);\n", codegen->file, node->token.line);
-                        return;
-                    }
-                }
-                if (is_div_compound) {
-                    const char *fn_op = (aop == TOK_SLASH_ASSIGN) ? "div" : "mod";
-                    emit_expression(codegen, node->data.assign.target);
-                    emit_formatted(codegen, " = %s_%s(", pfx, fn_op);
-                    emit_expression(codegen, node->data.assign.target);
-                    emit(codegen, ", ");
-                    EMIT_BIGINT_OPERAND(codegen, node->data.assign.value, pfx, tgt_bi, NULL);
-                    emit(codegen, ");\n");
-                    return;
-                }
+                emit(codegen, "{ __auto_type _bt = &(");
+                emit_expression(codegen, node->data.assign.target);
+                emit(codegen, "); *_bt = ");
+                emit_compound_value(codegen, node, tgt_bi, "(*_bt)");
+                emit(codegen, "; }\n");
+                return;
             }
             bool tgt_is_int = (tgt_t && (tgt_t->kind == TK_INT || tgt_t->kind == TK_UINT || tgt_t->kind == TK_BYTE));
             const char *smin = NULL, *smax = NULL;
@@ -8910,10 +8858,7 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
 
             const char *c_key = "GrayString";
             const char *c_val = "int64_t";
-            if (coll_t->key_type) {
-                GrayType *kt = type_from_name(coll_t->key_type);
-                if (kt->kind == TK_INT || kt->kind == TK_UINT) c_key = "int64_t";
-            }
+            if (coll_t->key_type) c_key = gray_map_element_c_type(codegen, coll_t->key_type);
             if (coll_t->value_type) c_val = gray_map_element_c_type(codegen, coll_t->value_type);
 
             map_needs_tmp = (coll->kind != NODE_LABEL);
@@ -8991,7 +8936,9 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
                  * before resolving to a C type. */
                 const char *elem_tn = codegen_effective_type_string(codegen, coll_t->element_type);
                 GrayType *et = type_from_name(elem_tn);
-                if (et->kind == TK_FLOAT) c_elem = "double";
+                if (is_bigint_type(elem_tn)) c_elem = gray_type_to_c_codegen(codegen, elem_tn);
+                else if (et->kind == TK_UINT) c_elem = "uint64_t";
+                else if (et->kind == TK_FLOAT) c_elem = "double";
                 else if (et->kind == TK_BOOL) c_elem = "bool";
                 else if (et->kind == TK_STRING) c_elem = "GrayString";
                 else if (et->kind == TK_ARRAY) c_elem = "GrayArray";
diff --git a/grayc/src/runtime/bigint.h b/grayc/src/runtime/bigint.h
index b6546ea..a61c7bd 100644
--- a/grayc/src/runtime/bigint.h
+++ b/grayc/src/runtime/bigint.h
@@ -71,108 +71,68 @@ static inline gray_u256 gray_u256_from_u64(uint64_t v) {
 
 /* --- Size Casting (range-checked) --- */
 
-static inline int64_t gray_i128_to_i64(gray_i128 a) {
-    if (a.hi != ((int64_t)a.lo >> 63)) {
-        gray_panic_code("P0093", "cast from i128 failed; value is outside the representable range of int64");
-    }
-    return (int64_t)a.lo;
-}
+/* Any integer, sign-extended to 256 bits plus a sign. */
+typedef struct { uint64_t w[4]; bool negative; } gray_wide;
 
-static inline uint64_t gray_i128_to_u64(gray_i128 a) {
-    if (a.hi != 0) {
-        gray_panic_code("P0094", "cast from i128 failed; value is negative or outside the representable range of uint64");
-    }
-    return a.lo;
+static inline gray_wide gray_wide_from_i64(int64_t v) {
+    uint64_t sign = v < 0 ? UINT64_MAX : 0;
+    return (gray_wide){{(uint64_t)v, sign, sign, sign}, v < 0};
 }
-
-static inline int64_t gray_u128_to_i64(gray_u128 a) {
-    if (a.hi != 0 || a.lo > (uint64_t)INT64_MAX) {
-        gray_panic_code("P0095", "cast from u128 failed; value exceeds the representable range of int64");
-    }
-    return (int64_t)a.lo;
+static inline gray_wide gray_wide_from_u64(uint64_t v) {
+    return (gray_wide){{v, 0, 0, 0}, false};
 }
-
-static inline uint64_t gray_u128_to_u64(gray_u128 a) {
-    if (a.hi != 0) {
-        gray_panic_code("P0096", "cast from u128 failed; value exceeds the representable range of uint64");
-    }
-    return a.lo;
+static inline gray_wide gray_wide_from_i128(gray_i128 a) {
+    uint64_t sign = a.hi < 0 ? UINT64_MAX : 0;
+    return (gray_wide){{a.lo, (uint64_t)a.hi, sign, sign}, a.hi < 0};
 }
-
-static inline int64_t gray_i256_to_i64(gray_i256 a) {
-    uint64_t sign_ext = (uint64_t)((int64_t)a.w[0] >> 63);
-    if (a.w[1] != sign_ext || a.w[2] != sign_ext || a.w[3] != sign_ext) {
-        gray_panic_code("P0097", "cast from i256 failed; value is outside the representable range of int64");
-    }
-    return (int64_t)a.w[0];
+static inline gray_wide gray_wide_from_u128(gray_u128 a) {
+    return (gray_wide){{a.lo, a.hi, 0, 0}, false};
 }
-
-static inline uint64_t gray_i256_to_u64(gray_i256 a) {
-    if (a.w[1] != 0 || a.w[2] != 0 || a.w[3] != 0) {
-        gray_panic_code("P0098", "cast from i256 failed; value is negative or outside the representable range of uint64");
-    }
-    return a.w[0];
+static inline gray_wide gray_wide_from_i256(gray_i256 a) {
+    return (gray_wide){{a.w[0], a.w[1], a.w[2], a.w[3]}, (int64_t)a.w[3] < 0};
+}
+static inline gray_wide gray_wide_from_u256(gray_u256 a) {
+    return (gray_wide){{a.w[0], a.w[1], a.w[2], a.w[3]}, false};
 }
 
-static inline int64_t gray_u256_to_i64(gray_u256 a) {
-    if (a.w[1] != 0 || a.w[2] != 0 || a.w[3] != 0 || a.w[0] > (uint64_t)INT64_MAX) {
-        gray_panic_code("P0099", "cast from u256 failed; value exceeds the representable range of int64");
-    }
-    return (int64_t)a.w[0];
+/* Conversions out of gray_wide: `from` names the source type in the panic. */
+static inline void gray_wide_range_panic(const char *from, const char *to, const char *file, int line) {
+    const char *code = strcmp(from, "i128") == 0 ? "P0093" : strcmp(from, "u128") == 0 ? "P0095"
+                     : strcmp(from, "i256") == 0 ? "P0097" : strcmp(from, "u256") == 0 ? "P0099" : "P0093";
+    gray_panic_code_at(file, line, code, "cast from %s failed; value is outside the representable range of %s", from, to);
 }
 
-static inline uint64_t gray_u256_to_u64(gray_u256 a) {
-    if (a.w[1] != 0 || a.w[2] != 0 || a.w[3] != 0) {
-        gray_panic_code("P0100", "cast from u256 failed; value exceeds the representable range of uint64");
+/* True when the words from `index` up all equal the value's sign. */
+static inline bool gray_wide_fits(gray_wide a, int index) {
+    for (int i = index; i < 4; i++) {
+        if (a.w[i] != (a.negative ? UINT64_MAX : 0)) return false;
     }
-    return a.w[0];
+    return true;
 }
 
-static inline gray_u128 gray_u128_from_i128(gray_i128 a) {
-    gray_u128 r;
-    r.lo = a.lo;
-    r.hi = (uint64_t)a.hi;
-    return r;
+static inline int64_t gray_wide_to_i64(gray_wide a, const char *from, const char *file, int line) {
+    if (!gray_wide_fits(a, 1) || ((int64_t)a.w[0] < 0) != a.negative) gray_wide_range_panic(from, "int64", file, line);
+    return (int64_t)a.w[0];
 }
-
-static inline gray_i128 gray_i128_from_u128(gray_u128 a) {
-    gray_i128 r;
-    r.lo = a.lo;
-    r.hi = (int64_t)a.hi;
-    return r;
+static inline uint64_t gray_wide_to_u64(gray_wide a, const char *from, const char *file, int line) {
+    if (a.negative || !gray_wide_fits(a, 1)) gray_wide_range_panic(from, "uint64", file, line);
+    return a.w[0];
 }
-
-static inline gray_i256 gray_i256_from_i128(gray_i128 a) {
-    gray_i256 r;
-    r.w[0] = a.lo;
-    r.w[1] = (uint64_t)a.hi;
-    int64_t sign = (a.hi < 0) ? -1 : 0;
-    r.w[2] = (uint64_t)sign;
-    r.w[3] = (uint64_t)sign;
-    return r;
+static inline gray_i128 gray_wide_to_i128(gray_wide a, const char *from, const char *file, int line) {
+    if (!gray_wide_fits(a, 2) || ((int64_t)a.w[1] < 0) != a.negative) gray_wide_range_panic(from, "i128", file, line);
+    return (gray_i128){a.w[0], (int64_t)a.w[1]};
 }
-
-static inline gray_u256 gray_u256_from_u128(gray_u128 a) {
-    gray_u256 r;
-    r.w[0] = a.lo;
-    r.w[1] = a.hi;
-    r.w[2] = 0;
-    r.w[3] = 0;
-    return r;
+static inline gray_u128 gray_wide_to_u128(gray_wide a, const char *from, const char *file, int line) {
+    if (a.negative || !gray_wide_fits(a, 2)) gray_wide_range_panic(from, "u128", file, line);
+    return (gray_u128){a.w[0], a.w[1]};
 }
-
-static inline gray_i128 gray_i128_from_i256(gray_i256 a) {
-    gray_i128 r;
-    r.lo = a.w[0];
-    r.hi = (int64_t)a.w[1];
-    return r;
+static inline gray_i256 gray_wide_to_i256(gray_wide a, const char *from, const char *file, int line) {
+    if (((int64_t)a.w[3] < 0) != a.negative) gray_wide_range_panic(from, "i256", file, line);
+    return (gray_i256){{a.w[0], a.w[1], a.w[2], a.w[3]}};
 }
-
-static inline gray_u128 gray_u128_from_u256(gray_u256 a) {
-    gray_u128 r;
-    r.lo = a.w[0];
-    r.hi = a.w[1];
-    return r;
+static inline gray_u256 gray_wide_to_u256(gray_wide a, const char *from, const char *file, int line) {
+    if (a.negative) gray_wide_range_panic(from, "u256", file, line);
+    return (gray_u256){{a.w[0], a.w[1], a.w[2], a.w[3]}};
 }
 
 /* --- i128 Arithmetic --- */
@@ -180,21 +140,21 @@ static inline gray_u128 gray_u128_from_u256(gray_u256 a) {
 static inline gray_i128 gray_i128_add(gray_i128 a, gray_i128 b) {
     gray_i128 r;
     r.lo = a.lo + b.lo;
-    r.hi = a.hi + b.hi + (r.lo < a.lo ? 1 : 0);
+    r.hi = (int64_t)((uint64_t)a.hi + (uint64_t)b.hi + (r.lo < a.lo ? 1 : 0));
     return r;
 }
 
 static inline gray_i128 gray_i128_sub(gray_i128 a, gray_i128 b) {
     gray_i128 r;
     r.lo = a.lo - b.lo;
-    r.hi = a.hi - b.hi - (a.lo < b.lo ? 1 : 0);
+    r.hi = (int64_t)((uint64_t)a.hi - (uint64_t)b.hi - (a.lo < b.lo ? 1 : 0));
     return r;
 }
 
 static inline gray_i128 gray_i128_neg(gray_i128 a) {
     gray_i128 r;
     r.lo = ~a.lo + 1;
-    r.hi = ~a.hi + (r.lo == 0 ? 1 : 0);
+    r.hi = (int64_t)(~(uint64_t)a.hi + (r.lo == 0 ? 1 : 0));
     return r;
 }
 
@@ -382,7 +342,7 @@ static inline gray_i256 gray_i256_sub(gray_i256 a, gray_i256 b) {
     uint64_t borrow = 0;
     for (int i = 0; i < 4; i++) {
         uint64_t diff = a.w[i] - b.w[i] - borrow;
-        borrow = (a.w[i] < b.w[i] + borrow) ? 1 : 0;
+        borrow = (a.w[i] < b.w[i] || (borrow && a.w[i] == b.w[i])) ? 1 : 0;
         r.w[i] = diff;
     }
     return r;
@@ -462,7 +422,7 @@ static inline void gray_u256_divmod(gray_u256 a, gray_u256 b, gray_u256 *q, gray
             uint64_t borrow = 0;
             for (int k = 0; k < 4; k++) {
                 uint64_t diff = remainder.w[k] - b.w[k] - borrow;
-                borrow = (remainder.w[k] < b.w[k] + borrow) ? 1 : 0;
+                borrow = (remainder.w[k] < b.w[k] || (borrow && remainder.w[k] == b.w[k])) ? 1 : 0;
                 remainder.w[k] = diff;
             }
             quotient.w[word] |= (uint64_t)1 << bit;
@@ -538,7 +498,7 @@ static inline gray_u256 gray_u256_sub(gray_u256 a, gray_u256 b) {
     uint64_t borrow = 0;
     for (int i = 0; i < 4; i++) {
         uint64_t diff = a.w[i] - b.w[i] - borrow;
-        borrow = (a.w[i] < b.w[i] + borrow) ? 1 : 0;
+        borrow = (a.w[i] < b.w[i] || (borrow && a.w[i] == b.w[i])) ? 1 : 0;
         r.w[i] = diff;
     }
     return r;
@@ -598,15 +558,33 @@ static inline bool gray_u256_ge(gray_u256 a, gray_u256 b) { return !gray_u256_lt
 
 /* --- Decimal String Constructors --- */
 
+/* Base of an integer literal; skips its 0x, 0o or 0b prefix. */
+static inline uint64_t gray_literal_base(const char **s) {
+    uint64_t base = 10;
+    if ((*s)[0] == '0') {
+        char p = (*s)[1];
+        if (p == 'x' || p == 'X') base = 16;
+        else if (p == 'o' || p == 'O') base = 8;
+        else if (p == 'b' || p == 'B') base = 2;
+        if (base != 10) *s += 2;
+    }
+    return base;
+}
+
+static inline uint64_t gray_literal_digit(char c) {
+    if (c >= 'a' && c <= 'f') return (uint64_t)(c - 'a' + 10);
+    if (c >= 'A' && c <= 'F') return (uint64_t)(c - 'A' + 10);
+    return (uint64_t)(c - '0');
+}
+
 static inline gray_u128 gray_u128_from_decimal(const char *s) {
     gray_u128 result = GRAY_U128_ZERO;
-    gray_u128 ten = {10, 0};
-    while (*s) {
-        if (*s == '_') { s++; continue; }
-        result = gray_u128_mul(result, ten);
-        gray_u128 digit = {(uint64_t)(*s - '0'), 0};
+    gray_u128 base = {gray_literal_base(&s), 0};
+    for (; *s; s++) {
+        if (*s == '_') continue;
+        result = gray_u128_mul(result, base);
+        gray_u128 digit = {gray_literal_digit(*s), 0};
         result = gray_u128_add(result, digit);
-        s++;
     }
     return result;
 }
@@ -623,15 +601,14 @@ static inline gray_i128 gray_i128_from_decimal(const char *s) {
 
 static inline gray_u256 gray_u256_from_decimal(const char *s) {
     gray_u256 result = GRAY_U256_ZERO;
-    gray_u256 ten = GRAY_U256_ZERO;
-    ten.w[0] = 10;
-    while (*s) {
-        if (*s == '_') { s++; continue; }
-        result = gray_u256_mul(result, ten);
+    gray_u256 base = GRAY_U256_ZERO;
+    base.w[0] = gray_literal_base(&s);
+    for (; *s; s++) {
+        if (*s == '_') continue;
+        result = gray_u256_mul(result, base);
         gray_u256 digit = GRAY_U256_ZERO;
-        digit.w[0] = (uint64_t)(*s - '0');
+        digit.w[0] = gray_literal_digit(*s);
         result = gray_u256_add(result, digit);
-        s++;
     }
     return result;
 }
@@ -650,7 +627,7 @@ static inline gray_i256 gray_i256_from_decimal(const char *s) {
 static inline gray_i128 gray_i128_add_checked(gray_i128 a, gray_i128 b, const char *file, int line) {
     gray_i128 r = gray_i128_add(a, b);
     if ((a.hi >= 0 && b.hi >= 0 && r.hi < 0) || (a.hi < 0 && b.hi < 0 && r.hi >= 0)) {
-        gray_panic_code("P0021", "i128 addition result is too large; value exceeds the range of i128");
+        gray_panic_code_at(file, line, "P0021", "i128 addition result is too large; value exceeds the range of i128");
     }
     return r;
 }
@@ -658,7 +635,7 @@ static inline gray_i128 gray_i128_add_checked(gray_i128 a, gray_i128 b, const ch
 static inline gray_i128 gray_i128_sub_checked(gray_i128 a, gray_i128 b, const char *file, int line) {
     gray_i128 r = gray_i128_sub(a, b);
     if ((a.hi >= 0 && b.hi < 0 && r.hi < 0) || (a.hi < 0 && b.hi >= 0 && r.hi >= 0)) {
-        gray_panic_code("P0022", "i128 subtraction result is too large; value exceeds the range of i128");
+        gray_panic_code_at(file, line, "P0022", "i128 subtraction result is too large; value exceeds the range of i128");
     }
     return r;
 }
@@ -669,8 +646,9 @@ static inline gray_i128 gray_i128_mul_checked(gray_i128 a, gray_i128 b, const ch
     bool b_zero = (b.hi == 0 && b.lo == 0);
     if (!a_zero && !b_zero) {
         gray_i128 check = gray_i128_div(r, b);
-        if (!gray_i128_eq(check, a)) {
-            gray_panic_code("P0023", "i128 multiplication result is too large; value exceeds the range of i128");
+        /* MIN * -1 wraps to MIN, which divides back to the same value */
+        if (!gray_i128_eq(check, a) || (r.hi < 0) != ((a.hi < 0) != (b.hi < 0))) {
+            gray_panic_code_at(file, line, "P0023", "i128 multiplication result is too large; value exceeds the range of i128");
         }
     }
     return r;
@@ -679,14 +657,14 @@ static inline gray_i128 gray_i128_mul_checked(gray_i128 a, gray_i128 b, const ch
 static inline gray_u128 gray_u128_add_checked(gray_u128 a, gray_u128 b, const char *file, int line) {
     gray_u128 r = gray_u128_add(a, b);
     if (gray_u128_lt(r, a)) {
-        gray_panic_code("P0024", "u128 addition result is too large; value exceeds the range of u128");
+        gray_panic_code_at(file, line, "P0024", "u128 addition result is too large; value exceeds the range of u128");
     }
     return r;
 }
 
 static inline gray_u128 gray_u128_sub_checked(gray_u128 a, gray_u128 b, const char *file, int line) {
     if (gray_u128_lt(a, b)) {
-        gray_panic_code("P0025", "u128 subtraction result is negative, but u128 cannot hold negative values");
+        gray_panic_code_at(file, line, "P0025", "u128 subtraction result is negative, but u128 cannot hold negative values");
     }
     return gray_u128_sub(a, b);
 }
@@ -698,7 +676,7 @@ static inline gray_u128 gray_u128_mul_checked(gray_u128 a, gray_u128 b, const ch
     if (!a_zero && !b_zero) {
         gray_u128 check = gray_u128_div(r, b);
         if (!gray_u128_eq(check, a)) {
-            gray_panic_code("P0026", "u128 multiplication result is too large; value exceeds the range of u128");
+            gray_panic_code_at(file, line, "P0026", "u128 multiplication result is too large; value exceeds the range of u128");
         }
     }
     return r;
@@ -710,7 +688,7 @@ static inline gray_i256 gray_i256_add_checked(gray_i256 a, gray_i256 b, const ch
     bool b_neg = gray_i256_is_neg(b);
     bool r_neg = gray_i256_is_neg(r);
     if ((!a_neg && !b_neg && r_neg) || (a_neg && b_neg && !r_neg)) {
-        gray_panic_code("P0027", "i256 addition result is too large; value exceeds the range of i256");
+        gray_panic_code_at(file, line, "P0027", "i256 addition result is too large; value exceeds the range of i256");
     }
     return r;
 }
@@ -721,7 +699,7 @@ static inline gray_i256 gray_i256_sub_checked(gray_i256 a, gray_i256 b, const ch
     bool b_neg = gray_i256_is_neg(b);
     bool r_neg = gray_i256_is_neg(r);
     if ((!a_neg && b_neg && r_neg) || (a_neg && !b_neg && !r_neg)) {
-        gray_panic_code("P0028", "i256 subtraction result is too large; value exceeds the range of i256");
+        gray_panic_code_at(file, line, "P0028", "i256 subtraction result is too large; value exceeds the range of i256");
     }
     return r;
 }
@@ -732,8 +710,9 @@ static inline gray_i256 gray_i256_mul_checked(gray_i256 a, gray_i256 b, const ch
     bool b_zero = (b.w[0] == 0 && b.w[1] == 0 && b.w[2] == 0 && b.w[3] == 0);
     if (!a_zero && !b_zero) {
         gray_i256 check = gray_i256_div(r, b);
-        if (!gray_i256_eq(check, a)) {
-            gray_panic_code("P0029", "i256 multiplication result is too large; value exceeds the range of i256");
+        /* MIN * -1 wraps to MIN, which divides back to the same value */
+        if (!gray_i256_eq(check, a) || (gray_i256_is_neg(r)) != ((gray_i256_is_neg(a)) != (gray_i256_is_neg(b)))) {
+            gray_panic_code_at(file, line, "P0029", "i256 multiplication result is too large; value exceeds the range of i256");
         }
     }
     return r;
@@ -742,14 +721,14 @@ static inline gray_i256 gray_i256_mul_checked(gray_i256 a, gray_i256 b, const ch
 static inline gray_u256 gray_u256_add_checked(gray_u256 a, gray_u256 b, const char *file, int line) {
     gray_u256 r = gray_u256_add(a, b);
     if (gray_u256_lt(r, a)) {
-        gray_panic_code("P0030", "u256 addition result is too large; value exceeds the range of u256");
+        gray_panic_code_at(file, line, "P0030", "u256 addition result is too large; value exceeds the range of u256");
     }
     return r;
 }
 
 static inline gray_u256 gray_u256_sub_checked(gray_u256 a, gray_u256 b, const char *file, int line) {
     if (gray_u256_lt(a, b)) {
-        gray_panic_code("P0031", "u256 subtraction result is negative, but u256 cannot hold negative values");
+        gray_panic_code_at(file, line, "P0031", "u256 subtraction result is negative, but u256 cannot hold negative values");
     }
     return gray_u256_sub(a, b);
 }
@@ -761,12 +740,55 @@ static inline gray_u256 gray_u256_mul_checked(gray_u256 a, gray_u256 b, const ch
     if (!a_zero && !b_zero) {
         gray_u256 check = gray_u256_div(r, b);
         if (!gray_u256_eq(check, a)) {
-            gray_panic_code("P0032", "u256 multiplication result is too large; value exceeds the range of u256");
+            gray_panic_code_at(file, line, "P0032", "u256 multiplication result is too large; value exceeds the range of u256");
         }
     }
     return r;
 }
 
+/* Division, remainder and negation: zero divisors and the one quotient that
+ * does not fit (MIN / -1) panic like their 64-bit counterparts. */
+#define GRAY_WIDE_DIV_CHECKED(T, IS_ZERO) \
+    static inline gray_##T gray_##T##_div_checked(gray_##T a, gray_##T b, const char *file, int line) { \
+        if (IS_ZERO) gray_panic_code_at(file, line, "P0078", "division by zero"); \
+        gray_##T r = gray_##T##_div(a, b); \
+        if (gray_##T##_div_overflows(a, b, r)) \
+            gray_panic_code_at(file, line, "P0079", "division result is too large; value exceeds the range of this type"); \
+        return r; \
+    } \
+    static inline gray_##T gray_##T##_mod_checked(gray_##T a, gray_##T b, const char *file, int line) { \
+        if (IS_ZERO) gray_panic_code_at(file, line, "P0078", "division by zero"); \
+        return gray_##T##_mod(a, b); \
+    }
+
+static inline bool gray_i128_div_overflows(gray_i128 a, gray_i128 b, gray_i128 r) { return a.hi < 0 && b.hi < 0 && r.hi < 0; }
+static inline bool gray_u128_div_overflows(gray_u128 a, gray_u128 b, gray_u128 r) { (void)a; (void)b; (void)r; return false; }
+static inline bool gray_i256_div_overflows(gray_i256 a, gray_i256 b, gray_i256 r) {
+    return gray_i256_is_neg(a) && gray_i256_is_neg(b) && gray_i256_is_neg(r);
+}
+static inline bool gray_u256_div_overflows(gray_u256 a, gray_u256 b, gray_u256 r) { (void)a; (void)b; (void)r; return false; }
+
+GRAY_WIDE_DIV_CHECKED(i128, b.lo == 0 && b.hi == 0)
+GRAY_WIDE_DIV_CHECKED(u128, b.lo == 0 && b.hi == 0)
+GRAY_WIDE_DIV_CHECKED(i256, b.w[0] == 0 && b.w[1] == 0 && b.w[2] == 0 && b.w[3] == 0)
+GRAY_WIDE_DIV_CHECKED(u256, b.w[0] == 0 && b.w[1] == 0 && b.w[2] == 0 && b.w[3] == 0)
+
+static inline gray_i128 gray_i128_neg_checked(gray_i128 a, const char *file, int line) {
+    gray_i128 r = gray_i128_neg(a);
+    if (a.hi < 0 && r.hi < 0) {
+        gray_panic_code_at(file, line, "P0014", "%s negation result is too large; value exceeds the range of this type", "i128");
+    }
+    return r;
+}
+
+static inline gray_i256 gray_i256_neg_checked(gray_i256 a, const char *file, int line) {
+    gray_i256 r = gray_i256_neg(a);
+    if (gray_i256_is_neg(a) && gray_i256_is_neg(r)) {
+        gray_panic_code_at(file, line, "P0014", "%s negation result is too large; value exceeds the range of this type", "i256");
+    }
+    return r;
+}
+
 /* --- Printing (to_string) --- */
 
 /* Helper: convert unsigned 128-bit to decimal string */
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 438b864..eb45edf 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -4425,10 +4425,12 @@ static GrayType *resolve_builtin_call(TypeChecker *checker, AstNode *node, const
         }
         if (strcmp(function_name, "byte") == 0)
             result = &TYPE_BYTE;
-        else if (is_unsigned_type(function_name))
+        else if (strcmp(function_name, "int") == 0)
+            result = &TYPE_INT;
+        else if (strcmp(function_name, "uint") == 0)
             result = &TYPE_UINT;
         else
-            result = &TYPE_INT;
+            result = type_from_name(function_name); /* i128, u128, i256, u256 */
     } else if (strcmp(function_name, "string") == 0 && node->data.call.arg_count == 1) {
         /* E3043: validate source type is convertible to string */
         GrayType *src_t = resolve_expression(checker, node->data.call.args[0]);
-- 
2.43.0


From c4373511a268398143b693cd49cccfe4f85b63fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:03:10 +0000
Subject: [PATCH 13/96] fix: numeric conversions keep the value or panic: casts
 from u64 and float, constructors, array casts, implicit narrowing stores,
 number parsing

---
 grayc/src/codegen/codegen.c         | 194 +++++++++++++++++-----------
 grayc/src/parser/ast.h              |   1 +
 grayc/src/parser/parser.c           |   7 +
 grayc/src/runtime/runtime.h         |   3 +-
 grayc/src/stdlib/builtins.c         |  58 ++++++---
 grayc/src/stdlib/builtins.h         |   2 +
 grayc/src/typechecker/typechecker.c |  70 ++++++++++
 7 files changed, 240 insertions(+), 95 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 4c7eedb..7f2919c 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -72,6 +72,7 @@ static bool codegen_enum_is_tagged(CodeGen *codegen, const char *name);
 static int codegen_enum_index(CodeGen *codegen, const char *name);
 static void emit_to_string(CodeGen *codegen, AstNode *arg);
 static bool emit_narrowing_cast(CodeGen *codegen, const char *target, AstNode *val, int line);
+static bool emit_integer_conversion(CodeGen *codegen, const char *target, AstNode *val, int line);
 static AstNode *find_struct_declaration(CodeGen *codegen, const char *name);
 
 /* Resolve an unprefixed type name (e.g. "Point") to its module-prefixed
@@ -2711,13 +2712,28 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             else if (val->kind == NODE_INT_VALUE) val_kind = TK_INT;
         }
 
+        /* array → array: convert every element under the scalar rule */
+        if (node->data.cast.element_cast && val_kind == TK_ARRAY && val_t->element_type) {
+            const char *src_c = array_storage_c_type(codegen, val_t->element_type);
+            const char *dst_c = array_storage_c_type(codegen, node->data.cast.element_type);
+            int tag = next_deep_copy_tag();
+            emit_formatted(codegen, "({ GrayArray _cs%d = ", tag);
+            emit_expression(codegen, val);
+            emit_formatted(codegen, "; GrayArray _co%d = gray_array_new(gray_default_arena, (int32_t)sizeof(%s), _cs%d.len); ", tag, dst_c, tag);
+            emit_formatted(codegen, "for (int32_t _ci%d = 0; _ci%d < _cs%d.len; _ci%d++) { ", tag, tag, tag, tag);
+            emit_formatted(codegen, "%s _cast_elem = ((%s *)_cs%d.data)[_ci%d]; %s _cv%d = ", src_c, src_c, tag, tag, dst_c, tag);
+            emit_expression(codegen, node->data.cast.element_cast);
+            emit_formatted(codegen, "; gray_array_push(gray_default_arena, &_co%d, &_cv%d); } _co%d; })", tag, tag, tag);
+            break;
+        }
+
         if (strcmp(target, "string") == 0) {
             /* any → string: use to_string functions */
             if (val_kind == TK_CHAR) {
                 /* char → string: single-character string, not ASCII value */
-                emit(codegen, "gray_string_new(gray_default_arena, (char[]){(char)(");
+                emit(codegen, "gray_builtin_to_string_char(gray_default_arena, (int32_t)(");
                 emit_expression(codegen, val);
-                emit(codegen, "), '\\0'}, 1)");
+                emit(codegen, "))");
             } else {
                 emit_to_string(codegen, val);
             }
@@ -2731,16 +2747,6 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             emit(codegen, "gray_builtin_string_to_float(");
             emit_expression(codegen, val);
             emit(codegen, ")");
-        } else if ((strcmp(target, "int") == 0 || strcmp(target, "i64") == 0) && val_kind == TK_FLOAT) {
-            /* float → int: overflow-safe */
-            emit(codegen, "gray_float_to_int((double)(");
-            emit_expression(codegen, val);
-            emit_formatted(codegen, "), \"%s\", %d)", codegen->file, node->token.line);
-        } else if ((strcmp(target, "uint") == 0 || strcmp(target, "u64") == 0) && val_kind == TK_FLOAT) {
-            /* float → uint: negative values and overflow are undefined behavior in C; panic instead */
-            emit(codegen, "gray_float_to_uint((double)(");
-            emit_expression(codegen, val);
-            emit_formatted(codegen, "), \"%s\", %d)", codegen->file, node->token.line);
         } else if (val_kind == TK_STRING) {
             /* string → numeric (targets other than int/float handled above):
              * parse to int64/double first, then apply narrowing check */
@@ -2826,39 +2832,8 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 break;
             }
 
-            /* Numeric casts: range-checked for narrowing, raw for widening */
-            const char *smin = NULL, *smax = NULL;
-            bool is_unsigned = false;
-            if (strcmp(target, "i8") == 0) { smin = "-128"; smax = "127"; }
-            else if (strcmp(target, "i16") == 0) { smin = "-32768"; smax = "32767"; }
-            else if (strcmp(target, "i32") == 0) { smin = "-2147483648LL"; smax = "2147483647LL"; }
-            else if (strcmp(target, "u8") == 0 || strcmp(target, "byte") == 0) { is_unsigned = true; smax = "255"; }
-            else if (strcmp(target, "u16") == 0) { is_unsigned = true; smax = "65535"; }
-            else if (strcmp(target, "u32") == 0) { is_unsigned = true; smax = "4294967295ULL"; }
-
-            if (smax && is_unsigned) {
-                emit_formatted(codegen, "(%s)gray_ucast_check(", gray_type_to_c_codegen(codegen, target));
-                emit_expression(codegen, val);
-                emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d)", smax, target, codegen->file, node->token.line);
-            } else if (smax) {
-                emit_formatted(codegen, "(%s)gray_cast_check(", gray_type_to_c_codegen(codegen, target));
-                emit_expression(codegen, val);
-                emit_formatted(codegen, ", %s, %s, \"%s\", \"%s\", %d)", smin, smax, target, codegen->file, node->token.line);
-            } else if ((strcmp(target, "uint") == 0 || strcmp(target, "u64") == 0) &&
-                       val_kind == TK_INT) {
-                /* signed int → uint/u64: panic if value is negative */
-                emit_formatted(codegen, "(uint64_t)gray_ucast_check((int64_t)(");
-                emit_expression(codegen, val);
-                emit_formatted(codegen, "), 18446744073709551615ULL, \"%s\", \"%s\", %d)", target, codegen->file, node->token.line);
-            } else if ((strcmp(target, "int") == 0 || strcmp(target, "i64") == 0) &&
-                       val_kind == TK_UINT &&
-                       val_t && val_t->name &&
-                       (strcmp(val_t->name, "uint") == 0 || strcmp(val_t->name, "u64") == 0)) {
-                /* uint/u64 → int/i64: panic if value exceeds INT64_MAX */
-                emit_formatted(codegen, "(int64_t)gray_uint_to_int_check((uint64_t)(");
-                emit_expression(codegen, val);
-                emit_formatted(codegen, "), \"%s\", %d)", codegen->file, node->token.line);
-            } else {
+            /* Numeric casts: range-checked when the value may not fit, raw for widening */
+            if (!emit_integer_conversion(codegen, target, val, node->token.line)) {
                 emit_formatted(codegen, "((%s)(", gray_type_to_c_codegen(codegen, target));
                 emit_expression(codegen, val);
                 emit(codegen, "))");
@@ -3906,30 +3881,37 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
             /* Bigint→scalar: e.g., int(x128) → gray_i128_to_i64(x128) */
             const char *src_bi = resolve_bigint_type(codegen, carg);
             if (src_bi) {
-                emit_formatted(codegen, "((%s)gray_wide_to_%s(gray_wide_from_%s(", cast_type,
+                const char *narrow = strcmp(func, "byte") == 0 ? "gray_ucast_check("
+                                   : strcmp(func, "char") == 0 ? "gray_cast_check(" : "";
+                emit_formatted(codegen, "((%s)%sgray_wide_to_%s(gray_wide_from_%s(", cast_type, narrow,
                     strcmp(func, "uint") == 0 ? "u64" : "i64", src_bi);
                 emit_expression(codegen, carg);
-                emit_formatted(codegen, "), \"%s\", \"%s\", %d))", src_bi, codegen->file, node->token.line);
+                emit_formatted(codegen, "), \"%s\", \"%s\", %d)", src_bi, codegen->file, node->token.line);
+                if (*narrow)
+                    emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d)",
+                        strcmp(func, "byte") == 0 ? "255" : "(-2147483647LL - 1), 2147483647LL",
+                        func, codegen->file, node->token.line);
+                emit(codegen, ")");
                 return true;
             }
             /* String→numeric conversion */
             GrayType *carg_t = codegen->type_table ? typetable_get(codegen->type_table, carg) : NULL;
             bool is_string_src = (carg->kind == NODE_STRING_VALUE || carg->kind == NODE_INTERPOLATED_STRING ||
                                   (carg_t && carg_t->kind == TK_STRING));
-            if (is_string_src && (strcmp(func, "int") == 0 || strcmp(func, "uint") == 0)) {
+            if (is_string_src && strcmp(func, "int") == 0) {
                 emit(codegen, "gray_builtin_string_to_int(");
                 emit_expression(codegen, carg);
                 emit(codegen, ")");
+            } else if (is_string_src && (strcmp(func, "uint") == 0 || strcmp(func, "byte") == 0)) {
+                emit_formatted(codegen, "((%s)gray_builtin_string_to_uint(", cast_type);
+                emit_expression(codegen, carg);
+                emit_formatted(codegen, ", %s))", strcmp(func, "byte") == 0 ? "255" : "18446744073709551615ULL");
             } else if (is_string_src && strcmp(func, "float") == 0) {
                 emit(codegen, "gray_builtin_string_to_float(");
                 emit_expression(codegen, carg);
                 emit(codegen, ")");
-            } else if (strcmp(func, "int") == 0 &&
-                (carg->kind == NODE_FLOAT_VALUE || (carg_t && carg_t->kind == TK_FLOAT))) {
-                /* Use overflow-safe conversion for float→int */
-                emit_formatted(codegen, "gray_float_to_int((double)(");
-                emit_expression(codegen, carg);
-                emit_formatted(codegen, "), \"%s\", %d)", codegen->file, node->token.line);
+            } else if (emit_integer_conversion(codegen, func, carg, node->token.line)) {
+                /* range-checked */
             } else {
                 emit_formatted(codegen, "((%s)(", cast_type);
                 emit_expression(codegen, carg);
@@ -7091,43 +7073,97 @@ static bool is_nested_array_type(const char *type_name) {
     return type_name && type_name[0] == '[' && type_name[1] == '[';
 }
 
-/* Emit a runtime range-check cast for narrowing integer assignments.
- * Wraps val in gray_cast_check/gray_ucast_check when target is a sized
- * integer type (i8/i16/i32/u8/u16/u32/byte).  Returns true when a
- * check was emitted; caller should emit val normally when false. */
-static bool emit_narrowing_cast(CodeGen *codegen, const char *target,
-                                AstNode *val, int line) {
-    if (!target) return false;
-    const char *smin = NULL, *smax = NULL;
-    bool is_unsigned = false;
-    if      (strcmp(target, "i8")   == 0) { smin = "-128";          smax = "127"; }
-    else if (strcmp(target, "i16")  == 0) { smin = "-32768";        smax = "32767"; }
-    else if (strcmp(target, "i32")  == 0) { smin = "-2147483648LL"; smax = "2147483647LL"; }
-    else if (strcmp(target, "u8")   == 0 ||
-             strcmp(target, "byte") == 0) { is_unsigned = true; smax = "255"; }
-    else if (strcmp(target, "u16")  == 0) { is_unsigned = true; smax = "65535"; }
-    else if (strcmp(target, "u32")  == 0) { is_unsigned = true; smax = "4294967295ULL"; }
-    else return false;
-
+/* Emit val converted to the integer or char type target.  The value is kept
+ * (truncated toward zero from floats) or the program panics: the source is
+ * first brought into the 64-bit integer of the target's signedness, then
+ * range-checked against the target.  Inside a file-scope constant the
+ * typechecker has already validated the value, so a plain C cast is emitted.
+ * Returns false when target is not such a type or val is not a number. */
+static bool emit_integer_conversion(CodeGen *codegen, const char *target,
+                                    AstNode *val, int line) {
+    static const struct { const char *name, *min, *max; bool is_unsigned; } targets[] = {
+        { "int",  NULL, NULL, false },           { "i64",  NULL, NULL, false },
+        { "i8",   "-128", "127", false },        { "i16",  "-32768", "32767", false },
+        { "i32",  "(-2147483647LL - 1)", "2147483647LL", false },
+        { "char", "(-2147483647LL - 1)", "2147483647LL", false },
+        { "uint", NULL, "18446744073709551615ULL", true },
+        { "u64",  NULL, "18446744073709551615ULL", true },
+        { "u8",   NULL, "255", true },           { "byte", NULL, "255", true },
+        { "u16",  NULL, "65535", true },         { "u32",  NULL, "4294967295ULL", true },
+    };
+    int ti = -1;
+    for (int i = 0; target && i < (int)(sizeof(targets) / sizeof(targets[0])); i++)
+        if (strcmp(target, targets[i].name) == 0) { ti = i; break; }
+    if (ti < 0) return false;
+
+    GrayType *val_t = codegen->type_table ? typetable_get(codegen->type_table, val) : NULL;
+    TypeKind kind = val_t ? val_t->kind : TK_UNKNOWN;
+    if (kind == TK_UNKNOWN && val->kind == NODE_FLOAT_VALUE) kind = TK_FLOAT;
+    if (kind == TK_UNKNOWN && val->kind == NODE_STRING_VALUE) kind = TK_STRING;
+    if (kind == TK_STRING || kind == TK_STRUCT || kind == TK_ARRAY || kind == TK_MAP) return false;
+    if ((val_t && val_t->name && is_bigint_type(val_t->name)) || resolve_bigint_type(codegen, val)) return false;
     const char *c_target = gray_type_to_c_codegen(codegen, target);
+    bool wide = strcmp(c_target, "int64_t") == 0 || strcmp(c_target, "uint64_t") == 0;
+
     if (codegen->in_const_decl) {
-        /* File-scope const: typechecker already validated the value fits;
-         * emit a plain cast so C sees a compile-time constant. */
         emit_formatted(codegen, "(%s)(", c_target);
         emit_expression(codegen, val);
         emit(codegen, ")");
-    } else if (is_unsigned) {
-        emit_formatted(codegen, "(%s)gray_ucast_check(", c_target);
+        return true;
+    }
+    bool src_u64 = kind == TK_UINT &&
+        !(val_t->name && (strcmp(val_t->name, "u8") == 0 || strcmp(val_t->name, "u16") == 0 ||
+                          strcmp(val_t->name, "u32") == 0));
+    bool to_unsigned = targets[ti].is_unsigned;
+    if (wide && to_unsigned && kind == TK_FLOAT) {
+        emit(codegen, "gray_float_to_uint((double)(");
+        emit_expression(codegen, val);
+        emit_formatted(codegen, "), \"%s\", %d)", codegen->file, line);
+        return true;
+    }
+    if (wide && ((!to_unsigned && kind != TK_FLOAT && !src_u64) ||
+                 (to_unsigned && (kind == TK_UINT || kind == TK_BYTE || kind == TK_BOOL)))) {
+        emit_formatted(codegen, "((%s)(", c_target);
+        emit_expression(codegen, val);
+        emit(codegen, "))");
+        return true;
+    }
+    bool narrow_check = !wide || to_unsigned;
+    if (narrow_check)
+        emit_formatted(codegen, "(%s)gray_%s_check(", c_target, to_unsigned ? "ucast" : "cast");
+    if (kind == TK_FLOAT) {
+        emit(codegen, "gray_float_to_int((double)(");
         emit_expression(codegen, val);
-        emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d)", smax, target, codegen->file, line);
+        emit_formatted(codegen, "), \"%s\", %d)", codegen->file, line);
+    } else if (src_u64) {
+        emit(codegen, "gray_uint_to_int_check((uint64_t)(");
+        emit_expression(codegen, val);
+        emit_formatted(codegen, "), \"%s\", %d)", codegen->file, line);
     } else {
-        emit_formatted(codegen, "(%s)gray_cast_check(", c_target);
+        emit(codegen, "(int64_t)(");
         emit_expression(codegen, val);
-        emit_formatted(codegen, ", %s, %s, \"%s\", \"%s\", %d)", smin, smax, target, codegen->file, line);
+        emit(codegen, ")");
+    }
+    if (narrow_check) {
+        if (!to_unsigned) emit_formatted(codegen, ", %s", targets[ti].min);
+        emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d)", targets[ti].max, target, codegen->file, line);
     }
     return true;
 }
 
+/* Emit a runtime range-check cast for narrowing integer assignments.
+ * Wraps val in gray_cast_check/gray_ucast_check when target is a sized
+ * integer type (i8/i16/i32/u8/u16/u32/byte).  Returns true when a
+ * check was emitted; caller should emit val normally when false. */
+static bool emit_narrowing_cast(CodeGen *codegen, const char *target,
+                                AstNode *val, int line) {
+    static const char *narrow[] = { "i8", "i16", "i32", "u8", "byte", "u16", "u32" };
+    for (int i = 0; target && i < (int)(sizeof(narrow) / sizeof(narrow[0])); i++)
+        if (strcmp(target, narrow[i]) == 0)
+            return emit_integer_conversion(codegen, target, val, line);
+    return false;
+}
+
 /* Emit the initializer for a fixed-size array declaration.
  * When the value is a partial array literal (count < fixed_size), a C
  * compound literal with an explicit size is used so the trailing slots are
diff --git a/grayc/src/parser/ast.h b/grayc/src/parser/ast.h
index ab13d06..c207bb5 100644
--- a/grayc/src/parser/ast.h
+++ b/grayc/src/parser/ast.h
@@ -204,6 +204,7 @@ struct AstNode {
             const char *target_type;
             bool is_array;
             const char *element_type;
+            AstNode *element_cast;  /* array casts: the cast of one element */
         } cast;
 
         /* NODE_FUNC_REF — ()func_name */
diff --git a/grayc/src/parser/parser.c b/grayc/src/parser/parser.c
index 0df9e9d..077bae0 100644
--- a/grayc/src/parser/parser.c
+++ b/grayc/src/parser/parser.c
@@ -991,6 +991,7 @@ static AstNode *parse_prefix(Parser *parser) {
         AstNode *node = ast_alloc(parser->arena, NODE_CAST_EXPR, parser->cur_token);
         node->data.cast.is_array = false;
         node->data.cast.element_type = NULL;
+        node->data.cast.element_cast = NULL;
         if (!expect_peek_token(parser, TOK_LPAREN)) return NULL;
         next_token(parser);
         node->data.cast.value = parse_expression(parser, PREC_LOWEST);
@@ -1007,6 +1008,12 @@ static AstNode *parse_prefix(Parser *parser) {
             node->data.cast.target_type = type_str;
             node->data.cast.is_array = true;
             node->data.cast.element_type = elem;
+            AstNode *elem_value = ast_alloc(parser->arena, NODE_LABEL, node->token);
+            elem_value->data.label.value = "_cast_elem";
+            AstNode *elem_cast = ast_alloc(parser->arena, NODE_CAST_EXPR, node->token);
+            elem_cast->data.cast.value = elem_value;
+            elem_cast->data.cast.target_type = elem;
+            node->data.cast.element_cast = elem_cast;
         } else {
             node->data.cast.target_type = parser->cur_token.literal;
         }
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index fad9e9e..cbfdbf7 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -351,7 +351,8 @@ static inline int64_t gray_uint_to_int_check(uint64_t v, const char *file, int l
 
 /* Safe float-to-int conversion with overflow check */
 static inline int64_t gray_float_to_int(double v, const char *file, int line) {
-    if (v > 9.223372036854775e+18 || v < -9.223372036854775e+18 ||
+    /* 9.2233720368547758e+18 == 2^63 exactly as a double */
+    if (v >= 9.2233720368547758e+18 || v < -9.2233720368547758e+18 ||
         v != v /* NaN */)
         gray_panic_code_at(file, line, "P0020", "cannot convert float to int; the value is too large, too small, or NaN");
     return (int64_t)v;
diff --git a/grayc/src/stdlib/builtins.c b/grayc/src/stdlib/builtins.c
index 2a1ddca..478360b 100644
--- a/grayc/src/stdlib/builtins.c
+++ b/grayc/src/stdlib/builtins.c
@@ -11,6 +11,7 @@
 #include "builtins.h"
 #include "../util/constants.h"
 #include <stdio.h>
+#include <errno.h>
 #include <string.h>
 #include <stdlib.h>
 #include <inttypes.h>
@@ -303,29 +304,50 @@ GrayString gray_builtin_to_string_bool(GrayArena *arena, bool v) {
 
 /* --- from_string --- */
 
+/* The whole text must be one number that fits; anything else panics. */
+static char *number_text(GrayString s, const char *code, const char *what) {
+    char *buf = (char *)gray_arena_alloc(gray_default_arena, (size_t)s.len + 1);
+    if (s.len > 0) memcpy(buf, s.data, (size_t)s.len);
+    buf[s.len] = '\0';
+    if (strlen(buf) != (size_t)s.len)
+        gray_panic_code(code, "cannot convert '%s' to %s", buf, what);
+    return buf;
+}
+
+static void number_end(const char *buf, const char *end, const char *code, const char *what) {
+    const char *e = end;
+    while (*e == ' ' || *e == '\t' || *e == '\n' || *e == '\r') e++;
+    if (end == buf || *e != '\0')
+        gray_panic_code(code, "cannot convert '%s' to %s", buf, what);
+}
+
 int64_t gray_builtin_string_to_int(GrayString s) {
-    char buf[GRAY_FLOAT_STR_BUF];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
+    char *buf = number_text(s, "P0084", "int");
     char *end = NULL;
-    int64_t result = strtoll(buf, &end, 10);
-    if (end == buf || (*end != '\0' && *end != ' ')) {
+    errno = 0;
+    long long result = strtoll(buf, &end, 10);
+    number_end(buf, end, "P0084", "int");
+    if (errno == ERANGE)
         gray_panic_code("P0084", "cannot convert '%s' to int", buf);
-    }
-    return result;
+    return (int64_t)result;
+}
+
+uint64_t gray_builtin_string_to_uint(GrayString s, uint64_t max_val) {
+    char *buf = number_text(s, "P0084", "uint");
+    char *end = NULL;
+    errno = 0;
+    unsigned long long result = strtoull(buf, &end, 10);
+    number_end(buf, end, "P0084", "uint");
+    if (errno == ERANGE || strchr(buf, '-') || result > max_val)
+        gray_panic_code("P0084", "cannot convert '%s' to uint", buf);
+    return (uint64_t)result;
 }
 
 double gray_builtin_string_to_float(GrayString s) {
-    char buf[GRAY_FLOAT_STR_BUF];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
+    char *buf = number_text(s, "P0085", "float");
     char *end = NULL;
     double result = strtod(buf, &end);
-    if (end == buf || (*end != '\0' && *end != ' ')) {
-        gray_panic_code("P0085", "cannot convert '%s' to float", buf);
-    }
+    number_end(buf, end, "P0085", "float");
     return result;
 }
 
@@ -339,6 +361,12 @@ static int cp_to_utf8(int32_t cp, char *out) {
     out[0]=(char)(0xF0|(cp>>18)); out[1]=(char)(0x80|((cp>>12)&0x3F)); out[2]=(char)(0x80|((cp>>6)&0x3F)); out[3]=(char)(0x80|(cp&0x3F)); return 4;
 }
 
+GrayString gray_builtin_to_string_char(GrayArena *arena, int32_t v) {
+    char buf[4];
+    int n = cp_to_utf8(v, buf);
+    return gray_string_new(arena, buf, n);
+}
+
 GrayString gray_builtin_array_to_string(GrayArena *arena, GrayArray *arr, int elem_kind) {
     char buf[GRAY_TOSTRING_BUF_SIZE];
     int pos = 0;
diff --git a/grayc/src/stdlib/builtins.h b/grayc/src/stdlib/builtins.h
index e961b0c..50a3780 100644
--- a/grayc/src/stdlib/builtins.h
+++ b/grayc/src/stdlib/builtins.h
@@ -427,7 +427,9 @@ GrayString gray_builtin_to_string_float(GrayArena *arena, double v);
 GrayString gray_builtin_to_string_bool(GrayArena *arena, bool v);
 
 /* from_string — internal runtime overloads */
+GrayString gray_builtin_to_string_char(GrayArena *arena, int32_t v);
 int64_t gray_builtin_string_to_int(GrayString s);
+uint64_t gray_builtin_string_to_uint(GrayString s, uint64_t max_val);
 double gray_builtin_string_to_float(GrayString s);
 
 /* format float for interpolation */
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index eb45edf..18d6850 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -1890,6 +1890,62 @@ static bool try_get_literal_int(AstNode *node, int64_t *out) {
     return false;
 }
 
+/* Range of a named integer type of up to 64 bits, as exponents of two:
+ * signed types hold [-2^(bits-1), 2^(bits-1)), unsigned ones [0, 2^bits). */
+static int int_type_bits(const char *tn, bool *is_unsigned) {
+    int rank = int_type_name_rank(tn);
+    if (rank < 1 || rank > 4) return 0;
+    *is_unsigned = is_unsigned_type(tn);
+    return 4 << rank;
+}
+
+/* An integer stored into a slot of another integer type (assignment, array or
+ * map literal element, return value) keeps its value or panics: wrap the value
+ * in a cast when the slot's type cannot hold every value of its type. */
+static void coerce_integer_slot(TypeChecker *checker, AstNode **slot, GrayType *target) {
+    AstNode *value = slot ? *slot : NULL;
+    if (!value || !target || checker->type_param_binding) return;
+    if (target->kind == TK_ARRAY && target->element_type && value->kind == NODE_ARRAY_VALUE) {
+        GrayType *et = type_from_name(target->element_type);
+        for (int i = 0; i < value->data.array_value.count; i++)
+            coerce_integer_slot(checker, &value->data.array_value.elements[i], et);
+        return;
+    }
+    if (target->kind == TK_MAP && value->kind == NODE_MAP_VALUE) {
+        GrayType *kt = target->key_type ? type_from_name(target->key_type) : NULL;
+        GrayType *vt = target->value_type ? type_from_name(target->value_type) : NULL;
+        for (int i = 0; i < value->data.map_value.count; i++) {
+            coerce_integer_slot(checker, &value->data.map_value.keys[i], kt);
+            coerce_integer_slot(checker, &value->data.map_value.values[i], vt);
+        }
+        return;
+    }
+    if (!is_int_kind(target->kind)) return;
+    bool to_unsigned = false, from_unsigned = false;
+    int to_bits = int_type_bits(target->name, &to_unsigned);
+    GrayType *from = typetable_get(checker->type_table, value);
+    if (!to_bits || !from || !is_int_kind(from->kind)) return;
+    int from_bits = int_type_bits(from->name, &from_unsigned);
+    if (!from_bits) return;
+    int64_t lit;
+    if (try_get_literal_int(value, &lit)) {
+        if (to_unsigned ? lit >= 0 && (to_bits == 64 || lit < (INT64_C(1) << to_bits))
+                        : to_bits == 64 || (lit >= -(INT64_C(1) << (to_bits - 1)) && lit < (INT64_C(1) << (to_bits - 1))))
+            return;
+    } else if (value->kind == NODE_INT_VALUE) {
+        return; /* beyond int64: judged against the declared type elsewhere */
+    }
+    if (to_unsigned ? from_unsigned && from_bits <= to_bits
+                    : from_bits + (from_unsigned ? 1 : 0) <= to_bits)
+        return;
+    AstNode *cast = ast_alloc(checker->arena, NODE_CAST_EXPR, value->token);
+    cast->data.cast.value = value;
+    cast->data.cast.target_type = target->name;
+    typetable_set(checker->type_table, cast, target);
+    *slot = cast;
+}
+
+
 /* Register a file-scope const integer value for later constant folding. */
 static void typechecker_register_const_int(TypeChecker *checker, const char *name, ConstInt value) {
     if (checker->const_int_count >= checker->const_int_cap) {
@@ -6406,6 +6462,7 @@ static GrayType *resolve_struct_value(TypeChecker *checker, AstNode *node) {
             checker->expected_type = field_expected_t;
         GrayType *val_t = resolve_expression(checker, node->data.struct_value.field_values[i]);
         checker->expected_type = saved_sv_expected;
+        coerce_integer_slot(checker, &node->data.struct_value.field_values[i], field_expected_t);
         /* Validate field exists */
         if (si && node->data.struct_value.field_names[i]) {
             const char *fname = node->data.struct_value.field_names[i];
@@ -7203,6 +7260,10 @@ static GrayType *resolve_expression(TypeChecker *checker, AstNode *node) {
                     GrayType *dst_elem = type_from_name(dst_t->element_type);
                     if (type_is_numeric(src_elem) && type_is_numeric(dst_elem))
                         allowed = true;
+                    if (allowed && node->data.cast.element_cast) {
+                        typetable_set(checker->type_table, node->data.cast.element_cast->data.cast.value, src_elem);
+                        typetable_set(checker->type_table, node->data.cast.element_cast, dst_elem);
+                    }
                 } else {
                     allowed = true;
                 }
@@ -8947,6 +9008,11 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                 }
             }
         }
+        int64_t decl_literal;
+        if (node->data.var_decl.type_name && node->data.var_decl.value && checker->current_scope->parent &&
+            !try_get_literal_int(node->data.var_decl.value, &decl_literal))
+            coerce_integer_slot(checker, &node->data.var_decl.value,
+                typechecker_type_from_name(checker, node->data.var_decl.type_name));
         break;
     }
 
@@ -9193,6 +9259,8 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                     NODE_FILE(checker, node), node->token.line, node->token.column, 0);
             }
         }
+        if (node->data.assign.op == TOK_ASSIGN)
+            coerce_integer_slot(checker, &node->data.assign.value, target_t);
         /* Struct-to-struct name mismatch on direct variable assignment */
         if (target->kind == NODE_LABEL &&
             target_t->kind == TK_STRUCT && value_t->kind == TK_STRUCT &&
@@ -9585,6 +9653,8 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                     }
                 }
             }
+            for (int i = 0; i < node->data.return_stmt.count && i < checker->current_return_count; i++)
+                coerce_integer_slot(checker, &node->data.return_stmt.values[i], checker->current_return_types[i]);
         }
         break;
 
-- 
2.43.0


From a9f50d5402a5e770848d6909e5ac443ec1e19d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:50:18 +0000
Subject: [PATCH 14/96] fix: an integer literal on the left of an operator
 takes the type of the right operand

---
 grayc/src/typechecker/typechecker.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 18d6850..d0ed3be 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -6109,6 +6109,10 @@ static GrayType *resolve_infix_expr(TypeChecker *checker, AstNode *node) {
         result = &TYPE_FLOAT;
     } else if (left->kind == TK_STRING && op == TOK_PLUS) {
         result = &TYPE_STRING;
+    } else if (node->data.infix.left->kind == NODE_INT_VALUE && node->data.infix.right->kind != NODE_INT_VALUE &&
+               op != TOK_BIT_SHIFT_LEFT && op != TOK_BIT_SHIFT_RIGHT &&
+               is_int_kind(left->kind) && is_int_kind(right->kind)) {
+        result = right; /* an integer literal takes the type of the other operand */
     } else {
         result = left;
     }
-- 
2.43.0


From c2fc3365374baa6ecae457e639b52081db2c5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:50:32 +0000
Subject: [PATCH 15/96] fix: array functions compare, sort, sum and split
 elements by their own type

---
 grayc/src/codegen/codegen.c         | 244 +++++++++----------
 grayc/src/stdlib/arrays.c           | 351 ++++++++++------------------
 grayc/src/stdlib/arrays.h           |  68 +++---
 grayc/src/typechecker/typechecker.c |  20 +-
 4 files changed, 293 insertions(+), 390 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 7f2919c..e569f4f 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -80,6 +80,12 @@ static AstNode *find_struct_declaration(CodeGen *codegen, const char *name);
  * Returns the prefixed name if found, otherwise returns the original. */
 static const char *resolve_unprefixed_name(CodeGen *codegen, const char *name) {
     if (!codegen || !name) return name;
+    /* A type declared under exactly this name is never an alias of another
+     * type whose name happens to end in "_<name>". */
+    for (int i = 0; i < codegen->struct_decl_count; i++)
+        if (strcmp(codegen->struct_decls[i]->data.struct_decl.name, name) == 0) return name;
+    for (int i = 0; i < codegen->enum_count; i++)
+        if (strcmp(codegen->enum_names[i], name) == 0) return name;
     for (int i = 0; i < codegen->struct_decl_count; i++) {
         const char *dn = codegen->struct_decls[i]->data.struct_decl.name;
         const char *us = strrchr(dn, '_');
@@ -489,6 +495,22 @@ static const char *array_storage_c_type(CodeGen *codegen, const char *elem_type)
     return gray_type_to_c_codegen(codegen, elem_type);
 }
 
+/* The GrayElemKind constant describing how an array of elem_type stores its
+ * elements, for the arrays functions that compare them. */
+static const char *array_elem_kind(CodeGen *codegen, const char *elem_type) {
+    static const char *const kinds[][2] = {
+        {"int64_t", "GRAY_ELEM_I64"}, {"uint64_t", "GRAY_ELEM_U64"}, {"double", "GRAY_ELEM_F64"},
+        {"GrayString", "GRAY_ELEM_STR"}, {"bool", "GRAY_ELEM_U8"}, {"uint8_t", "GRAY_ELEM_U8"},
+        {"int32_t", "GRAY_ELEM_I32"}, {"gray_i128", "GRAY_ELEM_I128"}, {"gray_u128", "GRAY_ELEM_U128"},
+        {"gray_i256", "GRAY_ELEM_I256"}, {"gray_u256", "GRAY_ELEM_U256"},
+    };
+    const char *c_type = array_storage_c_type(codegen, elem_type);
+    for (size_t i = 0; i < sizeof(kinds) / sizeof(kinds[0]); i++) {
+        if (strcmp(c_type, kinds[i][0]) == 0) return kinds[i][1];
+    }
+    return "GRAY_ELEM_RAW";
+}
+
 /* Map a C key type back to its GrayMap key-kind macro so the codegen can
  * tag each gray_map_new_kind call. Float keys need this so -0.0/+0.0 and
  * NaN are normalized at lookup time; other 8-byte keys (int, pointer)
@@ -865,6 +887,7 @@ static const char *resolve_bigint_type(CodeGen *codegen, AstNode *node) {
     if (node->kind == NODE_INFIX_EXPR) {
         switch (node->data.infix.op) {
         case TOK_EQ: case TOK_NOT_EQ: case TOK_LT: case TOK_GT: case TOK_LT_EQ: case TOK_GT_EQ:
+        case TOK_IN: case TOK_NOT_IN: case TOK_AND: case TOK_OR:
             return NULL; /* a comparison yields bool */
         default:
             break;
@@ -914,6 +937,8 @@ static void emit_bigint_conversion(CodeGen *codegen, AstNode *value, const char
         codegen->file, line);
 }
 
+static void emit_array_search(CodeGen *codegen, const char *fn, AstNode *arr, AstNode *value);
+
 /* Emit a value for a slot of C type c_type: literals and narrower integers are
  * widened when the slot holds a wide integer. */
 static void emit_expression_as(CodeGen *codegen, AstNode *value, const char *c_type) {
@@ -1981,26 +2006,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 break;
             }
             if (negated) emit(codegen, "!");
-            {
-                const char *contains_fn = "gray_arrays_contains_int";
-                if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type) {
-                    if (strcmp(arr_t->element_type, "string") == 0)
-                        contains_fn = "gray_arrays_contains_str";
-                    else if (strcmp(arr_t->element_type, "char") == 0)
-                        contains_fn = "gray_arrays_contains_char";
-                    else if (strcmp(arr_t->element_type, "byte") == 0)
-                        contains_fn = "gray_arrays_contains_byte";
-                    else if (strcmp(arr_t->element_type, "float") == 0 ||
-                             strcmp(arr_t->element_type, "f32") == 0 ||
-                             strcmp(arr_t->element_type, "f64") == 0)
-                        contains_fn = "gray_arrays_contains_float";
-                }
-                emit_formatted(codegen, "%s(&", contains_fn);
-                emit_expression(codegen, node->data.infix.right);
-                emit(codegen, ", ");
-                emit_expression(codegen, node->data.infix.left);
-                emit(codegen, ")");
-            }
+            emit_array_search(codegen, "contains", node->data.infix.right, node->data.infix.left);
             break;
         }
 
@@ -5059,6 +5065,23 @@ static void emit_array_argument_address(CodeGen *codegen, AstNode *arg) {
     emit_address_of(codegen, arg);
 }
 
+/* Element type name of an array argument. */
+static const char *array_arg_element(CodeGen *codegen, AstNode *arr) {
+    GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, arr) : NULL;
+    return arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type ? arr_t->element_type : "int";
+}
+
+/* Emit gray_arrays_<fn>(&arr, kind, &value) for a search by element value. */
+static void emit_array_search(CodeGen *codegen, const char *fn, AstNode *arr, AstNode *value) {
+    const char *elem = array_arg_element(codegen, arr);
+    const char *c_store = array_storage_c_type(codegen, elem);
+    emit(codegen, "({ GrayArray *_sa = ");
+    emit_array_argument_address(codegen, arr);
+    emit_formatted(codegen, "; %s _sv = ", c_store);
+    emit_expression_as(codegen, value, c_store);
+    emit_formatted(codegen, "; gray_arrays_%s(_sa, %s, &_sv); })", fn, array_elem_kind(codegen, elem));
+}
+
 static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func) {
     if (strcmp(func, "append") == 0 && node->data.call.arg_count == 2) {
         GrayType *val_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[1]) : NULL;
@@ -5098,9 +5121,10 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
             else if (et->kind == TK_FUNCTION) c_elem = "void *";
             else if (et->kind == TK_POINTER) c_elem = gray_type_to_c_codegen(codegen, elem_tn);
         }
+        if (elem_tn) c_elem = array_storage_c_type(codegen, elem_tn);
         const char *alloc_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
         emit_formatted(codegen, "{ %s _av = ", c_elem);
-        emit_expression(codegen, node->data.call.args[1]);
+        emit_expression_as(codegen, node->data.call.args[1], c_elem);
         emit(codegen, "; ");
         /* : escape arena-allocated data to the outer arena when
          * inside a loop scope. Strings get a simple copy; arrays, maps,
@@ -5145,11 +5169,12 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
             }
         }
         const char *ia_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
-        emit_formatted(codegen, "{ %s _iv = ", c_elem);
-        emit_expression(codegen, node->data.call.args[2]);
-        emit(codegen, "; ");
         GrayType *ia_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *ia_elem_tn = (ia_arr_t && ia_arr_t->kind == TK_ARRAY) ? ia_arr_t->element_type : NULL;
+        if (ia_elem_tn) c_elem = array_storage_c_type(codegen, ia_elem_tn);
+        emit_formatted(codegen, "{ %s _iv = ", c_elem);
+        emit_expression_as(codegen, node->data.call.args[2], c_elem);
+        emit(codegen, "; ");
         bool ia_str = (val_t && val_t->kind == TK_STRING) ||
             (ia_elem_tn && strcmp(ia_elem_tn, "string") == 0);
         if (codegen->loop_scope_depth > 0) {
@@ -5176,21 +5201,10 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         emit(codegen, ")");
         return true;
     }
-    if (strcmp(func, "remove") == 0 && node->data.call.arg_count == 2) {
-        GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
-            strcmp(arr_t->element_type, "string") == 0) {
-            emit(codegen, "gray_arrays_remove_str(");
-        } else if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
-                   strcmp(arr_t->element_type, "float") == 0) {
-            emit(codegen, "gray_arrays_remove_float(");
-        } else {
-            emit(codegen, "gray_arrays_remove_int(");
-        }
-        emit_array_argument_address(codegen, node->data.call.args[0]);
-        emit(codegen, ", ");
-        emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, ")");
+    if ((strcmp(func, "remove") == 0 || strcmp(func, "contains") == 0 ||
+         strcmp(func, "index_of") == 0 || strcmp(func, "count") == 0) &&
+        node->data.call.arg_count == 2) {
+        emit_array_search(codegen, func, node->data.call.args[0], node->data.call.args[1]);
         return true;
     }
     if (strcmp(func, "clear") == 0 && node->data.call.arg_count == 1) {
@@ -5199,30 +5213,10 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         emit(codegen, ")");
         return true;
     }
-    if (strcmp(func, "sort_asc") == 0 && node->data.call.arg_count == 1) {
-        GrayType *sa_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        const char *sa_elem = (sa_t && sa_t->kind == TK_ARRAY) ? sa_t->element_type : NULL;
-        if (sa_elem && strcmp(sa_elem, "float") == 0)
-            emit(codegen, "gray_arrays_sort_asc_float(");
-        else if (sa_elem && strcmp(sa_elem, "string") == 0)
-            emit(codegen, "gray_arrays_sort_asc_str(");
-        else
-            emit(codegen, "gray_arrays_sort_asc(");
-        emit_array_argument_address(codegen, node->data.call.args[0]);
-        emit(codegen, ")");
-        return true;
-    }
-    if (strcmp(func, "sort_desc") == 0 && node->data.call.arg_count == 1) {
-        GrayType *sd_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        const char *sd_elem = (sd_t && sd_t->kind == TK_ARRAY) ? sd_t->element_type : NULL;
-        if (sd_elem && strcmp(sd_elem, "float") == 0)
-            emit(codegen, "gray_arrays_sort_desc_float(");
-        else if (sd_elem && strcmp(sd_elem, "string") == 0)
-            emit(codegen, "gray_arrays_sort_desc_str(");
-        else
-            emit(codegen, "gray_arrays_sort_desc(");
+    if ((strcmp(func, "sort_asc") == 0 || strcmp(func, "sort_desc") == 0) && node->data.call.arg_count == 1) {
+        emit_formatted(codegen, "gray_arrays_%s(", func);
         emit_array_argument_address(codegen, node->data.call.args[0]);
-        emit(codegen, ")");
+        emit_formatted(codegen, ", %s)", array_elem_kind(codegen, array_arg_element(codegen, node->data.call.args[0])));
         return true;
     }
     if (strcmp(func, "is_empty") == 0 && node->data.call.arg_count == 1) {
@@ -5231,46 +5225,58 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         emit(codegen, ")");
         return true;
     }
-    if (strcmp(func, "contains") == 0 && node->data.call.arg_count == 2) {
-        GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
-            strcmp(arr_t->element_type, "string") == 0) {
-            emit(codegen, "gray_arrays_contains_str(");
-        } else {
-            emit(codegen, "gray_arrays_contains_int(");
-        }
+    if (strcmp(func, "is_equal") == 0 && node->data.call.arg_count == 2) {
+        emit(codegen, "gray_arrays_is_equal(");
         emit_array_argument_address(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
-        emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, ")");
+        emit_array_argument_address(codegen, node->data.call.args[1]);
+        emit_formatted(codegen, ", %s)", array_elem_kind(codegen, array_arg_element(codegen, node->data.call.args[0])));
         return true;
     }
-    if (strcmp(func, "is_equal") == 0 && node->data.call.arg_count == 2) {
-        GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
-            strcmp(arr_t->element_type, "string") == 0) {
-            emit(codegen, "gray_arrays_is_equal_str(");
-        } else {
-            emit(codegen, "gray_arrays_is_equal_prim(");
-        }
+    if (strcmp(func, "deduplicate") == 0 && node->data.call.arg_count == 1) {
+        emit(codegen, "gray_arrays_deduplicate(gray_default_arena, ");
         emit_array_argument_address(codegen, node->data.call.args[0]);
-        emit(codegen, ", &");
-        emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, ")");
+        emit_formatted(codegen, ", %s)", array_elem_kind(codegen, array_arg_element(codegen, node->data.call.args[0])));
         return true;
     }
-    if (strcmp(func, "index_of") == 0 && node->data.call.arg_count == 2) {
-        GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
-            strcmp(arr_t->element_type, "string") == 0) {
-            emit(codegen, "gray_arrays_index_of_str(");
-        } else {
-            emit(codegen, "gray_arrays_index_of_int(");
+    if (strcmp(func, "flatten") == 0 && node->data.call.arg_count == 1) {
+        GrayType *inner_t = type_from_name(array_arg_element(codegen, node->data.call.args[0]));
+        const char *inner_elem = inner_t->kind == TK_ARRAY && inner_t->element_type ? inner_t->element_type : "int";
+        emit(codegen, "gray_arrays_flatten(gray_default_arena, ");
+        emit_array_argument_address(codegen, node->data.call.args[0]);
+        emit_formatted(codegen, ", sizeof(%s))", array_storage_c_type(codegen, inner_elem));
+        return true;
+    }
+    if ((strcmp(func, "get_min") == 0 || strcmp(func, "get_max") == 0) && node->data.call.arg_count == 1) {
+        const char *elem = array_arg_element(codegen, node->data.call.args[0]);
+        emit_formatted(codegen, "(*(%s *)gray_arrays_%s_ptr(", array_storage_c_type(codegen, elem), func + strlen("get_"));
+        emit_array_argument_address(codegen, node->data.call.args[0]);
+        emit_formatted(codegen, ", %s))", array_elem_kind(codegen, elem));
+        return true;
+    }
+    if (strcmp(func, "get_sum") == 0 && node->data.call.arg_count == 1) {
+        const char *elem = codegen_effective_type_string(codegen, array_arg_element(codegen, node->data.call.args[0]));
+        const char *c_store = array_storage_c_type(codegen, elem);
+        if (strcmp(c_store, "double") == 0) {
+            emit(codegen, "gray_arrays_sum_float(");
+            emit_array_argument_address(codegen, node->data.call.args[0]);
+            emit(codegen, ")");
+            return true;
         }
+        const char *smin = NULL, *smax = NULL;
+        bool su = false;
+        sized_int_bounds(elem, &smin, &smax, &su);
+        emit(codegen, "({ GrayArray *_ts = ");
         emit_array_argument_address(codegen, node->data.call.args[0]);
-        emit(codegen, ", ");
-        emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, ")");
+        emit_formatted(codegen, "; %s _total = %s; for (int32_t _si = 0; _si < _ts->len; _si++) _total = ",
+            c_store, is_bigint_type(elem) ? "{0}" : "0");
+        char operands[MSG_BUF_SIZE];
+        snprintf(operands, sizeof(operands), "(_total, ((%s *)_ts->data)[_si]", c_store);
+        if (is_bigint_type(elem)) emit_formatted(codegen, "%s_add_checked%s", bigint_prefix(elem), operands);
+        else if (smax && su) emit_formatted(codegen, "gray_usized_add_check%s, %s, \"%s\"", operands, smax, elem);
+        else if (smax) emit_formatted(codegen, "gray_sized_add_check%s, %s, %s, \"%s\"", operands, smin, smax, elem);
+        else emit_formatted(codegen, "gray_%sadd_check%s", strcmp(c_store, "uint64_t") == 0 ? "u" : "", operands);
+        emit_formatted(codegen, ", \"%s\", %d); _total; })", codegen->file, node->token.line);
         return true;
     }
     /* prepend/fill need special value wrapping */
@@ -5279,18 +5285,9 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         GrayType *pp_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *pp_elem_tn = (pp_arr_t && pp_arr_t->kind == TK_ARRAY) ? pp_arr_t->element_type : NULL;
         bool pp_str = pp_elem_tn && strcmp(pp_elem_tn, "string") == 0;
-        const char *pp_c_elem = "int64_t";
-        if (pp_elem_tn) {
-            GrayType *pet = type_from_name(pp_elem_tn);
-            if (pet->kind == TK_FLOAT) pp_c_elem = "double";
-            else if (pet->kind == TK_BOOL) pp_c_elem = "bool";
-            else if (pet->kind == TK_STRING) pp_c_elem = "GrayString";
-            else if (pet->kind == TK_ARRAY) pp_c_elem = "GrayArray";
-            else if (pet->kind == TK_MAP) pp_c_elem = "GrayMap";
-            else if (pet->kind == TK_STRUCT) pp_c_elem = gray_type_to_c_codegen(codegen, pp_elem_tn);
-        }
+        const char *pp_c_elem = pp_elem_tn ? array_storage_c_type(codegen, pp_elem_tn) : "int64_t";
         emit_formatted(codegen, "{ %s _pv = ", pp_c_elem);
-        emit_expression(codegen, node->data.call.args[1]);
+        emit_expression_as(codegen, node->data.call.args[1], pp_c_elem);
         emit(codegen, "; ");
         if (codegen->loop_scope_depth > 0) {
             if (pp_str) {
@@ -5307,21 +5304,29 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         return true;
     }
     if (strcmp(func, "fill") == 0 && node->data.call.arg_count == 3) {
-        GrayType *fl_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        const char *fl_c_elem = "int64_t";
-        if (fl_arr_t && fl_arr_t->kind == TK_ARRAY && fl_arr_t->element_type) {
-            GrayType *fet = type_from_name(fl_arr_t->element_type);
-            if (fet->kind == TK_FLOAT) fl_c_elem = "double";
-            else if (fet->kind == TK_BOOL) fl_c_elem = "bool";
-            else if (fet->kind == TK_STRING) fl_c_elem = "GrayString";
-        }
+        const char *fl_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
+        const char *fl_elem_tn = array_arg_element(codegen, node->data.call.args[0]);
+        const char *fl_c_elem = array_storage_c_type(codegen, fl_elem_tn);
+        bool fl_copy = type_needs_deep_copy(codegen, fl_elem_tn);
         emit_formatted(codegen, "{ %s _fv = ", fl_c_elem);
-        emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, "; gray_arrays_fill(gray_default_arena, ");
+        emit_expression_as(codegen, node->data.call.args[1], fl_c_elem);
+        emit_formatted(codegen, "; GrayArray *_tgt = ");
         emit_array_argument_address(codegen, node->data.call.args[0]);
-        emit(codegen, ", &_fv, ");
+        emit(codegen, "; int64_t _fc = ");
         emit_expression(codegen, node->data.call.args[2]);
-        emit(codegen, "); }");
+        if (codegen->loop_scope_depth > 0 && strcmp(fl_c_elem, "GrayString") == 0) {
+            emit_formatted(codegen, "; _fv = gray_string_new(%s, _fv.data, _fv.len)", fl_arena);
+        }
+        emit(codegen, "; gray_arrays_clear(_tgt); ");
+        if (fl_copy) {
+            /* Each element gets its own copy of the value. */
+            emit_formatted(codegen, "for (int64_t _fi = 0; _fi < _fc; _fi++) { GrayArena *_esc = gray_default_arena; gray_default_arena = %s; %s _fe = ",
+                fl_arena, fl_c_elem);
+            emit_value_deep_copy(codegen, fl_elem_tn, "_fv");
+            emit_formatted(codegen, "; gray_default_arena = _esc; gray_arrays_append(%s, _tgt, &_fe); } }", fl_arena);
+        } else {
+            emit_formatted(codegen, "gray_arrays_fill(%s, _tgt, &_fv, _fc); }", fl_arena);
+        }
         return true;
     }
     if ((strcmp(func, "get_first") == 0 || strcmp(func, "get_last") == 0 ||
@@ -5329,7 +5334,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         node->data.call.arg_count == 1) {
         GrayType *af_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *af_elem = (af_t && af_t->kind == TK_ARRAY) ? af_t->element_type : NULL;
-        const char *af_ctype = af_elem ? gray_type_to_c_codegen(codegen, af_elem) : "int64_t";
+        const char *af_ctype = af_elem ? array_storage_c_type(codegen, af_elem) : "int64_t";
         bool af_is_get = (strcmp(func, "get_first") == 0 || strcmp(func, "get_last") == 0);
         const char *af_ptr_fn = (strcmp(func, "get_first") == 0 || strcmp(func, "remove_first") == 0)
                                 ? "gray_arrays_first_ptr" : "gray_arrays_last_ptr";
@@ -5424,8 +5429,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
 
     /* Generic: arrays.func(&arr, ...) or arrays.func(arena, &arr, ...) */
     bool needs_arena = (strcmp(func, "reverse") == 0 || strcmp(func, "slice") == 0 ||
-        strcmp(func, "concat") == 0 || strcmp(func, "deduplicate") == 0 ||
-        strcmp(func, "flatten") == 0 || strcmp(func, "split_every") == 0 ||
+        strcmp(func, "concat") == 0 || strcmp(func, "split_every") == 0 ||
         strcmp(func, "pair") == 0);
     bool ref_args = (strcmp(func, "concat") == 0 || strcmp(func, "pair") == 0);
     emit_formatted(codegen, "gray_arrays_%s(", func);
@@ -5434,7 +5438,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
     for (int i = 1; i < node->data.call.arg_count; i++) {
         emit(codegen, ", ");
         if (ref_args) {
-            emit_address_of(codegen, node->data.call.args[i]);
+            emit_array_argument_address(codegen, node->data.call.args[i]);
         } else {
             emit_expression(codegen, node->data.call.args[i]);
         }
diff --git a/grayc/src/stdlib/arrays.c b/grayc/src/stdlib/arrays.c
index facb134..c1a339b 100644
--- a/grayc/src/stdlib/arrays.c
+++ b/grayc/src/stdlib/arrays.c
@@ -13,19 +13,76 @@
 #include <stdlib.h>
 #include <stdio.h>
 
+/* === Element comparison === */
+
+#define GRAY_ELEM_ORDER(name, type, lt) \
+    static int name(const void *a, const void *b) { \
+        type va = *(const type *)a, vb = *(const type *)b; \
+        return (lt(vb, va)) - (lt(va, vb)); \
+    }
+#define GRAY_SCALAR_LT(x, y) ((x) < (y))
+
+GRAY_ELEM_ORDER(order_i64, int64_t, GRAY_SCALAR_LT)
+GRAY_ELEM_ORDER(order_u64, uint64_t, GRAY_SCALAR_LT)
+GRAY_ELEM_ORDER(order_f64, double, GRAY_SCALAR_LT)
+GRAY_ELEM_ORDER(order_u8, uint8_t, GRAY_SCALAR_LT)
+GRAY_ELEM_ORDER(order_i32, int32_t, GRAY_SCALAR_LT)
+GRAY_ELEM_ORDER(order_i128, gray_i128, gray_i128_lt)
+GRAY_ELEM_ORDER(order_u128, gray_u128, gray_u128_lt)
+GRAY_ELEM_ORDER(order_i256, gray_i256, gray_i256_lt)
+GRAY_ELEM_ORDER(order_u256, gray_u256, gray_u256_lt)
+
+static int order_str(const void *a, const void *b) {
+    const GrayString *sa = (const GrayString *)a;
+    const GrayString *sb = (const GrayString *)b;
+    int32_t min_len = sa->len < sb->len ? sa->len : sb->len;
+    int cmp = min_len > 0 ? memcmp(sa->data, sb->data, (size_t)min_len) : 0;
+    if (cmp != 0) return cmp;
+    return (sa->len > sb->len) - (sa->len < sb->len);
+}
+
+typedef int (*ElemOrder)(const void *, const void *);
+
+static ElemOrder elem_order(GrayElemKind kind) {
+    switch (kind) {
+    case GRAY_ELEM_I64:  return order_i64;
+    case GRAY_ELEM_U64:  return order_u64;
+    case GRAY_ELEM_F64:  return order_f64;
+    case GRAY_ELEM_STR:  return order_str;
+    case GRAY_ELEM_U8:   return order_u8;
+    case GRAY_ELEM_I32:  return order_i32;
+    case GRAY_ELEM_I128: return order_i128;
+    case GRAY_ELEM_U128: return order_u128;
+    case GRAY_ELEM_I256: return order_i256;
+    case GRAY_ELEM_U256: return order_u256;
+    case GRAY_ELEM_RAW:  break;
+    }
+    return NULL;
+}
+
+static bool elem_equal(GrayElemKind kind, int32_t elem_size, const void *a, const void *b) {
+    if (kind == GRAY_ELEM_F64) return *(const double *)a == *(const double *)b;
+    if (kind == GRAY_ELEM_STR) return gray_string_eq(*(const GrayString *)a, *(const GrayString *)b);
+    return memcmp(a, b, (size_t)elem_size) == 0;
+}
+
+static void *elem_at(GrayArray *arr, int32_t index) {
+    return (char *)arr->data + (size_t)index * (size_t)arr->elem_size;
+}
+
 /* === Modification === */
 
 void gray_arrays_append(GrayArena *arena, GrayArray *arr, const void *value) {
     gray_array_push(arena, arr, value);
 }
 
-void gray_arrays_insert_at(GrayArena *arena, GrayArray *arr, int32_t index, const void *value) {
+void gray_arrays_insert_at(GrayArena *arena, GrayArray *arr, int64_t index, const void *value) {
     if (arr->iterating > 0)
         gray_panic_code("P0034", "cannot modify array during for_each iteration");
     if (index < 0 || index > arr->len) {
         gray_panic_code("P0043",
-            "arrays.insert_at: index %d is out of bounds for an array of length %d",
-            index, arr->len);
+            "arrays.insert_at: index %lld is out of bounds for an array of length %d",
+            (long long)index, arr->len);
     }
 
     /* Grow if needed — same policy as gray_array_push */
@@ -57,45 +114,24 @@ void gray_arrays_prepend(GrayArena *arena, GrayArray *arr, const void *value) {
     gray_arrays_insert_at(arena, arr, 0, value);
 }
 
-void gray_arrays_remove_at(GrayArray *arr, int32_t index) {
+void gray_arrays_remove_at(GrayArray *arr, int64_t index) {
     if (arr->iterating > 0)
         gray_panic_code("P0034", "cannot modify array during for_each iteration");
     if (index < 0 || index >= arr->len)
         gray_panic_code("P0044",
-            "arrays.remove_at: index %d is out of bounds for an array of length %d",
-            index, arr->len);
+            "arrays.remove_at: index %lld is out of bounds for an array of length %d",
+            (long long)index, arr->len);
     char *data = (char *)arr->data;
     size_t element_size = (size_t)arr->elem_size;
-    memmove(data + index * element_size, data + (index + 1) * element_size, (arr->len - 1 - index) * element_size);
+    memmove(data + index * element_size, data + (index + 1) * element_size, (size_t)(arr->len - 1 - index) * element_size);
     arr->len--;
 }
 
-void gray_arrays_remove_int(GrayArray *arr, int64_t value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (*(int64_t *)((char *)arr->data + i * arr->elem_size) == value) {
-            gray_arrays_remove_at(arr, i);
-            return;
-        }
-    }
-}
-
-void gray_arrays_remove_float(GrayArray *arr, double value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (*(double *)((char *)arr->data + i * arr->elem_size) == value) {
-            gray_arrays_remove_at(arr, i);
-            return;
-        }
-    }
-}
-
-void gray_arrays_remove_str(GrayArray *arr, GrayString value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        GrayString *s = (GrayString *)((char *)arr->data + i * arr->elem_size);
-        if (s->len == value.len && memcmp(s->data, value.data, s->len) == 0) {
-            gray_arrays_remove_at(arr, i);
-            return;
-        }
-    }
+void gray_arrays_remove(GrayArray *arr, GrayElemKind kind, const void *value) {
+    if (arr->iterating > 0)
+        gray_panic_code("P0034", "cannot modify array during for_each iteration");
+    int64_t index = gray_arrays_index_of(arr, kind, value);
+    if (index >= 0) gray_arrays_remove_at(arr, index);
 }
 
 void gray_arrays_clear(GrayArray *arr) {
@@ -104,9 +140,9 @@ void gray_arrays_clear(GrayArray *arr) {
     arr->len = 0;
 }
 
-void gray_arrays_fill(GrayArena *arena, GrayArray *arr, const void *value, int32_t count) {
+void gray_arrays_fill(GrayArena *arena, GrayArray *arr, const void *value, int64_t count) {
     gray_arrays_clear(arr);
-    for (int32_t i = 0; i < count; i++) {
+    for (int64_t i = 0; i < count; i++) {
         gray_array_push(arena, arr, value);
     }
 }
@@ -143,111 +179,35 @@ void gray_arrays_remove_last_raw(GrayArray *arr, void *out) {
     arr->len--;
 }
 
-int64_t gray_arrays_get_first(GrayArray *arr) {
-    if (arr->len == 0) gray_panic_code("P0045", "arrays.get_first called on an empty array");
-    return *(int64_t *)arr->data;
-}
-
-int64_t gray_arrays_get_last(GrayArray *arr) {
-    if (arr->len == 0) gray_panic_code("P0046", "arrays.get_last called on an empty array");
-    return *(int64_t *)((char *)arr->data + (arr->len - 1) * arr->elem_size);
-}
-
-int64_t gray_arrays_remove_last(GrayArray *arr) {
-    if (arr->iterating > 0)
-        gray_panic_code("P0034", "cannot modify array during for_each iteration");
-    if (arr->len == 0) gray_panic_code("P0048", "arrays.remove_last called on an empty array");
-    int64_t val = *(int64_t *)((char *)arr->data + (arr->len - 1) * arr->elem_size);
-    arr->len--;
-    return val;
-}
-
-int64_t gray_arrays_remove_first(GrayArray *arr) {
-    if (arr->len == 0) gray_panic_code("P0047", "arrays.remove_first called on an empty array");
-    int64_t val = *(int64_t *)arr->data;
-    gray_arrays_remove_at(arr, 0);
-    return val;
-}
-
 /* === Query === */
 
 bool gray_arrays_is_empty(GrayArray *arr) {
     return arr->len == 0;
 }
 
-bool gray_arrays_contains_int(GrayArray *arr, int64_t value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (*(int64_t *)((char *)arr->data + i * arr->elem_size) == value) return true;
-    }
-    return false;
-}
-
-bool gray_arrays_contains_char(GrayArray *arr, int32_t value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (*(int32_t *)((char *)arr->data + i * arr->elem_size) == value) return true;
-    }
-    return false;
-}
-
-bool gray_arrays_contains_byte(GrayArray *arr, uint8_t value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (*(uint8_t *)((char *)arr->data + i * arr->elem_size) == value) return true;
-    }
-    return false;
-}
-
-bool gray_arrays_contains_float(GrayArray *arr, double value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (*(double *)((char *)arr->data + i * arr->elem_size) == value) return true;
-    }
-    return false;
-}
-
-bool gray_arrays_contains_str(GrayArray *arr, GrayString value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        GrayString *s = (GrayString *)((char *)arr->data + i * arr->elem_size);
-        if (s->len == value.len && memcmp(s->data, value.data, s->len) == 0) return true;
-    }
-    return false;
-}
-
-int64_t gray_arrays_index_of_int(GrayArray *arr, int64_t value) {
+int64_t gray_arrays_index_of(GrayArray *arr, GrayElemKind kind, const void *value) {
     for (int32_t i = 0; i < arr->len; i++) {
-        if (*(int64_t *)((char *)arr->data + i * arr->elem_size) == value) return i;
+        if (elem_equal(kind, arr->elem_size, elem_at(arr, i), value)) return i;
     }
     return -1;
 }
 
-int64_t gray_arrays_index_of_str(GrayArray *arr, GrayString value) {
-    for (int32_t i = 0; i < arr->len; i++) {
-        GrayString *s = (GrayString *)((char *)arr->data + i * arr->elem_size);
-        if (s->len == value.len && memcmp(s->data, value.data, s->len) == 0) return i;
-    }
-    return -1;
+bool gray_arrays_contains(GrayArray *arr, GrayElemKind kind, const void *value) {
+    return gray_arrays_index_of(arr, kind, value) >= 0;
 }
 
-int64_t gray_arrays_count(GrayArray *arr, int64_t value) {
+int64_t gray_arrays_count(GrayArray *arr, GrayElemKind kind, const void *value) {
     int64_t c = 0;
     for (int32_t i = 0; i < arr->len; i++) {
-        if (*(int64_t *)((char *)arr->data + i * arr->elem_size) == value) c++;
+        if (elem_equal(kind, arr->elem_size, elem_at(arr, i), value)) c++;
     }
     return c;
 }
 
-bool gray_arrays_is_equal_prim(GrayArray *a, GrayArray *b) {
-    if (a->len != b->len) return false;
-    if (a->elem_size != b->elem_size) return false;
-    if (a->len == 0) return true;
-    return memcmp(a->data, b->data, (size_t)a->len * (size_t)a->elem_size) == 0;
-}
-
-bool gray_arrays_is_equal_str(GrayArray *a, GrayArray *b) {
+bool gray_arrays_is_equal(GrayArray *a, GrayArray *b, GrayElemKind kind) {
     if (a->len != b->len) return false;
     for (int32_t i = 0; i < a->len; i++) {
-        GrayString *sa = (GrayString *)((char *)a->data + i * a->elem_size);
-        GrayString *sb = (GrayString *)((char *)b->data + i * b->elem_size);
-        if (sa->len != sb->len) return false;
-        if (sa->len > 0 && memcmp(sa->data, sb->data, sa->len) != 0) return false;
+        if (!elem_equal(kind, a->elem_size, elem_at(a, i), elem_at(b, i))) return false;
     }
     return true;
 }
@@ -263,12 +223,12 @@ GrayArray gray_arrays_reverse(GrayArena *arena, GrayArray *arr) {
     return result;
 }
 
-GrayArray gray_arrays_slice(GrayArena *arena, GrayArray *arr, int32_t start, int32_t end) {
+GrayArray gray_arrays_slice(GrayArena *arena, GrayArray *arr, int64_t start, int64_t end) {
     if (start < 0) start = 0;
     if (end > arr->len) end = arr->len;
     if (start >= end) return gray_array_new(arena, arr->elem_size, 1);
-    int32_t count = end - start;
-    return gray_array_from(arena, (char *)arr->data + start * arr->elem_size, arr->elem_size, count);
+    int32_t count = (int32_t)(end - start);
+    return gray_array_from(arena, elem_at(arr, (int32_t)start), arr->elem_size, count);
 }
 
 GrayArray gray_arrays_concat(GrayArena *arena, GrayArray *a, GrayArray *b) {
@@ -280,24 +240,18 @@ GrayArray gray_arrays_concat(GrayArena *arena, GrayArray *a, GrayArray *b) {
     return result;
 }
 
-GrayArray gray_arrays_deduplicate(GrayArena *arena, GrayArray *arr) {
+GrayArray gray_arrays_deduplicate(GrayArena *arena, GrayArray *arr, GrayElemKind kind) {
     GrayArray result = gray_array_new(arena, arr->elem_size, arr->len);
-    char *data = (char *)arr->data;
-    size_t element_size = (size_t)arr->elem_size;
     for (int32_t i = 0; i < arr->len; i++) {
-        bool found = false;
-        char *rdata = (char *)result.data;
-        for (int32_t j = 0; j < result.len; j++) {
-            if (memcmp(data + i * element_size, rdata + j * element_size, element_size) == 0) { found = true; break; }
-        }
-        if (!found) gray_array_push(arena, &result, data + i * element_size);
+        if (!gray_arrays_contains(&result, kind, elem_at(arr, i)))
+            gray_array_push(arena, &result, elem_at(arr, i));
     }
     return result;
 }
 
-GrayArray gray_arrays_flatten(GrayArena *arena, GrayArray *arr) {
-    /* Flatten one level: [[int]] -> [int]. Each element is an GrayArray. */
-    GrayArray result = gray_array_new(arena, sizeof(int64_t), 8);
+GrayArray gray_arrays_flatten(GrayArena *arena, GrayArray *arr, int32_t elem_size) {
+    /* Flatten one level: [[T]] -> [T]. Each element is an GrayArray. */
+    GrayArray result = gray_array_new(arena, elem_size, 8);
     for (int32_t i = 0; i < arr->len; i++) {
         GrayArray *inner = (GrayArray *)((char *)arr->data + i * arr->elem_size);
         char *idata = (char *)inner->data;
@@ -308,13 +262,14 @@ GrayArray gray_arrays_flatten(GrayArena *arena, GrayArray *arr) {
     return result;
 }
 
-GrayArray gray_arrays_split_every(GrayArena *arena, GrayArray *arr, int32_t size) {
+GrayArray gray_arrays_split_every(GrayArena *arena, GrayArray *arr, int64_t size) {
     if (size <= 0) size = 1;
     GrayArray result = gray_array_new(arena, sizeof(GrayArray), 4);
     char *data = (char *)arr->data;
     size_t element_size = (size_t)arr->elem_size;
-    for (int32_t i = 0; i < arr->len; i += size) {
-        int32_t chunk_len = (i + size <= arr->len) ? size : (arr->len - i);
+    if (size > arr->len) size = arr->len;
+    for (int32_t i = 0; i < arr->len; i += (int32_t)size) {
+        int32_t chunk_len = (size <= arr->len - i) ? (int32_t)size : (arr->len - i);
         GrayArray chunk = gray_array_from(arena, data + i * element_size, arr->elem_size, chunk_len);
         gray_array_push(arena, &result, &chunk);
     }
@@ -335,111 +290,47 @@ GrayArray gray_arrays_pair(GrayArena *arena, GrayArray *a, GrayArray *b) {
 
 /* === Computation === */
 
-int64_t gray_arrays_get_sum(GrayArray *arr) {
-    int64_t total = 0;
-    for (int32_t i = 0; i < arr->len; i++) {
-        total += *(int64_t *)((char *)arr->data + i * arr->elem_size);
-    }
+double gray_arrays_sum_float(GrayArray *arr) {
+    double total = 0;
+    for (int32_t i = 0; i < arr->len; i++) total += *(double *)elem_at(arr, i);
     return total;
 }
 
-int64_t gray_arrays_get_min(GrayArray *arr) {
-    if (arr->len == 0) return 0;
-    int64_t m = *(int64_t *)arr->data;
+static void *extremum(GrayArray *arr, GrayElemKind kind, int sign) {
+    static const char zero[GRAY_MAX_INLINE_ELEM_SIZE];
+    ElemOrder order = elem_order(kind);
+    if (arr->len == 0 || !order) return (void *)zero;
+    void *best = arr->data;
     for (int32_t i = 1; i < arr->len; i++) {
-        int64_t v = *(int64_t *)((char *)arr->data + i * arr->elem_size);
-        if (v < m) m = v;
+        if (sign * order(elem_at(arr, i), best) > 0) best = elem_at(arr, i);
     }
-    return m;
-}
-
-int64_t gray_arrays_get_max(GrayArray *arr) {
-    if (arr->len == 0) return 0;
-    int64_t m = *(int64_t *)arr->data;
-    for (int32_t i = 1; i < arr->len; i++) {
-        int64_t v = *(int64_t *)((char *)arr->data + i * arr->elem_size);
-        if (v > m) m = v;
-    }
-    return m;
-}
-
-/* === Sort === */
-
-static int cmp_i64_asc(const void *a, const void *b) {
-    int64_t va = *(const int64_t *)a;
-    int64_t vb = *(const int64_t *)b;
-    return (va > vb) - (va < vb);
+    return best;
 }
 
-static int cmp_i64_desc(const void *a, const void *b) {
-    int64_t va = *(const int64_t *)a;
-    int64_t vb = *(const int64_t *)b;
-    return (vb > va) - (vb < va);
+void *gray_arrays_min_ptr(GrayArray *arr, GrayElemKind kind) {
+    return extremum(arr, kind, -1);
 }
 
-static int cmp_f64_asc(const void *a, const void *b) {
-    double va = *(const double *)a;
-    double vb = *(const double *)b;
-    return (va > vb) - (va < vb);
+void *gray_arrays_max_ptr(GrayArray *arr, GrayElemKind kind) {
+    return extremum(arr, kind, 1);
 }
 
-static int cmp_f64_desc(const void *a, const void *b) {
-    double va = *(const double *)a;
-    double vb = *(const double *)b;
-    return (vb > va) - (vb < va);
-}
-
-static int cmp_str_asc(const void *a, const void *b) {
-    const GrayString *sa = (const GrayString *)a;
-    const GrayString *sb = (const GrayString *)b;
-    int32_t min_len = sa->len < sb->len ? sa->len : sb->len;
-    int cmp = memcmp(sa->data, sb->data, (size_t)min_len);
-    if (cmp != 0) return cmp;
-    return (sa->len > sb->len) - (sa->len < sb->len);
-}
-
-static int cmp_str_desc(const void *a, const void *b) {
-    return cmp_str_asc(b, a);
-}
-
-void gray_arrays_sort_asc(GrayArray *arr) {
-    if (arr->iterating > 0)
-        gray_panic_code("P0034", "cannot modify array during for_each iteration");
-    if (arr->len <= 1) return;
-    qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, cmp_i64_asc);
-}
-
-void gray_arrays_sort_asc_float(GrayArray *arr) {
-    if (arr->iterating > 0)
-        gray_panic_code("P0034", "cannot modify array during for_each iteration");
-    if (arr->len <= 1) return;
-    qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, cmp_f64_asc);
-}
-
-void gray_arrays_sort_asc_str(GrayArray *arr) {
-    if (arr->iterating > 0)
-        gray_panic_code("P0034", "cannot modify array during for_each iteration");
-    if (arr->len <= 1) return;
-    qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, cmp_str_asc);
-}
-
-void gray_arrays_sort_desc(GrayArray *arr) {
-    if (arr->iterating > 0)
-        gray_panic_code("P0034", "cannot modify array during for_each iteration");
-    if (arr->len <= 1) return;
-    qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, cmp_i64_desc);
-}
-
-void gray_arrays_sort_desc_float(GrayArray *arr) {
-    if (arr->iterating > 0)
-        gray_panic_code("P0034", "cannot modify array during for_each iteration");
-    if (arr->len <= 1) return;
-    qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, cmp_f64_desc);
-}
+/* === Sort === */
 
-void gray_arrays_sort_desc_str(GrayArray *arr) {
+void gray_arrays_sort_asc(GrayArray *arr, GrayElemKind kind) {
     if (arr->iterating > 0)
         gray_panic_code("P0034", "cannot modify array during for_each iteration");
-    if (arr->len <= 1) return;
-    qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, cmp_str_desc);
+    ElemOrder order = elem_order(kind);
+    if (arr->len <= 1 || !order) return;
+    qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, order);
+}
+
+void gray_arrays_sort_desc(GrayArray *arr, GrayElemKind kind) {
+    gray_arrays_sort_asc(arr, kind);
+    char tmp[GRAY_MAX_INLINE_ELEM_SIZE];
+    for (int32_t i = 0, j = arr->len - 1; elem_order(kind) && i < j; i++, j--) {
+        memcpy(tmp, elem_at(arr, i), (size_t)arr->elem_size);
+        memcpy(elem_at(arr, i), elem_at(arr, j), (size_t)arr->elem_size);
+        memcpy(elem_at(arr, j), tmp, (size_t)arr->elem_size);
+    }
 }
diff --git a/grayc/src/stdlib/arrays.h b/grayc/src/stdlib/arrays.h
index 6947d4d..b78f945 100644
--- a/grayc/src/stdlib/arrays.h
+++ b/grayc/src/stdlib/arrays.h
@@ -13,6 +13,22 @@
 
 #include "../runtime/runtime.h"
 #include "../runtime/array.h"
+#include "../runtime/bigint.h"
+
+/* How the elements of an array are stored, for operations that compare them */
+typedef enum {
+    GRAY_ELEM_I64,
+    GRAY_ELEM_U64,
+    GRAY_ELEM_F64,
+    GRAY_ELEM_STR,
+    GRAY_ELEM_U8,
+    GRAY_ELEM_I32,
+    GRAY_ELEM_I128,
+    GRAY_ELEM_U128,
+    GRAY_ELEM_I256,
+    GRAY_ELEM_U256,
+    GRAY_ELEM_RAW
+} GrayElemKind;
 
 /* Modification */
 
@@ -42,7 +58,7 @@ void gray_arrays_append(GrayArena *arena, GrayArray *arr, const void *value);
  *   println(nums)
  *@end
  */
-void gray_arrays_insert_at(GrayArena *arena, GrayArray *arr, int32_t index, const void *value);
+void gray_arrays_insert_at(GrayArena *arena, GrayArray *arr, int64_t index, const void *value);
 
 /*@man prepend
  *@module arrays
@@ -70,7 +86,7 @@ void gray_arrays_prepend(GrayArena *arena, GrayArray *arr, const void *value);
  *   println(nums)
  *@end
  */
-void gray_arrays_remove_at(GrayArray *arr, int32_t index);
+void gray_arrays_remove_at(GrayArray *arr, int64_t index);
 
 /*@man remove
  *@module arrays
@@ -84,9 +100,7 @@ void gray_arrays_remove_at(GrayArray *arr, int32_t index);
  *   println(nums)
  *@end
  */
-void gray_arrays_remove_int(GrayArray *arr, int64_t value);
-void gray_arrays_remove_float(GrayArray *arr, double value);
-void gray_arrays_remove_str(GrayArray *arr, GrayString value);
+void gray_arrays_remove(GrayArray *arr, GrayElemKind kind, const void *value);
 
 /*@man clear
  *@module arrays
@@ -114,7 +128,7 @@ void gray_arrays_clear(GrayArray *arr);
  *   println(nums)
  *@end
  */
-void gray_arrays_fill(GrayArena *arena, GrayArray *arr, const void *value, int32_t count);
+void gray_arrays_fill(GrayArena *arena, GrayArray *arr, const void *value, int64_t count);
 
 /* Access — typed via codegen cast */
 
@@ -172,12 +186,6 @@ void  gray_arrays_remove_first_raw(GrayArray *arr, void *out);
  */
 void  gray_arrays_remove_last_raw(GrayArray *arr, void *out);
 
-/* Access — int64_t variants for internal use */
-int64_t gray_arrays_get_first(GrayArray *arr);
-int64_t gray_arrays_get_last(GrayArray *arr);
-int64_t gray_arrays_remove_last(GrayArray *arr);
-int64_t gray_arrays_remove_first(GrayArray *arr);
-
 /* Query */
 
 /*@man is_empty
@@ -204,11 +212,7 @@ bool gray_arrays_is_empty(GrayArray *arr);
  *   println(arrays.contains(nums, 2))
  *@end
  */
-bool gray_arrays_contains_int(GrayArray *arr, int64_t value);
-bool gray_arrays_contains_char(GrayArray *arr, int32_t value);
-bool gray_arrays_contains_byte(GrayArray *arr, uint8_t value);
-bool gray_arrays_contains_float(GrayArray *arr, double value);
-bool gray_arrays_contains_str(GrayArray *arr, GrayString value);
+bool gray_arrays_contains(GrayArray *arr, GrayElemKind kind, const void *value);
 
 /*@man index_of
  *@module arrays
@@ -221,8 +225,7 @@ bool gray_arrays_contains_str(GrayArray *arr, GrayString value);
  *   println(arrays.index_of(nums, 20))
  *@end
  */
-int64_t gray_arrays_index_of_int(GrayArray *arr, int64_t value);
-int64_t gray_arrays_index_of_str(GrayArray *arr, GrayString value);
+int64_t gray_arrays_index_of(GrayArray *arr, GrayElemKind kind, const void *value);
 
 /*@man count
  *@module arrays
@@ -235,7 +238,7 @@ int64_t gray_arrays_index_of_str(GrayArray *arr, GrayString value);
  *   println(arrays.count(nums, 2))
  *@end
  */
-int64_t gray_arrays_count(GrayArray *arr, int64_t value);
+int64_t gray_arrays_count(GrayArray *arr, GrayElemKind kind, const void *value);
 
 /*@man is_equal
  *@module arrays
@@ -249,8 +252,7 @@ int64_t gray_arrays_count(GrayArray *arr, int64_t value);
  *   println(arrays.is_equal(a, b))
  *@end
  */
-bool gray_arrays_is_equal_prim(GrayArray *a, GrayArray *b);
-bool gray_arrays_is_equal_str(GrayArray *a, GrayArray *b);
+bool gray_arrays_is_equal(GrayArray *a, GrayArray *b, GrayElemKind kind);
 
 /* Transformation */
 
@@ -278,7 +280,7 @@ GrayArray gray_arrays_reverse(GrayArena *arena, GrayArray *arr);
  *   println(arrays.slice(nums, 1, 3))
  *@end
  */
-GrayArray gray_arrays_slice(GrayArena *arena, GrayArray *arr, int32_t start, int32_t end);
+GrayArray gray_arrays_slice(GrayArena *arena, GrayArray *arr, int64_t start, int64_t end);
 
 /*@man concat
  *@module arrays
@@ -305,7 +307,7 @@ GrayArray gray_arrays_concat(GrayArena *arena, GrayArray *a, GrayArray *b);
  *   println(arrays.deduplicate(nums))
  *@end
  */
-GrayArray gray_arrays_deduplicate(GrayArena *arena, GrayArray *arr);
+GrayArray gray_arrays_deduplicate(GrayArena *arena, GrayArray *arr, GrayElemKind kind);
 
 /*@man flatten
  *@module arrays
@@ -318,7 +320,7 @@ GrayArray gray_arrays_deduplicate(GrayArena *arena, GrayArray *arr);
  *   println(arrays.flatten(nested))
  *@end
  */
-GrayArray gray_arrays_flatten(GrayArena *arena, GrayArray *arr);
+GrayArray gray_arrays_flatten(GrayArena *arena, GrayArray *arr, int32_t elem_size);
 
 /*@man split_every
  *@module arrays
@@ -331,7 +333,7 @@ GrayArray gray_arrays_flatten(GrayArena *arena, GrayArray *arr);
  *   println(arrays.split_every(nums, 2))
  *@end
  */
-GrayArray gray_arrays_split_every(GrayArena *arena, GrayArray *arr, int32_t size);
+GrayArray gray_arrays_split_every(GrayArena *arena, GrayArray *arr, int64_t size);
 
 /*@man pair
  *@module arrays
@@ -360,7 +362,7 @@ GrayArray gray_arrays_pair(GrayArena *arena, GrayArray *a, GrayArray *b);
  *   println(arrays.get_sum(nums))
  *@end
  */
-int64_t gray_arrays_get_sum(GrayArray *arr);
+double gray_arrays_sum_float(GrayArray *arr);
 
 /*@man get_min
  *@module arrays
@@ -373,7 +375,7 @@ int64_t gray_arrays_get_sum(GrayArray *arr);
  *   println(arrays.get_min(nums))
  *@end
  */
-int64_t gray_arrays_get_min(GrayArray *arr);
+void *gray_arrays_min_ptr(GrayArray *arr, GrayElemKind kind);
 
 /*@man get_max
  *@module arrays
@@ -386,7 +388,7 @@ int64_t gray_arrays_get_min(GrayArray *arr);
  *   println(arrays.get_max(nums))
  *@end
  */
-int64_t gray_arrays_get_max(GrayArray *arr);
+void *gray_arrays_max_ptr(GrayArray *arr, GrayElemKind kind);
 
 /* Sort */
 
@@ -402,9 +404,7 @@ int64_t gray_arrays_get_max(GrayArray *arr);
  *   println(nums)
  *@end
  */
-void gray_arrays_sort_asc(GrayArray *arr);
-void gray_arrays_sort_asc_float(GrayArray *arr);
-void gray_arrays_sort_asc_str(GrayArray *arr);
+void gray_arrays_sort_asc(GrayArray *arr, GrayElemKind kind);
 
 /*@man sort_desc
  *@module arrays
@@ -418,9 +418,7 @@ void gray_arrays_sort_asc_str(GrayArray *arr);
  *   println(nums)
  *@end
  */
-void gray_arrays_sort_desc(GrayArray *arr);
-void gray_arrays_sort_desc_float(GrayArray *arr);
-void gray_arrays_sort_desc_str(GrayArray *arr);
+void gray_arrays_sort_desc(GrayArray *arr, GrayElemKind kind);
 
 /* Higher-Order */
 
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index d0ed3be..acc4431 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2702,9 +2702,7 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
             strcmp(mfn, "is_equal") == 0 ||
             strcmp(mfn, "any") == 0 || strcmp(mfn, "all") == 0) {
             result = &TYPE_BOOL;
-        } else if (strcmp(mfn, "index_of") == 0 || strcmp(mfn, "get_sum") == 0 ||
-                   strcmp(mfn, "get_min") == 0 || strcmp(mfn, "get_max") == 0 ||
-                   strcmp(mfn, "count") == 0) {
+        } else if (strcmp(mfn, "index_of") == 0 || strcmp(mfn, "count") == 0) {
             result = &TYPE_INT;
         } else if (strcmp(mfn, "reverse") == 0 || strcmp(mfn, "slice") == 0 ||
                    strcmp(mfn, "concat") == 0 || strcmp(mfn, "deduplicate") == 0 ||
@@ -2717,7 +2715,9 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                 result = type_array("int");
             }
         } else if (strcmp(mfn, "split_every") == 0 || strcmp(mfn, "pair") == 0) {
-            result = type_array("[int]"); /* nested array */
+            GrayType *arr_t = node->data.call.arg_count > 0 ? resolve_expression(checker, node->data.call.args[0]) : NULL;
+            result = type_array(typechecker_format(checker, "[%s]",
+                arr_t && arr_t->element_type ? arr_t->element_type : "int"));
         } else if (strcmp(mfn, "flatten") == 0) {
             if (node->data.call.arg_count > 0) {
                 GrayType *arr_t = resolve_expression(checker, node->data.call.args[0]);
@@ -2736,7 +2736,8 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
             }
         } else if (strcmp(mfn, "get_first") == 0 || strcmp(mfn, "get_last") == 0 ||
                    strcmp(mfn, "remove_last") == 0 || strcmp(mfn, "remove_first") == 0 ||
-                   strcmp(mfn, "reduce") == 0) {
+                   strcmp(mfn, "get_sum") == 0 || strcmp(mfn, "get_min") == 0 ||
+                   strcmp(mfn, "get_max") == 0 || strcmp(mfn, "reduce") == 0) {
             if (node->data.call.arg_count > 0) {
                 GrayType *arr_t = resolve_expression(checker, node->data.call.args[0]);
                 result = (arr_t && arr_t->element_type) ? type_from_name(arr_t->element_type) : &TYPE_INT;
@@ -2790,6 +2791,9 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                 GrayType *arr_t = typetable_get(checker->type_table, arr_arg);
                 if (!arr_t) arr_t = resolve_expression(checker, arr_arg);
                 GrayType *val_t = resolve_expression(checker, val_node);
+                if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type)
+                    coerce_integer_slot(checker, &node->data.call.args[strcmp(op_name, "insert_at") == 0 ? 2 : 1],
+                        type_from_name(arr_t->element_type));
                 if (arr_t && arr_t->kind != TK_ARRAY && arr_t->kind != TK_UNKNOWN) {
                     char *msg = NULL;
                     msg = typechecker_format(checker,
@@ -2812,6 +2816,12 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                 }
             }
         }
+        if (strcmp(mfn, "fill") == 0 && node->data.call.arg_count >= 2) {
+            GrayType *arr_t = resolve_expression(checker, node->data.call.args[0]);
+            resolve_expression(checker, node->data.call.args[1]);
+            if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type)
+                coerce_integer_slot(checker, &node->data.call.args[1], type_from_name(arr_t->element_type));
+        }
         /* E3001: arrays.remove_at/insert_at index must be int */
         if ((strcmp(mfn, "remove_at") == 0 && node->data.call.arg_count >= 2) ||
             (strcmp(mfn, "insert_at") == 0 && node->data.call.arg_count >= 2)) {
-- 
2.43.0


From 427783455ec9eb71e254328fbaf1478a8f75c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:50:32 +0000
Subject: [PATCH 16/96] fix: values stored in variables, fields, containers and
 errors outlive the scope they were built in

---
 grayc/src/codegen/codegen.c | 568 +++++++++++++++++++++---------------
 grayc/src/codegen/codegen.h |  27 ++
 grayc/src/runtime/array.h   |   4 +
 grayc/src/runtime/runtime.c |  38 ++-
 grayc/src/runtime/runtime.h |  20 +-
 5 files changed, 415 insertions(+), 242 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index e569f4f..54fe41a 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -547,25 +547,92 @@ static AstNode *find_struct_declaration(CodeGen *codegen, const char *name);
 static const char *type_name_deep_copy_visiting[CYCLE_GUARD_DEPTH];
 static int type_name_deep_copy_depth = 0;
 
+static AstNode *find_tagged_enum(CodeGen *codegen, const char *name) {
+    for (int i = 0; i < codegen->enum_count; i++)
+        if (codegen->enum_is_tagged[i] && strcmp(codegen->enum_names[i], name) == 0)
+            return codegen->enum_decls[i];
+    return NULL;
+}
+
+/* Declaration of a struct type; "Pair__int" is an instance of generic "Pair". */
+static AstNode *find_generic_struct(CodeGen *codegen, const char *name) {
+    AstNode *decl = find_struct_declaration(codegen, name);
+    const char *dunder = decl ? NULL : strstr(name, "__");
+    if (dunder) {
+        char base[TYPE_NAME_MAX];
+        snprintf(base, sizeof(base), "%.*s", (int)(dunder - name), name);
+        decl = find_struct_declaration(codegen, base);
+    }
+    return decl;
+}
+
+/* Type of a struct field, with '?' bound as the instance's name says. */
+static const char *generic_field_type(char *buffer, size_t size, const char *field_type, const char *struct_tn) {
+    const char *hole = field_type ? strchr(field_type, '?') : NULL;
+    const char *dunder = hole && struct_tn ? strstr(struct_tn, "__") : NULL;
+    if (!dunder) return field_type;
+    snprintf(buffer, size, "%.*s%s%s", (int)(hole - field_type), field_type, dunder + 2, hole + 1);
+    return buffer;
+}
+
+/* The declared name behind a possibly unprefixed type name. */
+static const char *deep_copy_type_name(CodeGen *codegen, const char *name) {
+    TypeKind kind = type_from_name(name)->kind;
+    if (kind != TK_STRUCT && kind != TK_ENUM && kind != TK_UNKNOWN) return name;
+    if (find_generic_struct(codegen, name) || find_tagged_enum(codegen, name)) return name;
+    return resolve_unprefixed_name(codegen, name);
+}
+
+/* A type name with '?' replaced by the binding of the instance being emitted. */
+static const char *bound_type_name(CodeGen *codegen, char *buffer, size_t size, const char *name) {
+    const char *hole = codegen->wildcard_binding ? strchr(name, '?') : NULL;
+    if (!hole) return name;
+    snprintf(buffer, size, "%.*s%s%s", (int)(hole - name), name, codegen->wildcard_binding, hole + 1);
+    return buffer;
+}
+
 static bool type_needs_deep_copy(CodeGen *codegen, const char *gray_tn) {
     if (!gray_tn || !*gray_tn) return false;
     if (gray_tn[0] == '[') return true;
     if (strncmp(gray_tn, "map[", 4) == 0) return true;
+    char bound[TYPE_NAME_MAX];
+    gray_tn = bound_type_name(codegen, bound, sizeof(bound), gray_tn);
+    if (gray_tn[0] == '[' || strncmp(gray_tn, "map[", 4) == 0) return true;
     if (strcmp(gray_tn, "string") == 0) return true;
     if (gray_tn[0] == '^') return false; /* pointers alias; see header comment */
-    AstNode *sdecl = find_struct_declaration(codegen, gray_tn);
-    if (!sdecl) return false;
-    /* Cycle detection: if we're already visiting this struct, stop. */
+    if (type_from_name(gray_tn)->kind == TK_ERROR) return true;
+    gray_tn = deep_copy_type_name(codegen, gray_tn);
+    AstNode *sdecl = find_generic_struct(codegen, gray_tn);
+    AstNode *edecl = sdecl ? NULL : find_tagged_enum(codegen, gray_tn);
+    if (!sdecl && !edecl) return false;
+    /* Cycle detection: if we're already visiting this type, stop. */
     for (int j = 0; j < type_name_deep_copy_depth; j++) {
         if (strcmp(type_name_deep_copy_visiting[j], gray_tn) == 0) return false;
     }
-    if (type_name_deep_copy_depth < CYCLE_GUARD_DEPTH) type_name_deep_copy_visiting[type_name_deep_copy_depth++] = gray_tn;
-    for (int i = 0; i < sdecl->data.struct_decl.field_count; i++) {
-        const char *field_type = sdecl->data.struct_decl.fields[i].type_name;
-        if (type_needs_deep_copy(codegen, field_type)) { type_name_deep_copy_depth--; return true; }
+    if (type_name_deep_copy_depth >= CYCLE_GUARD_DEPTH) return true;
+    type_name_deep_copy_visiting[type_name_deep_copy_depth++] = gray_tn;
+    bool needs = false;
+    if (sdecl) {
+        for (int i = 0; i < sdecl->data.struct_decl.field_count && !needs; i++) {
+            char field_type[TYPE_NAME_MAX];
+            needs = type_needs_deep_copy(codegen, generic_field_type(field_type, sizeof(field_type),
+                sdecl->data.struct_decl.fields[i].type_name, gray_tn));
+        }
+    } else {
+        for (int i = 0; i < edecl->data.enum_decl.value_count && !needs; i++) {
+            EnumVal *ev = &edecl->data.enum_decl.values[i];
+            for (int k = 0; k < ev->payload_count && !needs; k++)
+                needs = type_needs_deep_copy(codegen, ev->payload_types[k]);
+        }
     }
     type_name_deep_copy_depth--;
-    return false;
+    return needs;
+}
+
+/* Does a value of this type hold an array or map, whose storage two copies of
+ * the value must not share? (Strings are immutable.) */
+static bool type_holds_container(CodeGen *codegen, const char *gray_tn) {
+    return gray_tn && strcmp(gray_tn, "string") != 0 && type_needs_deep_copy(codegen, gray_tn);
 }
 
 /* Shared counter for unique temp names across all deep-copy emitters. */
@@ -587,8 +654,12 @@ static void emit_array_deep_copy(CodeGen *codegen, const char *gray_tn, const ch
     if (elen >= sizeof(elem_tn)) elen = sizeof(elem_tn) - 1;
     memcpy(elem_tn, gray_tn + 1, elen);
     elem_tn[elen] = '\0';
-    char *comma = strchr(elem_tn, ',');
-    if (comma) *comma = '\0';
+    int nesting = 0;
+    for (char *ch = elem_tn; *ch; ch++) {
+        if (*ch == '[' || *ch == '(') nesting++;
+        else if (*ch == ']' || *ch == ')') nesting--;
+        else if (*ch == ',' && nesting == 0) { *ch = '\0'; break; }
+    }
 
     if (!type_needs_deep_copy(codegen, elem_tn)) {
         /* Flat element type; the shallow bulk memcpy in gray_array_copy
@@ -712,47 +783,78 @@ static void emit_map_deep_copy(CodeGen *codegen, const char *gray_tn, const char
     }
 }
 
-/* Cycle guard for emit_struct_deep_copy: prevents infinite recursion when
- * struct types reference each other in a cycle (e.g. A has [B], B has A). */
-static const char *emit_struct_deep_copy_visiting[CYCLE_GUARD_DEPTH];
-static int emit_struct_deep_copy_depth = 0;
-
-static void emit_struct_deep_copy(CodeGen *codegen, const char *struct_tn, const char *src_var) {
-    AstNode *sdecl = find_struct_declaration(codegen, struct_tn);
-    if (!sdecl) {
-        /* No decl info; bitwise copy is the best we can do. */
-        emit_formatted(codegen, "%s", src_var);
-        return;
-    }
-    /* Cycle detection: if already emitting a deep copy for this struct type,
-     * fall back to a shallow (bitwise) copy to break the cycle. */
-    for (int j = 0; j < emit_struct_deep_copy_depth; j++) {
-        if (strcmp(emit_struct_deep_copy_visiting[j], struct_tn) == 0) {
-            emit_formatted(codegen, "%s", src_var);
-            return;
+/* Structs and tagged enums are copied by a generated function per type, so a
+ * type that contains itself through an array or map is copied at every level. */
+static void emit_struct_deep_copy(CodeGen *codegen, const char *gray_tn, const char *src_var) {
+    gray_tn = deep_copy_type_name(codegen, gray_tn);
+    int known = 0;
+    while (known < codegen->deep_copy_count && strcmp(codegen->deep_copy_types[known], gray_tn) != 0) known++;
+    if (known == codegen->deep_copy_count) {
+        if (codegen->deep_copy_count >= codegen->deep_copy_cap) {
+            codegen->deep_copy_cap = codegen->deep_copy_cap ? codegen->deep_copy_cap * 2 : 8;
+            codegen->deep_copy_types = xrealloc(codegen->deep_copy_types,
+                sizeof(char *) * (size_t)codegen->deep_copy_cap);
+        }
+        codegen->deep_copy_types[codegen->deep_copy_count++] = strcpy(xmalloc(strlen(gray_tn) + 1), gray_tn);
+    }
+    emit_formatted(codegen, "gray_dc_%s(%s)", gray_type_to_c_codegen(codegen, gray_tn), src_var);
+}
+
+/* Define the copy functions used so far and put their prototypes in front of
+ * the code that calls them. */
+static void emit_deep_copy_functions(CodeGen *codegen) {
+    Buf prototypes = buffer_create(MSG_BUF_SIZE);
+    for (int t = 0; t < codegen->deep_copy_count; t++) {
+        const char *gray_tn = codegen->deep_copy_types[t];
+        char c_type[TYPE_NAME_MAX];
+        snprintf(c_type, sizeof(c_type), "%s", gray_type_to_c_codegen(codegen, gray_tn));
+        append_format_to_buffer(&prototypes, "static %s gray_dc_%s(%s _v);\n", c_type, c_type, c_type);
+        emit_formatted(codegen, "static %s gray_dc_%s(%s _v) {\n", c_type, c_type, c_type);
+        AstNode *sdecl = find_generic_struct(codegen, gray_tn);
+        AstNode *edecl = sdecl ? NULL : find_tagged_enum(codegen, gray_tn);
+        for (int i = 0; sdecl && i < sdecl->data.struct_decl.field_count; i++) {
+            StructField *field = &sdecl->data.struct_decl.fields[i];
+            char buffer[TYPE_NAME_MAX], src[MSG_BUF_SIZE];
+            const char *field_type = generic_field_type(buffer, sizeof(buffer), field->type_name, gray_tn);
+            if (!field->name || !type_needs_deep_copy(codegen, field_type)) continue;
+            snprintf(src, sizeof(src), "_v.%s", sanitize_name(field->name));
+            emit_formatted(codegen, "    %s = ", src);
+            emit_value_deep_copy(codegen, field_type, src);
+            emit(codegen, ";\n");
+        }
+        for (int i = 0; edecl && i < edecl->data.enum_decl.value_count; i++) {
+            EnumVal *ev = &edecl->data.enum_decl.values[i];
+            for (int k = 0; k < ev->payload_count; k++) {
+                if (!type_needs_deep_copy(codegen, ev->payload_types[k])) continue;
+                char src[MSG_BUF_SIZE];
+                snprintf(src, sizeof(src), "_v.data.%s._%d", ev->name, k);
+                emit_formatted(codegen, "    if (_v.tag == GrayEnum_%s_TAG_%s) %s = ", gray_tn, ev->name, src);
+                emit_value_deep_copy(codegen, ev->payload_types[k], src);
+                emit(codegen, ";\n");
+            }
         }
+        emit(codegen, "    return _v;\n}\n\n");
     }
-    if (emit_struct_deep_copy_depth < CYCLE_GUARD_DEPTH) emit_struct_deep_copy_visiting[emit_struct_deep_copy_depth++] = struct_tn;
-    const char *c_struct = gray_type_to_c_codegen(codegen, struct_tn);
-    int tag = next_deep_copy_tag();
-    emit_formatted(codegen,
-        "({ %s _ss%d = %s; %s _sd%d = _ss%d; ",
-        c_struct, tag, src_var, c_struct, tag, tag);
-    for (int i = 0; i < sdecl->data.struct_decl.field_count; i++) {
-        StructField *field = &sdecl->data.struct_decl.fields[i];
-        if (!field->type_name || !field->name) continue;
-        if (!type_needs_deep_copy(codegen, field->type_name)) continue;
-        char src_field[MSG_BUF_SIZE];
-        snprintf(src_field, sizeof(src_field), "_ss%d.%s", tag, field->name);
-        emit_formatted(codegen, "_sd%d.%s = ", tag, field->name);
-        emit_value_deep_copy(codegen, field->type_name, src_field);
-        emit(codegen, "; ");
+    if (codegen->deep_copy_count > 0) {
+        Buf tail = buffer_create(MSG_BUF_SIZE);
+        append_bytes_to_buffer(&tail, codegen->output.data + codegen->deep_copy_prototypes,
+            codegen->output.len - codegen->deep_copy_prototypes);
+        codegen->output.len = codegen->deep_copy_prototypes;
+        append_bytes_to_buffer(&codegen->output, prototypes.data, prototypes.len);
+        append_bytes_to_buffer(&codegen->output, "\n", 1);
+        append_bytes_to_buffer(&codegen->output, tail.data, tail.len);
+        buffer_destroy(&tail);
     }
-    emit_formatted(codegen, "_sd%d; })", tag);
-    emit_struct_deep_copy_depth--;
+    buffer_destroy(&prototypes);
+    for (int t = 0; t < codegen->deep_copy_count; t++) free(codegen->deep_copy_types[t]);
+    free(codegen->deep_copy_types);
+    codegen->deep_copy_types = NULL;
+    codegen->deep_copy_count = codegen->deep_copy_cap = 0;
 }
 
 static void emit_value_deep_copy(CodeGen *codegen, const char *gray_tn, const char *src_var) {
+    char bound[TYPE_NAME_MAX];
+    if (gray_tn) gray_tn = bound_type_name(codegen, bound, sizeof(bound), gray_tn);
     if (!type_needs_deep_copy(codegen, gray_tn)) {
         /* Primitive / pointer / scalar struct; C value copy is correct. */
         emit_formatted(codegen, "%s", src_var);
@@ -770,7 +872,11 @@ static void emit_value_deep_copy(CodeGen *codegen, const char *gray_tn, const ch
         emit_map_deep_copy(codegen, gray_tn, src_var);
         return;
     }
-    /* Must be a struct that needs recursion. */
+    if (type_from_name(gray_tn)->kind == TK_ERROR) {
+        emit_formatted(codegen, "gray_error_copy(gray_default_arena, %s)", src_var);
+        return;
+    }
+    /* A struct or tagged enum. */
     emit_struct_deep_copy(codegen, gray_tn, src_var);
 }
 
@@ -1007,6 +1113,77 @@ static bool function_uses_caller_arena(AstNode *function_node) {
     return false;
 }
 
+static void declare_local(CodeGen *codegen, const char *name) {
+    if (!codegen->current_func || !name) return;
+    if (codegen->local_count >= codegen->local_cap) {
+        codegen->local_cap = codegen->local_cap ? codegen->local_cap * 2 : 32;
+        codegen->locals = xrealloc(codegen->locals, sizeof(LocalVar) * (size_t)codegen->local_cap);
+    }
+    codegen->locals[codegen->local_count++] = (LocalVar){ name, codegen->scope_arena_count };
+}
+
+/* Name of the arena that values stored into `target` must be allocated in so
+ * they live as long as it does; NULL when the current arena does. Globals and
+ * everything reached through a pointer live in the heap arena. */
+static const char *store_arena(CodeGen *codegen, AstNode *target) {
+    while (target) {
+        AstNode *inner = NULL;
+        if (target->kind == NODE_MEMBER_EXPR) inner = target->data.member.object;
+        else if (target->kind == NODE_INDEX_EXPR) inner = target->data.index_expr.left;
+        else break;
+        GrayType *inner_t = codegen->type_table ? typetable_get(codegen->type_table, inner) : NULL;
+        bool alias = inner->kind == NODE_LABEL && is_mutable_parameter(codegen, inner->data.label.value);
+        if (inner_t && inner_t->kind == TK_POINTER && !alias) return "gray_heap_arena";
+        target = inner;
+    }
+    if (!target || target->kind != NODE_LABEL) return "gray_heap_arena";
+    const char *name = target->data.label.value;
+    int depth = -1;
+    for (int i = codegen->local_count - 1; i >= 0 && depth < 0; i--)
+        if (strcmp(codegen->locals[i].name, name) == 0) depth = codegen->locals[i].depth;
+    if (depth < 0 && codegen->current_func)
+        for (int i = 0; i < codegen->current_func->data.func_decl.param_count; i++)
+            if (strcmp(codegen->current_func->data.func_decl.params[i].name, name) == 0) depth = 0;
+    if (depth >= 0 && is_reference_variable(codegen, name) && !is_mutable_parameter(codegen, name)) depth = -1;
+    if (depth < 0) return codegen->current_func ? "gray_heap_arena" : NULL;
+    return depth < codegen->scope_arena_count ? codegen->scope_arenas[depth].saved_var : NULL;
+}
+
+/* Is the value newly made by this expression, so that nothing else refers to its storage? */
+static bool value_is_fresh(AstNode *value) {
+    return value->kind == NODE_CALL_EXPR || value->kind == NODE_INTERPOLATED_STRING ||
+           ((value->kind == NODE_ARRAY_VALUE) && value->data.array_value.count == 0);
+}
+
+/* Emit the statement that makes `var` its own copy in the arena of `target`
+ * (as store_arena gives it), where needed. */
+static void emit_stored_copy(CodeGen *codegen, const char *gray_tn, const char *var, const char *arena, AstNode *value) {
+    if (arena ? !type_needs_deep_copy(codegen, gray_tn)
+              : !type_holds_container(codegen, gray_tn) || value_is_fresh(value)) return;
+    if (arena) emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; ", arena);
+    emit_formatted(codegen, "%s = ", var);
+    emit_value_deep_copy(codegen, gray_tn, var);
+    emit(codegen, arena ? "; gray_default_arena = _esc; } " : "; ");
+}
+
+/* The call being emitted passes `arg` by reference: what the callee stores in
+ * it must be allocated where the longest-lived such argument lives. */
+static void note_reference_argument(CodeGen *codegen, AstNode *arg) {
+    GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
+    if (arg_t && arg_t->kind != TK_UNKNOWN && arg_t->kind != TK_POINTER &&
+        !type_needs_deep_copy(codegen, type_name(arg_t))) return;
+    const char *arena = store_arena(codegen, arg);
+    if (!arena) return;
+    if (strcmp(arena, "gray_heap_arena") != 0 && codegen->call_arena[0]) {
+        if (strcmp(codegen->call_arena, "gray_heap_arena") == 0) return;
+        for (int i = 0; i < codegen->scope_arena_count; i++) {
+            if (strcmp(codegen->scope_arenas[i].saved_var, codegen->call_arena) == 0) return;
+            if (strcmp(codegen->scope_arenas[i].saved_var, arena) == 0) break;
+        }
+    }
+    snprintf(codegen->call_arena, sizeof(codegen->call_arena), "%s", arena);
+}
+
 static bool is_result_temporary(const char *name) {
     if (!name) return false;
     return strncmp(name, "_gray_tmp", 9) == 0 || strncmp(name, "_gray_or", 8) == 0;
@@ -1070,6 +1247,10 @@ static void build_function_field_index(CodeGen *codegen) {
 /* --- Expression Emission --- */
 
 static void emit_expression(CodeGen *codegen, AstNode *node) {
+    if (node && node == codegen->stored_value) {
+        emit(codegen, codegen->stored_text);
+        return;
+    }
     if (!node) return;
 
     switch (node->kind) {
@@ -1457,6 +1638,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 else if (et->kind == TK_STRING) elem_sz = "GrayString";
                 else if (et->kind == TK_ARRAY) elem_sz = "GrayArray";
                 else if (et->kind == TK_MAP) elem_sz = "GrayMap";
+                else if (codegen_is_enum(codegen, resolve_unprefixed_name(codegen, etype))) elem_sz = gray_type_to_c_codegen(codegen, etype);
                 else if (et->kind == TK_STRUCT) elem_sz = gray_type_to_c_codegen(codegen, etype);
                 else if (et->kind == TK_POINTER) elem_sz = gray_type_to_c_codegen(codegen, etype);
                 else if (et->kind == TK_CHAR) elem_sz = "int32_t";
@@ -5122,22 +5304,12 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
             else if (et->kind == TK_POINTER) c_elem = gray_type_to_c_codegen(codegen, elem_tn);
         }
         if (elem_tn) c_elem = array_storage_c_type(codegen, elem_tn);
-        const char *alloc_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
+        const char *owner = store_arena(codegen, node->data.call.args[0]);
+        const char *alloc_arena = owner ? owner : "gray_default_arena";
         emit_formatted(codegen, "{ %s _av = ", c_elem);
         emit_expression_as(codegen, node->data.call.args[1], c_elem);
         emit(codegen, "; ");
-        /* : escape arena-allocated data to the outer arena when
-         * inside a loop scope. Strings get a simple copy; arrays, maps,
-         * and structs with embedded pointers need a full deep copy. */
-        if (codegen->loop_scope_depth > 0) {
-            if (elem_is_string) {
-                emit_formatted(codegen, "_av = gray_string_new(%s, _av.data, _av.len); ", alloc_arena);
-            } else if (elem_tn && type_needs_deep_copy(codegen, elem_tn)) {
-                emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _av = ", alloc_arena);
-                emit_value_deep_copy(codegen, elem_tn, "_av");
-                emit(codegen, "; gray_default_arena = _esc; } ");
-            }
-        }
+        if (elem_tn) emit_stored_copy(codegen, elem_tn, "_av", owner, node->data.call.args[1]);
         /* Ensure elem_size is set on the target array before appending;
          * struct fields may be zero-initialized with no elem_size. */
         emit(codegen, "{ GrayArray *_tgt = ");
@@ -5168,24 +5340,15 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
                 c_elem = gray_type_to_c_codegen(codegen, _ia_ptr_tn);
             }
         }
-        const char *ia_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
+        const char *owner = store_arena(codegen, node->data.call.args[0]);
+        const char *ia_arena = owner ? owner : "gray_default_arena";
         GrayType *ia_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *ia_elem_tn = (ia_arr_t && ia_arr_t->kind == TK_ARRAY) ? ia_arr_t->element_type : NULL;
         if (ia_elem_tn) c_elem = array_storage_c_type(codegen, ia_elem_tn);
         emit_formatted(codegen, "{ %s _iv = ", c_elem);
         emit_expression_as(codegen, node->data.call.args[2], c_elem);
         emit(codegen, "; ");
-        bool ia_str = (val_t && val_t->kind == TK_STRING) ||
-            (ia_elem_tn && strcmp(ia_elem_tn, "string") == 0);
-        if (codegen->loop_scope_depth > 0) {
-            if (ia_str) {
-                emit_formatted(codegen, "_iv = gray_string_new(%s, _iv.data, _iv.len); ", ia_arena);
-            } else if (ia_elem_tn && type_needs_deep_copy(codegen, ia_elem_tn)) {
-                emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _iv = ", ia_arena);
-                emit_value_deep_copy(codegen, ia_elem_tn, "_iv");
-                emit(codegen, "; gray_default_arena = _esc; } ");
-            }
-        }
+        if (ia_elem_tn) emit_stored_copy(codegen, ia_elem_tn, "_iv", owner, node->data.call.args[2]);
         emit_formatted(codegen, "gray_arrays_insert_at(%s, ", ia_arena);
         emit_array_argument_address(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
@@ -5281,30 +5444,23 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     /* prepend/fill need special value wrapping */
     if (strcmp(func, "prepend") == 0 && node->data.call.arg_count == 2) {
-        const char *pp_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
+        const char *owner = store_arena(codegen, node->data.call.args[0]);
+        const char *pp_arena = owner ? owner : "gray_default_arena";
         GrayType *pp_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *pp_elem_tn = (pp_arr_t && pp_arr_t->kind == TK_ARRAY) ? pp_arr_t->element_type : NULL;
-        bool pp_str = pp_elem_tn && strcmp(pp_elem_tn, "string") == 0;
         const char *pp_c_elem = pp_elem_tn ? array_storage_c_type(codegen, pp_elem_tn) : "int64_t";
         emit_formatted(codegen, "{ %s _pv = ", pp_c_elem);
         emit_expression_as(codegen, node->data.call.args[1], pp_c_elem);
         emit(codegen, "; ");
-        if (codegen->loop_scope_depth > 0) {
-            if (pp_str) {
-                emit_formatted(codegen, "_pv = gray_string_new(%s, _pv.data, _pv.len); ", pp_arena);
-            } else if (pp_elem_tn && type_needs_deep_copy(codegen, pp_elem_tn)) {
-                emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _pv = ", pp_arena);
-                emit_value_deep_copy(codegen, pp_elem_tn, "_pv");
-                emit(codegen, "; gray_default_arena = _esc; } ");
-            }
-        }
+        if (pp_elem_tn) emit_stored_copy(codegen, pp_elem_tn, "_pv", owner, node->data.call.args[1]);
         emit_formatted(codegen, "gray_arrays_prepend(%s, ", pp_arena);
         emit_array_argument_address(codegen, node->data.call.args[0]);
         emit(codegen, ", &_pv); }");
         return true;
     }
     if (strcmp(func, "fill") == 0 && node->data.call.arg_count == 3) {
-        const char *fl_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
+        const char *owner = store_arena(codegen, node->data.call.args[0]);
+        const char *fl_arena = owner ? owner : "gray_default_arena";
         const char *fl_elem_tn = array_arg_element(codegen, node->data.call.args[0]);
         const char *fl_c_elem = array_storage_c_type(codegen, fl_elem_tn);
         bool fl_copy = type_needs_deep_copy(codegen, fl_elem_tn);
@@ -5314,7 +5470,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         emit_array_argument_address(codegen, node->data.call.args[0]);
         emit(codegen, "; int64_t _fc = ");
         emit_expression(codegen, node->data.call.args[2]);
-        if (codegen->loop_scope_depth > 0 && strcmp(fl_c_elem, "GrayString") == 0) {
+        if (owner && strcmp(fl_c_elem, "GrayString") == 0) {
             emit_formatted(codegen, "; _fv = gray_string_new(%s, _fv.data, _fv.len)", fl_arena);
         }
         emit(codegen, "; gray_arrays_clear(_tgt); ");
@@ -5998,7 +6154,27 @@ static bool emit_channels_call(CodeGen *codegen, AstNode *node, const char *func
 
 /* --- Main call dispatcher --- */
 
+static void emit_call_body(CodeGen *codegen, AstNode *node);
+
 static void emit_call_expression(CodeGen *codegen, AstNode *node) {
+    char outer[sizeof(codegen->call_arena)];
+    memcpy(outer, codegen->call_arena, sizeof(outer));
+    codegen->call_arena[0] = '\0';
+    size_t start = codegen->output.len;
+    emit_call_body(codegen, node);
+    if (codegen->call_arena[0]) {
+        Buf call = buffer_create(MSG_BUF_SIZE);
+        append_bytes_to_buffer(&call, codegen->output.data + start, codegen->output.len - start);
+        codegen->output.len = start;
+        emit_formatted(codegen, "({ GRAY_ARENA_SWITCH(%s); ", codegen->call_arena);
+        append_bytes_to_buffer(&codegen->output, call.data, call.len);
+        emit(codegen, "; })");
+        buffer_destroy(&call);
+    }
+    memcpy(codegen->call_arena, outer, sizeof(outer));
+}
+
+static void emit_call_body(CodeGen *codegen, AstNode *node) {
     const char *module = NULL;
     const char *func = NULL;
 
@@ -6247,6 +6423,7 @@ static void emit_call_expression(CodeGen *codegen, AstNode *node) {
                             if (i > 0) emit(codegen, ", ");
                             if (i < ac) {
                                 bool mut_param = i < pc && uf->data.func_decl.params[i].mutable;
+                                if (mut_param) note_reference_argument(codegen, node->data.call.args[i]);
                                 if (mut_param && node->data.call.args[i]->kind == NODE_LABEL) {
                                     const char *vn = node->data.call.args[i]->data.label.value;
                                     if (is_mutable_parameter(codegen, vn)) emit(codegen, vn);
@@ -6345,7 +6522,8 @@ static void emit_call_expression(CodeGen *codegen, AstNode *node) {
                     if (i > 0) emit(codegen, ", ");
                     bool mut_param = i < ns_func->data.func_decl.param_count &&
                         ns_func->data.func_decl.params[i].mutable;
-                    if (mut_param && node->data.call.args[i]->kind == NODE_LABEL) {
+                    if (mut_param) note_reference_argument(codegen, node->data.call.args[i]);
+                                if (mut_param && node->data.call.args[i]->kind == NODE_LABEL) {
                         const char *vn = node->data.call.args[i]->data.label.value;
                         if (is_mutable_parameter(codegen, vn)) emit(codegen, vn);
                         else emit_formatted(codegen, "&%s", vn);
@@ -6514,7 +6692,8 @@ static void emit_call_expression(CodeGen *codegen, AstNode *node) {
                         if (i > 0) emit(codegen, ", ");
                         bool mut_param = i < ns_func->data.func_decl.param_count &&
                             ns_func->data.func_decl.params[i].mutable;
-                        if (mut_param && node->data.call.args[i]->kind == NODE_LABEL) {
+                        if (mut_param) note_reference_argument(codegen, node->data.call.args[i]);
+                                if (mut_param && node->data.call.args[i]->kind == NODE_LABEL) {
                             const char *vn = node->data.call.args[i]->data.label.value;
                             if (is_mutable_parameter(codegen, vn)) emit(codegen, vn);
                             else emit_formatted(codegen, "&%s", vn);
@@ -6581,6 +6760,7 @@ static void emit_call_expression(CodeGen *codegen, AstNode *node) {
                 if (instance_dispatch &&
                     ns_func->data.func_decl.param_count > node->data.call.arg_count) {
                     if (ns_func->data.func_decl.params[0].mutable) {
+                        note_reference_argument(codegen, obj);
                         if (obj_is_ptr) emit_expression(codegen, obj);
                         else { emit(codegen, "&"); emit_expression(codegen, obj); }
                     } else {
@@ -6593,7 +6773,8 @@ static void emit_call_expression(CodeGen *codegen, AstNode *node) {
                     int pi = self_injected ? i + 1 : i;
                     bool mut_param = pi < ns_func->data.func_decl.param_count &&
                         ns_func->data.func_decl.params[pi].mutable;
-                    if (mut_param && node->data.call.args[i]->kind == NODE_LABEL) {
+                    if (mut_param) note_reference_argument(codegen, node->data.call.args[i]);
+                                if (mut_param && node->data.call.args[i]->kind == NODE_LABEL) {
                         const char *vn = node->data.call.args[i]->data.label.value;
                         if (is_mutable_parameter(codegen, vn)) emit(codegen, vn);
                         else emit_formatted(codegen, "&%s", vn);
@@ -6981,6 +7162,7 @@ static void emit_call_expression(CodeGen *codegen, AstNode *node) {
             } else if (call_typed_sig && i < call_typed_sig->param_count) {
                 needs_addr = call_typed_sig->param_mutable[i];
             }
+            if (needs_addr) note_reference_argument(codegen, node->data.call.args[i]);
             if (needs_addr && node->data.call.args[i]->kind == NODE_LABEL) {
                 const char *var_name = node->data.call.args[i]->data.label.value;
                 if (is_mutable_parameter(codegen, var_name)) {
@@ -7192,6 +7374,7 @@ static void emit_fixed_size_array_initializer(CodeGen *codegen, AstNode *value,
 
 static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
     emit_indent(codegen);
+    declare_local(codegen, node->data.var_decl.name);
 
     const char *type_name = node->data.var_decl.type_name;
     const char *elem_type = extract_array_element_type(type_name);
@@ -7715,6 +7898,36 @@ static bool is_compound_assign(TokenType op) {
 static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
     emit_indent(codegen);
 
+    /* A value that owns storage is copied into the arena its new owner lives
+     * in, and never shares that storage with the value it was copied from.
+     * (Map elements are copied where they are set, below.) */
+    GrayType *owner_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
+    const char *owner_tn = owner_t && owner_t->kind != TK_UNKNOWN && owner_t->kind != TK_POINTER ? type_name(owner_t) : NULL;
+    GrayType *indexed_t = node->data.assign.target->kind == NODE_INDEX_EXPR && codegen->type_table
+        ? typetable_get(codegen->type_table, node->data.assign.target->data.index_expr.left) : NULL;
+    if (node->data.assign.op == TOK_ASSIGN && codegen->stored_value != node->data.assign.value &&
+        owner_tn && type_needs_deep_copy(codegen, owner_tn) && !(indexed_t && indexed_t->kind == TK_MAP)) {
+        const char *owner = store_arena(codegen, node->data.assign.target);
+        if (owner || (type_holds_container(codegen, owner_tn) && !value_is_fresh(node->data.assign.value))) {
+            char text[SHORT_VAR_BUF], c_type[TYPE_NAME_MAX];
+            snprintf(text, sizeof(text), "_st%d", next_deep_copy_tag());
+            snprintf(c_type, sizeof(c_type), "%s", gray_type_to_c_codegen(codegen, owner_tn));
+            emit_formatted(codegen, "{ %s %s = ", c_type, text);
+            emit_expression(codegen, node->data.assign.value);
+            emit(codegen, "; ");
+            emit_stored_copy(codegen, owner_tn, text, owner, node->data.assign.value);
+            AstNode *outer_value = codegen->stored_value;
+            const char *outer_text = codegen->stored_text;
+            codegen->stored_value = node->data.assign.value;
+            codegen->stored_text = text;
+            emit_assign_statement(codegen, node);
+            codegen->stored_value = outer_value;
+            codegen->stored_text = outer_text;
+            emit(codegen, "}\n");
+            return;
+        }
+    }
+
     /* Check for array index assignment: arr[i] = value */
     if (node->data.assign.target->kind == NODE_INDEX_EXPR) {
         AstNode *left = node->data.assign.target->data.index_expr.left;
@@ -7733,7 +7946,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             if (is_compound_assign(node->data.assign.op)) {
                 emit(codegen, "{ GrayArray *_ca = &(");
                 emit_expression(codegen, left);
-                emit(codegen, "); int64_t _ci = ");
+                emit(codegen, "); gray_array_writable(_ca); int64_t _ci = ");
                 emit_expression(codegen, node->data.assign.target->data.index_expr.index);
                 emit_formatted(codegen, "; %s _cc = GRAY_ARRAY_GET(*_ca, %s, _ci); GRAY_ARRAY_SET(*_ca, %s, _ci, ",
                     c_elem, c_elem, c_elem);
@@ -7761,9 +7974,8 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             if (left_t->value_type) c_val = gray_map_element_c_type(codegen, left_t->value_type);
             const char *c_key = "GrayString";
             if (left_t->key_type) c_key = gray_map_element_c_type(codegen, left_t->key_type);
-            const char *ms_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
-            bool ms_str_key = left_t->key_type && strcmp(left_t->key_type, "string") == 0;
-            bool ms_str_val = left_t->value_type && strcmp(left_t->value_type, "string") == 0;
+            const char *owner = store_arena(codegen, left);
+            const char *ms_arena = owner ? owner : "gray_default_arena";
 
             /* Detect pointer-to-struct field access: left is a MEMBER_EXPR
              * whose object is a pointer type. In that case the GCC statement
@@ -7779,15 +7991,8 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             emit_formatted(codegen, "{ %s _mk = ", c_key);
             emit_expression_as(codegen, node->data.assign.target->data.index_expr.index, c_key);
             emit(codegen, "; ");
-            if (codegen->loop_scope_depth > 0) {
-                if (ms_str_key) {
-                    emit_formatted(codegen, "_mk = gray_string_new(%s, _mk.data, _mk.len); ", ms_arena);
-                } else if (left_t->key_type && type_needs_deep_copy(codegen, left_t->key_type)) {
-                    emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _mk = ", ms_arena);
-                    emit_value_deep_copy(codegen, left_t->key_type, "_mk");
-                    emit(codegen, "; gray_default_arena = _esc; } ");
-                }
-            }
+            if (left_t->key_type)
+                emit_stored_copy(codegen, left_t->key_type, "_mk", owner, node->data.assign.target->data.index_expr.index);
             /* For compound assignments, read the existing value first so the
              * operation is applied on top of the current entry rather than
              * against a zero/uninitialized base. */
@@ -7816,15 +8021,8 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                 emit_expression_as(codegen, node->data.assign.value, c_val);
             }
             emit(codegen, "; ");
-            if (codegen->loop_scope_depth > 0) {
-                if (ms_str_val) {
-                    emit_formatted(codegen, "_mv = gray_string_new(%s, _mv.data, _mv.len); ", ms_arena);
-                } else if (left_t->value_type && type_needs_deep_copy(codegen, left_t->value_type)) {
-                    emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _mv = ", ms_arena);
-                    emit_value_deep_copy(codegen, left_t->value_type, "_mv");
-                    emit(codegen, "; gray_default_arena = _esc; } ");
-                }
-            }
+            if (left_t->value_type)
+                emit_stored_copy(codegen, left_t->value_type, "_mv", owner, node->data.assign.value);
             if (map_via_ptr) {
                 if (ms_compound) {
                     /* _mp was captured above; just set and close the outer block. */
@@ -7889,7 +8087,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         const char *field = node->data.assign.target->data.member.member;
         emit(codegen, "{ __auto_type _dp = ");
         emit_expression(codegen, ptr);
-        emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp->%s", codegen->file, node->token.line, field);
+        emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp->%s", codegen->file, node->token.line, sanitize_name(field));
         emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
         emit_expression(codegen, node->data.assign.value);
         emit(codegen, "; }\n");
@@ -7935,36 +8133,6 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         bool is_ref = (obj->kind == NODE_LABEL && is_reference_variable(codegen, obj->data.label.value));
         if (!is_ref && obj_t && obj_t->kind == TK_POINTER) {
             const char *field = node->data.assign.target->data.member.member;
-            /* When assigning an array/string to a struct field inside a
-             * scoped block (if/loop), deep-copy to the outer arena so the
-             * data survives the block's arena destruction. */
-            if (node->data.assign.op == TOK_ASSIGN && codegen->loop_scope_depth > 0) {
-                GrayType *field_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
-                if (field_t && field_t->kind == TK_ARRAY) {
-                    char type_str[MSG_BUF_SIZE];
-                    snprintf(type_str, sizeof(type_str), "[%s]", field_t->element_type ? field_t->element_type : "");
-                    emit(codegen, "{ __auto_type _dp = ");
-                    emit_expression(codegen, obj);
-                    emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
-                    emit_formatted(codegen, "{ GrayArray _esc_v = ");
-                    emit_expression(codegen, node->data.assign.value);
-                    emit(codegen, "; GrayArena *_esc_a = gray_default_arena; gray_default_arena = _gray_outer_arena; ");
-                    emit_formatted(codegen, "_dp->%s = ", sanitize_name(field));
-                    emit_array_deep_copy(codegen, type_str, "_esc_v");
-                    emit(codegen, "; gray_default_arena = _esc_a; } }\n");
-                    return;
-                }
-                if (field_t && field_t->kind == TK_STRING) {
-                    emit(codegen, "{ __auto_type _dp = ");
-                    emit_expression(codegen, obj);
-                    emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
-                    emit_formatted(codegen, "{ GrayString _esc_v = ");
-                    emit_expression(codegen, node->data.assign.value);
-                    emit_formatted(codegen, "; _dp->%s = gray_string_new(_gray_outer_arena, _esc_v.data, _esc_v.len); } }\n",
-                        sanitize_name(field));
-                    return;
-                }
-            }
             emit(codegen, "{ __auto_type _dp = ");
             emit_expression(codegen, obj);
             emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp->%s", codegen->file, node->token.line, sanitize_name(field));
@@ -8066,94 +8234,11 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         }
     }
 
-    /* Array copy-by-default: arr2 = arr1 deep-copies the array.
-     * Routes through emit_deep_array_copy so nested inner arrays get
-     * independent backing storage ). Applies to any RHS expression
-     * (variables, call results, etc.) to prevent use-after-free when the
-     * source array lives on a function-local arena. */
-    if (node->data.assign.op == TOK_ASSIGN) {
-        GrayType *tgt_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
-        if (tgt_t && tgt_t->kind == TK_ARRAY) {
-            emit_expression(codegen, node->data.assign.target);
-            emit(codegen, " = ");
-            emit_deep_array_copy(codegen, node->data.assign.value, tgt_t->element_type);
-            emit(codegen, ";\n");
-            return;
-        }
-        /* Map copy-by-default: map2 = map1 deep-copies the map. */
-        if (tgt_t && tgt_t->kind == TK_MAP) {
-            int tag = next_deep_copy_tag();
-            char src_var[VAR_NAME_BUF];
-            snprintf(src_var, sizeof(src_var), "_ma%d", tag);
-            emit(codegen, "{ GrayMap ");
-            emit_formatted(codegen, "%s = ", src_var);
-            emit_expression(codegen, node->data.assign.value);
-            emit(codegen, "; ");
-            emit_expression(codegen, node->data.assign.target);
-            emit(codegen, " = ");
-            emit_value_deep_copy(codegen, tgt_t->name, src_var);
-            emit(codegen, "; }\n");
-            return;
-        }
-        /* Struct copy-by-default: deep copy structs with container fields.
-         * When inside a scoped arena (if-block / for_each), allocate on
-         * the outer arena so the copy survives scope destruction. */
-        if (tgt_t && tgt_t->kind == TK_STRUCT && tgt_t->name &&
-            type_needs_deep_copy(codegen, tgt_t->name)) {
-            int tag = next_deep_copy_tag();
-            const char *ct = gray_type_to_c_codegen(codegen, tgt_t->name);
-            char src_var[VAR_NAME_BUF];
-            snprintf(src_var, sizeof(src_var), "_sa%d", tag);
-            emit_formatted(codegen, "{ %s %s = ", ct, src_var);
-            emit_expression(codegen, node->data.assign.value);
-            emit(codegen, "; ");
-            if (codegen->loop_scope_depth > 0) {
-                emit(codegen, "GrayArena *_esc_a = gray_default_arena; gray_default_arena = _gray_outer_arena; ");
-            }
-            emit_expression(codegen, node->data.assign.target);
-            emit(codegen, " = ");
-            emit_value_deep_copy(codegen, tgt_t->name, src_var);
-            if (codegen->loop_scope_depth > 0) {
-                emit(codegen, "; gray_default_arena = _esc_a; }\n");
-            } else {
-                emit(codegen, "; }\n");
-            }
-            return;
-        }
-    }
-
     /* Default assignment; suppress ref auto-deref when assigning to a pointer target */
 
-    /* : when inside a loop scope and assigning a string/container
-     * value to a plain variable with =, escape the value to the outer
-     * arena so it survives the iteration arena's destruction. */
-    if (codegen->loop_scope_depth > 0 && node->data.assign.op == TOK_ASSIGN &&
-        node->data.assign.target->kind == NODE_LABEL) {
-        GrayType *tgt_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
-        if (tgt_t && tgt_t->kind == TK_STRING) {
-            emit(codegen, "{ GrayString _esc_v = ");
-            emit_expression(codegen, node->data.assign.value);
-            emit(codegen, "; ");
-            emit_expression(codegen, node->data.assign.target);
-            emit(codegen, " = gray_string_new(_gray_outer_arena, _esc_v.data, _esc_v.len); }\n");
-            return;
-        }
-        if (tgt_t && tgt_t->name && type_needs_deep_copy(codegen, tgt_t->name)) {
-            const char *c_type = gray_type_to_c_codegen(codegen, tgt_t->name);
-            emit_formatted(codegen, "{ %s _esc_v = ", c_type);
-            emit_expression(codegen, node->data.assign.value);
-            emit(codegen, "; GrayArena *_esc_a = gray_default_arena; gray_default_arena = _gray_outer_arena; ");
-            emit_expression(codegen, node->data.assign.target);
-            emit(codegen, " = ");
-            emit_value_deep_copy(codegen, tgt_t->name, "_esc_v");
-            emit(codegen, "; gray_default_arena = _esc_a; }\n");
-            return;
-        }
-    }
-
     emit_expression(codegen, node->data.assign.target);
     emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
-    if (node->data.assign.value->kind == NODE_LABEL &&
+    if (node->data.assign.value->kind == NODE_LABEL && codegen->stored_value != node->data.assign.value &&
         is_reference_variable(codegen, node->data.assign.value->data.label.value)) {
         GrayType *tgt_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
         if (tgt_t && tgt_t->kind == TK_POINTER) {
@@ -8434,9 +8519,11 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
 }
 
 static void emit_block(CodeGen *codegen, AstNode *node) {
+    int outer_locals = codegen->local_count;
     for (int i = 0; i < node->data.block.count; i++) {
         emit_statement(codegen, node->data.block.stmts[i]);
     }
+    codegen->local_count = outer_locals;
 }
 
 static void emit_if_statement(CodeGen *codegen, AstNode *node) {
@@ -8844,6 +8931,20 @@ static void emit_function_declaration(CodeGen *codegen, AstNode *node, bool is_m
 }
 
 static void emit_expression_statement(CodeGen *codegen, AstNode *node) {
+    /* a[i]++ is a[i] += 1: one evaluation of the operands, and the same guards. */
+    AstNode *step = node->data.expr_stmt.expr;
+    if (step->kind == NODE_POSTFIX_EXPR && step->data.postfix.left->kind == NODE_INDEX_EXPR &&
+        (step->data.postfix.op == TOK_INCREMENT || step->data.postfix.op == TOK_DECREMENT)) {
+        AstNode one = { .kind = NODE_INT_VALUE, .token = step->token };
+        one.data.int_value.value = 1;
+        one.data.int_value.literal = "1";
+        AstNode assign = { .kind = NODE_ASSIGN_STMT, .token = step->token };
+        assign.data.assign.target = step->data.postfix.left;
+        assign.data.assign.value = &one;
+        assign.data.assign.op = step->data.postfix.op == TOK_INCREMENT ? TOK_PLUS_ASSIGN : TOK_MINUS_ASSIGN;
+        emit_assign_statement(codegen, &assign);
+        return;
+    }
     emit_indent(codegen);
     emit_expression(codegen, node->data.expr_stmt.expr);
     emit(codegen, ";\n");
@@ -8914,9 +9015,10 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
             char slot_name[SHORT_VAR_BUF];
             snprintf(slot_name, sizeof(slot_name), "_gray_sl%d", map_iter_counter - 1);
             /* Guard against mutation during iteration */
+            emit(codegen, "{ GRAY_ITERATE(");
             if (map_needs_tmp) emit_formatted(codegen, "%s", map_tmp_name);
             else emit_expression(codegen, coll);
-            emit(codegen, ".iterating++;\n");
+            emit(codegen, ");\n");
             emit_indent(codegen);
             emit_formatted(codegen, "for (int32_t %s = 0; %s < ", mi_name, mi_name);
             if (map_needs_tmp) emit_formatted(codegen, "%s", map_tmp_name);
@@ -9016,8 +9118,10 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
             else { emit_expression(codegen, coll); emit(codegen, ".len;\n"); }
             /* Guard against mutation during iteration */
             emit_indent(codegen);
-            if (coll_needs_tmp) emit_formatted(codegen, "%s.iterating++;\n", arr_tmp_name);
-            else { emit_expression(codegen, coll); emit(codegen, ".iterating++;\n"); }
+            emit(codegen, "GRAY_ITERATE(");
+            if (coll_needs_tmp) emit(codegen, arr_tmp_name);
+            else emit_expression(codegen, coll);
+            emit(codegen, ");\n");
             emit_indent(codegen);
             emit_formatted(codegen, "for (int32_t %s = 0; %s < %s; %s++) {\n", idx_name, idx_name, len_name, idx_name);
             codegen->indent++;
@@ -9034,9 +9138,7 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
         /* Decrement map iteration guard */
         if (is_map_iter) {
             emit_indent(codegen);
-            if (map_needs_tmp) emit_formatted(codegen, "%s", map_tmp_name);
-            else emit_expression(codegen, coll);
-            emit(codegen, ".iterating--;\n");
+            emit(codegen, "}\n");
             if (map_needs_tmp) {
                 emit_indent(codegen);
                 emit(codegen, "}\n");
@@ -9049,9 +9151,6 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
         }
         /* Decrement array iteration guard, then close the snapshot block */
         if (coll_t && coll_t->kind != TK_MAP && coll_t->kind != TK_STRING) {
-            emit_indent(codegen);
-            if (coll_needs_tmp) emit_formatted(codegen, "%s.iterating--;\n", arr_tmp_name);
-            else { emit_expression(codegen, coll); emit(codegen, ".iterating--;\n"); }
             emit_indent(codegen);
             emit(codegen, "}\n");
             /* Close the outer temporary block if we materialized a C temp */
@@ -10036,6 +10135,7 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
         }
     }
     emit(codegen, "\n");
+    codegen->deep_copy_prototypes = codegen->output.len;
 
     /* Emit global constants/variables first so they're visible to all functions
      * (e.g. when used as default parameter values at a call site). */
@@ -10081,6 +10181,7 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
     emit(codegen, "    gray_runtime_shutdown();\n");
     emit(codegen, "    return 0;\n");
     emit(codegen, "}\n");
+    emit_deep_copy_functions(codegen);
 }
 
 const char *codegen_result(CodeGen *codegen) {
@@ -10107,6 +10208,7 @@ void codegen_destroy(CodeGen *codegen) {
     free(codegen->imported_modules);
     free(codegen->c_headers);
     free(codegen->scope_arenas);
+    free(codegen->locals);
     for (int i = 0; i < codegen->ns_func_name_count; i++)
         free(codegen->ns_func_names[i]);
     free(codegen->ns_func_names);
diff --git a/grayc/src/codegen/codegen.h b/grayc/src/codegen/codegen.h
index cc2ace1..6e744a3 100644
--- a/grayc/src/codegen/codegen.h
+++ b/grayc/src/codegen/codegen.h
@@ -21,6 +21,13 @@ typedef struct {
     char saved_var[32];
 } ScopeArena;
 
+/* A local variable in scope and the number of scratch arenas that were open
+ * where it was declared. */
+typedef struct {
+    const char *name;
+    int depth;
+} LocalVar;
+
 typedef struct {
     Buf output;
     Buf global_init;    /* Deferred initialization for file-scope arrays */
@@ -135,6 +142,26 @@ typedef struct {
      * can unwind every live scratch arena innermost-first before the
      * function-arena cleanup. Without this, nested scratch arenas leak
      * on early return. */
+    LocalVar *locals;
+    int local_count;
+    int local_cap;
+
+    /* Value node of the assignment being emitted whose value is already in a
+     * C temporary, and that temporary's name. */
+    AstNode *stored_value;
+    const char *stored_text;
+
+    /* Arena the call being emitted must allocate in: the longest-lived owner
+     * of its reference arguments; NULL when the current arena will do. */
+    char call_arena[32];
+
+    /* Structs and tagged enums that need a gray_dc_<type> copy function, and
+     * the output position where their prototypes go. */
+    char **deep_copy_types;
+    int deep_copy_count;
+    int deep_copy_cap;
+    size_t deep_copy_prototypes;
+
     ScopeArena *scope_arenas;
     int scope_arena_count;
     int scope_arena_cap;
diff --git a/grayc/src/runtime/array.h b/grayc/src/runtime/array.h
index 7fa8813..6918e85 100644
--- a/grayc/src/runtime/array.h
+++ b/grayc/src/runtime/array.h
@@ -34,6 +34,10 @@ GrayArray gray_array_from(GrayArena *arena, const void *data, int32_t elem_size,
 void *gray_array_get_ptr(GrayArray *arr, int64_t index, const char *file, int line);
 
 /* Set element at index (with bounds checking) */
+static inline void gray_array_writable(const GrayArray *arr) {
+    if (arr->iterating > 0)
+        gray_panic_code("P0034", "cannot modify array during for_each iteration");
+}
 void gray_array_set(GrayArray *arr, int64_t index, const void *value, const char *file, int line);
 
 /* Append an element (may reallocate on the arena) */
diff --git a/grayc/src/runtime/runtime.c b/grayc/src/runtime/runtime.c
index 43fb95e..2ebe13b 100644
--- a/grayc/src/runtime/runtime.c
+++ b/grayc/src/runtime/runtime.c
@@ -10,6 +10,7 @@
 
 #include "runtime.h"
 #include <stdarg.h>
+#include <stdatomic.h>
 #include <unistd.h>
 
 /* --- ANSI color codes for panic output --- */
@@ -29,7 +30,8 @@ _Thread_local GrayArena *gray_default_arena = NULL;
 
 /* --- Persistent heap arena (used by new()) --- */
 
-_Thread_local GrayArena *gray_heap_arena = NULL;
+GrayArena *gray_heap_arena = NULL;
+static atomic_flag gray_heap_lock = ATOMIC_FLAG_INIT;
 
 /* --- Arena Allocator --- */
 
@@ -83,15 +85,26 @@ void *gray_arena_alloc(GrayArena *arena, size_t size) {
     const size_t requested = size;
 #endif
     size = ALIGN_UP(size, 8) + VERIF_REDZONE;
+    const bool shared = arena == gray_heap_arena;
+    if (shared) while (atomic_flag_test_and_set_explicit(&gray_heap_lock, memory_order_acquire)) {}
     if (arena->current->used + size > arena->current->size) {
-        size_t block_size = arena->default_block_size;
-        if (size > block_size) block_size = size;
-        GrayArenaBlock *block = gray_arena_block_create(block_size);
-        arena->current->next = block;
-        arena->current = block;
+        /* Blocks after the current one were kept by a reset or restore: reuse
+         * the next one if the request fits, else link a new block before it. */
+        GrayArenaBlock *kept = arena->current->next;
+        if (kept && size <= kept->size) {
+            arena->current = kept;
+        } else {
+            size_t block_size = arena->default_block_size;
+            if (size > block_size) block_size = size;
+            GrayArenaBlock *block = gray_arena_block_create(block_size);
+            block->next = kept;
+            arena->current->next = block;
+            arena->current = block;
+        }
     }
     void *ptr = arena->current->data + arena->current->used;
     arena->current->used += size;
+    if (shared) atomic_flag_clear_explicit(&gray_heap_lock, memory_order_release);
     VERIF_ALLOC_BEGIN(ptr, size);
     memset(ptr, 0, size);
     VERIF_ALLOC_END(ptr, requested, size);
@@ -149,6 +162,14 @@ GrayError *gray_error_new(GrayArena *arena, GrayString message) {
     return err;
 }
 
+GrayError *gray_error_copy(GrayArena *arena, const GrayError *source) {
+    if (!source) return NULL;
+    GrayError *err = (GrayError *)gray_arena_alloc(arena, sizeof(GrayError));
+    err->message = gray_string_new(arena, source->message.data, source->message.len);
+    err->code = gray_string_new(arena, source->code.data, source->code.len);
+    return err;
+}
+
 /* --- String --- */
 
 GrayString gray_string_new(GrayArena *arena, const char *s, int32_t len) {
@@ -219,8 +240,9 @@ GrayScopeMark gray_scope_save(GrayArena *arena) {
 }
 
 void gray_scope_restore(GrayArena *arena, GrayScopeMark mark) {
-    /* Reset all blocks AFTER the marked block */
-    if (!mark.block) return;
+    /* Reset all blocks AFTER the marked block. The heap arena holds values that
+     * outlive every function, so it is never rolled back. */
+    if (!mark.block || arena == gray_heap_arena) return;
     GrayArenaBlock *block = mark.block->next;
     while (block) {
         block->used = 0;
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index cbfdbf7..fe2cca9 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -49,7 +49,9 @@ extern _Thread_local GrayArena *gray_default_arena;
 
 /* Persistent heap arena — lives for the lifetime of the program.
  * Used by new() so returned pointers are never dangling. */
-extern _Thread_local GrayArena *gray_heap_arena;
+/* Process-wide: what it holds (new(), values stored in globals or through
+ * pointers) may be reached by every thread, so allocation is locked. */
+extern GrayArena *gray_heap_arena;
 
 /* --- String --- */
 
@@ -65,6 +67,9 @@ typedef struct {
     GrayString code;
 } GrayError;
 
+/* Copy an error value (which may be nil) into an arena. */
+GrayError *gray_error_copy(GrayArena *arena, const GrayError *source);
+
 /* Create an error on the default arena */
 GrayError *gray_error_new(GrayArena *arena, GrayString message);
 
@@ -136,6 +141,19 @@ GrayScopeMark gray_scope_save(GrayArena *arena);
 
 /* Restore arena to a saved state — frees everything allocated after
  * the mark. Only called for void scopes (no return value to preserve). */
+/* Make another arena the default one for the rest of a C scope. */
+static inline void gray_arena_switch_back(GrayArena **saved) { gray_default_arena = *saved; }
+/* Mark an array or map as being iterated for the rest of a C scope, however
+ * the scope is left. */
+static inline void gray_iterate_end(int32_t **guard) { if (**guard > 0) (**guard)--; }
+#define GRAY_ITERATE(collection) \
+    __attribute__((cleanup(gray_iterate_end))) int32_t *_gray_guard = &(collection).iterating; \
+    (*_gray_guard)++
+
+#define GRAY_ARENA_SWITCH(arena) \
+    __attribute__((cleanup(gray_arena_switch_back))) GrayArena *_gray_switched = gray_default_arena; \
+    gray_default_arena = (arena)
+
 void gray_scope_restore(GrayArena *arena, GrayScopeMark mark);
 
 /* --- Panic --- */
-- 
2.43.0


From b5a936a487b84b4d9c9e8448f05904814176a47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:08:58 +0000
Subject: [PATCH 17/96] fix: interpolated arrays and maps render every element
 type at any length

---
 grayc/src/codegen/codegen.c | 108 +++++++++++++++------------------
 grayc/src/stdlib/builtins.c | 116 +++++-------------------------------
 grayc/src/stdlib/builtins.h |   6 +-
 3 files changed, 69 insertions(+), 161 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 54fe41a..334f7d4 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -66,8 +66,10 @@ static const char *operator_to_c_string(TokenType op) {
 /* Forward declarations */
 static void emit_statement(CodeGen *codegen, AstNode *node);
 static void emit_expression(CodeGen *codegen, AstNode *node);
+static void emit_composite_text(CodeGen *codegen, AstNode *part, GrayType *type);
 static void emit_call_expression(CodeGen *codegen, AstNode *node);
 static bool codegen_is_enum(CodeGen *codegen, const char *name);
+static bool codegen_enum_is_string(CodeGen *codegen, const char *name);
 static bool codegen_enum_is_tagged(CodeGen *codegen, const char *name);
 static int codegen_enum_index(CodeGen *codegen, const char *name);
 static void emit_to_string(CodeGen *codegen, AstNode *arg);
@@ -976,6 +978,7 @@ static const char *resolve_bigint_type(CodeGen *codegen, AstNode *node) {
         GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, node) : NULL;
         if (type && type->name && (type->kind == TK_INT || type->kind == TK_UINT))
             return is_bigint_type(type->name) ? type->name : NULL;
+        if (type && type->kind != TK_UNKNOWN) return NULL;
         return lookup_bigint_variable(codegen, node->data.label.value);
     }
     /* If the node is a call to a bigint cast function */
@@ -1542,46 +1545,15 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 emit_expression(codegen, part);
                 emit(codegen, ").data");
                 break;
-            case TK_ARRAY: {
-                /* Determine element kind: 0=int, 1=float, 2=string, 3=bool, 4=uint, 5=byte, 6=char */
-                int ek = 0;
-                if (part_type && part_type->element_type) {
-                    GrayType *et = type_from_name(part_type->element_type);
-                    if (et->kind == TK_FLOAT) ek = 1;
-                    else if (et->kind == TK_STRING) ek = 2;
-                    else if (et->kind == TK_BOOL) ek = 3;
-                    else if (et->kind == TK_UINT) ek = 4;
-                    else if (et->kind == TK_BYTE) ek = 5;
-                    else if (et->kind == TK_CHAR) ek = 6;
-                }
-                emit_formatted(codegen, "({ GrayArray _interp_arr = ");
-                emit_expression(codegen, part);
-                emit_formatted(codegen, "; gray_builtin_array_to_string(gray_default_arena, &_interp_arr, %d); }).data", ek);
-                break;
-            }
-            case TK_MAP: {
-                /* Determine value kind: 0=int, 1=float, 2=string, 3=bool, 4=uint, 5=byte, 6=char */
-                int vk = 0;
-                if (part_type && part_type->value_type) {
-                    GrayType *vt = type_from_name(part_type->value_type);
-                    if (vt->kind == TK_FLOAT) vk = 1;
-                    else if (vt->kind == TK_STRING) vk = 2;
-                    else if (vt->kind == TK_BOOL) vk = 3;
-                    else if (vt->kind == TK_UINT) vk = 4;
-                    else if (vt->kind == TK_BYTE) vk = 5;
-                    else if (vt->kind == TK_CHAR) vk = 6;
-                }
-                emit_formatted(codegen, "({ GrayMap _interp_map = ");
-                emit_expression(codegen, part);
-                emit_formatted(codegen, "; gray_builtin_map_to_string(gray_default_arena, &_interp_map, %d); }).data", vk);
+            case TK_ARRAY:
+            case TK_MAP:
+                emit_composite_text(codegen, part, part_type);
                 break;
-            }
             case TK_ERROR:
                 /* Print error message */
+                emit(codegen, "({ __auto_type _interp_err = ");
                 emit_expression(codegen, part);
-                emit(codegen, " ? ");
-                emit_expression(codegen, part);
-                emit(codegen, "->message.data : \"nil\"");
+                emit(codegen, "; _interp_err ? _interp_err->message.data : \"nil\"; })");
                 break;
             case TK_UINT:
                 emit(codegen, "(unsigned long long)(");
@@ -3412,7 +3384,7 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
         break;
     case TK_FLOAT:
         emit_indent(codegen);
-        emit_formatted(codegen, "fprintf(%s, \"%%g\", (double)(%s));\n", stream, c_expr);
+        emit_formatted(codegen, "fprintf(%s, \"%%s\", gray_builtin_format_float(gray_default_arena, (double)(%s)).data);\n", stream, c_expr);
         break;
     case TK_STRING:
         emit_indent(codegen);
@@ -3488,9 +3460,9 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
         GrayType *key_t = type_from_name(key_tn);
         GrayType *val_t = type_from_name(val_tn);
         char c_key[TYPE_NAME_MAX], c_val[TYPE_NAME_MAX];
-        strncpy(c_key, gray_type_to_c_codegen(codegen, key_tn), sizeof(c_key) - 1);
+        strncpy(c_key, gray_map_element_c_type(codegen, key_tn), sizeof(c_key) - 1);
         c_key[sizeof(c_key) - 1] = '\0';
-        strncpy(c_val, gray_type_to_c_codegen(codegen, val_tn), sizeof(c_val) - 1);
+        strncpy(c_val, gray_map_element_c_type(codegen, val_tn), sizeof(c_val) - 1);
         c_val[sizeof(c_val) - 1] = '\0';
 
         char mi[SHORT_VAR_BUF], sl[SHORT_VAR_BUF];
@@ -3619,24 +3591,8 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
     }
 }
 
-/* Try to emit a composite type print. Returns true if handled. */
-static bool emit_composite_print(CodeGen *codegen, AstNode *node,
-                                  const char *stream, bool newline) {
-    if (node->data.call.arg_count < 1) return false;
-
-    AstNode *arg = unwrap_reference_argument(node->data.call.args[0]);
-    GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
-    if (!type) return false;
-    if (type->kind != TK_STRUCT && type->kind != TK_ARRAY &&
-        type->kind != TK_MAP && type->kind != TK_POINTER) return false;
-    /* Enum types are stored as TK_STRUCT but should print as integers */
-    if (type->kind == TK_STRUCT && type->name && codegen_is_enum(codegen, type->name)) return false;
-
-    /* Emit a block to scope temp variables */
-    emit(codegen, "{\n");
-    codegen->indent++;
-
-    /* Capture expression in temp var to evaluate only once */
+/* Emit statements that evaluate expr once and print its value to stream. */
+static void emit_captured_print(CodeGen *codegen, AstNode *expr, GrayType *type, const char *stream) {
     int uid = _gray_print_uid++;
     char c_type[TYPE_NAME_MAX];
     if (type->kind == TK_ARRAY) snprintf(c_type, sizeof(c_type), "GrayArray");
@@ -3649,13 +3605,47 @@ static bool emit_composite_print(CodeGen *codegen, AstNode *node,
 
     emit_indent(codegen);
     emit_formatted(codegen, "%s _gray_pv%d = ", c_type, uid);
-    emit_expression(codegen, arg);
+    emit_expression(codegen, expr);
     emit(codegen, ";\n");
 
     char var[SHORT_VAR_BUF];
     snprintf(var, sizeof(var), "_gray_pv%d", uid);
-
     emit_value_print(codegen, var, type, stream, false);
+}
+
+/* Emit an expression for the text of an interpolated composite value: the same
+ * rendering println gives it, collected in memory. */
+static void emit_composite_text(CodeGen *codegen, AstNode *part, GrayType *type) {
+    int uid = _gray_print_uid++;
+    char stream[SHORT_VAR_BUF];
+    snprintf(stream, sizeof(stream), "_gray_ts%d", uid);
+    emit_formatted(codegen, "({ char *_gray_tb%d = NULL; size_t _gray_tn%d = 0; FILE *%s = gray_text_open(&_gray_tb%d, &_gray_tn%d);\n",
+                   uid, uid, stream, uid, uid);
+    codegen->indent++;
+    emit_captured_print(codegen, part, type, stream);
+    emit_indent(codegen);
+    emit_formatted(codegen, "gray_text_close(gray_default_arena, %s, &_gray_tb%d, &_gray_tn%d).data; })", stream, uid, uid);
+    codegen->indent--;
+}
+
+/* Try to emit a composite type print. Returns true if handled. */
+static bool emit_composite_print(CodeGen *codegen, AstNode *node,
+                                  const char *stream, bool newline) {
+    if (node->data.call.arg_count < 1) return false;
+
+    AstNode *arg = unwrap_reference_argument(node->data.call.args[0]);
+    GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
+    if (!type) return false;
+    if (type->kind != TK_STRUCT && type->kind != TK_ARRAY &&
+        type->kind != TK_MAP && type->kind != TK_POINTER) return false;
+    /* Enum types are stored as TK_STRUCT but should print as integers */
+    if (type->kind == TK_STRUCT && type->name && codegen_is_enum(codegen, type->name)) return false;
+
+    /* Emit a block to scope temp variables */
+    emit(codegen, "{\n");
+    codegen->indent++;
+
+    emit_captured_print(codegen, arg, type, stream);
 
     if (newline) {
         emit_indent(codegen);
diff --git a/grayc/src/stdlib/builtins.c b/grayc/src/stdlib/builtins.c
index 478360b..4543b48 100644
--- a/grayc/src/stdlib/builtins.c
+++ b/grayc/src/stdlib/builtins.c
@@ -18,8 +18,6 @@
 #include <unistd.h>
 #include <time.h>
 
-#define GRAY_TOSTRING_BUF_SIZE    4096
-#define GRAY_TOSTRING_SAFE_LIMIT  (GRAY_TOSTRING_BUF_SIZE - 96)
 #define GRAY_INT_STR_BUF          32
 #define GRAY_FLOAT_STR_BUF        64
 #define GRAY_INPUT_BUF_SIZE       4096
@@ -367,56 +365,22 @@ GrayString gray_builtin_to_string_char(GrayArena *arena, int32_t v) {
     return gray_string_new(arena, buf, n);
 }
 
-GrayString gray_builtin_array_to_string(GrayArena *arena, GrayArray *arr, int elem_kind) {
-    char buf[GRAY_TOSTRING_BUF_SIZE];
-    int pos = 0;
-    buf[pos++] = '{';
-    for (int32_t i = 0; i < arr->len && pos < GRAY_TOSTRING_SAFE_LIMIT; i++) {
-        if (i > 0) { buf[pos++] = ','; buf[pos++] = ' '; }
-        switch (elem_kind) {
-        case 0:
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "%" PRId64,
-                GRAY_ARRAY_GET(*arr, int64_t, i));
-            break;
-        case 1: {
-            char float_buffer[GRAY_FLOAT_STR_BUF];
-            fmt_shortest_float(float_buffer, sizeof(float_buffer), GRAY_ARRAY_GET(*arr, double, i));
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "%s", float_buffer);
-            break;
-        }
-        case 2: {
-            GrayString s = GRAY_ARRAY_GET(*arr, GrayString, i);
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "\"%.*s\"",
-                (int)s.len, s.data ? s.data : "");
-            break;
-        }
-        case 3:
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "%s",
-                GRAY_ARRAY_GET(*arr, bool, i) ? "true" : "false");
-            break;
-        case 4:
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "%" PRIu64,
-                GRAY_ARRAY_GET(*arr, uint64_t, i));
-            break;
-        case 5:
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "%u",
-                (unsigned)GRAY_ARRAY_GET(*arr, uint8_t, i));
-            break;
-        case 6: {
-            int32_t cp = GRAY_ARRAY_GET(*arr, int32_t, i);
-            char utf8[4]; int utf8_length = cp_to_utf8(cp, utf8);
-            if (pos + 2 + utf8_length < (int)sizeof(buf)) {
-                buf[pos++] = '\'';
-                memcpy(buf + pos, utf8, (size_t)utf8_length); pos += utf8_length;
-                buf[pos++] = '\'';
-            }
-            break;
-        }
-        }
-    }
-    buf[pos++] = '}';
-    buf[pos] = '\0';
-    return gray_string_new(arena, buf, (int32_t)pos);
+static void out_of_memory(void) {
+    fprintf(stderr, "Grayscale runtime: out of memory\n");
+    exit(1);
+}
+
+FILE *gray_text_open(char **text, size_t *size) {
+    FILE *out = open_memstream(text, size);
+    if (!out) out_of_memory();
+    return out;
+}
+
+GrayString gray_text_close(GrayArena *arena, FILE *out, char **text, size_t *size) {
+    if (fclose(out) != 0 || *size > INT32_MAX) out_of_memory();
+    GrayString result = gray_string_new(arena, *text, (int32_t)*size);
+    free(*text);
+    return result;
 }
 
 /* --- to_char / char_count — Unicode codepoint access --- */
@@ -508,51 +472,3 @@ GrayString gray_builtin_char_to_utf8(GrayArena *arena, int32_t cp) {
     }
     return gray_string_new(arena, buf, (int32_t)len);
 }
-
-GrayString gray_builtin_map_to_string(GrayArena *arena, GrayMap *m, int val_kind) {
-    char buf[GRAY_TOSTRING_BUF_SIZE];
-    int pos = 0;
-    buf[pos++] = '{';
-    for (int32_t order_index = 0; order_index < m->order_len && pos < GRAY_TOSTRING_SAFE_LIMIT; order_index++) {
-        int32_t i = m->order[order_index];
-        if (m->states[i] != 1) continue;
-        if (order_index > 0) { buf[pos++] = ','; buf[pos++] = ' '; }
-        GrayString *kp = (GrayString *)((char *)m->keys + (size_t)i * m->key_size);
-        pos += snprintf(buf + pos, sizeof(buf) - pos, "\"%.*s\": ",
-            (int)kp->len, kp->data ? kp->data : "");
-        void *vp = (char *)m->values + (size_t)i * m->value_size;
-        switch (val_kind) {
-        case 0: pos += snprintf(buf + pos, sizeof(buf) - pos, "%" PRId64, *(int64_t *)vp); break;
-        case 1: {
-            char float_buffer[GRAY_FLOAT_STR_BUF];
-            fmt_shortest_float(float_buffer, sizeof(float_buffer), *(double *)vp);
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "%s", float_buffer);
-            break;
-        }
-        case 2: {
-            GrayString *sp = (GrayString *)vp;
-            pos += snprintf(buf + pos, sizeof(buf) - pos, "\"%.*s\"",
-                (int)sp->len, sp->data ? sp->data : "");
-            break;
-        }
-        case 3: pos += snprintf(buf + pos, sizeof(buf) - pos, "%s",
-            *(bool *)vp ? "true" : "false"); break;
-        case 4: pos += snprintf(buf + pos, sizeof(buf) - pos, "%" PRIu64, *(uint64_t *)vp); break;
-        case 5: pos += snprintf(buf + pos, sizeof(buf) - pos, "%u", (unsigned)*(uint8_t *)vp); break;
-        case 6: {
-            int32_t cp = *(int32_t *)vp;
-            char utf8[4]; int utf8_length = cp_to_utf8(cp, utf8);
-            if (pos + 2 + utf8_length < (int)sizeof(buf)) {
-                buf[pos++] = '\'';
-                memcpy(buf + pos, utf8, (size_t)utf8_length); pos += utf8_length;
-                buf[pos++] = '\'';
-            }
-            break;
-        }
-        }
-    }
-    if (m->order_len == 0) { buf[pos++] = ':'; }
-    buf[pos++] = '}';
-    buf[pos] = '\0';
-    return gray_string_new(arena, buf, (int32_t)pos);
-}
diff --git a/grayc/src/stdlib/builtins.h b/grayc/src/stdlib/builtins.h
index 50a3780..0ba14c7 100644
--- a/grayc/src/stdlib/builtins.h
+++ b/grayc/src/stdlib/builtins.h
@@ -11,6 +11,7 @@
 #ifndef GRAY_BUILTINS_H
 #define GRAY_BUILTINS_H
 
+#include <stdio.h>
 #include "../runtime/runtime.h"
 #include "../runtime/array.h"
 #include "../runtime/map.h"
@@ -436,8 +437,9 @@ double gray_builtin_string_to_float(GrayString s);
 GrayString gray_builtin_format_float(GrayArena *arena, double v);
 
 /* composite to_string */
-GrayString gray_builtin_array_to_string(GrayArena *arena, GrayArray *arr, int elem_kind);
-GrayString gray_builtin_map_to_string(GrayArena *arena, GrayMap *m, int val_kind);
+/* Collect the rendering of a composite value in memory (interpolation) */
+FILE *gray_text_open(char **text, size_t *size);
+GrayString gray_text_close(GrayArena *arena, FILE *out, char **text, size_t *size);
 
 /* to_char / char_count — Unicode codepoint access */
 int32_t gray_builtin_to_char(GrayString s, int64_t index, const char *file, int line);
-- 
2.43.0


From 5348a0431acd44e46bac15d347a160440d5f7a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:10:17 +0000
Subject: [PATCH 18/96] fix: values stored through reference parameters are
 copied to where the referent lives

---
 grayc/src/codegen/codegen.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 334f7d4..dd9bbf1 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -1149,7 +1149,9 @@ static const char *store_arena(CodeGen *codegen, AstNode *target) {
             if (strcmp(codegen->current_func->data.func_decl.params[i].name, name) == 0) depth = 0;
     if (depth >= 0 && is_reference_variable(codegen, name) && !is_mutable_parameter(codegen, name)) depth = -1;
     if (depth < 0) return codegen->current_func ? "gray_heap_arena" : NULL;
-    return depth < codegen->scope_arena_count ? codegen->scope_arenas[depth].saved_var : NULL;
+    if (depth < codegen->scope_arena_count) return codegen->scope_arenas[depth].saved_var;
+    /* What a reference parameter names outlives the values passed alongside it. */
+    return is_mutable_parameter(codegen, name) ? "gray_default_arena" : NULL;
 }
 
 /* Is the value newly made by this expression, so that nothing else refers to its storage? */
@@ -1163,6 +1165,10 @@ static bool value_is_fresh(AstNode *value) {
 static void emit_stored_copy(CodeGen *codegen, const char *gray_tn, const char *var, const char *arena, AstNode *value) {
     if (arena ? !type_needs_deep_copy(codegen, gray_tn)
               : !type_holds_container(codegen, gray_tn) || value_is_fresh(value)) return;
+    if (arena && strcmp(arena, "gray_default_arena") == 0) {
+        if (value_is_fresh(value)) return;
+        arena = NULL;
+    }
     if (arena) emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; ", arena);
     emit_formatted(codegen, "%s = ", var);
     emit_value_deep_copy(codegen, gray_tn, var);
-- 
2.43.0


From 910201e362b2856e3be95414ce12572f2bf2cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:10:26 +0000
Subject: [PATCH 19/96] fix: file-scope variables with composite or wide
 initializers are set at program start

---
 grayc/src/codegen/codegen.c         | 55 ++++++++++++++++++++++++++++-
 grayc/src/typechecker/typechecker.c |  2 +-
 2 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index dd9bbf1..b94a919 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -7368,6 +7368,44 @@ static void emit_fixed_size_array_initializer(CodeGen *codegen, AstNode *value,
     }
 }
 
+/* Must a file-scope variable with this initializer be set when the program
+ * starts, because C would not accept the emitted value as a constant? */
+static bool needs_runtime_initializer(CodeGen *codegen, const char *type_name, AstNode *value) {
+    if (!value) return false;
+    if (type_name && is_bigint_type(type_name))
+        return value->kind != NODE_INT_VALUE || value->data.int_value.overflow;
+    switch (value->kind) {
+    case NODE_ARRAY_VALUE: case NODE_MAP_VALUE: case NODE_INTERPOLATED_STRING:
+    case NODE_NEW_EXPR: case NODE_INDEX_EXPR: case NODE_POSTFIX_EXPR:
+        return true;
+    case NODE_LABEL:
+        return type_name && type_needs_deep_copy(codegen, type_name);
+    case NODE_PREFIX_EXPR:
+        return needs_runtime_initializer(codegen, NULL, value->data.prefix.right);
+    case NODE_CAST_EXPR:
+        return needs_runtime_initializer(codegen, NULL, value->data.cast.value);
+    case NODE_INFIX_EXPR:
+        return value->data.infix.op == TOK_BIT_SHIFT_LEFT || value->data.infix.op == TOK_BIT_SHIFT_RIGHT ||
+               needs_runtime_initializer(codegen, NULL, value->data.infix.left) ||
+               needs_runtime_initializer(codegen, NULL, value->data.infix.right);
+    case NODE_STRUCT_VALUE: {
+        AstNode *decl = find_struct_declaration(codegen, value->data.struct_value.name);
+        if (!decl || value->data.struct_value.wildcard_binding) return true;
+        for (int i = 0; i < decl->data.struct_decl.field_count; i++) {
+            StructField *field = &decl->data.struct_decl.fields[i];
+            if (field->type_name && (is_bigint_type(field->type_name) || field->type_name[0] == '[' ||
+                                     strncmp(field->type_name, "map[", 4) == 0)) return true;
+            if (needs_runtime_initializer(codegen, field->type_name, field->default_value)) return true;
+        }
+        for (int i = 0; i < value->data.struct_value.count; i++)
+            if (needs_runtime_initializer(codegen, NULL, value->data.struct_value.field_values[i])) return true;
+        return false;
+    }
+    default:
+        return false;
+    }
+}
+
 static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
     emit_indent(codegen);
     declare_local(codegen, node->data.var_decl.name);
@@ -7678,7 +7716,17 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
         }
     }
 
-    if (!node->data.var_decl.mutable) {
+    bool deferred = codegen->indent == 0 &&
+        needs_runtime_initializer(codegen, type_name, node->data.var_decl.value);
+    Buf declarations = codegen->output;
+    if (deferred) {
+        emit_formatted(codegen, "%s %s;\n", c_type, sanitize_name(node->data.var_decl.name));
+        declarations = codegen->output;
+        codegen->output = codegen->global_init;
+        codegen->indent = 1;
+        emit_indent(codegen);
+        emit(codegen, sanitize_name(node->data.var_decl.name));
+    } else if (!node->data.var_decl.mutable) {
         if (type_name && type_name[0] == '^') {
             /* const pointer: T * const p — the pointer is immutable, not the
              * pointed-to data.  Placing const before the type would produce
@@ -7830,6 +7878,11 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
     }
 
     emit(codegen, ";\n");
+    if (deferred) {
+        codegen->global_init = codegen->output;
+        codegen->output = declarations;
+        codegen->indent = 0;
+    }
 }
 
 /* Emit the checked result of `cur OP value` for a compound assignment whose
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index acc4431..2f1cefd 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -7822,7 +7822,7 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                     /* Expression is a valid compile-time constant.  Register
                      * the value so later const declarations can reference it. */
                     typechecker_register_const_int(checker, node->data.var_decl.name, folded);
-                } else if (overflowed) {
+                } else if (overflowed && !strstr(tn, "128") && !strstr(tn, "256")) {
                     char *msg = NULL;
                     msg = typechecker_format(checker,
                         "constant expression overflows type '%s'", tn);
-- 
2.43.0


From 429c01c31afad155d19d1f8d5298551e71396c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:10:27 +0000
Subject: [PATCH 20/96] fix: calling a func constant calls the function it
 names with its real types

---
 grayc/src/codegen/codegen.c         | 3 +++
 grayc/src/parser/ast.h              | 3 ++-
 grayc/src/typechecker/typechecker.c | 3 ++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index b94a919..493577d 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -6806,6 +6806,9 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
     const char *fn_name = NULL;
     if (node->data.call.function->kind == NODE_LABEL) {
         fn_name = node->data.call.function->data.label.value;
+        /* Calling a func constant calls the function it names */
+        if (node->data.call.referenced_func && find_function(codegen, node->data.call.referenced_func))
+            fn_name = node->data.call.referenced_func;
     }
 
     /* Look up function to check if it's a known function or a variable (function pointer) */
diff --git a/grayc/src/parser/ast.h b/grayc/src/parser/ast.h
index c207bb5..32036e0 100644
--- a/grayc/src/parser/ast.h
+++ b/grayc/src/parser/ast.h
@@ -184,7 +184,8 @@ struct AstNode {
         struct { AstNode *left; TokenType op; } postfix;
 
         /* NODE_CALL_EXPR */
-        struct { AstNode *function; AstNode **args; int arg_count; const char **arg_names; } call;
+        struct { AstNode *function; AstNode **args; int arg_count; const char **arg_names;
+                 const char *referenced_func; /* function named by a func constant being called */ } call;
 
         /* NODE_INDEX_EXPR */
         struct { AstNode *left; AstNode *index; } index_expr;
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 2f1cefd..a0a1191 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -4943,6 +4943,7 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
             FuncSig *ref_sig = fn_sym->func_ref_name
                 ? find_func(checker, fn_sym->func_ref_name) : NULL;
             if (ref_sig) {
+                node->data.call.referenced_func = fn_sym->func_ref_name;
                 /* : compute min arity by counting
                  * params without default values. */
                 int min_arity = ref_sig->param_count;
@@ -4968,7 +4969,7 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                     diagnostic_error_message(checker->diag, "E5008", msg,
                         NODE_FILE(checker, node), node->token.line, node->token.column, 0);
                 } else {
-                    for (int argument_index = 0; argument_index < ref_sig->param_count; argument_index++) {
+                    for (int argument_index = 0; argument_index < ac; argument_index++) {
                         GrayType *at = resolve_expression(checker, node->data.call.args[argument_index]);
                         GrayType *pt = ref_sig->param_types[argument_index];
                         if (at && pt && at->kind != TK_UNKNOWN &&
-- 
2.43.0


From 90175d9ae6a3f3d1dd84a3eb4de9d17b5e01a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:10:27 +0000
Subject: [PATCH 21/96] fix: maps of tagged enums, nested wide arrays and
 pointer multi-returns compile

---
 grayc/src/codegen/codegen.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 493577d..8258215 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -481,7 +481,12 @@ static const char *gray_map_element_c_type(CodeGen *codegen, const char *gray_tn
     case TK_MAP:     return "GrayMap";
     case TK_STRUCT:  return gray_type_to_c_codegen(codegen, gray_tn);
     case TK_POINTER: return gray_type_to_c_codegen(codegen, gray_tn);
-    default:         return "int64_t";
+    default: {
+        const char *enum_name = resolve_unprefixed_name(codegen, gray_tn);
+        if (codegen_enum_is_tagged(codegen, enum_name) || codegen_enum_is_string(codegen, enum_name))
+            return gray_type_to_c_codegen(codegen, gray_tn);
+        return "int64_t";
+    }
     }
 }
 
@@ -1668,6 +1673,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             if (declared_t && declared_t->element_type && is_bigint_type(declared_t->element_type))
                 bi_elem = declared_t->element_type;
         }
+        if (elem_t && (elem_t->kind == TK_ARRAY || elem_t->kind == TK_MAP)) bi_elem = NULL;
         /* Fall back to the declared array type when the typetable has no
          * entry for the first element (happens for module-qualified struct
          * function calls — the call's return type isn't always threaded
@@ -2688,12 +2694,9 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
              * just emit the value itself. Skip this for _gray_tmp* variables which
              * are multi-return unpacking temps. */
             const char *mem_name = node->data.member.member;
+            bool is_multi_temp = node->data.member.object->kind == NODE_LABEL &&
+                is_result_temporary(node->data.member.object->data.label.value);
             if (mem_name[0] == 'v' && mem_name[1] >= '0' && mem_name[1] <= '9' && mem_name[2] == '\0') {
-                bool is_multi_temp = false;
-                if (node->data.member.object->kind == NODE_LABEL) {
-                    const char *oname = node->data.member.object->data.label.value;
-                    if (is_result_temporary(oname)) is_multi_temp = true;
-                }
                 if (!is_multi_temp && obj_t &&
                     (obj_t->kind == TK_INT || obj_t->kind == TK_UINT || obj_t->kind == TK_FLOAT ||
                      obj_t->kind == TK_BOOL || obj_t->kind == TK_STRING ||
@@ -2708,7 +2711,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             }
 
             /* Ref vars are already dereferenced by label emission; use . not -> */
-            bool obj_is_ref = (node->data.member.object->kind == NODE_LABEL &&
+            bool obj_is_ref = is_multi_temp || (node->data.member.object->kind == NODE_LABEL &&
                 is_reference_variable(codegen, node->data.member.object->data.label.value));
             if (!obj_is_ref && obj_t && obj_t->kind == TK_POINTER) {
                 /* Nil-guarded pointer field access */
-- 
2.43.0


From 97b1f64f9cd6a544f7d8135556c3912adeb845c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:18:47 +0000
Subject: [PATCH 22/96] fix: map values compare by their type, and maps refuse
 every change while iterated

---
 grayc/src/codegen/codegen.c | 31 ++++++++++++++++++++-----------
 grayc/src/runtime/map.c     |  2 ++
 grayc/src/stdlib/arrays.c   |  8 ++++----
 grayc/src/stdlib/arrays.h   |  3 +++
 grayc/src/stdlib/maps.c     | 19 +++++--------------
 grayc/src/stdlib/maps.h     | 13 ++++++-------
 6 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 8258215..eda0dab 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -502,22 +502,25 @@ static const char *array_storage_c_type(CodeGen *codegen, const char *elem_type)
     return gray_type_to_c_codegen(codegen, elem_type);
 }
 
-/* The GrayElemKind constant describing how an array of elem_type stores its
- * elements, for the arrays functions that compare them. */
-static const char *array_elem_kind(CodeGen *codegen, const char *elem_type) {
+/* The GrayElemKind constant describing how values of a storage type compare,
+ * for the arrays and maps functions that compare them. */
+static const char *elem_kind_of_c_type(const char *c_type) {
     static const char *const kinds[][2] = {
         {"int64_t", "GRAY_ELEM_I64"}, {"uint64_t", "GRAY_ELEM_U64"}, {"double", "GRAY_ELEM_F64"},
         {"GrayString", "GRAY_ELEM_STR"}, {"bool", "GRAY_ELEM_U8"}, {"uint8_t", "GRAY_ELEM_U8"},
         {"int32_t", "GRAY_ELEM_I32"}, {"gray_i128", "GRAY_ELEM_I128"}, {"gray_u128", "GRAY_ELEM_U128"},
         {"gray_i256", "GRAY_ELEM_I256"}, {"gray_u256", "GRAY_ELEM_U256"},
     };
-    const char *c_type = array_storage_c_type(codegen, elem_type);
     for (size_t i = 0; i < sizeof(kinds) / sizeof(kinds[0]); i++) {
         if (strcmp(c_type, kinds[i][0]) == 0) return kinds[i][1];
     }
     return "GRAY_ELEM_RAW";
 }
 
+static const char *array_elem_kind(CodeGen *codegen, const char *elem_type) {
+    return elem_kind_of_c_type(array_storage_c_type(codegen, elem_type));
+}
+
 /* Map a C key type back to its GrayMap key-kind macro so the codegen can
  * tag each gray_map_new_kind call. Float keys need this so -0.0/+0.0 and
  * NaN are normalized at lookup time; other 8-byte keys (int, pointer)
@@ -4398,6 +4401,12 @@ static void emit_address_of(CodeGen *codegen, AstNode *expr) {
 
 /* --- @maps module --- */
 
+/* The GrayElemKind constant describing how the values of a map are stored. */
+static const char *map_value_kind(CodeGen *codegen, GrayType *map_type) {
+    if (!map_type || !map_type->value_type) return "GRAY_ELEM_I64";
+    return elem_kind_of_c_type(gray_map_element_c_type(codegen, map_type->value_type));
+}
+
 static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
     if (strcmp(func, "get_keys") == 0 && node->data.call.arg_count == 1) {
         emit(codegen, "gray_maps_get_keys(gray_default_arena, ");
@@ -4463,13 +4472,11 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
     }
     if (strcmp(func, "is_equal") == 0 && node->data.call.arg_count == 2) {
         GrayType *map_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        bool str_keys = map_t && map_t->key_type && strcmp(map_t->key_type, "string") == 0;
-        bool str_values = map_t && map_t->value_type && strcmp(map_t->value_type, "string") == 0;
         emit(codegen, "gray_maps_is_equal(");
         emit_address_of(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
         emit_address_of(codegen, node->data.call.args[1]);
-        emit_formatted(codegen, ", %s, %s)", str_keys ? "true" : "false", str_values ? "true" : "false");
+        emit_formatted(codegen, ", %s)", map_value_kind(codegen, map_t));
         return true;
     }
     if (strcmp(func, "contains_value") == 0 && node->data.call.arg_count == 2) {
@@ -4481,7 +4488,7 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
         emit_expression_as(codegen, node->data.call.args[1], c_val_type);
         emit(codegen, "; gray_maps_contains_value(");
         emit_address_of(codegen, node->data.call.args[0]);
-        emit(codegen, ", &_cv); })");
+        emit_formatted(codegen, ", &_cv, %s); })", map_value_kind(codegen, map_t));
         return true;
     }
     if (strcmp(func, "get_or_default") == 0 && node->data.call.arg_count == 3) {
@@ -9059,9 +9066,11 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
 
             map_needs_tmp = (coll->kind != NODE_LABEL);
             if (map_needs_tmp) {
-                snprintf(map_tmp_name, sizeof(map_tmp_name), "_gray_map%d", map_iter_counter - 1);
-                emit_formatted(codegen, "{ GrayMap %s = ", map_tmp_name);
-                emit_expression(codegen, coll);
+                snprintf(map_tmp_name, sizeof(map_tmp_name), "(*_gray_map%d)", map_iter_counter - 1);
+                char map_ptr_name[SHORT_VAR_BUF];
+                snprintf(map_ptr_name, sizeof(map_ptr_name), "_gray_map%d", map_iter_counter - 1);
+                emit_formatted(codegen, "{ GrayMap *%s = ", map_ptr_name);
+                emit_address_of(codegen, coll);
                 emit(codegen, ";\n");
                 emit_indent(codegen);
             }
diff --git a/grayc/src/runtime/map.c b/grayc/src/runtime/map.c
index 72c4825..f7802d0 100644
--- a/grayc/src/runtime/map.c
+++ b/grayc/src/runtime/map.c
@@ -257,6 +257,8 @@ bool gray_map_remove(GrayMap *m, const void *key) {
 }
 
 void gray_map_clear(GrayMap *m) {
+    if (m->iterating > 0)
+        gray_panic_code("P0035", "cannot modify map during for_each iteration");
     if (m->states) memset(m->states, 0, sizeof(uint8_t) * (size_t)m->capacity);
     m->count = 0;
     m->order_len = 0;
diff --git a/grayc/src/stdlib/arrays.c b/grayc/src/stdlib/arrays.c
index c1a339b..50c3bd0 100644
--- a/grayc/src/stdlib/arrays.c
+++ b/grayc/src/stdlib/arrays.c
@@ -60,7 +60,7 @@ static ElemOrder elem_order(GrayElemKind kind) {
     return NULL;
 }
 
-static bool elem_equal(GrayElemKind kind, int32_t elem_size, const void *a, const void *b) {
+bool gray_elem_equal(GrayElemKind kind, int32_t elem_size, const void *a, const void *b) {
     if (kind == GRAY_ELEM_F64) return *(const double *)a == *(const double *)b;
     if (kind == GRAY_ELEM_STR) return gray_string_eq(*(const GrayString *)a, *(const GrayString *)b);
     return memcmp(a, b, (size_t)elem_size) == 0;
@@ -187,7 +187,7 @@ bool gray_arrays_is_empty(GrayArray *arr) {
 
 int64_t gray_arrays_index_of(GrayArray *arr, GrayElemKind kind, const void *value) {
     for (int32_t i = 0; i < arr->len; i++) {
-        if (elem_equal(kind, arr->elem_size, elem_at(arr, i), value)) return i;
+        if (gray_elem_equal(kind, arr->elem_size, elem_at(arr, i), value)) return i;
     }
     return -1;
 }
@@ -199,7 +199,7 @@ bool gray_arrays_contains(GrayArray *arr, GrayElemKind kind, const void *value)
 int64_t gray_arrays_count(GrayArray *arr, GrayElemKind kind, const void *value) {
     int64_t c = 0;
     for (int32_t i = 0; i < arr->len; i++) {
-        if (elem_equal(kind, arr->elem_size, elem_at(arr, i), value)) c++;
+        if (gray_elem_equal(kind, arr->elem_size, elem_at(arr, i), value)) c++;
     }
     return c;
 }
@@ -207,7 +207,7 @@ int64_t gray_arrays_count(GrayArray *arr, GrayElemKind kind, const void *value)
 bool gray_arrays_is_equal(GrayArray *a, GrayArray *b, GrayElemKind kind) {
     if (a->len != b->len) return false;
     for (int32_t i = 0; i < a->len; i++) {
-        if (!elem_equal(kind, a->elem_size, elem_at(a, i), elem_at(b, i))) return false;
+        if (!gray_elem_equal(kind, a->elem_size, elem_at(a, i), elem_at(b, i))) return false;
     }
     return true;
 }
diff --git a/grayc/src/stdlib/arrays.h b/grayc/src/stdlib/arrays.h
index b78f945..ded7720 100644
--- a/grayc/src/stdlib/arrays.h
+++ b/grayc/src/stdlib/arrays.h
@@ -30,6 +30,9 @@ typedef enum {
     GRAY_ELEM_RAW
 } GrayElemKind;
 
+/* Are two elements equal, as == on their type says? */
+bool gray_elem_equal(GrayElemKind kind, int32_t elem_size, const void *a, const void *b);
+
 /* Modification */
 
 /*@man append
diff --git a/grayc/src/stdlib/maps.c b/grayc/src/stdlib/maps.c
index 5723aac..956a93c 100644
--- a/grayc/src/stdlib/maps.c
+++ b/grayc/src/stdlib/maps.c
@@ -70,18 +70,18 @@ GrayMap gray_maps_merge(GrayArena *arena, GrayMap *m1, GrayMap *m2) {
     return result;
 }
 
-bool gray_maps_contains_value(GrayMap *m, const void *value) {
+bool gray_maps_contains_value(GrayMap *m, const void *value, GrayElemKind value_kind) {
     for (int32_t order_index = 0; order_index < m->order_len; order_index++) {
         int32_t slot = m->order[order_index];
         if (m->states[slot] == 1) {
             void *val = (char *)m->values + (size_t)slot * (size_t)m->value_size;
-            if (memcmp(val, value, (size_t)m->value_size) == 0) return true;
+            if (gray_elem_equal(value_kind, m->value_size, val, value)) return true;
         }
     }
     return false;
 }
 
-bool gray_maps_is_equal(GrayMap *a, GrayMap *b, bool str_keys, bool str_values) {
+bool gray_maps_is_equal(GrayMap *a, GrayMap *b, GrayElemKind value_kind) {
     if (a->count != b->count) return false;
     if (a->key_size != b->key_size) return false;
     if (a->value_size != b->value_size) return false;
@@ -90,18 +90,9 @@ bool gray_maps_is_equal(GrayMap *a, GrayMap *b, bool str_keys, bool str_values)
         if (a->states[slot] != 1) continue;
         void *ka = (char *)a->keys + (size_t)slot * (size_t)a->key_size;
         void *va = (char *)a->values + (size_t)slot * (size_t)a->value_size;
-        void *vb = str_keys
-            ? gray_map_get_str(b, *(GrayString *)ka)
-            : gray_map_get(b, ka);
+        void *vb = gray_map_get(b, ka);
         if (!vb) return false;
-        if (str_values) {
-            GrayString *sa = (GrayString *)va;
-            GrayString *sb = (GrayString *)vb;
-            if (sa->len != sb->len) return false;
-            if (sa->len > 0 && memcmp(sa->data, sb->data, (size_t)sa->len) != 0) return false;
-        } else {
-            if (memcmp(va, vb, (size_t)a->value_size) != 0) return false;
-        }
+        if (!gray_elem_equal(value_kind, a->value_size, va, vb)) return false;
     }
     return true;
 }
diff --git a/grayc/src/stdlib/maps.h b/grayc/src/stdlib/maps.h
index e8d17eb..4fda92e 100644
--- a/grayc/src/stdlib/maps.h
+++ b/grayc/src/stdlib/maps.h
@@ -14,6 +14,7 @@
 #include "../runtime/runtime.h"
 #include "../runtime/array.h"
 #include "../runtime/map.h"
+#include "arrays.h"
 
 /*@man get_keys
  *@module maps
@@ -84,7 +85,7 @@ bool gray_maps_is_empty(GrayMap *m);
  *@end
  */
 /* maps.contains_value(m, value) — check if any entry has the given value */
-bool gray_maps_contains_value(GrayMap *m, const void *value);
+bool gray_maps_contains_value(GrayMap *m, const void *value, GrayElemKind value_kind);
 
 /*@man is_equal
  *@module maps
@@ -98,12 +99,10 @@ bool gray_maps_contains_value(GrayMap *m, const void *value);
  *   println(maps.is_equal(a, b))
  *@end
  */
-/* maps.is_equal(a, b) — structural equality.
- * str_keys: true if keys are GrayString (look up via gray_map_get_str)
- * str_values: true if values are GrayString (compare contents, not blob)
- * Composite key/value types (nested arrays, maps, structs) are rejected
- * at typecheck and never reach this function. */
-bool gray_maps_is_equal(GrayMap *a, GrayMap *b, bool str_keys, bool str_values);
+/* maps.is_equal(a, b) — structural equality. Keys compare as the maps compare
+ * them, values as == on their type does. Composite key/value types (nested
+ * arrays, maps, structs) are rejected at typecheck and never reach this. */
+bool gray_maps_is_equal(GrayMap *a, GrayMap *b, GrayElemKind value_kind);
 
 /*@man merge
  *@module maps
-- 
2.43.0


From be1a4ac92d7b7c491bbb2deff461c60f971110c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:18:47 +0000
Subject: [PATCH 23/96] fix: or_return accepts its own error as the last
 fallback value

---
 grayc/src/parser/parser.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/grayc/src/parser/parser.c b/grayc/src/parser/parser.c
index 077bae0..9c1d892 100644
--- a/grayc/src/parser/parser.c
+++ b/grayc/src/parser/parser.c
@@ -1287,7 +1287,8 @@ static AstNode *maybe_apply_or_return(Parser *parser, AstNode *var_decl) {
 
     /* Check for custom fallback values on the same line as the or_return token.
      * e.g. `mut val = risky(fail) or_return -99` → return -99, _tmp.v1
-     * The caller provides all non-error return slots; _tmp.v1 is appended. */
+     * The caller provides all non-error return slots; _tmp.v1 is appended
+     * unless the last value is itself an error: or_return "", error("failed"). */
     int or_return_line = parser->cur_token.line;
     AstNode *fallback_buf[16];
     int fallback_count = 0;
@@ -1348,11 +1349,15 @@ static AstNode *maybe_apply_or_return(Parser *parser, AstNode *var_decl) {
     err_access2->data.member.member = "v1";
     if (fallback_count > 0) {
         /* Custom fallback: return fallback_vals..., _tmp.v1 */
-        int total = fallback_count + 1;
+        AstNode *last = fallback_buf[fallback_count - 1];
+        bool own_error = last && last->kind == NODE_CALL_EXPR &&
+            last->data.call.function->kind == NODE_LABEL &&
+            strcmp(last->data.call.function->data.label.value, "error") == 0;
+        int total = fallback_count + (own_error ? 0 : 1);
         ret_stmt->data.return_stmt.values = arena_alloc(parser->arena, sizeof(AstNode *) * total);
         for (int i = 0; i < fallback_count; i++)
             ret_stmt->data.return_stmt.values[i] = fallback_buf[i];
-        ret_stmt->data.return_stmt.values[fallback_count] = err_access2;
+        if (!own_error) ret_stmt->data.return_stmt.values[fallback_count] = err_access2;
         ret_stmt->data.return_stmt.count = total;
     } else {
         /* Bare or_return: propagate just the error; codegen fills {0} for other slots */
-- 
2.43.0


From f4de6158b0cb491e1cb4be44e171a9157bf008e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:25:21 +0000
Subject: [PATCH 24/96] fix: string functions treat characters as unsigned,
 check sizes, and count characters consistently

---
 grayc/src/codegen/codegen.c | 16 +++++------
 grayc/src/stdlib/builtins.c | 56 +++++++++++++------------------------
 grayc/src/stdlib/strings.c  | 35 ++++++++++++++---------
 grayc/src/stdlib/strings.h  | 17 ++++++-----
 4 files changed, 59 insertions(+), 65 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index eda0dab..d24bd42 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -65,6 +65,7 @@ static const char *operator_to_c_string(TokenType op) {
 
 /* Forward declarations */
 static void emit_statement(CodeGen *codegen, AstNode *node);
+static void emit_address_of(CodeGen *codegen, AstNode *expr);
 static void emit_expression(CodeGen *codegen, AstNode *node);
 static void emit_composite_text(CodeGen *codegen, AstNode *part, GrayType *type);
 static void emit_call_expression(CodeGen *codegen, AstNode *node);
@@ -2145,8 +2146,8 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 const char *c_key = gray_map_element_c_type(codegen, arr_t->key_type);
                 emit_formatted(codegen, "({ %s _ik = ", c_key);
                 emit_expression_as(codegen, node->data.infix.left, c_key);
-                emit(codegen, "; gray_maps_has_key(&");
-                emit_expression(codegen, node->data.infix.right);
+                emit(codegen, "; gray_maps_has_key(");
+                emit_address_of(codegen, node->data.infix.right);
                 emit(codegen, ", &_ik); })");
                 break;
             }
@@ -2154,15 +2155,12 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             if (arr_t && arr_t->kind == TK_STRING) {
                 GrayType *left_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.infix.left) : NULL;
                 if (left_t && left_t->kind == TK_CHAR) {
-                    /* char in string → memchr scan */
                     if (negated) emit(codegen, "!");
-                    emit(codegen, "(memchr(");
+                    emit(codegen, "gray_strings_contains_char(");
                     emit_expression(codegen, node->data.infix.right);
-                    emit(codegen, ".data, ");
+                    emit(codegen, ", ");
                     emit_expression(codegen, node->data.infix.left);
-                    emit(codegen, ", (size_t)");
-                    emit_expression(codegen, node->data.infix.right);
-                    emit(codegen, ".len) != NULL)");
+                    emit(codegen, ")");
                 } else {
                     /* string in string → substring check */
                     if (negated) emit(codegen, "!");
@@ -9131,7 +9129,7 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
             emit_formatted(codegen, "for (int32_t %s = 0; %s < _gray_str.len; %s++) {\n", idx_name, idx_name, idx_name);
             codegen->indent++;
             emit_indent(codegen);
-            emit_formatted(codegen, "int32_t %s = _gray_str.data[%s];\n", sanitize_name(node->data.for_each.var_name), idx_name);
+            emit_formatted(codegen, "int32_t %s = (uint8_t)_gray_str.data[%s];\n", sanitize_name(node->data.for_each.var_name), idx_name);
         } else {
             /* for_each item in array → iterate GrayArray */
             const char *c_elem = "int64_t";
diff --git a/grayc/src/stdlib/builtins.c b/grayc/src/stdlib/builtins.c
index 4543b48..0166b9a 100644
--- a/grayc/src/stdlib/builtins.c
+++ b/grayc/src/stdlib/builtins.c
@@ -385,6 +385,24 @@ GrayString gray_text_close(GrayArena *arena, FILE *out, char **text, size_t *siz
 
 /* --- to_char / char_count — Unicode codepoint access --- */
 
+/* Decode the codepoint at p (p < end) into *cp; returns the bytes it takes.
+ * A malformed or truncated sequence is one U+FFFD per byte. */
+static int decode_char(const uint8_t *p, const uint8_t *end, int32_t *cp) {
+    uint8_t b = *p;
+    int bytes;
+    if (b < 0x80) { *cp = b; return 1; }
+    else if ((b & 0xE0) == 0xC0) { *cp = b & 0x1F; bytes = 2; }
+    else if ((b & 0xF0) == 0xE0) { *cp = b & 0x0F; bytes = 3; }
+    else if ((b & 0xF8) == 0xF0) { *cp = b & 0x07; bytes = 4; }
+    else { *cp = 0xFFFD; return 1; }
+    if (bytes > end - p) { *cp = 0xFFFD; return 1; }
+    for (int i = 1; i < bytes; i++) {
+        if ((p[i] & 0xC0) != 0x80) { *cp = 0xFFFD; return 1; }
+        *cp = (*cp << 6) | (p[i] & 0x3F);
+    }
+    return bytes;
+}
+
 int32_t gray_builtin_to_char(GrayString s, int64_t index, const char *file, int line) {
     if (index < 0) {
         gray_panic_code("P0049", "to_char() index out of bounds; index %lld is negative", (long long)index);
@@ -394,33 +412,8 @@ int32_t gray_builtin_to_char(GrayString s, int64_t index, const char *file, int
     int64_t cp_idx = 0;
     while (p < end) {
         int32_t cp;
-        int bytes;
-        uint8_t b = *p;
-        if (b < 0x80) {
-            cp = b; bytes = 1;
-        } else if ((b & 0xE0) == 0xC0) {
-            cp = b & 0x1F; bytes = 2;
-        } else if ((b & 0xF0) == 0xE0) {
-            cp = b & 0x0F; bytes = 3;
-        } else if ((b & 0xF8) == 0xF0) {
-            cp = b & 0x07; bytes = 4;
-        } else {
-            cp = 0xFFFD; bytes = 1; /* replacement character for invalid lead byte */
-        }
-        /* Validate we have enough continuation bytes */
-        if (p + bytes > end) {
-            cp = 0xFFFD; bytes = 1;
-        } else {
-            for (int i = 1; i < bytes; i++) {
-                if ((p[i] & 0xC0) != 0x80) {
-                    cp = 0xFFFD; bytes = 1;
-                    break;
-                }
-                cp = (cp << 6) | (p[i] & 0x3F);
-            }
-        }
+        p += decode_char(p, end, &cp);
         if (cp_idx == index) return cp;
-        p += bytes;
         cp_idx++;
     }
     gray_panic_code("P0050", "to_char() index out of bounds; index %lld but string has %lld characters",
@@ -432,16 +425,7 @@ int64_t gray_builtin_char_count(GrayString s) {
     const uint8_t *p = (const uint8_t *)s.data;
     const uint8_t *end = p + s.len;
     int64_t count = 0;
-    while (p < end) {
-        uint8_t b = *p;
-        if (b < 0x80) p += 1;
-        else if ((b & 0xE0) == 0xC0) p += 2;
-        else if ((b & 0xF0) == 0xE0) p += 3;
-        else if ((b & 0xF8) == 0xF0) p += 4;
-        else p += 1; /* invalid lead byte, skip one */
-        if (p > end) p = end; /* clamp if truncated */
-        count++;
-    }
+    for (int32_t cp; p < end; count++) p += decode_char(p, end, &cp);
     return count;
 }
 
diff --git a/grayc/src/stdlib/strings.c b/grayc/src/stdlib/strings.c
index ee21bfb..8898211 100644
--- a/grayc/src/stdlib/strings.c
+++ b/grayc/src/stdlib/strings.c
@@ -57,6 +57,10 @@ bool gray_strings_contains(GrayString s, GrayString sub) {
     return false;
 }
 
+bool gray_strings_contains_char(GrayString s, int32_t c) {
+    return c >= 0 && c <= UINT8_MAX && memchr(s.data, c, (size_t)s.len) != NULL;
+}
+
 bool gray_strings_starts_with(GrayString s, GrayString prefix) {
     if (prefix.len > s.len) return false;
     return memcmp(s.data, prefix.data, (size_t)prefix.len) == 0;
@@ -142,8 +146,8 @@ GrayString gray_strings_replace(GrayArena *arena, GrayString s, GrayString old_s
 GrayString gray_strings_repeat(GrayArena *arena, GrayString s, int64_t count) {
     if (count < 0) gray_panic_code("P0072", "strings.repeat() count cannot be negative (%lld)", (long long)count);
     if (count == 0 || s.len == 0) return gray_string_lit("");
-    int64_t new_len64 = (int64_t)s.len * count;
-    if (new_len64 > INT32_MAX) {
+    int64_t new_len64;
+    if (__builtin_mul_overflow((int64_t)s.len, count, &new_len64) || new_len64 > INT32_MAX) {
         gray_panic_code("P0073", "strings.repeat() result exceeds maximum string length");
     }
     int32_t new_len = (int32_t)new_len64;
@@ -194,12 +198,15 @@ GrayArray gray_strings_split(GrayArena *arena, GrayString s, GrayString sep) {
 GrayString gray_strings_join(GrayArena *arena, GrayArray arr, GrayString sep) {
     if (arr.len == 0) return gray_string_lit("");
     /* Calculate total length */
-    int32_t total = 0;
+    int64_t total = 0;
     for (int32_t i = 0; i < arr.len; i++) {
         GrayString *s = (GrayString *)((char *)arr.data + (size_t)i * sizeof(GrayString));
         total += s->len;
         if (i > 0) total += sep.len;
     }
+    if (total > INT32_MAX) {
+        gray_panic_code("P0073", "strings.join() result exceeds maximum string length");
+    }
     char *buf = gray_arena_alloc(arena, (size_t)total + 1);
     int32_t pos = 0;
     for (int32_t i = 0; i < arr.len; i++) {
@@ -234,17 +241,19 @@ GrayString gray_strings_from_chars(GrayArena *arena, GrayArray *chars) {
     return gray_string_new(arena, buf, n);
 }
 
-char gray_strings_char_at(GrayString s, int64_t index) {
+int32_t gray_strings_char_at(GrayString s, int64_t index) {
     if (index < 0 || index >= s.len) {
-        gray_panic_code("P0082", "string index %d out of bounds (length %d)",
-                      (int)index, (int)s.len);
+        gray_panic_code("P0082", "string index %lld out of bounds (length %d)",
+                      (long long)index, (int)s.len);
     }
-    return s.data[index];
+    return (uint8_t)s.data[index];
 }
 
-bool gray_strings_is_alpha(char c)      { return isalpha((unsigned char)c) != 0; }
-bool gray_strings_is_digit(char c)      { return isdigit((unsigned char)c) != 0; }
-bool gray_strings_is_alnum(char c)      { return isalnum((unsigned char)c) != 0; }
-bool gray_strings_is_whitespace(char c) { return isspace((unsigned char)c) != 0; }
-bool gray_strings_is_upper(char c)      { return isupper((unsigned char)c) != 0; }
-bool gray_strings_is_lower(char c)      { return islower((unsigned char)c) != 0; }
+static bool is_byte(int32_t c) { return c >= 0 && c <= UINT8_MAX; }
+
+bool gray_strings_is_alpha(int32_t c)      { return is_byte(c) && isalpha(c) != 0; }
+bool gray_strings_is_digit(int32_t c)      { return is_byte(c) && isdigit(c) != 0; }
+bool gray_strings_is_alnum(int32_t c)      { return is_byte(c) && isalnum(c) != 0; }
+bool gray_strings_is_whitespace(int32_t c) { return is_byte(c) && isspace(c) != 0; }
+bool gray_strings_is_upper(int32_t c)      { return is_byte(c) && isupper(c) != 0; }
+bool gray_strings_is_lower(int32_t c)      { return is_byte(c) && islower(c) != 0; }
diff --git a/grayc/src/stdlib/strings.h b/grayc/src/stdlib/strings.h
index 94cfe03..4702049 100644
--- a/grayc/src/stdlib/strings.h
+++ b/grayc/src/stdlib/strings.h
@@ -87,6 +87,9 @@ GrayString gray_strings_trim_right(GrayArena *arena, GrayString s);
  */
 bool gray_strings_contains(GrayString s, GrayString sub);
 
+/* char in string */
+bool gray_strings_contains_char(GrayString s, int32_t c);
+
 /*@man starts_with
  *@module strings
  *@group Query
@@ -273,7 +276,7 @@ GrayString gray_strings_join(GrayArena *arena, GrayArray arr, GrayString sep);
  *   println(strings.char_at("hello", 4))
  *@end
  */
-char gray_strings_char_at(GrayString s, int64_t index);
+int32_t gray_strings_char_at(GrayString s, int64_t index);
 
 /*@man to_chars
  *@module strings
@@ -313,7 +316,7 @@ GrayString gray_strings_from_chars(GrayArena *arena, GrayArray *chars);
  *   println(strings.is_alpha('1'))
  *@end
  */
-bool gray_strings_is_alpha(char c);
+bool gray_strings_is_alpha(int32_t c);
 
 /*@man is_digit
  *@module strings
@@ -326,7 +329,7 @@ bool gray_strings_is_alpha(char c);
  *   println(strings.is_digit('a'))
  *@end
  */
-bool gray_strings_is_digit(char c);
+bool gray_strings_is_digit(int32_t c);
 
 /*@man is_alnum
  *@module strings
@@ -340,7 +343,7 @@ bool gray_strings_is_digit(char c);
  *   println(strings.is_alnum('!'))
  *@end
  */
-bool gray_strings_is_alnum(char c);
+bool gray_strings_is_alnum(int32_t c);
 
 /*@man is_whitespace
  *@module strings
@@ -353,7 +356,7 @@ bool gray_strings_is_alnum(char c);
  *   println(strings.is_whitespace('a'))
  *@end
  */
-bool gray_strings_is_whitespace(char c);
+bool gray_strings_is_whitespace(int32_t c);
 
 /*@man is_upper
  *@module strings
@@ -366,7 +369,7 @@ bool gray_strings_is_whitespace(char c);
  *   println(strings.is_upper('a'))
  *@end
  */
-bool gray_strings_is_upper(char c);
+bool gray_strings_is_upper(int32_t c);
 
 /*@man is_lower
  *@module strings
@@ -379,6 +382,6 @@ bool gray_strings_is_upper(char c);
  *   println(strings.is_lower('A'))
  *@end
  */
-bool gray_strings_is_lower(char c);
+bool gray_strings_is_lower(int32_t c);
 
 #endif
-- 
2.43.0


From 4013400ce5d2c024fe17ab1df6536db04759ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:26:57 +0000
Subject: [PATCH 25/96] fix: interpolation builds its parts in order and keeps
 embedded NULs, hex escapes and question marks

---
 grayc/src/codegen/codegen.c | 251 +++++++++++++++---------------------
 grayc/src/runtime/runtime.c |  18 +++
 grayc/src/runtime/runtime.h |   3 +
 3 files changed, 123 insertions(+), 149 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index d24bd42..5e54c9d 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -1264,6 +1264,88 @@ static void build_function_field_index(CodeGen *codegen) {
 
 /* --- Expression Emission --- */
 
+/* Emit one part of an interpolated string as a GrayString. */
+static void emit_interpolated_part(CodeGen *codegen, AstNode *part) {
+    if (part->kind == NODE_STRING_VALUE) {
+        emit_expression(codegen, part);
+        return;
+    }
+    GrayType *part_type = codegen->type_table ? typetable_get(codegen->type_table, part) : NULL;
+    TypeKind tk = part_type ? part_type->kind : TK_UNKNOWN;
+
+    /* Fall back to AST-based inference if no type info */
+    if (tk == TK_UNKNOWN && codegen->wildcard_binding) {
+        GrayType *wildcard_type = type_from_name(codegen->wildcard_binding);
+        if (wildcard_type) { tk = wildcard_type->kind; part_type = wildcard_type; }
+    }
+    if (tk == TK_UNKNOWN) {
+        if (part->kind == NODE_FLOAT_VALUE) tk = TK_FLOAT;
+        else if (part->kind == NODE_BOOL_VALUE) tk = TK_BOOL;
+        else tk = TK_INT; /* default integer kind */
+    }
+
+    const char *bigint = resolve_bigint_type(codegen, part);
+    if (bigint) {
+        emit_formatted(codegen, "%s_to_string(gray_default_arena, ", bigint_prefix(bigint));
+        emit_expression(codegen, part);
+        emit(codegen, ")");
+        return;
+    }
+    switch (tk) {
+    case TK_STRING:
+        emit_expression(codegen, part);
+        return;
+    case TK_BOOL:
+        emit(codegen, "(");
+        emit_expression(codegen, part);
+        emit(codegen, ") ? gray_string_lit(\"true\") : gray_string_lit(\"false\")");
+        return;
+    case TK_FLOAT:
+        emit(codegen, "gray_builtin_format_float(gray_default_arena, ");
+        emit_expression(codegen, part);
+        emit(codegen, ")");
+        return;
+    case TK_CHAR:
+        emit(codegen, "gray_builtin_char_to_utf8(gray_default_arena, ");
+        emit_expression(codegen, part);
+        emit(codegen, ")");
+        return;
+    case TK_ARRAY:
+    case TK_MAP:
+        emit_composite_text(codegen, part, part_type);
+        return;
+    case TK_ERROR:
+        /* Print error message */
+        emit(codegen, "({ __auto_type _interp_err = ");
+        emit_expression(codegen, part);
+        emit(codegen, "; _interp_err ? _interp_err->message : gray_string_lit(\"nil\"); })");
+        return;
+    case TK_UINT:
+        emit(codegen, "gray_string_format(gray_default_arena, \"%llu\", (unsigned long long)(");
+        emit_expression(codegen, part);
+        emit(codegen, "))");
+        return;
+    case TK_STRUCT:
+        if (part_type && part_type->name && strcmp(part_type->name, "UUID") == 0) {
+            emit_expression(codegen, part);
+            emit(codegen, ".value");
+            return;
+        }
+        break;
+    case TK_ENUM:
+        if (part_type && part_type->name && codegen_enum_is_string(codegen, part_type->name)) {
+            emit_expression(codegen, part);
+            return;
+        }
+        break;
+    default:
+        break;
+    }
+    emit(codegen, "gray_string_format(gray_default_arena, \"%lld\", (long long)(");
+    emit_expression(codegen, part);
+    emit(codegen, "))");
+}
+
 static void emit_expression(CodeGen *codegen, AstNode *node) {
     if (node && node == codegen->stored_value) {
         emit(codegen, codegen->stored_text);
@@ -1387,6 +1469,8 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                     emit(codegen, "\\r");
                 } else if (*s == '\t') {
                     emit(codegen, "\\t");
+                } else if (*s == '?') {
+                    emit(codegen, "\\?"); /* no trigraphs */
                 } else {
                     append_char_to_buffer(&codegen->output, *s);
                 }
@@ -1417,6 +1501,9 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 } else if (*s == '\r') {
                     emit(codegen, "\\r");
                     s++;
+                } else if (*s == '?') {
+                    emit(codegen, "\\?"); /* no trigraphs */
+                    s++;
                 } else {
                     append_char_to_buffer(&codegen->output, *s);
                     s++;
@@ -1452,157 +1539,23 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
         break;
 
     case NODE_INTERPOLATED_STRING: {
-        emit(codegen, "gray_string_format(gray_default_arena, \"");
-        /* First pass: emit format string */
-        for (int i = 0; i < node->data.interpolated_string.part_count; i++) {
-            AstNode *part = node->data.interpolated_string.parts[i];
-            if (part->kind == NODE_STRING_VALUE) {
-                const char *s = part->data.string_value.value;
-                while (*s) {
-                    if (*s == '%') append_string_to_buffer(&codegen->output, "%%");
-                    else if (s[0] == '\\' && s[1] == '$') { append_char_to_buffer(&codegen->output, '$'); s++; }
-                    else append_char_to_buffer(&codegen->output, *s);
-                    s++;
-                }
-            } else {
-                /* Use type table to determine format specifier */
-                GrayType *part_type = codegen->type_table ? typetable_get(codegen->type_table, part) : NULL;
-                TypeKind tk = part_type ? part_type->kind : TK_UNKNOWN;
-
-                /* Fall back to AST-based inference if no type info */
-                if (tk == TK_UNKNOWN) {
-                    if (codegen->wildcard_binding) {
-                        GrayType *wildcard_type = type_from_name(codegen->wildcard_binding);
-                        if (wildcard_type) { tk = wildcard_type->kind; part_type = wildcard_type; }
-                    }
-                }
-                if (tk == TK_UNKNOWN) {
-                    if (part->kind == NODE_FLOAT_VALUE) tk = TK_FLOAT;
-                    else if (part->kind == NODE_BOOL_VALUE) tk = TK_BOOL;
-                    else if (part->kind == NODE_STRING_VALUE) tk = TK_STRING;
-                    else tk = TK_INT; /* default integer kind */
-                }
-
-                /* Check for bigint types; format as %s (use to_string) */
-                const char *bi_interp = resolve_bigint_type(codegen, part);
-                if (bi_interp) {
-                    emit(codegen, "%s");
-                } else switch (tk) {
-                case TK_STRING: emit(codegen, "%s"); break;
-                case TK_FLOAT:  emit(codegen, "%s"); break; /* uses gray_builtin_format_float */
-                case TK_BOOL:   emit(codegen, "%s"); break;
-                case TK_CHAR:   emit(codegen, "%s"); break;
-                case TK_ARRAY:  emit(codegen, "%s"); break;
-                case TK_MAP:    emit(codegen, "%s"); break;
-                case TK_ERROR:  emit(codegen, "%s"); break;
-                case TK_STRUCT:
-                    if (part_type && part_type->name && strcmp(part_type->name, "UUID") == 0)
-                        emit(codegen, "%s");
-                    else
-                        emit(codegen, "%lld");
-                    break;
-                case TK_ENUM:
-                    if (part_type && part_type->name && codegen_enum_is_string(codegen, part_type->name))
-                        emit(codegen, "%s");
-                    else
-                        emit(codegen, "%lld");
-                    break;
-                case TK_UINT:   emit(codegen, "%llu"); break;
-                default:        emit(codegen, "%lld"); break;
-                }
-            }
+        /* Build the parts in order, then join them: every part keeps its
+         * length, so none is cut at an embedded NUL. */
+        int count = node->data.interpolated_string.part_count;
+        if (count == 0) {
+            emit(codegen, "gray_string_lit(\"\")");
+            break;
         }
-        emit(codegen, "\"");
-        /* Second pass: emit arguments */
-        for (int i = 0; i < node->data.interpolated_string.part_count; i++) {
+        static int interpolation_counter = 0;
+        int uid = interpolation_counter++;
+        emit_formatted(codegen, "({ GrayString _gray_is%d[%d]; ", uid, count);
+        for (int i = 0; i < count; i++) {
             AstNode *part = node->data.interpolated_string.parts[i];
-            if (part->kind == NODE_STRING_VALUE) continue;
-            emit(codegen, ", ");
-
-            GrayType *part_type = codegen->type_table ? typetable_get(codegen->type_table, part) : NULL;
-            TypeKind tk = part_type ? part_type->kind : TK_UNKNOWN;
-            if (tk == TK_UNKNOWN) {
-                if (codegen->wildcard_binding) {
-                    GrayType *wildcard_type = type_from_name(codegen->wildcard_binding);
-                    if (wildcard_type) { tk = wildcard_type->kind; part_type = wildcard_type; }
-                }
-            }
-            if (tk == TK_UNKNOWN) {
-                if (part->kind == NODE_FLOAT_VALUE) tk = TK_FLOAT;
-                else if (part->kind == NODE_BOOL_VALUE) tk = TK_BOOL;
-                else if (part->kind == NODE_STRING_VALUE) tk = TK_STRING;
-                else tk = TK_INT; /* default integer kind */
-            }
-
-            /* Check for bigint types; use to_string */
-            const char *bi_arg = resolve_bigint_type(codegen, part);
-            if (bi_arg) {
-                emit_formatted(codegen, "%s_to_string(gray_default_arena, ", bigint_prefix(bi_arg));
-                emit_expression(codegen, part);
-                emit(codegen, ").data");
-            } else switch (tk) {
-            case TK_STRING:
-                emit_expression(codegen, part);
-                emit(codegen, ".data");
-                break;
-            case TK_BOOL:
-                emit(codegen, "(");
-                emit_expression(codegen, part);
-                emit(codegen, ") ? \"true\" : \"false\"");
-                break;
-            case TK_FLOAT:
-                emit(codegen, "gray_builtin_format_float(gray_default_arena, ");
-                emit_expression(codegen, part);
-                emit(codegen, ").data");
-                break;
-            case TK_CHAR:
-                emit(codegen, "gray_builtin_char_to_utf8(gray_default_arena, ");
-                emit_expression(codegen, part);
-                emit(codegen, ").data");
-                break;
-            case TK_ARRAY:
-            case TK_MAP:
-                emit_composite_text(codegen, part, part_type);
-                break;
-            case TK_ERROR:
-                /* Print error message */
-                emit(codegen, "({ __auto_type _interp_err = ");
-                emit_expression(codegen, part);
-                emit(codegen, "; _interp_err ? _interp_err->message.data : \"nil\"; })");
-                break;
-            case TK_UINT:
-                emit(codegen, "(unsigned long long)(");
-                emit_expression(codegen, part);
-                emit(codegen, ")");
-                break;
-            case TK_STRUCT:
-                if (part_type && part_type->name && strcmp(part_type->name, "UUID") == 0) {
-                    emit_expression(codegen, part);
-                    emit(codegen, ".value.data");
-                } else {
-                    emit(codegen, "(long long)(");
-                    emit_expression(codegen, part);
-                    emit(codegen, ")");
-                }
-                break;
-            case TK_ENUM:
-                if (part_type && part_type->name && codegen_enum_is_string(codegen, part_type->name)) {
-                    emit_expression(codegen, part);
-                    emit(codegen, ".data");
-                } else {
-                    emit(codegen, "(long long)(");
-                    emit_expression(codegen, part);
-                    emit(codegen, ")");
-                }
-                break;
-            default:
-                emit(codegen, "(long long)(");
-                emit_expression(codegen, part);
-                emit(codegen, ")");
-                break;
-            }
+            emit_formatted(codegen, "_gray_is%d[%d] = ", uid, i);
+            emit_interpolated_part(codegen, part);
+            emit(codegen, "; ");
         }
-        emit(codegen, ")");
+        emit_formatted(codegen, "gray_string_concat_all(gray_default_arena, _gray_is%d, %d); })", uid, count);
         break;
     }
 
@@ -3634,7 +3587,7 @@ static void emit_composite_text(CodeGen *codegen, AstNode *part, GrayType *type)
     codegen->indent++;
     emit_captured_print(codegen, part, type, stream);
     emit_indent(codegen);
-    emit_formatted(codegen, "gray_text_close(gray_default_arena, %s, &_gray_tb%d, &_gray_tn%d).data; })", stream, uid, uid);
+    emit_formatted(codegen, "gray_text_close(gray_default_arena, %s, &_gray_tb%d, &_gray_tn%d); })", stream, uid, uid);
     codegen->indent--;
 }
 
diff --git a/grayc/src/runtime/runtime.c b/grayc/src/runtime/runtime.c
index 2ebe13b..9a5043b 100644
--- a/grayc/src/runtime/runtime.c
+++ b/grayc/src/runtime/runtime.c
@@ -230,6 +230,24 @@ GrayString gray_string_concat(GrayArena *arena, GrayString a, GrayString b) {
     return s;
 }
 
+GrayString gray_string_concat_all(GrayArena *arena, const GrayString *parts, int32_t count) {
+    int64_t total = 0;
+    for (int32_t i = 0; i < count; i++) total += parts[i].len;
+    if (total > INT32_MAX) {
+        fprintf(stderr, "Grayscale runtime: string concatenation overflow\n");
+        exit(1);
+    }
+    char *data = (char *)gray_arena_alloc(arena, (size_t)total + 1);
+    int32_t pos = 0;
+    for (int32_t i = 0; i < count; i++) {
+        if (parts[i].len > 0) memcpy(data + pos, parts[i].data, (size_t)parts[i].len);
+        pos += parts[i].len;
+    }
+    data[pos] = '\0';
+    GrayString s = { data, pos };
+    return s;
+}
+
 /* --- Scope-based memory management --- */
 
 GrayScopeMark gray_scope_save(GrayArena *arena) {
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index fe2cca9..ca75998 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -121,6 +121,9 @@ static inline bool gray_string_eq(GrayString a, GrayString b) {
 /* String concatenation */
 GrayString gray_string_concat(GrayArena *arena, GrayString a, GrayString b);
 
+/* Join count strings, as string interpolation does */
+GrayString gray_string_concat_all(GrayArena *arena, const GrayString *parts, int32_t count);
+
 /* --- Runtime Init/Shutdown --- */
 
 void gray_runtime_init(void);
-- 
2.43.0


From e63c3a517c391ca083e495d09f858fdf379c563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:52 +0000
Subject: [PATCH 26/96] fix: keep generated C type names alive while nested
 literals are emitted

---
 grayc/src/codegen/codegen.c | 61 ++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 5e54c9d..0d578ad 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -234,6 +234,27 @@ static bool mixed_int_operands(AstNode *node, const GrayType *left_type, const G
     return left_unsigned && left_rank != right_rank && (left_rank == 4 || right_rank == 4);
 }
 
+/* Return a permanent copy of a generated C name. Names outlive the call that
+ * made them: an emitter keeps the element type of an array literal while it
+ * emits the elements, which build names of their own. */
+static const char *intern_name(const char *name) {
+    static char **names = NULL;
+    static size_t name_count = 0, name_cap = 0;
+    for (size_t i = name_count; i > 0; i--)
+        if (strcmp(names[i - 1], name) == 0) return names[i - 1];
+    if (name_count == name_cap) {
+        size_t cap = name_cap ? name_cap * 2 : 64;
+        char **grown = realloc(names, cap * sizeof(char *));
+        if (!grown) abort();
+        names = grown;
+        name_cap = cap;
+    }
+    char *copy = strdup(name);
+    if (!copy) abort();
+    names[name_count++] = copy;
+    return copy;
+}
+
 static const char *sanitize_name(const char *name) {
     if (!name || !is_c_keyword(name)) return name;
     static char bufs[4][MSG_BUF_SIZE];
@@ -378,14 +399,12 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
     if (strncmp(type_name, "func(", 5) == 0) return "void *"; /* typed func; same C storage, signature lives in casts */
 
 
-    /* Pointer type: ^T; use C pointer (ring buffer avoids aliasing on recursion) */
+    /* Pointer type: ^T; use C pointer */
     if (type_name[0] == '^') {
-        static char ptrbufs[4][MSG_BUF_SIZE];
-        static int ptridx = 0;
-        char *buffer = ptrbufs[ptridx++ & 3];
+        char buffer[MSG_BUF_SIZE];
         const char *pointee = gray_type_to_c_codegen(codegen, type_name + 1);
-        snprintf(buffer, MSG_BUF_SIZE, "%s *", pointee);
-        return buffer;
+        snprintf(buffer, sizeof(buffer), "%s *", pointee);
+        return intern_name(buffer);
     }
 
     /* Array type: [T]; use GrayArray */
@@ -402,13 +421,13 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
     const char *dot = strchr(type_name, '.');
     if (dot) {
         const char *base = dot + 1;
-        static char buffer[MSG_BUF_SIZE];
+        char buffer[MSG_BUF_SIZE];
         if (codegen && codegen_is_enum(codegen, base)) {
             snprintf(buffer, sizeof(buffer), "GrayEnum_%s", base);
         } else {
             snprintf(buffer, sizeof(buffer), "GrayStruct_%s", base);
         }
-        return buffer;
+        return intern_name(buffer);
     }
 
     /* If starts with uppercase, it's a user-defined type */
@@ -419,7 +438,7 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
         if (us && us[1] >= 'A' && us[1] <= 'Z') is_user_type = true;
     }
     if (is_user_type) {
-        static char buffer[MSG_BUF_SIZE];
+        char buffer[MSG_BUF_SIZE];
         const char *resolved = type_name;
         /* Resolve unprefixed names from 'import and use' */
         if (codegen && type_name[0] >= 'A' && type_name[0] <= 'Z' && !strchr(type_name, '_')) {
@@ -451,7 +470,7 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
         } else {
             snprintf(buffer, sizeof(buffer), "GrayStruct_%s", resolved);
         }
-        return buffer;
+        return intern_name(buffer);
     }
 
     return type_name;
@@ -1695,21 +1714,21 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                     }
                 }
             }
-            static char enum_arr_buf[MSG_BUF_SIZE];
+            char enum_arr_buf[MSG_BUF_SIZE];
             if (is_str) {
                 c_type = "GrayString";
             } else {
                 snprintf(enum_arr_buf, sizeof(enum_arr_buf), "GrayEnum_%s", elem_t->name ? elem_t->name : "int");
-                c_type = enum_arr_buf;
+                c_type = intern_name(enum_arr_buf);
             }
             break;
         }
         case TK_POINTER: {
             const char *pointee = elem_t->element_type ? elem_t->element_type : "void";
             const char *c_pointee = gray_type_to_c_codegen(codegen, pointee);
-            static char ptr_buf[MSG_BUF_SIZE];
+            char ptr_buf[MSG_BUF_SIZE];
             snprintf(ptr_buf, sizeof(ptr_buf), "%s *", c_pointee);
-            c_type = ptr_buf;
+            c_type = intern_name(ptr_buf);
             break;
         }
         case TK_MAP:    c_type = "GrayMap"; break;
@@ -1750,10 +1769,10 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             GrayType *vt = codegen->type_table ? typetable_get(codegen->type_table, node->data.map_value.values[0]) : NULL;
             if (!decl_mt && kt) c_key_type = gray_map_element_c_type(codegen, type_name(kt));
             if (!decl_mt && vt && vt->kind == TK_POINTER) {
-                static char map_ptr_buf[MSG_BUF_SIZE];
+                char map_ptr_buf[MSG_BUF_SIZE];
                 const char *pointee = vt->element_type ? vt->element_type : "void";
                 snprintf(map_ptr_buf, sizeof(map_ptr_buf), "%s *", gray_type_to_c_codegen(codegen, pointee));
-                c_val_type = map_ptr_buf;
+                c_val_type = intern_name(map_ptr_buf);
             } else if (!decl_mt && vt) {
                 c_val_type = gray_map_element_c_type(codegen, type_name(vt));
             }
@@ -2710,10 +2729,10 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                         ? "GrayString" : gray_type_to_c_codegen(codegen, elem_tn);
                 }
                 else if (et->kind == TK_POINTER) {
-                    static char idx_ptr_buf[MSG_BUF_SIZE];
+                    char idx_ptr_buf[MSG_BUF_SIZE];
                     const char *pointee = et->element_type ? et->element_type : "void";
                     snprintf(idx_ptr_buf, sizeof(idx_ptr_buf), "%s *", gray_type_to_c_codegen(codegen, pointee));
-                    c_elem = idx_ptr_buf;
+                    c_elem = intern_name(idx_ptr_buf);
                 }
             }
             /* Check for bigint element types */
@@ -7183,7 +7202,7 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
 
 static const char *extract_array_element_type(const char *type_name) {
     if (!type_name || type_name[0] != '[') return NULL;
-    static char buffer[TYPE_NAME_MAX];
+    char buffer[TYPE_NAME_MAX];
     size_t len = strlen(type_name);
     if (len < 3) return NULL;
     /* Dynamic array "[int]" -> "int" */
@@ -7197,13 +7216,13 @@ static const char *extract_array_element_type(const char *type_name) {
             size_t elen = i - 1;
             memcpy(buffer, start, elen);
             buffer[elen] = '\0';
-            return buffer;
+            return intern_name(buffer);
         }
     }
     size_t elen = (size_t)(end - start);
     memcpy(buffer, start, elen);
     buffer[elen] = '\0';
-    return buffer;
+    return intern_name(buffer);
 }
 
 /* Extract size from fixed-size array type "[int,3]" -> 3, returns 0 if dynamic */
-- 
2.43.0


From c368fc3f5882edecb8812342a05be006eb3dcd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:52 +0000
Subject: [PATCH 27/96] fix: give file-scope arrays their declared element type
 and own storage

---
 grayc/src/codegen/codegen.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 0d578ad..d6918ea 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -7472,16 +7472,17 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
 
         /* Dynamic array: use GrayArray */
         const char *c_elem_type = array_storage_c_type(codegen, elem_type);
-        if (codegen->indent == 0) {
+        bool file_scope = codegen->indent == 0;
+        Buf declarations = codegen->output;
+        if (file_scope) {
             emit_formatted(codegen, "GrayArray %s;\n", sanitize_name(node->data.var_decl.name));
-            Buf saved = codegen->output; codegen->output = codegen->global_init; codegen->indent = 1;
+            declarations = codegen->output;
+            codegen->output = codegen->global_init;
+            codegen->indent = 1;
             emit_formatted(codegen, "    %s = ", sanitize_name(node->data.var_decl.name));
-            if (node->data.var_decl.value) emit_expression(codegen, node->data.var_decl.value);
-            else emit_formatted(codegen, "gray_array_new(gray_default_arena, sizeof(%s), 4)", c_elem_type);
-            emit(codegen, ";\n");
-            codegen->global_init = codegen->output; codegen->output = saved; codegen->indent = 0;
         } else {
-        emit_formatted(codegen, "GrayArray %s = ", sanitize_name(node->data.var_decl.name));
+            emit_formatted(codegen, "GrayArray %s = ", sanitize_name(node->data.var_decl.name));
+        }
         if (node->data.var_decl.value &&
             node->data.var_decl.value->kind == NODE_ARRAY_VALUE &&
             node->data.var_decl.value->data.array_value.count == 0) {
@@ -7511,7 +7512,11 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
             emit_formatted(codegen, "gray_array_new(gray_default_arena, sizeof(%s), 4)", c_elem_type);
         }
         emit(codegen, ";\n");
-        } /* end else (indent > 0) */
+        if (file_scope) {
+            codegen->global_init = codegen->output;
+            codegen->output = declarations;
+            codegen->indent = 0;
+        }
         return;
     }
 
-- 
2.43.0


From 62f1c24275d82f4969a89bb17c11d5db3194f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:52 +0000
Subject: [PATCH 28/96] fix: initialize every file-scope variable C cannot
 initialize when the program starts

---
 grayc/src/codegen/codegen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index d6918ea..9e5b208 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -1930,7 +1930,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
         }
         /* Overflow-checked negation for signed integer types; STANDARD §3.1.1
          * promises arithmetic panics rather than silent wrap on overflow. */
-        if (node->data.prefix.op == TOK_MINUS) {
+        if (node->data.prefix.op == TOK_MINUS && !codegen->in_const_decl) {
             GrayType *ot = codegen->type_table ? typetable_get(codegen->type_table, node->data.prefix.right) : NULL;
             if (ot && ot->kind == TK_INT) {
                 const char *sized_name = ot->name;
@@ -7360,15 +7360,15 @@ static bool needs_runtime_initializer(CodeGen *codegen, const char *type_name, A
     switch (value->kind) {
     case NODE_ARRAY_VALUE: case NODE_MAP_VALUE: case NODE_INTERPOLATED_STRING:
     case NODE_NEW_EXPR: case NODE_INDEX_EXPR: case NODE_POSTFIX_EXPR:
+    case NODE_LABEL: case NODE_MEMBER_EXPR: case NODE_CALL_EXPR:
         return true;
-    case NODE_LABEL:
-        return type_name && type_needs_deep_copy(codegen, type_name);
     case NODE_PREFIX_EXPR:
         return needs_runtime_initializer(codegen, NULL, value->data.prefix.right);
     case NODE_CAST_EXPR:
         return needs_runtime_initializer(codegen, NULL, value->data.cast.value);
     case NODE_INFIX_EXPR:
         return value->data.infix.op == TOK_BIT_SHIFT_LEFT || value->data.infix.op == TOK_BIT_SHIFT_RIGHT ||
+               value->data.infix.op == TOK_IN || value->data.infix.op == TOK_NOT_IN ||
                needs_runtime_initializer(codegen, NULL, value->data.infix.left) ||
                needs_runtime_initializer(codegen, NULL, value->data.infix.right);
     case NODE_STRUCT_VALUE: {
-- 
2.43.0


From ca358309fd79436fa1f3c974d7c5cf96625db02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:52 +0000
Subject: [PATCH 29/96] fix: emit tagged enums and structs in dependency order

---
 grayc/src/codegen/codegen.c | 210 +++++++++++++++++++-----------------
 1 file changed, 114 insertions(+), 96 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 9e5b208..4656fca 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -20,7 +20,6 @@
 #define LOOP_ARENA_SIZE      16384
 #define FUNC_ARENA_SIZE      65536
 #define OUTPUT_BUF_INITIAL   4096
-#define MAX_STRUCT_DECLS     256
 #define MAX_MEMBER_CHAIN     32
 #define VAR_NAME_BUF         64
 #define SHORT_VAR_BUF        32
@@ -9549,6 +9548,80 @@ static bool has_stdlib_module(const char *const *modules, int count, const char
     return false;
 }
 
+/* Emit the C types of a tagged enum: the tags, one struct per payload and the union. */
+static void emit_tagged_enum_types(CodeGen *codegen, AstNode *node) {
+    const char *ename = node->data.enum_decl.name;
+    /* Tag enum */
+    emit_formatted(codegen, "typedef enum {\n");
+    for (int j = 0; j < node->data.enum_decl.value_count; j++) {
+        emit_formatted(codegen, "    GrayEnum_%s_TAG_%s = %d,\n", ename, node->data.enum_decl.values[j].name, j);
+    }
+    emit_formatted(codegen, "} GrayEnum_%s_Tag;\n\n", ename);
+
+    /* Payload structs (only for variants with payloads) */
+    for (int j = 0; j < node->data.enum_decl.value_count; j++) {
+        EnumVal *ev = &node->data.enum_decl.values[j];
+        if (ev->payload_count > 0) {
+            emit_formatted(codegen, "typedef struct {");
+            for (int k = 0; k < ev->payload_count; k++) {
+                if (k > 0) emit(codegen, "");
+                emit_formatted(codegen, " %s _%d;", gray_type_to_c_codegen(codegen, ev->payload_types[k]), k);
+            }
+            emit_formatted(codegen, " } GrayEnum_%s_Data_%s;\n", ename, ev->name);
+        }
+    }
+
+    /* Tagged union struct */
+    emit_formatted(codegen, "typedef struct {\n");
+    emit_formatted(codegen, "    GrayEnum_%s_Tag tag;\n", ename);
+    /* Only emit union if any variant has a payload */
+    bool has_any_payload = false;
+    for (int j = 0; j < node->data.enum_decl.value_count; j++) {
+        if (node->data.enum_decl.values[j].payload_count > 0) { has_any_payload = true; break; }
+    }
+    if (has_any_payload) {
+        emit_formatted(codegen, "    union {\n");
+        for (int j = 0; j < node->data.enum_decl.value_count; j++) {
+            EnumVal *ev = &node->data.enum_decl.values[j];
+            if (ev->payload_count > 0) {
+                emit_formatted(codegen, "        GrayEnum_%s_Data_%s %s;\n", ename, ev->name, ev->name);
+            }
+        }
+        emit_formatted(codegen, "    } data;\n");
+    }
+    emit_formatted(codegen, "} GrayEnum_%s;\n\n", ename);
+}
+
+static void emit_struct_type(CodeGen *codegen, AstNode *node) {
+    emit_formatted(codegen, "struct GrayStruct_%s {\n", node->data.struct_decl.name);
+    for (int j = 0; j < node->data.struct_decl.field_count; j++) {
+        StructField *field = &node->data.struct_decl.fields[j];
+        emit_formatted(codegen, "    %s %s;\n", gray_type_to_c_codegen(codegen, field->type_name), sanitize_name(field->name));
+    }
+    emit(codegen, "};\n\n");
+}
+
+static const char *aggregate_type_name(AstNode *node) {
+    return node->kind == NODE_ENUM_DECL ? node->data.enum_decl.name : node->data.struct_decl.name;
+}
+
+/* Does the struct or tagged enum hold a value of the named type? */
+static bool aggregate_type_holds(AstNode *node, const char *name) {
+    if (node->kind == NODE_ENUM_DECL) {
+        for (int j = 0; j < node->data.enum_decl.value_count; j++) {
+            EnumVal *ev = &node->data.enum_decl.values[j];
+            for (int k = 0; k < ev->payload_count; k++)
+                if (ev->payload_types[k] && strcmp(ev->payload_types[k], name) == 0) return true;
+        }
+        return false;
+    }
+    for (int j = 0; j < node->data.struct_decl.field_count; j++) {
+        const char *field_type = node->data.struct_decl.fields[j].type_name;
+        if (field_type && strcmp(field_type, name) == 0) return true;
+    }
+    return false;
+}
+
 void codegen_generate(CodeGen *codegen, AstNode *program) {
     if (program->kind != NODE_PROGRAM) return;
 
@@ -9750,46 +9823,7 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
                 }
                 emit(codegen, "\n");
             } else if (is_tagged) {
-                const char *ename = stmt->data.enum_decl.name;
-                /* Tag enum */
-                emit_formatted(codegen, "typedef enum {\n");
-                for (int j = 0; j < stmt->data.enum_decl.value_count; j++) {
-                    emit_formatted(codegen, "    GrayEnum_%s_TAG_%s = %d,\n", ename, stmt->data.enum_decl.values[j].name, j);
-                }
-                emit_formatted(codegen, "} GrayEnum_%s_Tag;\n\n", ename);
-
-                /* Payload structs (only for variants with payloads) */
-                for (int j = 0; j < stmt->data.enum_decl.value_count; j++) {
-                    EnumVal *ev = &stmt->data.enum_decl.values[j];
-                    if (ev->payload_count > 0) {
-                        emit_formatted(codegen, "typedef struct {");
-                        for (int k = 0; k < ev->payload_count; k++) {
-                            if (k > 0) emit(codegen, "");
-                            emit_formatted(codegen, " %s _%d;", gray_type_to_c_codegen(codegen, ev->payload_types[k]), k);
-                        }
-                        emit_formatted(codegen, " } GrayEnum_%s_Data_%s;\n", ename, ev->name);
-                    }
-                }
-
-                /* Tagged union struct */
-                emit_formatted(codegen, "typedef struct {\n");
-                emit_formatted(codegen, "    GrayEnum_%s_Tag tag;\n", ename);
-                /* Only emit union if any variant has a payload */
-                bool has_any_payload = false;
-                for (int j = 0; j < stmt->data.enum_decl.value_count; j++) {
-                    if (stmt->data.enum_decl.values[j].payload_count > 0) { has_any_payload = true; break; }
-                }
-                if (has_any_payload) {
-                    emit_formatted(codegen, "    union {\n");
-                    for (int j = 0; j < stmt->data.enum_decl.value_count; j++) {
-                        EnumVal *ev = &stmt->data.enum_decl.values[j];
-                        if (ev->payload_count > 0) {
-                            emit_formatted(codegen, "        GrayEnum_%s_Data_%s %s;\n", ename, ev->name, ev->name);
-                        }
-                    }
-                    emit_formatted(codegen, "    } data;\n");
-                }
-                emit_formatted(codegen, "} GrayEnum_%s;\n\n", ename);
+                /* Emitted with the structs below: payloads may be structs. */
             } else {
                 bool is_flags = stmt->data.enum_decl.is_flags;
                 emit_formatted(codegen, "typedef enum {\n");
@@ -9814,76 +9848,60 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
         }
     }
 
-    /* Collect struct declarations and emit in dependency order (topological sort).
-     * Structs that reference other structs as value fields must come after them. */
+    /* Collect struct and tagged enum declarations and emit them in dependency
+     * order (topological sort): a type must come after those it holds by value. */
     {
-        int struct_count = 0;
-        AstNode *structs[MAX_STRUCT_DECLS];
+        int count = 0;
+        bool any_struct = false;
+        AstNode **types = xmalloc(sizeof(AstNode *) * (size_t)(program->data.program.stmt_count + 1));
         for (int i = 0; i < program->data.program.stmt_count; i++) {
-            if (program->data.program.stmts[i]->kind == NODE_STRUCT_DECL &&
-                struct_count < MAX_STRUCT_DECLS) {
-                structs[struct_count++] = program->data.program.stmts[i];
+            AstNode *stmt = program->data.program.stmts[i];
+            if (stmt->kind == NODE_STRUCT_DECL ||
+                (stmt->kind == NODE_ENUM_DECL && stmt->data.enum_decl.is_tagged)) {
+                types[count++] = stmt;
             }
         }
 
         /* Emit forward declarations so pointer fields can reference any struct.
          * Skip generic structs; their forward decls are per-instantiation. */
-        for (int i = 0; i < struct_count; i++) {
-            if (structs[i]->data.struct_decl.is_generic) continue;
+        for (int i = 0; i < count; i++) {
+            if (types[i]->kind != NODE_STRUCT_DECL || types[i]->data.struct_decl.is_generic) continue;
+            any_struct = true;
             emit_formatted(codegen, "typedef struct GrayStruct_%s GrayStruct_%s;\n",
-                structs[i]->data.struct_decl.name,
-                structs[i]->data.struct_decl.name);
-        }
-        if (struct_count > 0) emit(codegen, "\n");
-
-        /* Simple topological sort: repeatedly emit structs with no unresolved deps */
-        bool emitted[MAX_STRUCT_DECLS] = {false};
-        int emit_count = 0;
-        for (int pass = 0; pass < struct_count && emit_count < struct_count; pass++) {
-            for (int i = 0; i < struct_count; i++) {
+                types[i]->data.struct_decl.name,
+                types[i]->data.struct_decl.name);
+        }
+        if (any_struct) emit(codegen, "\n");
+
+        /* Repeatedly emit types with no unresolved deps; once no progress is
+         * possible (circular deps), emit the rest anyway. */
+        bool *emitted = xcalloc((size_t)(count + 1), sizeof(bool));
+        bool progress = true, forced = false;
+        while (progress || !forced) {
+            if (!progress) forced = true;
+            progress = false;
+            for (int i = 0; i < count; i++) {
                 if (emitted[i]) continue;
-                AstNode *struct_node = structs[i];
                 bool deps_met = true;
-                for (int j = 0; j < struct_node->data.struct_decl.field_count; j++) {
-                    const char *field_type = struct_node->data.struct_decl.fields[j].type_name;
-                    if (!field_type) continue;
-                    /* Check if this field type is another user struct */
-                    for (int k = 0; k < struct_count; k++) {
-                        if (k != i && !emitted[k] &&
-                            strcmp(structs[k]->data.struct_decl.name, field_type) == 0) {
-                            deps_met = false;
-                            break;
-                        }
-                    }
-                    if (!deps_met) break;
-                }
-                if (deps_met) {
-                    emitted[i] = true;
-                    emit_count++;
-                    /* : skip generic structs here; they're
-                     * emitted per-instantiation below. */
-                    if (struct_node->data.struct_decl.is_generic) continue;
-                    emit_formatted(codegen, "struct GrayStruct_%s {\n", struct_node->data.struct_decl.name);
-                    for (int j = 0; j < struct_node->data.struct_decl.field_count; j++) {
-                        StructField *field = &struct_node->data.struct_decl.fields[j];
-                        emit_formatted(codegen, "    %s %s;\n", gray_type_to_c_codegen(codegen, field->type_name), sanitize_name(field->name));
+                for (int k = 0; k < count && deps_met && !forced; k++) {
+                    if (k != i && !emitted[k] &&
+                        aggregate_type_holds(types[i], aggregate_type_name(types[k]))) {
+                        deps_met = false;
                     }
-                    emit(codegen, "};\n\n");
                 }
-            }
-        }
-        /* If any structs couldn't be emitted (circular deps), emit them anyway */
-        for (int i = 0; i < struct_count; i++) {
-            if (!emitted[i]) {
-                AstNode *struct_node = structs[i];
-                emit_formatted(codegen, "struct GrayStruct_%s {\n", struct_node->data.struct_decl.name);
-                for (int j = 0; j < struct_node->data.struct_decl.field_count; j++) {
-                    StructField *field = &struct_node->data.struct_decl.fields[j];
-                    emit_formatted(codegen, "    %s %s;\n", gray_type_to_c_codegen(codegen, field->type_name), sanitize_name(field->name));
+                if (!deps_met) continue;
+                emitted[i] = true;
+                progress = true;
+                if (types[i]->kind == NODE_ENUM_DECL) {
+                    emit_tagged_enum_types(codegen, types[i]);
+                } else if (!types[i]->data.struct_decl.is_generic) {
+                    /* : generic structs are emitted per-instantiation below. */
+                    emit_struct_type(codegen, types[i]);
                 }
-                emit(codegen, "};\n\n");
             }
         }
+        free(emitted);
+        free(types);
     }
 
     /* : emit per-instantiation typedefs for generic (wildcard) structs.
-- 
2.43.0


From 6833de7acdc5dbae6326e599edcd8546274121c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:52 +0000
Subject: [PATCH 30/96] fix: separate the fields of a struct literal whose
 first fields have no value

---
 grayc/src/codegen/codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 4656fca..41dc0db 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -1881,6 +1881,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
         }
         /* Emit default values for fields not specified in the literal */
         if (sdecl_for_fields) {
+            bool any_field = node->data.struct_value.count > 0;
             for (int field_index = 0; field_index < sdecl_for_fields->data.struct_decl.field_count; field_index++) {
                 StructField *sf = &sdecl_for_fields->data.struct_decl.fields[field_index];
                 if (!sf->default_value) continue;
@@ -1892,7 +1893,8 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                     }
                 }
                 if (!specified) {
-                    if (node->data.struct_value.count > 0 || field_index > 0) emit(codegen, ", ");
+                    if (any_field) emit(codegen, ", ");
+                    any_field = true;
                     emit_formatted(codegen, ".%s = ", sanitize_name(sf->name));
                     emit_expression(codegen, sf->default_value);
                 }
-- 
2.43.0


From 1cc5c91e9beee322302829d4f7798e28431a3cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:52 +0000
Subject: [PATCH 31/96] fix: evaluate the operands of a range membership test
 once, in order

---
 grayc/src/codegen/codegen.c | 40 +++++++++++--------------------------
 grayc/src/runtime/runtime.h | 12 +++++++++++
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 41dc0db..50b4531 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -2079,35 +2079,19 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             /* Check if right side is a range expression: x in range(a, b) */
             if (node->data.infix.right->kind == NODE_RANGE_EXPR) {
                 AstNode *range = node->data.infix.right;
-                if (negated) emit(codegen, "!(");
-                emit(codegen, "(");
-                emit_expression(codegen, node->data.infix.left);
-                emit(codegen, " >= ");
-                if (range->data.range_expr.start) {
-                    emit_expression(codegen, range->data.range_expr.start);
-                } else {
-                    emit(codegen, "0");
-                }
-                emit(codegen, " && ");
-                emit_expression(codegen, node->data.infix.left);
-                emit(codegen, " < ");
-                emit_expression(codegen, range->data.range_expr.end);
-                /* Step check: value must be at a step interval from start */
-                if (range->data.range_expr.step) {
-                    emit(codegen, " && (");
-                    emit_expression(codegen, node->data.infix.left);
-                    emit(codegen, " - ");
-                    if (range->data.range_expr.start) {
-                        emit_expression(codegen, range->data.range_expr.start);
-                    } else {
-                        emit(codegen, "0");
-                    }
-                    emit(codegen, ") % ");
-                    emit_expression(codegen, range->data.range_expr.step);
-                    emit(codegen, " == 0");
+                static int range_counter = 0;
+                int id = range_counter++;
+                AstNode *parts[] = { node->data.infix.left, range->data.range_expr.start,
+                                     range->data.range_expr.end, range->data.range_expr.step };
+                /* Each operand is evaluated once, in order. */
+                emit_formatted(codegen, "%s({ GrayRangeInt _rp%d[4] = {0, 0, 0, 1}; ", negated ? "!" : "", id);
+                for (int k = 0; k < 4; k++) {
+                    if (!parts[k]) continue;
+                    emit_formatted(codegen, "_rp%d[%d] = ", id, k);
+                    emit_expression(codegen, parts[k]);
+                    emit(codegen, "; ");
                 }
-                emit(codegen, ")");
-                if (negated) emit(codegen, ")");
+                emit_formatted(codegen, "gray_in_range(_rp%d, \"%s\", %d); })", id, codegen->file, node->token.line);
                 break;
             }
 
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index ca75998..875cf1c 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -215,6 +215,18 @@ static inline int64_t gray_neg_check(int64_t a, const char *file, int line) {
     return result;
 }
 
+/* Wide enough for every int and uint value. */
+__extension__ typedef __int128 GrayRangeInt;
+
+/* Is p[0] one of the values of range(p[1], p[2], p[3])? */
+static inline bool gray_in_range(const GrayRangeInt *p, const char *file, int line) {
+    if (p[3] == 0)
+        gray_panic_code_at(file, line, "P0090", "range step cannot be zero");
+    if (p[3] > 0)
+        return p[0] >= p[1] && p[0] < p[2] && (p[0] - p[1]) % p[3] == 0;
+    return p[0] <= p[1] && p[0] > p[2] && (p[1] - p[0]) % -p[3] == 0;
+}
+
 static inline int64_t gray_inc_check(int64_t a, const char *file, int line) {
     return gray_add_check(a, 1, file, line);
 }
-- 
2.43.0


From 20258e0ad8ebb5a7ec9ff05dbd1c4e396865793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:52 +0000
Subject: [PATCH 32/96] fix: accept writes and lookups on maps that were never
 initialized

---
 grayc/src/codegen/codegen.c | 15 +++++++++------
 grayc/src/runtime/map.c     | 16 ++++++++++++++--
 grayc/src/runtime/map.h     |  5 +++++
 grayc/src/stdlib/maps.c     |  6 ++++--
 4 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 50b4531..a34f68a 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -8009,6 +8009,9 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                 if (obj_t && obj_t->kind == TK_POINTER) map_via_ptr = true;
             }
 
+            char layout[MSG_BUF_SIZE];
+            snprintf(layout, sizeof(layout), "sizeof(%s), sizeof(%s), %s", c_key, c_val, gray_map_key_kind_macro(c_key));
+
             bool ms_compound = is_compound_assign(node->data.assign.op);
             emit_formatted(codegen, "{ %s _mk = ", c_key);
             emit_expression_as(codegen, node->data.assign.target->data.index_expr.index, c_key);
@@ -8048,20 +8051,20 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             if (map_via_ptr) {
                 if (ms_compound) {
                     /* _mp was captured above; just set and close the outer block. */
-                    emit_formatted(codegen, "gray_map_set(%s, &_mp->%s, &_mk, &_mv); }\n",
-                        ms_arena, sanitize_name(left->data.member.member));
+                    emit_formatted(codegen, "gray_map_put(%s, &_mp->%s, &_mk, &_mv, %s); }\n",
+                        ms_arena, sanitize_name(left->data.member.member), layout);
                 } else {
                     /* Nil-check the pointer, then use -> to yield an assignable target. */
                     emit_formatted(codegen, "{ __auto_type _mp = ");
                     emit_expression(codegen, left->data.member.object);
                     emit_formatted(codegen, "; if (!_mp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } "
-                        "gray_map_set(%s, &_mp->%s, &_mk, &_mv); } }\n",
-                        codegen->file, node->token.line, ms_arena, sanitize_name(left->data.member.member));
+                        "gray_map_put(%s, &_mp->%s, &_mk, &_mv, %s); } }\n",
+                        codegen->file, node->token.line, ms_arena, sanitize_name(left->data.member.member), layout);
                 }
             } else {
-                emit_formatted(codegen, "gray_map_set(%s, &", ms_arena);
+                emit_formatted(codegen, "gray_map_put(%s, &", ms_arena);
                 emit_expression(codegen, left);
-                emit(codegen, ", &_mk, &_mv); }\n");
+                emit_formatted(codegen, ", &_mk, &_mv, %s); }\n", layout);
             }
             return;
         }
diff --git a/grayc/src/runtime/map.c b/grayc/src/runtime/map.c
index f7802d0..31ddfe3 100644
--- a/grayc/src/runtime/map.c
+++ b/grayc/src/runtime/map.c
@@ -116,6 +116,7 @@ static void *val_ptr(GrayMap *m, int32_t idx) {
 }
 
 GrayMap gray_map_new_kind(GrayArena *arena, int32_t key_size, int32_t value_size, int32_t initial_cap, int8_t key_kind) {
+    if (key_size == 0) return (GrayMap){0}; /* copy of a zero-initialized map */
     if (initial_cap < GRAY_MAP_MIN_CAP) initial_cap = GRAY_MAP_MIN_CAP;
     GrayMap m;
     m.key_size = key_size;
@@ -141,6 +142,7 @@ GrayMap gray_map_new(GrayArena *arena, int32_t key_size, int32_t value_size, int
 }
 
 static int32_t find_slot(GrayMap *m, const void *key) {
+    if (m->capacity == 0) return -1; /* zero-initialized map */
     uint64_t h = hash_key(key, m->key_size, m->key_kind);
     int32_t idx = (int32_t)(h % (uint64_t)m->capacity);
     for (int32_t i = 0; i < m->capacity; i++) {
@@ -161,7 +163,7 @@ static void rehash(GrayArena *arena, GrayMap *m) {
     int32_t *old_order = m->order;
     int32_t old_order_len = m->order_len;
 
-    m->capacity = old_cap * 2;
+    m->capacity = old_cap > 0 ? old_cap * 2 : GRAY_MAP_MIN_CAP;
     m->keys = gray_arena_alloc(arena, (size_t)m->capacity * (size_t)m->key_size);
     m->values = gray_arena_alloc(arena, (size_t)m->capacity * (size_t)m->value_size);
     m->states = gray_arena_alloc(arena, (size_t)m->capacity);
@@ -231,6 +233,16 @@ void gray_map_set(GrayArena *arena, GrayMap *m, const void *key, const void *val
     }
 }
 
+void gray_map_put(GrayArena *arena, GrayMap *m, const void *key, const void *value,
+                  int32_t key_size, int32_t value_size, int8_t key_kind) {
+    if (m->capacity == 0) {
+        m->key_size = key_size;
+        m->value_size = value_size;
+        m->key_kind = key_kind;
+    }
+    gray_map_set(arena, m, key, value);
+}
+
 bool gray_map_has(GrayMap *m, const void *key) {
     return find_slot(m, key) >= 0;
 }
@@ -301,7 +313,7 @@ GrayMap gray_map_copy(GrayArena *arena, const GrayMap *src) {
 
     if (keys_bytes)  memcpy(m.keys,   src->keys,   keys_bytes);
     if (vals_bytes)  memcpy(m.values, src->values, vals_bytes);
-    memcpy(m.states, src->states, (size_t)src->capacity);
+    if (src->capacity) memcpy(m.states, src->states, (size_t)src->capacity);
     if (order_bytes) memcpy(m.order,  src->order,  order_bytes);
 
     /* String keys store a pointer into the source arena — deep-copy the
diff --git a/grayc/src/runtime/map.h b/grayc/src/runtime/map.h
index 69f8cc6..25c1dd8 100644
--- a/grayc/src/runtime/map.h
+++ b/grayc/src/runtime/map.h
@@ -53,6 +53,11 @@ void *gray_map_get(GrayMap *m, const void *key);
 /* Set a key-value pair (inserts or updates) */
 void gray_map_set(GrayArena *arena, GrayMap *m, const void *key, const void *value);
 
+/* Set a key-value pair in a map that may still be zero-initialized (an
+ * omitted struct field): its layout is set first. */
+void gray_map_put(GrayArena *arena, GrayMap *m, const void *key, const void *value,
+                  int32_t key_size, int32_t value_size, int8_t key_kind);
+
 /* Check if a key exists */
 bool gray_map_has(GrayMap *m, const void *key);
 
diff --git a/grayc/src/stdlib/maps.c b/grayc/src/stdlib/maps.c
index 956a93c..d7320cc 100644
--- a/grayc/src/stdlib/maps.c
+++ b/grayc/src/stdlib/maps.c
@@ -46,9 +46,11 @@ bool gray_maps_is_empty(GrayMap *m) {
 }
 
 GrayMap gray_maps_merge(GrayArena *arena, GrayMap *m1, GrayMap *m2) {
-    GrayMap result = gray_map_new_kind(arena, m1->key_size, m1->value_size,
+    const GrayMap *layout = m1->capacity ? m1 : m2; /* a zero-initialized map has none */
+    if (layout->capacity == 0) return (GrayMap){0};
+    GrayMap result = gray_map_new_kind(arena, layout->key_size, layout->value_size,
         m1->count + m2->count > 8 ? (m1->count + m2->count) * 2 : 8,
-        m1->key_kind);
+        layout->key_kind);
     /* Copy all entries from m1 */
     for (int32_t order_index = 0; order_index < m1->order_len; order_index++) {
         int32_t slot = m1->order[order_index];
-- 
2.43.0


From 7f089a888b06880a95bb7cf5795dcd60666147da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:10:07 +0000
Subject: [PATCH 33/96] fix: let array element assignment take a struct literal

---
 grayc/src/runtime/array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grayc/src/runtime/array.h b/grayc/src/runtime/array.h
index 6918e85..7e5d164 100644
--- a/grayc/src/runtime/array.h
+++ b/grayc/src/runtime/array.h
@@ -48,7 +48,8 @@ GrayArray gray_array_copy(GrayArena *arena, GrayArray *src);
 
 /* Typed access macros */
 #define GRAY_ARRAY_GET(arr, type, i) (*(type *)gray_array_get_ptr(&(arr), (i), __FILE__, __LINE__))
-#define GRAY_ARRAY_SET(arr, type, i, val) do { type _v = (val); gray_array_set(&(arr), (i), &_v, __FILE__, __LINE__); } while(0)
+/* The value is variadic: a struct literal contains commas. */
+#define GRAY_ARRAY_SET(arr, type, i, ...) do { type _v = (__VA_ARGS__); gray_array_set(&(arr), (i), &_v, __FILE__, __LINE__); } while(0)
 
 /* Create from typed literal — helper macros */
 #define GRAY_ARRAY_FROM_I64(arena, ...) \
-- 
2.43.0


From 9bdbc2107d46cc12c436c0b5da6466cf9a8be618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:10:07 +0000
Subject: [PATCH 34/96] fix: give integer literals above the range of int the
 type uint

---
 grayc/src/typechecker/typechecker.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index a0a1191..acff210 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -6768,7 +6768,8 @@ static GrayType *resolve_expression(TypeChecker *checker, AstNode *node) {
 
     switch (node->kind) {
     case NODE_INT_VALUE:
-        result = &TYPE_INT;
+        /* A literal above the int maximum can only be unsigned. */
+        result = node->data.int_value.overflow && !node->data.int_value.overflow_u64 ? &TYPE_UINT : &TYPE_INT;
         break;
 
     case NODE_FLOAT_VALUE:
@@ -6966,7 +6967,10 @@ static GrayType *resolve_expression(TypeChecker *checker, AstNode *node) {
     }
 
     case NODE_PREFIX_EXPR: {
-        GrayType *right = resolve_expression(checker, node->data.prefix.right);
+        AstNode *operand = node->data.prefix.right;
+        GrayType *right = resolve_expression(checker, operand);
+        if (node->data.prefix.op == TOK_MINUS && operand->kind == NODE_INT_VALUE)
+            right = &TYPE_INT; /* -9223372036854775808 is the int minimum */
         if (node->data.prefix.op == TOK_BANG) {
             if (right->kind != TK_BOOL && right->kind != TK_UNKNOWN) {
                 diagnostic_error_code_formatted(checker->diag, "E3090", NODE_FILE(checker, node), node->token.line, node->token.column, 0, type_display_name(checker, right));
-- 
2.43.0


From dcba873e97515e5f51becf84996a33ae7120da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:10:07 +0000
Subject: [PATCH 35/96] fix: allow struct literals in call arguments after a
 comparison

---
 grayc/src/parser/parser.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grayc/src/parser/parser.c b/grayc/src/parser/parser.c
index 9c1d892..b032c71 100644
--- a/grayc/src/parser/parser.c
+++ b/grayc/src/parser/parser.c
@@ -1116,9 +1116,10 @@ static AstNode *parse_infix_expression(Parser *parser, AstNode *left) {
         parser->cur_token.type == TOK_LT_EQ || parser->cur_token.type == TOK_GT_EQ ||
         parser->cur_token.type == TOK_EQ || parser->cur_token.type == TOK_NOT_EQ;
     next_token(parser);
+    bool saved_no_struct_literal = parser->no_struct_literal;
     if (suppress_struct_lit) parser->no_struct_literal = true;
     node->data.infix.right = parse_expression(parser, prec);
-    if (suppress_struct_lit) parser->no_struct_literal = false;
+    parser->no_struct_literal = saved_no_struct_literal;
     return node;
 }
 
@@ -1140,6 +1141,9 @@ static AstNode *parse_call_expression(Parser *parser, AstNode *function) {
     const char **names = arena_alloc(parser->arena, sizeof(const char *) * cap);
     memset(names, 0, sizeof(const char *) * cap);
     bool has_named = false;
+    /* A '{' inside the parentheses cannot open a block. */
+    bool saved_no_struct_literal = parser->no_struct_literal;
+    parser->no_struct_literal = false;
 
     if (peek_token_is(parser, TOK_RPAREN)) {
         next_token(parser);
@@ -1172,8 +1176,10 @@ static AstNode *parse_call_expression(Parser *parser, AstNode *function) {
             if (!peek_token_is(parser, TOK_COMMA)) break;
             next_token(parser); /* skip comma */
         }
+        parser->no_struct_literal = saved_no_struct_literal;
         if (!expect_peek_token(parser, TOK_RPAREN)) return NULL;
     }
+    parser->no_struct_literal = saved_no_struct_literal;
 
     node->data.call.args = args;
     node->data.call.arg_count = count;
-- 
2.43.0


From 6eeda2c207a23c0256d12e9ea30ff40fe1ca9bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:37:02 +0000
Subject: [PATCH 36/96] fix: give empty array and map literals the type of the
 place they go to

---
 grayc/src/codegen/codegen.c | 43 +++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index a34f68a..ed6ed99 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -1777,6 +1777,12 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             }
         }
 
+        /* An empty map of unknown layout takes it from the first key set. */
+        if (count == 0 && !decl_mt) {
+            emit(codegen, "((GrayMap){0})");
+            break;
+        }
+
         /* Use GCC statement expression: ({ GrayMap m = ...; gray_map_set(...); m; })
          * Capture counter before emitting values; nested map literals will
          * re-enter this case and increment the counter, so each level gets
@@ -5268,7 +5274,9 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         const char *owner = store_arena(codegen, node->data.call.args[0]);
         const char *alloc_arena = owner ? owner : "gray_default_arena";
         emit_formatted(codegen, "{ %s _av = ", c_elem);
+        codegen->current_var_type = elem_tn;
         emit_expression_as(codegen, node->data.call.args[1], c_elem);
+        codegen->current_var_type = NULL;
         emit(codegen, "; ");
         if (elem_tn) emit_stored_copy(codegen, elem_tn, "_av", owner, node->data.call.args[1]);
         /* Ensure elem_size is set on the target array before appending;
@@ -5307,7 +5315,9 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         const char *ia_elem_tn = (ia_arr_t && ia_arr_t->kind == TK_ARRAY) ? ia_arr_t->element_type : NULL;
         if (ia_elem_tn) c_elem = array_storage_c_type(codegen, ia_elem_tn);
         emit_formatted(codegen, "{ %s _iv = ", c_elem);
+        codegen->current_var_type = ia_elem_tn;
         emit_expression_as(codegen, node->data.call.args[2], c_elem);
+        codegen->current_var_type = NULL;
         emit(codegen, "; ");
         if (ia_elem_tn) emit_stored_copy(codegen, ia_elem_tn, "_iv", owner, node->data.call.args[2]);
         emit_formatted(codegen, "gray_arrays_insert_at(%s, ", ia_arena);
@@ -6122,7 +6132,11 @@ static void emit_call_expression(CodeGen *codegen, AstNode *node) {
     memcpy(outer, codegen->call_arena, sizeof(outer));
     codegen->call_arena[0] = '\0';
     size_t start = codegen->output.len;
+    /* The type of the variable being declared says nothing about the arguments. */
+    const char *outer_var_type = codegen->current_var_type;
+    codegen->current_var_type = NULL;
     emit_call_body(codegen, node);
+    codegen->current_var_type = outer_var_type;
     if (codegen->call_arena[0]) {
         Buf call = buffer_create(MSG_BUF_SIZE);
         append_bytes_to_buffer(&call, codegen->output.data + start, codegen->output.len - start);
@@ -7917,7 +7931,7 @@ static bool is_compound_assign(TokenType op) {
            op == TOK_SLASH_ASSIGN || op == TOK_PERCENT_ASSIGN;
 }
 
-static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
+static void emit_assignment(CodeGen *codegen, AstNode *node) {
     emit_indent(codegen);
 
     /* A value that owns storage is copied into the arena its new owner lives
@@ -7942,7 +7956,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             const char *outer_text = codegen->stored_text;
             codegen->stored_value = node->data.assign.value;
             codegen->stored_text = text;
-            emit_assign_statement(codegen, node);
+            emit_assignment(codegen, node);
             codegen->stored_value = outer_value;
             codegen->stored_text = outer_text;
             emit(codegen, "}\n");
@@ -8277,6 +8291,16 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
     emit(codegen, ";\n");
 }
 
+static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
+    /* An empty literal has the element types of the place it is assigned to. */
+    GrayType *target_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
+    const char *outer_var_type = codegen->current_var_type;
+    if (target_t && (target_t->kind == TK_MAP || target_t->kind == TK_ARRAY))
+        codegen->current_var_type = type_name(target_t);
+    emit_assignment(codegen, node);
+    codegen->current_var_type = outer_var_type;
+}
+
 /* Collect ensure statements from a block, growing the buffer as needed. */
 static void collect_ensures(AstNode *block, AstNode ***ensures, int *count, int *cap) {
     if (!block || block->kind != NODE_BLOCK_STMT) return;
@@ -8419,10 +8443,21 @@ static void emit_multi_function_return_escape(CodeGen *codegen) {
         }
     }
     emit_scratch_arena_unwind(codegen);
+    if (function_uses_caller_arena(codegen->current_func)) return;
     emit(codegen, "gray_default_arena = _func_saved; ");
     emit(codegen, "gray_arena_destroy(_func_arena, __FILE__, __LINE__); free(_func_arena); ");
 }
 
+/* Emit a value returned in the given position: an empty literal has the element
+ * types of the function's return type. */
+static void emit_return_value(CodeGen *codegen, AstNode *value, int position) {
+    const char *outer_var_type = codegen->current_var_type;
+    if (codegen->current_func && position < codegen->current_func->data.func_decl.return_type_count)
+        codegen->current_var_type = codegen->current_func->data.func_decl.return_types[position];
+    emit_expression(codegen, value);
+    codegen->current_var_type = outer_var_type;
+}
+
 static void emit_return_statement(CodeGen *codegen, AstNode *node) {
     /* Emit ensure cleanup before return */
     emit_ensure_cleanup(codegen);
@@ -8451,7 +8486,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         emit_formatted(codegen, "{ GrayMulti_%s _ret = (GrayMulti_%s){", mbn, mbn);
         for (int i = 0; i < node->data.return_stmt.count; i++) {
             if (i > 0) emit(codegen, ", ");
-            emit_expression(codegen, node->data.return_stmt.values[i]);
+            emit_return_value(codegen, node->data.return_stmt.values[i], i);
         }
         emit(codegen, "}; ");
         emit_multi_function_return_escape(codegen);
@@ -8496,7 +8531,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         /* Single return value: evaluate into temp, then exit and return */
         emit_indent(codegen);
         emit(codegen, "{ __auto_type _ret = ");
-        emit_expression(codegen, node->data.return_stmt.values[0]);
+        emit_return_value(codegen, node->data.return_stmt.values[0], 0);
         emit(codegen, "; ");
         if (codegen->current_func && codegen->current_func->data.func_decl.return_type_count > 0) {
             const char *ret_tn = codegen->current_func->data.func_decl.return_types[0];
-- 
2.43.0


From e0794229766545605a081226ba86121c6e85a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:37:02 +0000
Subject: [PATCH 37/96] fix: copy values returned from inside a block of a
 function with & parameters

---
 grayc/src/codegen/codegen.c | 44 +++++++++++++++++++------------------
 grayc/src/runtime/runtime.c |  2 +-
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index ed6ed99..a5844c3 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -8386,30 +8386,34 @@ static void emit_loop_exit_unwind(CodeGen *codegen) {
  * nested scratch arenas live at this exit point, then
  * destroys the function arena. The escape must run first because it
  * may read from memory still owned by a scratch arena. */
+/* The arena a returned value must be copied to: the one the function was called
+ * with. A function that uses its caller's arena allocates there already, except
+ * inside the blocks that have arenas of their own; NULL when it has left all. */
+static const char *return_arena(CodeGen *codegen) {
+    if (!function_uses_caller_arena(codegen->current_func)) return "_func_saved";
+    return codegen->scope_arena_count > 0 ? codegen->scope_arenas[0].saved_var : NULL;
+}
+
 static void emit_function_return_escape(CodeGen *codegen, const char *ret_type_name) {
     if (!ret_type_name) return;
-    /* Caller-arena functions have no private _func_arena: the return value
-     * is already allocated in the caller's arena, so there is nothing to
-     * escape and nothing to destroy — just unwind any nested scratch. */
-    if (function_uses_caller_arena(codegen->current_func)) {
-        emit_scratch_arena_unwind(codegen);
-        return;
-    }
+    const char *dest = return_arena(codegen);
+    if (!dest) return;
     GrayType *return_graytype = type_from_name(ret_type_name);
     if (return_graytype->kind == TK_STRING) {
-        emit(codegen, "_ret = gray_string_new(_func_saved, _ret.data, _ret.len); ");
+        emit_formatted(codegen, "_ret = gray_string_new(%s, _ret.data, _ret.len); ", dest);
     } else if (return_graytype->kind == TK_ERROR) {
         emit(codegen, "if (_ret) { GrayError *_src_err = (GrayError *)_ret; ");
-        emit(codegen, "GrayError *_esc_err = (GrayError *)gray_arena_alloc(_func_saved, sizeof(GrayError)); ");
-        emit(codegen, "_esc_err->message = gray_string_new(_func_saved, _src_err->message.data, _src_err->message.len); ");
-        emit(codegen, "_esc_err->code = gray_string_new(_func_saved, _src_err->code.data, _src_err->code.len); ");
+        emit_formatted(codegen, "GrayError *_esc_err = (GrayError *)gray_arena_alloc(%s, sizeof(GrayError)); ", dest);
+        emit_formatted(codegen, "_esc_err->message = gray_string_new(%s, _src_err->message.data, _src_err->message.len); ", dest);
+        emit_formatted(codegen, "_esc_err->code = gray_string_new(%s, _src_err->code.data, _src_err->code.len); ", dest);
         emit(codegen, "_ret = _esc_err; } ");
     } else if (type_needs_deep_copy(codegen, ret_type_name)) {
-        emit(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = _func_saved; _ret = ");
+        emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _ret = ", dest);
         emit_value_deep_copy(codegen, ret_type_name, "_ret");
         emit(codegen, "; gray_default_arena = _esc; } ");
     }
     emit_scratch_arena_unwind(codegen);
+    if (function_uses_caller_arena(codegen->current_func)) return;
     emit(codegen, "gray_default_arena = _func_saved; ");
     emit(codegen, "gray_arena_destroy(_func_arena, __FILE__, __LINE__); free(_func_arena); ");
 }
@@ -8418,26 +8422,24 @@ static void emit_function_return_escape(CodeGen *codegen, const char *ret_type_n
  * to _func_saved, then unwind scratch arenas and destroy _func_arena.
  * Mirrors emit_function_return_escape but covers all fields of a multi-return. */
 static void emit_multi_function_return_escape(CodeGen *codegen) {
-    if (function_uses_caller_arena(codegen->current_func)) {
-        emit_scratch_arena_unwind(codegen);
-        return;
-    }
+    const char *dest = return_arena(codegen);
+    if (!dest) return;
     int rc = codegen->current_func->data.func_decl.return_type_count;
     for (int i = 0; i < rc; i++) {
         const char *type_str = codegen->current_func->data.func_decl.return_types[i];
         if (!type_str) continue;
         GrayType *return_graytype = type_from_name(type_str);
         if (return_graytype->kind == TK_STRING) {
-            emit_formatted(codegen, "_ret.v%d = gray_string_new(_func_saved, _ret.v%d.data, _ret.v%d.len); ", i, i, i);
+            emit_formatted(codegen, "_ret.v%d = gray_string_new(%s, _ret.v%d.data, _ret.v%d.len); ", i, dest, i, i);
         } else if (return_graytype->kind == TK_ERROR) {
-            emit_formatted(codegen, "if (_ret.v%d) { GrayError *_esc_err = (GrayError *)gray_arena_alloc(_func_saved, sizeof(GrayError)); ", i);
-            emit_formatted(codegen, "_esc_err->message = gray_string_new(_func_saved, _ret.v%d->message.data, _ret.v%d->message.len); ", i, i);
-            emit_formatted(codegen, "_esc_err->code = gray_string_new(_func_saved, _ret.v%d->code.data, _ret.v%d->code.len); ", i, i);
+            emit_formatted(codegen, "if (_ret.v%d) { GrayError *_esc_err = (GrayError *)gray_arena_alloc(%s, sizeof(GrayError)); ", i, dest);
+            emit_formatted(codegen, "_esc_err->message = gray_string_new(%s, _ret.v%d->message.data, _ret.v%d->message.len); ", dest, i, i);
+            emit_formatted(codegen, "_esc_err->code = gray_string_new(%s, _ret.v%d->code.data, _ret.v%d->code.len); ", dest, i, i);
             emit_formatted(codegen, "_ret.v%d = _esc_err; } ", i);
         } else if (type_needs_deep_copy(codegen, type_str)) {
             char field[32];
             snprintf(field, sizeof(field), "_ret.v%d", i);
-            emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = _func_saved; _ret.v%d = ", i);
+            emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _ret.v%d = ", dest, i);
             emit_value_deep_copy(codegen, type_str, field);
             emit(codegen, "; gray_default_arena = _esc; } ");
         }
diff --git a/grayc/src/runtime/runtime.c b/grayc/src/runtime/runtime.c
index 9a5043b..bee0d24 100644
--- a/grayc/src/runtime/runtime.c
+++ b/grayc/src/runtime/runtime.c
@@ -174,7 +174,7 @@ GrayError *gray_error_copy(GrayArena *arena, const GrayError *source) {
 
 GrayString gray_string_new(GrayArena *arena, const char *s, int32_t len) {
     char *data = (char *)gray_arena_alloc(arena, (size_t)len + 1);
-    memcpy(data, s, (size_t)len);
+    if (len > 0) memcpy(data, s, (size_t)len);
     data[len] = '\0';
     GrayString str;
     str.data = data;
-- 
2.43.0


From a61ab014e4b6c843aa3ac23db9950881e2c27779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:37:02 +0000
Subject: [PATCH 38/96] fix: size array fields by their element type when a
 struct is created or copied

---
 grayc/src/codegen/codegen.c | 2 +-
 grayc/src/runtime/array.c   | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index a5844c3..124b75f 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -3018,7 +3018,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                     GrayType *arg_type = type_from_name(field_type);
                     const char *c_elem = "int64_t";
                     if (arg_type && arg_type->element_type)
-                        c_elem = gray_map_element_c_type(codegen, arg_type->element_type);
+                        c_elem = array_storage_c_type(codegen, arg_type->element_type);
                     emit_formatted(codegen, "_np->%s = gray_array_new(gray_heap_arena, sizeof(%s), 4); ",
                         sanitize_name(field_name), c_elem);
                 }
diff --git a/grayc/src/runtime/array.c b/grayc/src/runtime/array.c
index e891299..91af19b 100644
--- a/grayc/src/runtime/array.c
+++ b/grayc/src/runtime/array.c
@@ -16,6 +16,8 @@ GrayArray gray_array_new(GrayArena *arena, int32_t elem_size, int32_t initial_ca
     arr.elem_size = elem_size;
     arr.len = 0;
     arr.cap = initial_cap > 0 ? initial_cap : GRAY_ARRAY_MIN_CAP;
+    /* The element type is set by the first append: there is no room before. */
+    if (elem_size == 0) arr.cap = 0;
     arr.iterating = 0;
     arr.data = gray_arena_alloc(arena, (size_t)arr.cap * (size_t)arr.elem_size);
     return arr;
@@ -26,6 +28,7 @@ GrayArray gray_array_from(GrayArena *arena, const void *data, int32_t elem_size,
     arr.elem_size = elem_size;
     arr.len = count;
     arr.cap = count > 0 ? count : GRAY_ARRAY_MIN_CAP;
+    if (elem_size == 0) arr.cap = 0;
     arr.iterating = 0;
     arr.data = gray_arena_alloc(arena, (size_t)arr.cap * (size_t)arr.elem_size);
     if (count > 0 && data) {
-- 
2.43.0


From 2536d356dce7e2335498bbb26a446dae42b6702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:56:24 +0000
Subject: [PATCH 39/96] fix: parse the whole text in strconv and print floats
 so that they read back

---
 grayc/src/stdlib/strconv.c | 99 +++++++++++++++++++++-----------------
 grayc/src/stdlib/strconv.h |  8 +--
 2 files changed, 58 insertions(+), 49 deletions(-)

diff --git a/grayc/src/stdlib/strconv.c b/grayc/src/stdlib/strconv.c
index 7b77eec..cf92b00 100644
--- a/grayc/src/stdlib/strconv.c
+++ b/grayc/src/stdlib/strconv.c
@@ -13,38 +13,46 @@
 #include <ctype.h>
 #include <errno.h>
 #include <inttypes.h>
+#include <math.h>
 #include <strings.h>
 
 #define STRCONV_BUF_SIZE 64
 
+/* The whole of s, NUL-terminated for strtoll and friends: in `small` when it
+ * fits there, otherwise on the arena. */
+static char *strconv_text(GrayString s, char *small, size_t cap) {
+    char *buf = (size_t)s.len < cap ? small : (char *)gray_arena_alloc(gray_default_arena, (size_t)s.len + 1);
+    memcpy(buf, s.data, (size_t)s.len);
+    buf[s.len] = '\0';
+    return buf;
+}
+
 /* --- Panicking conversions --- */
 
-int64_t gray_strconv_to_int(GrayString s, int base) {
+int64_t gray_strconv_to_int(GrayString s, int64_t base) {
     if (base < 2 || base > 36)
-        gray_panic_code("P0054", "strconv.to_int: invalid base %d; must be between 2 and 36", base);
-    char buf[STRCONV_BUF_SIZE];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
+        gray_panic_code("P0054", "strconv.to_int: invalid base %lld; must be between 2 and 36", (long long)base);
+    char small[STRCONV_BUF_SIZE];
+    char *buf = strconv_text(s, small, sizeof(small));
+    int len = s.len;
     if (len > 0 && isspace((unsigned char)buf[0]))
-        gray_panic_code("P0055", "strconv.to_int: cannot convert '%s' to int (base %d)", buf, base);
+        gray_panic_code("P0055", "strconv.to_int: cannot convert '%s' to int (base %d)", buf, (int)base);
     char *end = NULL;
     errno = 0;
-    int64_t result = strtoll(buf, &end, base);
-    if (end == buf || *end != '\0' || errno == ERANGE)
-        gray_panic_code("P0055", "strconv.to_int: cannot convert '%s' to int (base %d)", buf, base);
+    int64_t result = strtoll(buf, &end, (int)base);
+    if (end == buf || end != buf + len || errno == ERANGE)
+        gray_panic_code("P0055", "strconv.to_int: cannot convert '%s' to int (base %d)", buf, (int)base);
     return result;
 }
 
-uint64_t gray_strconv_to_uint(GrayString s, int base) {
+uint64_t gray_strconv_to_uint(GrayString s, int64_t base) {
     if (base < 2 || base > 36)
-        gray_panic_code("P0056", "strconv.to_uint: invalid base %d; must be between 2 and 36", base);
-    char buf[STRCONV_BUF_SIZE];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
+        gray_panic_code("P0056", "strconv.to_uint: invalid base %lld; must be between 2 and 36", (long long)base);
+    char small[STRCONV_BUF_SIZE];
+    char *buf = strconv_text(s, small, sizeof(small));
+    int len = s.len;
     if (len > 0 && isspace((unsigned char)buf[0]))
-        gray_panic_code("P0057", "strconv.to_uint: cannot convert '%s' to uint (base %d)", buf, base);
+        gray_panic_code("P0057", "strconv.to_uint: cannot convert '%s' to uint (base %d)", buf, (int)base);
     /* Reject negative numbers */
     for (int i = 0; i < len; i++) {
         if (buf[i] == '-')
@@ -53,23 +61,22 @@ uint64_t gray_strconv_to_uint(GrayString s, int base) {
     }
     char *end = NULL;
     errno = 0;
-    uint64_t result = strtoull(buf, &end, base);
-    if (end == buf || *end != '\0' || errno == ERANGE)
-        gray_panic_code("P0057", "strconv.to_uint: cannot convert '%s' to uint (base %d)", buf, base);
+    uint64_t result = strtoull(buf, &end, (int)base);
+    if (end == buf || end != buf + len || errno == ERANGE)
+        gray_panic_code("P0057", "strconv.to_uint: cannot convert '%s' to uint (base %d)", buf, (int)base);
     return result;
 }
 
 double gray_strconv_to_float(GrayString s) {
-    char buf[STRCONV_BUF_SIZE];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
+    char small[STRCONV_BUF_SIZE];
+    char *buf = strconv_text(s, small, sizeof(small));
+    int len = s.len;
     if (len > 0 && isspace((unsigned char)buf[0]))
         gray_panic_code("P0059", "strconv.to_float: cannot convert '%s' to float", buf);
     char *end = NULL;
     errno = 0;
     double result = strtod(buf, &end);
-    if (end == buf || *end != '\0' || errno == ERANGE)
+    if (end == buf || end != buf + len || strpbrk(buf, "xX(") || (errno == ERANGE && isinf(result)))
         gray_panic_code("P0059", "strconv.to_float: cannot convert '%s' to float", buf);
     return result;
 }
@@ -86,16 +93,15 @@ bool gray_strconv_to_bool(GrayString s) {
 
 /* --- Fallible conversions (result versions) --- */
 
-GrayResult_int gray_strconv_to_int_result(GrayString s, int base) {
+GrayResult_int gray_strconv_to_int_result(GrayString s, int64_t base) {
     if (base < 2 || base > 36) {
         GrayString msg = gray_string_lit("invalid base for integer conversion (must be 2-36)");
         GrayError *err = gray_error_new(gray_default_arena, msg);
         return (GrayResult_int){0, err};
     }
-    char buf[STRCONV_BUF_SIZE];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
+    char small[STRCONV_BUF_SIZE];
+    char *buf = strconv_text(s, small, sizeof(small));
+    int len = s.len;
     if (len > 0 && isspace((unsigned char)buf[0])) {
         GrayString msg = gray_string_lit("cannot convert string to int");
         GrayError *err = gray_error_new(gray_default_arena, msg);
@@ -103,8 +109,8 @@ GrayResult_int gray_strconv_to_int_result(GrayString s, int base) {
     }
     char *end = NULL;
     errno = 0;
-    int64_t result = strtoll(buf, &end, base);
-    if (end == buf || *end != '\0' || errno == ERANGE) {
+    int64_t result = strtoll(buf, &end, (int)base);
+    if (end == buf || end != buf + len || errno == ERANGE) {
         GrayString msg = gray_string_lit("cannot convert string to int");
         GrayError *err = gray_error_new(gray_default_arena, msg);
         return (GrayResult_int){0, err};
@@ -112,16 +118,15 @@ GrayResult_int gray_strconv_to_int_result(GrayString s, int base) {
     return (GrayResult_int){result, NULL};
 }
 
-GrayResult_uint gray_strconv_to_uint_result(GrayString s, int base) {
+GrayResult_uint gray_strconv_to_uint_result(GrayString s, int64_t base) {
     if (base < 2 || base > 36) {
         GrayString msg = gray_string_lit("invalid base for integer conversion (must be 2-36)");
         GrayError *err = gray_error_new(gray_default_arena, msg);
         return (GrayResult_uint){0, err};
     }
-    char buf[STRCONV_BUF_SIZE];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
+    char small[STRCONV_BUF_SIZE];
+    char *buf = strconv_text(s, small, sizeof(small));
+    int len = s.len;
     if (len > 0 && isspace((unsigned char)buf[0])) {
         GrayString msg = gray_string_lit("cannot convert string to uint");
         GrayError *err = gray_error_new(gray_default_arena, msg);
@@ -138,8 +143,8 @@ GrayResult_uint gray_strconv_to_uint_result(GrayString s, int base) {
     }
     char *end = NULL;
     errno = 0;
-    uint64_t result = strtoull(buf, &end, base);
-    if (end == buf || *end != '\0' || errno == ERANGE) {
+    uint64_t result = strtoull(buf, &end, (int)base);
+    if (end == buf || end != buf + len || errno == ERANGE) {
         GrayString msg = gray_string_lit("cannot convert string to uint");
         GrayError *err = gray_error_new(gray_default_arena, msg);
         return (GrayResult_uint){0, err};
@@ -148,10 +153,9 @@ GrayResult_uint gray_strconv_to_uint_result(GrayString s, int base) {
 }
 
 GrayResult_float gray_strconv_to_float_result(GrayString s) {
-    char buf[STRCONV_BUF_SIZE];
-    int len = s.len < (int32_t)sizeof(buf) - 1 ? s.len : (int32_t)sizeof(buf) - 1;
-    memcpy(buf, s.data, (size_t)len);
-    buf[len] = '\0';
+    char small[STRCONV_BUF_SIZE];
+    char *buf = strconv_text(s, small, sizeof(small));
+    int len = s.len;
     if (len > 0 && isspace((unsigned char)buf[0])) {
         GrayString msg = gray_string_lit("cannot convert string to float");
         GrayError *err = gray_error_new(gray_default_arena, msg);
@@ -160,7 +164,7 @@ GrayResult_float gray_strconv_to_float_result(GrayString s) {
     char *end = NULL;
     errno = 0;
     double result = strtod(buf, &end);
-    if (end == buf || *end != '\0' || errno == ERANGE) {
+    if (end == buf || end != buf + len || strpbrk(buf, "xX(") || (errno == ERANGE && isinf(result))) {
         GrayString msg = gray_string_lit("cannot convert string to float");
         GrayError *err = gray_error_new(gray_default_arena, msg);
         return (GrayResult_float){0.0, err};
@@ -200,7 +204,12 @@ GrayString gray_strconv_from_uint(GrayArena *arena, uint64_t n) {
 
 GrayString gray_strconv_from_float(GrayArena *arena, double f) {
     char buf[STRCONV_BUF_SIZE];
-    int len = snprintf(buf, sizeof(buf), "%g", f);
+    /* The shortest form that reads back as f */
+    int len = 0;
+    for (int prec = 6; prec <= 17; prec++) {
+        len = snprintf(buf, sizeof(buf), "%.*g", prec, f);
+        if (strtod(buf, NULL) == f) break;
+    }
     char *data = (char *)gray_arena_alloc(arena, (size_t)len + 1);
     memcpy(data, buf, (size_t)len + 1);
     return (GrayString){data, (int32_t)len};
diff --git a/grayc/src/stdlib/strconv.h b/grayc/src/stdlib/strconv.h
index d81148b..0be0b07 100644
--- a/grayc/src/stdlib/strconv.h
+++ b/grayc/src/stdlib/strconv.h
@@ -33,7 +33,7 @@ typedef struct { double v0; GrayError *v1; } GrayResult_float;
  *@end
  */
 /* Panicking conversions (single-var assignment) */
-int64_t gray_strconv_to_int(GrayString s, int base);
+int64_t gray_strconv_to_int(GrayString s, int64_t base);
 
 /*@man to_uint
  *@module strconv
@@ -46,7 +46,7 @@ int64_t gray_strconv_to_int(GrayString s, int base);
  *   mut val, err = strconv.to_uint("ff", strconv.BASE_16)
  *@end
  */
-uint64_t gray_strconv_to_uint(GrayString s, int base);
+uint64_t gray_strconv_to_uint(GrayString s, int64_t base);
 
 /*@man to_float
  *@module strconv
@@ -75,8 +75,8 @@ double gray_strconv_to_float(GrayString s);
 bool gray_strconv_to_bool(GrayString s);
 
 /* Fallible conversions (multi-var destructuring) */
-GrayResult_int gray_strconv_to_int_result(GrayString s, int base);
-GrayResult_uint gray_strconv_to_uint_result(GrayString s, int base);
+GrayResult_int gray_strconv_to_int_result(GrayString s, int64_t base);
+GrayResult_uint gray_strconv_to_uint_result(GrayString s, int64_t base);
 GrayResult_float gray_strconv_to_float_result(GrayString s);
 GrayResult_bool gray_strconv_to_bool_result(GrayString s);
 
-- 
2.43.0


From 60bea627d8682beacbf7934f1b7477dc150bc333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:56:24 +0000
Subject: [PATCH 40/96] fix: count every hex escape as one byte in string
 literals that hold a NUL

---
 grayc/src/codegen/codegen.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 124b75f..de03414 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -1452,10 +1452,10 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
          * since strlen() would truncate at the null */
         bool has_null = false;
         int str_len = 0;
-        for (const char *scan = s; *scan; scan++) {
-            if (scan[0] == '\\' && scan[1] == 'x' && scan[2] == '0' && scan[3] == '0') {
-                has_null = true;
-                str_len++; /* \x00 = 1 byte */
+        for (const char *scan = s; !node->data.string_value.is_raw && *scan; scan++) {
+            if (scan[0] == '\\' && scan[1] == 'x' && isxdigit((unsigned char)scan[2]) && isxdigit((unsigned char)scan[3])) {
+                if (scan[2] == '0' && scan[3] == '0') has_null = true;
+                str_len++; /* \xNN = 1 byte */
                 scan += 3;
             } else if (scan[0] == '\\' && scan[1] == '0') {
                 has_null = true;
-- 
2.43.0


From 5e8ca23e6740616823364b5fd2791042cc60e0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:56:24 +0000
Subject: [PATCH 41/96] fix: format 64-bit integers, bools and characters as
 the fmt directives define

---
 grayc/src/codegen/codegen.c         | 41 +++++++++++++++++++++++------
 grayc/src/stdlib/fmt.c              |  9 ++++---
 grayc/src/typechecker/typechecker.c |  1 +
 3 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index de03414..4f180a5 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -3236,6 +3236,11 @@ static void emit_to_string(CodeGen *codegen, AstNode *arg) {
     emit(codegen, ")");
 }
 
+/* An integer printf can take as long long: any but the wide ones */
+static bool is_plain_integer_argument(const GrayType *type) {
+    return type && (type->kind == TK_INT || type->kind == TK_UINT || type->kind == TK_BYTE) && !is_bigint_type(type->name);
+}
+
 /* Emit a fmt format string literal with %d/%i/%u upgraded to %lld/%llu for
  * Grayscale int/uint arguments (which are int64_t/uint64_t) to avoid -Wformat.
  * If append_newline is true, a \n is appended before the closing quote. */
@@ -3269,20 +3274,17 @@ static void emit_format_string_normalized_extended(CodeGen *codegen, const char
         }
         char spec = *ptr ? *ptr++ : 0;
         if (!spec) break;
-        /* Upgrade bare %d/%i/%u to %lld/%llu when arg is Grayscale int/uint */
-        if (!has_length && (spec == 'd' || spec == 'i' || spec == 'u') &&
-            directive_index < call_node->data.call.arg_count) {
+        /* Integer arguments are passed as long long (see emit_format_arguments) */
+        if (!has_length && strchr("diuxXo", spec) && directive_index < call_node->data.call.arg_count) {
             GrayType *directive_type = codegen->type_table ?
                 typetable_get(codegen->type_table, call_node->data.call.args[directive_index]) : NULL;
-            if (directive_type && (spec == 'd' || spec == 'i') && directive_type->kind == TK_INT) {
-                append_char_to_buffer(&codegen->output, 'l');
-                append_char_to_buffer(&codegen->output, 'l');
-            } else if (directive_type && spec == 'u' && directive_type->kind == TK_UINT) {
+            if (is_plain_integer_argument(directive_type)) {
                 append_char_to_buffer(&codegen->output, 'l');
                 append_char_to_buffer(&codegen->output, 'l');
             }
         }
-        append_char_to_buffer(&codegen->output, spec);
+        /* %b (bool) and %c (a code point) are passed as text */
+        append_char_to_buffer(&codegen->output, spec == 'b' || spec == 'c' ? 's' : spec);
         directive_index++;
     }
     if (append_newline) { append_char_to_buffer(&codegen->output, '\\'); append_char_to_buffer(&codegen->output, 'n'); }
@@ -3293,10 +3295,29 @@ static void emit_format_string_normalized(CodeGen *codegen, const char *fmt_str,
     emit_format_string_normalized_extended(codegen, fmt_str, call_node, false);
 }
 
+/* The conversion character of the index-th directive of a format string */
+static char format_directive(const char *fmt_str, int index) {
+    for (const char *ptr = fmt_str; *ptr; ptr++) {
+        if (*ptr != '%') continue;
+        ptr++;
+        if (*ptr == '%') continue;
+        ptr += strspn(ptr, "-+ #.0123456789hlL");
+        if (!*ptr || --index == 0) return *ptr;
+    }
+    return 0;
+}
+
 static void emit_format_arguments(CodeGen *codegen, AstNode *node, int start_idx) {
+    AstNode *fmt_arg = node->data.call.args[0];
     for (int i = start_idx; i < node->data.call.arg_count; i++) {
         emit(codegen, ", ");
         AstNode *arg = node->data.call.args[i];
+        if (fmt_arg->kind == NODE_STRING_VALUE && format_directive(fmt_arg->data.string_value.value, i) == 'c') {
+            emit(codegen, "gray_builtin_to_string_char(gray_default_arena, (int32_t)(");
+            emit_expression(codegen, arg);
+            emit(codegen, ")).data");
+            continue;
+        }
         GrayType *arg_type = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
         if (arg_type && arg_type->kind == TK_STRING) {
             emit_expression(codegen, arg);
@@ -3304,6 +3325,10 @@ static void emit_format_arguments(CodeGen *codegen, AstNode *node, int start_idx
         } else if (arg_type && arg_type->kind == TK_BOOL) {
             emit_expression(codegen, arg);
             emit(codegen, " ? \"true\" : \"false\"");
+        } else if (is_plain_integer_argument(arg_type)) {
+            emit(codegen, "(long long)(");
+            emit_expression(codegen, arg);
+            emit(codegen, ")");
         } else {
             emit_expression(codegen, arg);
         }
diff --git a/grayc/src/stdlib/fmt.c b/grayc/src/stdlib/fmt.c
index 55f154e..6bf4654 100644
--- a/grayc/src/stdlib/fmt.c
+++ b/grayc/src/stdlib/fmt.c
@@ -14,6 +14,7 @@
 #define GRAY_INT64_BITS       64
 #define GRAY_FMT_INT_BUF      32
 #define GRAY_FMT_FLOAT_BUF    64
+#define GRAY_FMT_MAX_DECIMALS 1100  /* the exact expansion of any double is shorter */
 
 GrayString gray_fmt_pad_left(GrayArena *arena, GrayString s, int64_t width, char ch) {
     if (s.len >= width) return s;
@@ -81,10 +82,10 @@ GrayString gray_fmt_int_to_octal(GrayArena *arena, int64_t n) {
 }
 
 GrayString gray_fmt_float_fixed(GrayArena *arena, double f, int64_t decimals) {
-    char tmp[GRAY_FMT_FLOAT_BUF];
-    int len = snprintf(tmp, sizeof(tmp), "%.*f", (int)decimals, f);
-    char *buf = (char *)gray_arena_alloc(arena, (size_t)len);
-    memcpy(buf, tmp, (size_t)len);
+    int prec = decimals < 0 ? 0 : decimals > GRAY_FMT_MAX_DECIMALS ? GRAY_FMT_MAX_DECIMALS : (int)decimals;
+    int len = snprintf(NULL, 0, "%.*f", prec, f);
+    char *buf = (char *)gray_arena_alloc(arena, (size_t)len + 1);
+    snprintf(buf, (size_t)len + 1, "%.*f", prec, f);
     return (GrayString){buf, len};
 }
 
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index acff210..658ae0f 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -3387,6 +3387,7 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                             ok = true;
                             break;
                         }
+                        if (dt->name && is_bigint_type(dt->name)) ok = false; /* wider than any directive */
                         if (!ok && expected) {
                             char spec_str[2] = { spec, '\0' };
                             diagnostic_error_code_formatted(checker->diag, "E3088",
-- 
2.43.0


From 7e04ce40687f88accafa74dcd10c156a1390ee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:56:24 +0000
Subject: [PATCH 42/96] fix: print string and tagged enums, NUL bytes and C
 keyword fields inside composites

---
 grayc/src/codegen/codegen.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 4f180a5..5f778b0 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -3371,6 +3371,23 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
         return;
     }
 
+    if ((type->kind == TK_STRUCT || type->kind == TK_ENUM) && type->name && codegen_is_enum(codegen, type->name)) {
+        if (codegen_enum_is_string(codegen, type->name)) {
+            emit_value_print(codegen, c_expr, &TYPE_STRING, stream, in_container);
+            return;
+        }
+        int eidx = codegen_enum_index(codegen, type->name);
+        AstNode *edecl = eidx >= 0 ? codegen->enum_decls[eidx] : NULL;
+        emit_indent(codegen);
+        if (edecl && edecl->data.enum_decl.is_tagged) {
+            emit_formatted(codegen, "fprintf(%s, \"%s{...}\");\n", stream,
+                edecl->data.enum_decl.original_name ? edecl->data.enum_decl.original_name : edecl->data.enum_decl.name);
+        } else {
+            emit_formatted(codegen, "fprintf(%s, \"%%lld\", (long long)(%s));\n", stream, c_expr);
+        }
+        return;
+    }
+
     switch (type->kind) {
     case TK_INT: case TK_BYTE: case TK_ENUM:
         emit_indent(codegen);
@@ -3386,13 +3403,10 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
         break;
     case TK_STRING:
         emit_indent(codegen);
-        if (in_container) {
-            emit_formatted(codegen, "fprintf(%s, \"\\\"%%.*s\\\"\", (int)(%s).len, (%s).data);\n",
-                   stream, c_expr, c_expr);
-        } else {
-            emit_formatted(codegen, "fprintf(%s, \"%%.*s\", (int)(%s).len, (%s).data);\n",
-                   stream, c_expr, c_expr);
-        }
+        if (in_container) emit_formatted(codegen, "fputc('\"', %s); ", stream);
+        emit_formatted(codegen, "fwrite((%s).data, 1, (size_t)(%s).len, %s);", c_expr, c_expr, stream);
+        if (in_container) emit_formatted(codegen, " fputc('\"', %s);", stream);
+        emit(codegen, "\n");
         break;
     case TK_BOOL:
         emit_indent(codegen);
@@ -3551,7 +3565,7 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
                 emit_formatted(codegen, "fprintf(%s, \"%s: \");\n", stream, field->name);
 
                 char field_expr[MSG_BUF_SIZE];
-                snprintf(field_expr, sizeof(field_expr), "(%s).%s", c_expr, field->name);
+                snprintf(field_expr, sizeof(field_expr), "(%s).%s", c_expr, sanitize_name(field->name));
                 GrayType *field_graytype = type_from_name(field->type_name);
                 emit_value_print(codegen, field_expr, field_graytype, stream, true);
             }
-- 
2.43.0


From 2ec0249d0ff927497fa6e923ae8e316ba221b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:14:48 +0000
Subject: [PATCH 43/96] fix: binary.decode_* panics on arrays shorter than the
 value, and has no signed shift

---
 grayc/src/stdlib/binary.c | 62 +++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/grayc/src/stdlib/binary.c b/grayc/src/stdlib/binary.c
index 14e65ff..12bfa4d 100644
--- a/grayc/src/stdlib/binary.c
+++ b/grayc/src/stdlib/binary.c
@@ -11,6 +11,12 @@
 #include "binary.h"
 #include <string.h>
 
+/* Decoding takes the first n bytes: they have to be there */
+static void need(const GrayArray *bytes, int32_t n) {
+    if (bytes->len < n)
+        gray_panic_code("P0033", "index out of bounds; tried to access index %d but the length is %d", n - 1, bytes->len);
+}
+
 static GrayArray make_bytes(GrayArena *arena, const void *data, int32_t size) {
     GrayArray arr = gray_array_new(arena, sizeof(uint8_t), size);
     for (int32_t i = 0; i < size; i++) {
@@ -32,14 +38,14 @@ static GrayArray make_bytes_reversed(GrayArena *arena, const void *data, int32_t
 /* --- 8-bit --- */
 GrayArray gray_binary_encode_i8(GrayArena *arena, int8_t val) { return make_bytes(arena, &val, 1); }
 GrayArray gray_binary_encode_u8(GrayArena *arena, uint8_t val) { return make_bytes(arena, &val, 1); }
-int8_t gray_binary_decode_i8(GrayArray *bytes) { return *(int8_t *)bytes->data; }
-uint8_t gray_binary_decode_u8(GrayArray *bytes) { return *(uint8_t *)bytes->data; }
+int8_t gray_binary_decode_i8(GrayArray *bytes) { need(bytes, 1); return *(int8_t *)bytes->data; }
+uint8_t gray_binary_decode_u8(GrayArray *bytes) { need(bytes, 1); return *(uint8_t *)bytes->data; }
 
 /* --- 16-bit signed --- */
 GrayArray gray_binary_encode_i16_le(GrayArena *arena, int16_t val) { return make_bytes(arena, &val, 2); }
 GrayArray gray_binary_encode_i16_be(GrayArena *arena, int16_t val) { return make_bytes_reversed(arena, &val, 2); }
-int16_t gray_binary_decode_i16_le(GrayArray *bytes) { int16_t v; memcpy(&v, bytes->data, 2); return v; }
-int16_t gray_binary_decode_i16_be(GrayArray *bytes) {
+int16_t gray_binary_decode_i16_le(GrayArray *bytes) { need(bytes, 2); int16_t v; memcpy(&v, bytes->data, 2); return v; }
+int16_t gray_binary_decode_i16_be(GrayArray *bytes) { need(bytes, 2);
     uint8_t *d = (uint8_t *)bytes->data;
     return (int16_t)((d[0] << 8) | d[1]);
 }
@@ -47,8 +53,8 @@ int16_t gray_binary_decode_i16_be(GrayArray *bytes) {
 /* --- 16-bit unsigned --- */
 GrayArray gray_binary_encode_u16_le(GrayArena *arena, uint16_t val) { return make_bytes(arena, &val, 2); }
 GrayArray gray_binary_encode_u16_be(GrayArena *arena, uint16_t val) { return make_bytes_reversed(arena, &val, 2); }
-uint16_t gray_binary_decode_u16_le(GrayArray *bytes) { uint16_t v; memcpy(&v, bytes->data, 2); return v; }
-uint16_t gray_binary_decode_u16_be(GrayArray *bytes) {
+uint16_t gray_binary_decode_u16_le(GrayArray *bytes) { need(bytes, 2); uint16_t v; memcpy(&v, bytes->data, 2); return v; }
+uint16_t gray_binary_decode_u16_be(GrayArray *bytes) { need(bytes, 2);
     uint8_t *d = (uint8_t *)bytes->data;
     return (uint16_t)((d[0] << 8) | d[1]);
 }
@@ -56,8 +62,8 @@ uint16_t gray_binary_decode_u16_be(GrayArray *bytes) {
 /* --- 32-bit signed --- */
 GrayArray gray_binary_encode_i32_le(GrayArena *arena, int32_t val) { return make_bytes(arena, &val, 4); }
 GrayArray gray_binary_encode_i32_be(GrayArena *arena, int32_t val) { return make_bytes_reversed(arena, &val, 4); }
-int32_t gray_binary_decode_i32_le(GrayArray *bytes) { int32_t v; memcpy(&v, bytes->data, 4); return v; }
-int32_t gray_binary_decode_i32_be(GrayArray *bytes) {
+int32_t gray_binary_decode_i32_le(GrayArray *bytes) { need(bytes, 4); int32_t v; memcpy(&v, bytes->data, 4); return v; }
+int32_t gray_binary_decode_i32_be(GrayArray *bytes) { need(bytes, 4);
     uint8_t *d = (uint8_t *)bytes->data;
     return (int32_t)(((uint32_t)d[0] << 24) | ((uint32_t)d[1] << 16) | ((uint32_t)d[2] << 8) | d[3]);
 }
@@ -65,8 +71,8 @@ int32_t gray_binary_decode_i32_be(GrayArray *bytes) {
 /* --- 32-bit unsigned --- */
 GrayArray gray_binary_encode_u32_le(GrayArena *arena, uint32_t val) { return make_bytes(arena, &val, 4); }
 GrayArray gray_binary_encode_u32_be(GrayArena *arena, uint32_t val) { return make_bytes_reversed(arena, &val, 4); }
-uint32_t gray_binary_decode_u32_le(GrayArray *bytes) { uint32_t v; memcpy(&v, bytes->data, 4); return v; }
-uint32_t gray_binary_decode_u32_be(GrayArray *bytes) {
+uint32_t gray_binary_decode_u32_le(GrayArray *bytes) { need(bytes, 4); uint32_t v; memcpy(&v, bytes->data, 4); return v; }
+uint32_t gray_binary_decode_u32_be(GrayArray *bytes) { need(bytes, 4);
     uint8_t *d = (uint8_t *)bytes->data;
     return ((uint32_t)d[0] << 24) | ((uint32_t)d[1] << 16) | ((uint32_t)d[2] << 8) | d[3];
 }
@@ -74,19 +80,19 @@ uint32_t gray_binary_decode_u32_be(GrayArray *bytes) {
 /* --- 64-bit signed --- */
 GrayArray gray_binary_encode_i64_le(GrayArena *arena, int64_t val) { return make_bytes(arena, &val, 8); }
 GrayArray gray_binary_encode_i64_be(GrayArena *arena, int64_t val) { return make_bytes_reversed(arena, &val, 8); }
-int64_t gray_binary_decode_i64_le(GrayArray *bytes) { int64_t v; memcpy(&v, bytes->data, 8); return v; }
-int64_t gray_binary_decode_i64_be(GrayArray *bytes) {
+int64_t gray_binary_decode_i64_le(GrayArray *bytes) { need(bytes, 8); int64_t v; memcpy(&v, bytes->data, 8); return v; }
+int64_t gray_binary_decode_i64_be(GrayArray *bytes) { need(bytes, 8);
     uint8_t *d = (uint8_t *)bytes->data;
-    int64_t v = 0;
+    uint64_t v = 0;
     for (int i = 0; i < 8; i++) v = (v << 8) | d[i];
-    return v;
+    return (int64_t)v;
 }
 
 /* --- 64-bit unsigned --- */
 GrayArray gray_binary_encode_u64_le(GrayArena *arena, uint64_t val) { return make_bytes(arena, &val, 8); }
 GrayArray gray_binary_encode_u64_be(GrayArena *arena, uint64_t val) { return make_bytes_reversed(arena, &val, 8); }
-uint64_t gray_binary_decode_u64_le(GrayArray *bytes) { uint64_t v; memcpy(&v, bytes->data, 8); return v; }
-uint64_t gray_binary_decode_u64_be(GrayArray *bytes) {
+uint64_t gray_binary_decode_u64_le(GrayArray *bytes) { need(bytes, 8); uint64_t v; memcpy(&v, bytes->data, 8); return v; }
+uint64_t gray_binary_decode_u64_be(GrayArray *bytes) { need(bytes, 8);
     uint8_t *d = (uint8_t *)bytes->data;
     uint64_t v = 0;
     for (int i = 0; i < 8; i++) v = (v << 8) | d[i];
@@ -96,8 +102,8 @@ uint64_t gray_binary_decode_u64_be(GrayArray *bytes) {
 /* --- 128-bit --- */
 GrayArray gray_binary_encode_i128_le(GrayArena *arena, gray_i128 val) { return make_bytes(arena, &val, 16); }
 GrayArray gray_binary_encode_i128_be(GrayArena *arena, gray_i128 val) { return make_bytes_reversed(arena, &val, 16); }
-gray_i128 gray_binary_decode_i128_le(GrayArray *bytes) { gray_i128 v; memcpy(&v, bytes->data, 16); return v; }
-gray_i128 gray_binary_decode_i128_be(GrayArray *bytes) {
+gray_i128 gray_binary_decode_i128_le(GrayArray *bytes) { need(bytes, 16); gray_i128 v; memcpy(&v, bytes->data, 16); return v; }
+gray_i128 gray_binary_decode_i128_be(GrayArray *bytes) { need(bytes, 16);
     uint8_t *d = (uint8_t *)bytes->data;
     gray_i128 v;
     uint64_t high = 0, low = 0;
@@ -110,8 +116,8 @@ gray_i128 gray_binary_decode_i128_be(GrayArray *bytes) {
 
 GrayArray gray_binary_encode_u128_le(GrayArena *arena, gray_u128 val) { return make_bytes(arena, &val, 16); }
 GrayArray gray_binary_encode_u128_be(GrayArena *arena, gray_u128 val) { return make_bytes_reversed(arena, &val, 16); }
-gray_u128 gray_binary_decode_u128_le(GrayArray *bytes) { gray_u128 v; memcpy(&v, bytes->data, 16); return v; }
-gray_u128 gray_binary_decode_u128_be(GrayArray *bytes) {
+gray_u128 gray_binary_decode_u128_le(GrayArray *bytes) { need(bytes, 16); gray_u128 v; memcpy(&v, bytes->data, 16); return v; }
+gray_u128 gray_binary_decode_u128_be(GrayArray *bytes) { need(bytes, 16);
     uint8_t *d = (uint8_t *)bytes->data;
     gray_u128 v;
     uint64_t high = 0, low = 0;
@@ -125,8 +131,8 @@ gray_u128 gray_binary_decode_u128_be(GrayArray *bytes) {
 /* --- 256-bit --- */
 GrayArray gray_binary_encode_i256_le(GrayArena *arena, gray_i256 val) { return make_bytes(arena, &val, 32); }
 GrayArray gray_binary_encode_i256_be(GrayArena *arena, gray_i256 val) { return make_bytes_reversed(arena, &val, 32); }
-gray_i256 gray_binary_decode_i256_le(GrayArray *bytes) { gray_i256 v; memcpy(&v, bytes->data, 32); return v; }
-gray_i256 gray_binary_decode_i256_be(GrayArray *bytes) {
+gray_i256 gray_binary_decode_i256_le(GrayArray *bytes) { need(bytes, 32); gray_i256 v; memcpy(&v, bytes->data, 32); return v; }
+gray_i256 gray_binary_decode_i256_be(GrayArray *bytes) { need(bytes, 32);
     uint8_t *d = (uint8_t *)bytes->data;
     gray_i256 v;
     for (int w = 3; w >= 0; w--) {
@@ -139,8 +145,8 @@ gray_i256 gray_binary_decode_i256_be(GrayArray *bytes) {
 
 GrayArray gray_binary_encode_u256_le(GrayArena *arena, gray_u256 val) { return make_bytes(arena, &val, 32); }
 GrayArray gray_binary_encode_u256_be(GrayArena *arena, gray_u256 val) { return make_bytes_reversed(arena, &val, 32); }
-gray_u256 gray_binary_decode_u256_le(GrayArray *bytes) { gray_u256 v; memcpy(&v, bytes->data, 32); return v; }
-gray_u256 gray_binary_decode_u256_be(GrayArray *bytes) {
+gray_u256 gray_binary_decode_u256_le(GrayArray *bytes) { need(bytes, 32); gray_u256 v; memcpy(&v, bytes->data, 32); return v; }
+gray_u256 gray_binary_decode_u256_be(GrayArray *bytes) { need(bytes, 32);
     uint8_t *d = (uint8_t *)bytes->data;
     gray_u256 v;
     for (int w = 3; w >= 0; w--) {
@@ -154,8 +160,8 @@ gray_u256 gray_binary_decode_u256_be(GrayArray *bytes) {
 /* --- Float --- */
 GrayArray gray_binary_encode_f32_le(GrayArena *arena, float val) { return make_bytes(arena, &val, 4); }
 GrayArray gray_binary_encode_f32_be(GrayArena *arena, float val) { return make_bytes_reversed(arena, &val, 4); }
-float gray_binary_decode_f32_le(GrayArray *bytes) { float v; memcpy(&v, bytes->data, 4); return v; }
-float gray_binary_decode_f32_be(GrayArray *bytes) {
+float gray_binary_decode_f32_le(GrayArray *bytes) { need(bytes, 4); float v; memcpy(&v, bytes->data, 4); return v; }
+float gray_binary_decode_f32_be(GrayArray *bytes) { need(bytes, 4);
     uint8_t *d = (uint8_t *)bytes->data;
     uint8_t reversed[4] = {d[3], d[2], d[1], d[0]};
     float v; memcpy(&v, reversed, 4); return v;
@@ -163,8 +169,8 @@ float gray_binary_decode_f32_be(GrayArray *bytes) {
 
 GrayArray gray_binary_encode_f64_le(GrayArena *arena, double val) { return make_bytes(arena, &val, 8); }
 GrayArray gray_binary_encode_f64_be(GrayArena *arena, double val) { return make_bytes_reversed(arena, &val, 8); }
-double gray_binary_decode_f64_le(GrayArray *bytes) { double v; memcpy(&v, bytes->data, 8); return v; }
-double gray_binary_decode_f64_be(GrayArray *bytes) {
+double gray_binary_decode_f64_le(GrayArray *bytes) { need(bytes, 8); double v; memcpy(&v, bytes->data, 8); return v; }
+double gray_binary_decode_f64_be(GrayArray *bytes) { need(bytes, 8);
     uint8_t *d = (uint8_t *)bytes->data;
     uint8_t reversed[8] = {d[7], d[6], d[5], d[4], d[3], d[2], d[1], d[0]};
     double v; memcpy(&v, reversed, 8); return v;
-- 
2.43.0


From 2a00d0ba7fb28ad3fbe6fe428d675bdbc445b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:14:48 +0000
Subject: [PATCH 44/96] fix: bytes.from_hex rejects malformed hex

---
 grayc/src/stdlib/bytes.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/grayc/src/stdlib/bytes.c b/grayc/src/stdlib/bytes.c
index c6ddaa4..2ad15f7 100644
--- a/grayc/src/stdlib/bytes.c
+++ b/grayc/src/stdlib/bytes.c
@@ -27,15 +27,8 @@ GrayString gray_bytes_to_string(GrayArena *arena, GrayArray *bytes) {
 }
 
 GrayArray gray_bytes_from_hex(GrayArena *arena, GrayString hex) {
-    int32_t output_length = hex.len / 2;
-    GrayArray arr = gray_array_new(arena, sizeof(uint8_t), output_length);
-    for (int32_t i = 0; i < output_length; i++) {
-        unsigned int byte;
-        sscanf(hex.data + i * 2, "%02x", &byte);
-        uint8_t b = (uint8_t)byte;
-        gray_array_push(arena, &arr, &b);
-    }
-    return arr;
+    GrayString decoded = gray_encoding_hex_decode(arena, hex);
+    return gray_bytes_from_string(arena, decoded);
 }
 
 GrayString gray_bytes_to_hex(GrayArena *arena, GrayArray *bytes) {
-- 
2.43.0


From 72ca541ae9677e4b2a81c496a79ec2800a2a5980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:14:48 +0000
Subject: [PATCH 45/96] fix: csv quotes fields on output and unquotes doubled
 quotes and trailing fields on input

---
 grayc/src/stdlib/csv.c | 75 +++++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 20 deletions(-)

diff --git a/grayc/src/stdlib/csv.c b/grayc/src/stdlib/csv.c
index d23b14e..df90c3c 100644
--- a/grayc/src/stdlib/csv.c
+++ b/grayc/src/stdlib/csv.c
@@ -19,31 +19,36 @@ GrayArray gray_csv_parse(GrayArena *arena, GrayString csv_string) {
 
     while (s < end) {
         GrayArray row = gray_array_new(arena, sizeof(GrayString), 8);
-        while (s < end && *s != '\n' && *s != '\r') {
-            const char *field_start;
-            int32_t field_length;
-
-            if (*s == '"') {
-                /* Quoted field */
+        /* A row is one field, and one more after every comma; a blank line has none */
+        bool more = s < end && *s != '\n' && *s != '\r';
+        while (more) {
+            GrayString field;
+            if (s < end && *s == '"') {
+                /* Quoted field: a doubled quote stands for one quote */
                 s++;
-                field_start = s;
-                while (s < end && !(*s == '"' && (s + 1 >= end || *(s + 1) != '"'))) {
-                    if (*s == '"' && *(s + 1) == '"') s += 2;
-                    else s++;
+                char *text = gray_arena_alloc(arena, (size_t)(end - s) + 1);
+                int32_t length = 0;
+                while (s < end) {
+                    if (*s == '"') {
+                        if (s + 1 >= end || s[1] != '"') break;
+                        s++;
+                    }
+                    text[length++] = *s++;
                 }
-                field_length = (int32_t)(s - field_start);
                 if (s < end) s++; /* skip closing quote */
+                /* Keep whatever stands between the closing quote and the comma */
+                while (s < end && *s != ',' && *s != '\n' && *s != '\r') text[length++] = *s++;
+                text[length] = '\0';
+                field = (GrayString){ text, length };
             } else {
                 /* Unquoted field */
-                field_start = s;
+                const char *field_start = s;
                 while (s < end && *s != ',' && *s != '\n' && *s != '\r') s++;
-                field_length = (int32_t)(s - field_start);
+                field = gray_string_new(arena, field_start, (int32_t)(s - field_start));
             }
-
-            GrayString field = gray_string_new(arena, field_start, field_length);
             gray_array_push(arena, &row, &field);
-
-            if (s < end && *s == ',') s++;
+            more = s < end && *s == ',';
+            if (more) s++;
         }
         gray_array_push(arena, &rows, &row);
 
@@ -54,6 +59,37 @@ GrayArray gray_csv_parse(GrayArena *arena, GrayString csv_string) {
     return rows;
 }
 
+/* Fields holding a separator, quote or line break are quoted, and so is an
+ * empty field alone in its row, which would otherwise read back as a blank line. */
+static bool csv_needs_quotes(const GrayString *field, int32_t columns) {
+    if (field->len == 0) return columns == 1;
+    for (int32_t i = 0; i < field->len; i++)
+        if (strchr(",\"\n\r", field->data[i]) && field->data[i]) return true;
+    return false;
+}
+
+static int32_t csv_field_length(const GrayString *field, int32_t columns) {
+    if (!csv_needs_quotes(field, columns)) return field->len;
+    int32_t n = field->len + 2;
+    for (int32_t i = 0; i < field->len; i++) n += field->data[i] == '"';
+    return n;
+}
+
+static int32_t csv_put_field(char *out, const GrayString *field, int32_t columns) {
+    if (!csv_needs_quotes(field, columns)) {
+        memcpy(out, field->data, (size_t)field->len);
+        return field->len;
+    }
+    int32_t n = 0;
+    out[n++] = '"';
+    for (int32_t i = 0; i < field->len; i++) {
+        if (field->data[i] == '"') out[n++] = '"';
+        out[n++] = field->data[i];
+    }
+    out[n++] = '"';
+    return n;
+}
+
 GrayString gray_csv_stringify(GrayArena *arena, GrayArray *data) {
     /* Accept [string] — each string is a pre-formatted CSV row.
      * Join with newlines. */
@@ -83,7 +119,7 @@ GrayString gray_csv_stringify(GrayArena *arena, GrayArray *data) {
         for (int32_t j = 0; j < row->len; j++) {
             if (j > 0) total++; /* comma */
             GrayString *field = (GrayString *)((char *)row->data + (size_t)j * sizeof(GrayString));
-            total += field->len;
+            total += csv_field_length(field, row->len);
         }
         total++; /* newline */
     }
@@ -94,8 +130,7 @@ GrayString gray_csv_stringify(GrayArena *arena, GrayArray *data) {
         for (int32_t j = 0; j < row->len; j++) {
             if (j > 0) buf[pos++] = ',';
             GrayString *field = (GrayString *)((char *)row->data + (size_t)j * sizeof(GrayString));
-            memcpy(buf + pos, field->data, (size_t)field->len);
-            pos += field->len;
+            pos += csv_put_field(buf + pos, field, row->len);
         }
         buf[pos++] = '\n';
     }
-- 
2.43.0


From dc0b3e87f8edeb1b6e310bb4f6e63b73dd8fadde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:14:48 +0000
Subject: [PATCH 46/96] fix: binary.decode_* of wide integers has the decoded
 type

---
 grayc/src/typechecker/typechecker.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 658ae0f..4a1ec5a 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2611,6 +2611,11 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
     } else if (strcmp(mod, "binary") == 0) {
         if (strncmp(mfn, "encode", 6) == 0) result = type_array("byte");
         else if (strncmp(mfn, "decode_f", 8) == 0) result = &TYPE_FLOAT;
+        else if (strncmp(mfn, "decode_u64", 10) == 0) result = type_from_name("u64");
+        else if (strncmp(mfn, "decode_i128", 11) == 0) result = type_from_name("i128");
+        else if (strncmp(mfn, "decode_u128", 11) == 0) result = type_from_name("u128");
+        else if (strncmp(mfn, "decode_i256", 11) == 0) result = type_from_name("i256");
+        else if (strncmp(mfn, "decode_u256", 11) == 0) result = type_from_name("u256");
         else result = &TYPE_INT;
     } else if (strcmp(mod, "csv") == 0) {
         if (strcmp(mfn, "parse") == 0 ||
-- 
2.43.0


From 4543d8f14cd6ed70f7d08087572c1920e06c2e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:26:33 +0000
Subject: [PATCH 47/96] fix: regex searches the whole text, anchors at its
 start only, and keeps unmatched text

---
 grayc/src/stdlib/regex.c | 174 +++++++++++++++++----------------------
 1 file changed, 77 insertions(+), 97 deletions(-)

diff --git a/grayc/src/stdlib/regex.c b/grayc/src/stdlib/regex.c
index d15458d..ed9d155 100644
--- a/grayc/src/stdlib/regex.c
+++ b/grayc/src/stdlib/regex.c
@@ -11,30 +11,47 @@
 #include "regex.h"
 #include <regex.h>
 #include <string.h>
-#include <stdio.h>
-
-#define GRAY_REGEX_PAT_BUF        4096
-#define GRAY_REGEX_TXT_BUF        8192
-#define GRAY_REGEX_RESULT_BUF     16384
+#include <stdbool.h>
+#include <stdlib.h>
+
+/* A null-terminated copy of a string, to be freed by the caller. */
+static char *to_cstr(GrayString s) {
+    char *copy = malloc((size_t)s.len + 1);
+    if (!copy) gray_panic(__FILE__, __LINE__, "out of memory");
+    memcpy(copy, s.data, (size_t)s.len);
+    copy[s.len] = '\0';
+    return copy;
+}
 
-/* Helper: compile pattern into a null-terminated C string and regex_t.
+/* Helper: compile pattern into a regex_t.
  * Returns 0 on success, non-zero on error. Caller must regfree on success. */
 static int compile_pattern(GrayString pattern, regex_t *re, int flags) {
-    /* Null-terminate the pattern */
-    char pat_buf[GRAY_REGEX_PAT_BUF];
-    int pattern_length = pattern.len < (int32_t)sizeof(pat_buf) - 1 ? pattern.len : (int32_t)sizeof(pat_buf) - 1;
-    memcpy(pat_buf, pattern.data, (size_t)pattern_length);
-    pat_buf[pattern_length] = '\0';
+    char *copy = to_cstr(pattern);
+    int result = regcomp(re, copy, flags | REG_EXTENDED);
+    free(copy);
+    return result;
+}
 
-    return regcomp(re, pat_buf, flags | REG_EXTENDED);
+/* Find the first match at or after from; match offsets count from the start
+ * of the text, so that anchors see what precedes the match. */
+static bool search(regex_t *re, const char *text, int32_t length, int32_t from, regmatch_t *match) {
+    if (from > length) return false;
+    int flags = from > 0 ? REG_NOTBOL : 0;
+#ifdef REG_STARTEND
+    match->rm_so = from;
+    match->rm_eo = length;
+    return regexec(re, text, 1, match, flags | REG_STARTEND) == 0;
+#else
+    if (regexec(re, text + from, 1, match, flags) != 0) return false;
+    match->rm_so += from;
+    match->rm_eo += from;
+    return true;
+#endif
 }
 
-/* Helper: null-terminate an GrayString into a buffer */
-static const char *to_cstr(GrayString s, char *buf, size_t buffer_size) {
-    size_t len = (size_t)s.len < buffer_size - 1 ? (size_t)s.len : buffer_size - 1;
-    memcpy(buf, s.data, len);
-    buf[len] = '\0';
-    return buf;
+/* Where to look for the match that follows this one */
+static int32_t after(const regmatch_t *match) {
+    return (int32_t)match->rm_eo + (match->rm_eo == match->rm_so);
 }
 
 bool gray_regex_is_valid(GrayString pattern) {
@@ -46,14 +63,14 @@ bool gray_regex_is_valid(GrayString pattern) {
 
 bool gray_regex_match(GrayString pattern, GrayString text) {
     regex_t re;
-    if (compile_pattern(pattern, &re, REG_NOSUB) != 0) return false;
-
-    char txt_buf[GRAY_REGEX_TXT_BUF];
-    to_cstr(text, txt_buf, sizeof(txt_buf));
+    if (compile_pattern(pattern, &re, 0) != 0) return false;
 
-    int result = regexec(&re, txt_buf, 0, NULL, 0);
+    char *subject = to_cstr(text);
+    regmatch_t match;
+    bool found = search(&re, subject, text.len, 0, &match);
+    free(subject);
     regfree(&re);
-    return result == 0;
+    return found;
 }
 
 GrayString gray_regex_find(GrayArena *arena, GrayString pattern, GrayString text) {
@@ -62,17 +79,12 @@ GrayString gray_regex_find(GrayArena *arena, GrayString pattern, GrayString text
         return (GrayString){"", 0};
     }
 
-    char txt_buf[GRAY_REGEX_TXT_BUF];
-    to_cstr(text, txt_buf, sizeof(txt_buf));
-
+    char *subject = to_cstr(text);
     regmatch_t match;
-    if (regexec(&re, txt_buf, 1, &match, 0) != 0) {
-        regfree(&re);
-        return (GrayString){"", 0};
-    }
-
-    int32_t match_length = (int32_t)(match.rm_eo - match.rm_so);
-    GrayString result = gray_string_new(arena, txt_buf + match.rm_so, match_length);
+    GrayString result = {"", 0};
+    if (search(&re, subject, text.len, 0, &match))
+        result = gray_string_new(arena, subject + match.rm_so, (int32_t)(match.rm_eo - match.rm_so));
+    free(subject);
     regfree(&re);
     return result;
 }
@@ -82,24 +94,13 @@ GrayArray gray_regex_find_all(GrayArena *arena, GrayString pattern, GrayString t
     regex_t re;
     if (compile_pattern(pattern, &re, 0) != 0) return arr;
 
-    char txt_buf[GRAY_REGEX_TXT_BUF];
-    to_cstr(text, txt_buf, sizeof(txt_buf));
-
-    const char *cursor = txt_buf;
+    char *subject = to_cstr(text);
     regmatch_t match;
-
-    while (regexec(&re, cursor, 1, &match, 0) == 0) {
-        int32_t match_length = (int32_t)(match.rm_eo - match.rm_so);
-        GrayString s = gray_string_new(arena, cursor + match.rm_so, match_length);
+    for (int32_t from = 0; search(&re, subject, text.len, from, &match); from = after(&match)) {
+        GrayString s = gray_string_new(arena, subject + match.rm_so, (int32_t)(match.rm_eo - match.rm_so));
         gray_array_push(arena, &arr, &s);
-
-        cursor += match.rm_eo;
-        if (match.rm_eo == 0) {
-            if (cursor >= txt_buf + (size_t)text.len) break;
-            cursor++;
-        }
     }
-
+    free(subject);
     regfree(&re);
     return arr;
 }
@@ -110,44 +111,32 @@ GrayString gray_regex_replace(GrayArena *arena, GrayString pattern, GrayString t
         return text;
     }
 
-    char txt_buf[GRAY_REGEX_TXT_BUF];
-    to_cstr(text, txt_buf, sizeof(txt_buf));
+    char *subject = to_cstr(text);
+    regmatch_t match;
 
-    char repl_buf[GRAY_REGEX_PAT_BUF];
-    to_cstr(replacement, repl_buf, sizeof(repl_buf));
+    int64_t length = text.len;
+    for (int32_t from = 0; search(&re, subject, text.len, from, &match); from = after(&match))
+        length += replacement.len - (match.rm_eo - match.rm_so);
+    if (length > INT32_MAX) gray_panic(__FILE__, __LINE__, "regex.replace: result is too long");
 
     /* Build result by replacing all matches */
-    char result[GRAY_REGEX_RESULT_BUF];
-    int pos = 0;
-    const char *cursor = txt_buf;
-    regmatch_t match;
-
-    while (regexec(&re, cursor, 1, &match, 0) == 0 && pos < (int)sizeof(result) - GRAY_REGEX_PAT_BUF) {
-        /* Copy text before match */
-        int pre_len = (int)match.rm_so;
-        memcpy(result + pos, cursor, (size_t)pre_len);
-        pos += pre_len;
-
-        /* Copy replacement */
-        int repl_len = (int)strlen(repl_buf);
-        memcpy(result + pos, repl_buf, (size_t)repl_len);
-        pos += repl_len;
-
-        /* Advance past match */
-        cursor += match.rm_eo;
-        if (match.rm_eo == 0) {
-            if (*cursor) result[pos++] = *cursor++;
-            else break;
-        }
+    char *result = gray_arena_alloc(arena, (size_t)length + 1);
+    int32_t pos = 0, copied = 0;
+    for (int32_t from = 0; search(&re, subject, text.len, from, &match); from = after(&match)) {
+        int32_t before = (int32_t)match.rm_so - copied;
+        memcpy(result + pos, subject + copied, (size_t)before);
+        pos += before;
+        memcpy(result + pos, replacement.data, (size_t)replacement.len);
+        pos += replacement.len;
+        copied = (int32_t)match.rm_eo;
     }
+    memcpy(result + pos, subject + copied, (size_t)(text.len - copied));
+    pos += text.len - copied;
+    result[pos] = '\0';
 
-    /* Copy remaining text */
-    int remaining = (int)strlen(cursor);
-    memcpy(result + pos, cursor, (size_t)remaining);
-    pos += remaining;
-
+    free(subject);
     regfree(&re);
-    return gray_string_new(arena, result, (int32_t)pos);
+    return (GrayString){result, pos};
 }
 
 GrayArray gray_regex_split(GrayArena *arena, GrayString pattern, GrayString text) {
@@ -159,30 +148,21 @@ GrayArray gray_regex_split(GrayArena *arena, GrayString pattern, GrayString text
         return arr;
     }
 
-    char txt_buf[GRAY_REGEX_TXT_BUF];
-    to_cstr(text, txt_buf, sizeof(txt_buf));
-
-    const char *cursor = txt_buf;
+    char *subject = to_cstr(text);
     regmatch_t match;
-
-    while (regexec(&re, cursor, 1, &match, 0) == 0) {
+    int32_t start = 0;
+    for (int32_t from = 0; search(&re, subject, text.len, from, &match); from = after(&match)) {
         /* Piece before the match */
-        int32_t piece_length = (int32_t)match.rm_so;
-        GrayString piece = gray_string_new(arena, cursor, piece_length);
+        GrayString piece = gray_string_new(arena, subject + start, (int32_t)match.rm_so - start);
         gray_array_push(arena, &arr, &piece);
-
-        cursor += match.rm_eo;
-        if (match.rm_eo == 0) {
-            if (*cursor) cursor++;
-            else break;
-        }
+        start = (int32_t)match.rm_eo;
     }
 
     /* Remaining text after last match */
-    int32_t remaining = (int32_t)strlen(cursor);
-    GrayString last = gray_string_new(arena, cursor, remaining);
+    GrayString last = gray_string_new(arena, subject + start, text.len - start);
     gray_array_push(arena, &arr, &last);
 
+    free(subject);
     regfree(&re);
     return arr;
 }
-- 
2.43.0


From 9c3a1b88f7527334848d7603241203e800d9d7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:26:33 +0000
Subject: [PATCH 48/96] fix: time functions report unrepresentable timestamps,
 format long results and are thread-safe

---
 grayc/src/stdlib/time.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/grayc/src/stdlib/time.c b/grayc/src/stdlib/time.c
index 09b98be..74817f8 100644
--- a/grayc/src/stdlib/time.c
+++ b/grayc/src/stdlib/time.c
@@ -13,6 +13,7 @@
 #include "../util/constants.h"
 #include <time.h>
 #include <unistd.h>
+#include <stdlib.h>
 #include <string.h>
 
 int64_t gray_time_now(void) { return (int64_t)time(NULL); }
@@ -29,24 +30,32 @@ int64_t gray_time_now_ns(void) {
     return (int64_t)ts.tv_sec * NS_PER_SEC + (int64_t)ts.tv_nsec;
 }
 
-static struct tm *get_tm(int64_t ts) {
+static struct tm get_tm(int64_t ts) {
     time_t t = (time_t)ts;
-    return localtime(&t);
+    struct tm tm;
+    if (!localtime_r(&t, &tm))
+        gray_panic_code("P0076", "time: timestamp %lld is out of range", (long long)ts);
+    return tm;
 }
 
-int64_t gray_time_year(int64_t ts) { return get_tm(ts)->tm_year + 1900; }
-int64_t gray_time_month(int64_t ts) { return get_tm(ts)->tm_mon + 1; }
-int64_t gray_time_day(int64_t ts) { return get_tm(ts)->tm_mday; }
-int64_t gray_time_hour(int64_t ts) { return get_tm(ts)->tm_hour; }
-int64_t gray_time_minute(int64_t ts) { return get_tm(ts)->tm_min; }
-int64_t gray_time_second(int64_t ts) { return get_tm(ts)->tm_sec; }
-int64_t gray_time_weekday(int64_t ts) { return get_tm(ts)->tm_wday; }
+int64_t gray_time_year(int64_t ts) { return (int64_t)get_tm(ts).tm_year + 1900; }
+int64_t gray_time_month(int64_t ts) { return get_tm(ts).tm_mon + 1; }
+int64_t gray_time_day(int64_t ts) { return get_tm(ts).tm_mday; }
+int64_t gray_time_hour(int64_t ts) { return get_tm(ts).tm_hour; }
+int64_t gray_time_minute(int64_t ts) { return get_tm(ts).tm_min; }
+int64_t gray_time_second(int64_t ts) { return get_tm(ts).tm_sec; }
+int64_t gray_time_weekday(int64_t ts) { return get_tm(ts).tm_wday; }
 
 GrayString gray_time_format(GrayArena *arena, GrayString fmt, int64_t ts) {
-    char buf[MSG_BUF_SIZE];
-    struct tm *tm = get_tm(ts);
-    int len = (int)strftime(buf, sizeof(buf), fmt.data, tm);
-    return gray_string_new(arena, buf, len);
+    struct tm tm = get_tm(ts);
+    /* No directive expands to more than 64 bytes */
+    size_t size = (size_t)fmt.len * 64 + 1;
+    char *buf = malloc(size);
+    if (!buf) gray_panic(__FILE__, __LINE__, "out of memory");
+    int len = (int)strftime(buf, size, fmt.data, &tm);
+    GrayString text = gray_string_new(arena, buf, len);
+    free(buf);
+    return text;
 }
 
 GrayString gray_time_to_iso(GrayArena *arena, int64_t ts) {
-- 
2.43.0


From 76d84ca1f6dbd2972e28f87c2b53d17e8e9f6ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:26:33 +0000
Subject: [PATCH 49/96] fix: math.abs/neg/min/max/clamp/sign follow their
 argument types; integer results that do not fit panic

---
 grayc/src/codegen/codegen.c         | 52 +++++++++++++++++------------
 grayc/src/stdlib/math.c             | 17 ++++++----
 grayc/src/stdlib/math.h             | 10 +++++-
 grayc/src/typechecker/typechecker.c | 20 ++++++++---
 4 files changed, 65 insertions(+), 34 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 5f778b0..7e10b5d 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -4327,37 +4327,45 @@ static bool emit_mem_call(CodeGen *codegen, AstNode *node, const char *func) {
 
 /* --- @math module --- */
 
-static bool emit_math_call(CodeGen *codegen, AstNode *node, const char *func) {
-    if (strcmp(func, "abs") == 0 && node->data.call.arg_count == 1) {
-        GrayType *arg_type = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        emit_formatted(codegen, "gray_math_abs_%s(", (arg_type && arg_type->kind == TK_FLOAT) ? "float" : "int");
-        emit_expression(codegen, node->data.call.args[0]);
-        emit(codegen, ")");
-        return true;
+/* The suffix of the gray_math function for the arguments' common type. */
+static const char *math_suffix(CodeGen *codegen, AstNode *node) {
+    bool all_unsigned = true;
+    for (int i = 0; i < node->data.call.arg_count; i++) {
+        GrayType *arg_type = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[i]) : NULL;
+        if (arg_type && arg_type->kind == TK_FLOAT) return "float";
+        if (!arg_type || arg_type->kind != TK_UINT) all_unsigned = false;
     }
+    return all_unsigned ? "uint" : "int";
+}
+
+static bool emit_math_call(CodeGen *codegen, AstNode *node, const char *func) {
     if (strcmp(func, "neg") == 0 && node->data.call.arg_count == 1) {
-        emit(codegen, "(-(");
+        if (strcmp(math_suffix(codegen, node), "float") == 0) {
+            emit(codegen, "(-(");
+            emit_expression(codegen, node->data.call.args[0]);
+            emit(codegen, "))");
+            return true;
+        }
+        emit(codegen, "gray_neg_check(");
         emit_expression(codegen, node->data.call.args[0]);
-        emit(codegen, "))");
+        emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
         return true;
     }
-    if ((strcmp(func, "min") == 0 || strcmp(func, "max") == 0) && node->data.call.arg_count == 2) {
-        GrayType *arg_type = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        emit_formatted(codegen, "gray_math_%s_%s(", func, (arg_type && arg_type->kind == TK_FLOAT) ? "float" : "int");
+    if (strcmp(func, "sign") == 0 && node->data.call.arg_count == 1 &&
+        strcmp(math_suffix(codegen, node), "int") != 0) {
+        emit_formatted(codegen, "gray_math_sign_%s(", math_suffix(codegen, node));
         emit_expression(codegen, node->data.call.args[0]);
-        emit(codegen, ", ");
-        emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, ")");
         return true;
     }
-    if (strcmp(func, "clamp") == 0 && node->data.call.arg_count == 3) {
-        GrayType *arg_type = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        emit_formatted(codegen, "gray_math_clamp_%s(", (arg_type && arg_type->kind == TK_FLOAT) ? "float" : "int");
-        emit_expression(codegen, node->data.call.args[0]);
-        emit(codegen, ", ");
-        emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, ", ");
-        emit_expression(codegen, node->data.call.args[2]);
+    if ((strcmp(func, "abs") == 0 && node->data.call.arg_count == 1) ||
+        ((strcmp(func, "min") == 0 || strcmp(func, "max") == 0) && node->data.call.arg_count == 2) ||
+        (strcmp(func, "clamp") == 0 && node->data.call.arg_count == 3)) {
+        emit_formatted(codegen, "gray_math_%s_%s(", func, math_suffix(codegen, node));
+        for (int i = 0; i < node->data.call.arg_count; i++) {
+            if (i > 0) emit(codegen, ", ");
+            emit_expression(codegen, node->data.call.args[i]);
+        }
         emit(codegen, ")");
         return true;
     }
diff --git a/grayc/src/stdlib/math.c b/grayc/src/stdlib/math.c
index 0f1c189..cce5999 100644
--- a/grayc/src/stdlib/math.c
+++ b/grayc/src/stdlib/math.c
@@ -35,28 +35,31 @@ int64_t gray_math_factorial(int64_t n) {
     if (n < 0) gray_panic_code("P0070", "math.factorial() requires a non-negative integer, got %lld", (long long)n);
     if (n <= 1) return 1;
     int64_t result = 1;
-    for (int64_t i = 2; i <= n; i++) result *= i;
+    for (int64_t i = 2; i <= n; i++) result = gray_mul_check(result, i, __FILE__, __LINE__);
     return result;
 }
 
+static uint64_t magnitude(int64_t n) { return n < 0 ? 0 - (uint64_t)n : (uint64_t)n; }
+
 int64_t gray_math_gcd(int64_t a, int64_t b) {
-    if (a < 0) a = -a;
-    if (b < 0) b = -b;
-    while (b != 0) { int64_t t = b; b = a % b; a = t; }
-    return a;
+    uint64_t x = magnitude(a), y = magnitude(b);
+    while (y != 0) { uint64_t t = y; y = x % y; x = t; }
+    /* Only gcd(INT64_MIN, 0 or INT64_MIN) does not fit */
+    return x > (uint64_t)INT64_MAX ? gray_neg_check(INT64_MIN, __FILE__, __LINE__) : (int64_t)x;
 }
 
 int64_t gray_math_lcm(int64_t a, int64_t b) {
     if (a == 0 || b == 0) return 0;
     int64_t g = gray_math_gcd(a, b);
-    return (a / g) * b;
+    int64_t multiple = gray_mul_check(a / g, b, __FILE__, __LINE__);
+    return multiple < 0 ? gray_neg_check(multiple, __FILE__, __LINE__) : multiple;
 }
 
 bool gray_math_is_prime(int64_t n) {
     if (n < 2) return false;
     if (n < 4) return true;
     if (n % 2 == 0 || n % 3 == 0) return false;
-    for (int64_t i = 5; i * i <= n; i += 6) {
+    for (int64_t i = 5; i <= n / i; i += 6) {
         if (n % i == 0 || n % (i + 2) == 0) return false;
     }
     return true;
diff --git a/grayc/src/stdlib/math.h b/grayc/src/stdlib/math.h
index 3b0a3fe..43f00ae 100644
--- a/grayc/src/stdlib/math.h
+++ b/grayc/src/stdlib/math.h
@@ -26,7 +26,8 @@
  *   println(math.abs(-3.14))
  *@end
  */
-static inline int64_t gray_math_abs_int(int64_t n) { return n < 0 ? -n : n; }
+static inline int64_t gray_math_abs_int(int64_t n) { return n < 0 ? gray_neg_check(n, __FILE__, __LINE__) : n; }
+static inline uint64_t gray_math_abs_uint(uint64_t n) { return n; }
 static inline double  gray_math_abs_float(double n) { return fabs(n); }
 
 /*@man neg
@@ -55,6 +56,8 @@ static inline double  gray_math_abs_float(double n) { return fabs(n); }
  *@end
  */
 static inline int64_t gray_math_sign(int64_t n) { return n > 0 ? 1 : (n < 0 ? -1 : 0); }
+static inline int64_t gray_math_sign_float(double n) { return n > 0 ? 1 : (n < 0 ? -1 : 0); }
+static inline int64_t gray_math_sign_uint(uint64_t n) { return n > 0 ? 1 : 0; }
 
 /*@man min
  *@module math
@@ -68,6 +71,7 @@ static inline int64_t gray_math_sign(int64_t n) { return n > 0 ? 1 : (n < 0 ? -1
  *@end
  */
 static inline int64_t gray_math_min_int(int64_t a, int64_t b) { return a < b ? a : b; }
+static inline uint64_t gray_math_min_uint(uint64_t a, uint64_t b) { return a < b ? a : b; }
 static inline double  gray_math_min_float(double a, double b) { return a < b ? a : b; }
 
 /*@man max
@@ -82,6 +86,7 @@ static inline double  gray_math_min_float(double a, double b) { return a < b ? a
  *@end
  */
 static inline int64_t gray_math_max_int(int64_t a, int64_t b) { return a > b ? a : b; }
+static inline uint64_t gray_math_max_uint(uint64_t a, uint64_t b) { return a > b ? a : b; }
 static inline double  gray_math_max_float(double a, double b) { return a > b ? a : b; }
 
 /*@man clamp
@@ -98,6 +103,9 @@ static inline double  gray_math_max_float(double a, double b) { return a > b ? a
 static inline int64_t gray_math_clamp_int(int64_t v, int64_t lo, int64_t hi) {
     return v < lo ? lo : (v > hi ? hi : v);
 }
+static inline uint64_t gray_math_clamp_uint(uint64_t v, uint64_t lo, uint64_t hi) {
+    return v < lo ? lo : (v > hi ? hi : v);
+}
 static inline double  gray_math_clamp_float(double v, double lo, double hi) {
     return v < lo ? lo : (v > hi ? hi : v);
 }
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 4a1ec5a..f09de99 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2305,6 +2305,18 @@ static void check_mutable_arg(TypeChecker *checker, AstNode *arg,
     }
 }
 
+/* The common type of the arguments to math.abs/neg/min/max/clamp. */
+static GrayType *math_common_type(TypeChecker *checker, AstNode *call) {
+    bool all_unsigned = call->data.call.arg_count > 0;
+    bool is_float = false;
+    for (int i = 0; i < call->data.call.arg_count; i++) {
+        GrayType *type = resolve_expression(checker, call->data.call.args[i]);
+        if (type && type->kind == TK_FLOAT) is_float = true;
+        if (!type || type->kind != TK_UINT) all_unsigned = false;
+    }
+    return is_float ? &TYPE_FLOAT : all_unsigned ? &TYPE_UINT : &TYPE_INT;
+}
+
 static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const char *mod, const char *mfn) {
     GrayType *result = &TYPE_UNKNOWN;
     /* E5034: named arguments are not supported for stdlib functions */
@@ -3062,8 +3074,8 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                    strcmp(mfn, "clamp") == 0) {
             /* Return type matches argument type; float in, float out */
             if (node->data.call.arg_count > 0) {
-                GrayType *arg_t = resolve_expression(checker, node->data.call.args[0]);
-                result = (arg_t && arg_t->kind == TK_FLOAT) ? &TYPE_FLOAT : &TYPE_INT;
+                result = math_common_type(checker, node);
+                if (result == &TYPE_UINT && strcmp(mfn, "neg") == 0) result = &TYPE_INT;
             } else {
                 result = &TYPE_INT;
             }
@@ -5090,8 +5102,8 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                     if (strcmp(real_mod, "math") == 0) {
                         found_in_using = true;
                         if (node->data.call.arg_count > 0) {
-                            GrayType *arg_t = resolve_expression(checker, node->data.call.args[0]);
-                            result = (arg_t && arg_t->kind == TK_FLOAT) ? &TYPE_FLOAT : &TYPE_INT;
+                            result = math_common_type(checker, node);
+                            if (result == &TYPE_UINT && strcmp(function_name, "neg") == 0) result = &TYPE_INT;
                         } else {
                             result = &TYPE_INT;
                         }
-- 
2.43.0


From 6f2145651b8acb06cd9a563fa76ae4dac350f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:43:31 +0000
Subject: [PATCH 50/96] fix: random.choice reads sized-integer, wide, nested
 and map elements with their storage type

---
 grayc/src/codegen/codegen.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 7e10b5d..b63bd38 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -5204,16 +5204,8 @@ static bool emit_random_call(CodeGen *codegen, AstNode *node, const char *func)
             ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type) {
             GrayType *et = type_from_name(arr_t->element_type);
-            if (et->kind == TK_FLOAT) c_elem = "double";
-            else if (et->kind == TK_BOOL) c_elem = "bool";
-            else if (et->kind == TK_STRING) c_elem = "GrayString";
-            else if (et->kind == TK_CHAR) c_elem = "int32_t";
-            else if (et->kind == TK_BYTE) c_elem = "uint8_t";
-            else if (et->kind == TK_STRUCT) c_elem = gray_type_to_c_codegen(codegen, arr_t->element_type);
-            else if (et->kind == TK_ENUM) {
-                c_elem = codegen_enum_is_string(codegen, arr_t->element_type)
-                    ? "GrayString" : gray_type_to_c_codegen(codegen, arr_t->element_type);
-            }
+            c_elem = et->kind == TK_ENUM && codegen_enum_is_string(codegen, arr_t->element_type)
+                ? "GrayString" : array_storage_c_type(codegen, arr_t->element_type);
         }
         if (expression_is_assignable(node->data.call.args[0])) {
             emit(codegen, "({ int32_t _ri = gray_random_int_max(");
-- 
2.43.0


From 63b5754f2e1f26c4cfb109346dd688be20399c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:43:31 +0000
Subject: [PATCH 51/96] fix: random ranges wider than 31 bits, half-open
 floats, inclusive rand_char, sample counts

---
 ERRORS.md                 |  4 ++--
 grayc/src/stdlib/random.c | 36 ++++++++++++++++++++++++------------
 grayc/src/stdlib/random.h |  2 +-
 3 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/ERRORS.md b/ERRORS.md
index f1f53df..8034ce9 100644
--- a/ERRORS.md
+++ b/ERRORS.md
@@ -355,8 +355,8 @@ Runtime panics are fatal errors that terminate the program immediately. They are
 | `P0059` | strconv | strconv.to_float: cannot convert '%s' to float |
 | `P0060` | strconv | strconv.to_bool: cannot convert '%s' to bool |
 | `P0061` | memory | mem.arena() size %lld bytes exceeds the maximum allowed size of 1 GB |
-| `P0062` | random | random.sample() count %d exceeds array length %d |
-| `P0063` | random | random.sample() count cannot be negative (%d) |
+| `P0062` | random | random.sample() count %lld exceeds array length %d |
+| `P0063` | random | random.sample() count cannot be negative (%lld) |
 | `P0064` | math | math.sqrt() requires a non-negative number, got %g |
 | `P0065` | math | math.log() requires a positive number, got %g |
 | `P0066` | math | math.log2() requires a positive number, got %g |
diff --git a/grayc/src/stdlib/random.c b/grayc/src/stdlib/random.c
index 13c6ff4..19d1293 100644
--- a/grayc/src/stdlib/random.c
+++ b/grayc/src/stdlib/random.c
@@ -12,6 +12,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <time.h>
+#include <math.h>
 
 static bool _seeded = false;
 static void ensure_seed(void) {
@@ -23,25 +24,37 @@ void gray_random_seed(int64_t value) {
     _seeded = true;
 }
 
+/* Uniform-ish value in [0, n), n > 0. One rand() covers ranges up to
+ * RAND_MAX; wider ranges combine several draws. */
+static uint64_t random_below(uint64_t n) {
+    ensure_seed();
+    if (n <= (uint64_t)RAND_MAX) return (uint64_t)rand() % n;
+    uint64_t r = 0;
+    for (int i = 0; i < 5; i++) r = (r << 15) ^ (uint64_t)rand();
+    return r % n;
+}
+
 double gray_random_float_unit(void) {
     ensure_seed();
-    return (double)rand() / RAND_MAX;
+    return (double)rand() / ((double)RAND_MAX + 1.0);
 }
 
 double gray_random_float_range(double min, double max) {
-    return min + gray_random_float_unit() * (max - min);
+    double u = gray_random_float_unit();
+    double span = max - min;
+    double r = isfinite(span) ? min + u * span : min * (1.0 - u) + max * u;
+    /* Rounding may land on the excluded bound. */
+    return min < max && r >= max ? nextafter(max, min) : r;
 }
 
 int64_t gray_random_int_max(int64_t max) {
-    ensure_seed();
     if (max <= 0) return 0;
-    return (int64_t)(rand() % (int)max);
+    return (int64_t)random_below((uint64_t)max);
 }
 
 int64_t gray_random_int_range(int64_t min, int64_t max) {
-    ensure_seed();
     if (min >= max) return min;
-    return min + (int64_t)(rand() % (int)(max - min));
+    return (int64_t)((uint64_t)min + random_below((uint64_t)max - (uint64_t)min));
 }
 
 bool gray_random_bool(void) {
@@ -60,9 +73,8 @@ int32_t gray_random_char(void) {
 }
 
 int32_t gray_random_char_range(int32_t min, int32_t max) {
-    ensure_seed();
     if (min >= max) return min;
-    return min + (int32_t)(rand() % (max - min));
+    return min + (int32_t)random_below((uint64_t)max - (uint64_t)min + 1);
 }
 
 GrayArray gray_random_shuffle(GrayArena *arena, GrayArray *arr) {
@@ -83,13 +95,13 @@ GrayArray gray_random_shuffle(GrayArena *arena, GrayArray *arr) {
     return result;
 }
 
-GrayArray gray_random_sample(GrayArena *arena, GrayArray *arr, int32_t n) {
+GrayArray gray_random_sample(GrayArena *arena, GrayArray *arr, int64_t n) {
     if (n > arr->len)
-        gray_panic_code("P0062", "random.sample() count %d exceeds array length %d", (int)n, (int)arr->len);
+        gray_panic_code("P0062", "random.sample() count %lld exceeds array length %d", (long long)n, (int)arr->len);
     if (n < 0)
-        gray_panic_code("P0063", "random.sample() count cannot be negative (%d)", (int)n);
+        gray_panic_code("P0063", "random.sample() count cannot be negative (%lld)", (long long)n);
     GrayArray shuffled = gray_random_shuffle(arena, arr);
-    shuffled.len = n;
+    shuffled.len = (int32_t)n;
     return shuffled;
 }
 
diff --git a/grayc/src/stdlib/random.h b/grayc/src/stdlib/random.h
index 860a90f..aad3041 100644
--- a/grayc/src/stdlib/random.h
+++ b/grayc/src/stdlib/random.h
@@ -132,7 +132,7 @@ int32_t gray_random_char_range(int32_t min, int32_t max);
 
 /* Array operations */
 GrayArray gray_random_shuffle(GrayArena *arena, GrayArray *arr);
-GrayArray gray_random_sample(GrayArena *arena, GrayArray *arr, int32_t n);
+GrayArray gray_random_sample(GrayArena *arena, GrayArray *arr, int64_t n);
 
 /* Explicit seeding */
 void gray_random_seed(int64_t value);
-- 
2.43.0


From bb7b87798ade9050bbcc10842db06248c81ba5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:43:31 +0000
Subject: [PATCH 52/96] fix: JSON encoding and decoding follow RFC 8259 for
 every supported value and #json field

---
 grayc/src/codegen/codegen.c | 333 ++++++++++++------------
 grayc/src/stdlib/json.c     | 505 +++++++++++++-----------------------
 grayc/src/stdlib/json.h     |  27 +-
 3 files changed, 363 insertions(+), 502 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index b63bd38..535f0a9 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -4963,65 +4963,139 @@ static bool emit_csv_call(CodeGen *codegen, AstNode *node, const char *func) {
 
 /* --- @json module --- */
 
+/* Emit C statements that write the value of c_expr (of the given type) to
+ * stream as JSON. */
+static void emit_json_write(CodeGen *codegen, const char *c_expr, GrayType *type, const char *stream, int depth) {
+    int uid = _gray_print_uid++;
+    emit_indent(codegen);
+    if (!type || depth > CYCLE_GUARD_DEPTH) {
+        emit_formatted(codegen, "fputs(\"null\", %s);\n", stream);
+        return;
+    }
+    if ((type->kind == TK_INT || type->kind == TK_UINT) && is_bigint_type(type->name)) {
+        emit_value_print(codegen, c_expr, type, stream, false);
+        return;
+    }
+    if ((type->kind == TK_STRUCT || type->kind == TK_ENUM) && type->name && codegen_is_enum(codegen, type->name)) {
+        if (codegen_enum_is_string(codegen, type->name))
+            emit_formatted(codegen, "gray_json_write_string(%s, %s);\n", stream, c_expr);
+        else if (codegen_enum_is_tagged(codegen, type->name))
+            emit_formatted(codegen, "fputs(\"null\", %s);\n", stream);
+        else
+            emit_formatted(codegen, "fprintf(%s, \"%%lld\", (long long)(%s));\n", stream, c_expr);
+        return;
+    }
+    switch (type->kind) {
+    case TK_STRING:
+        emit_formatted(codegen, "gray_json_write_string(%s, %s);\n", stream, c_expr);
+        return;
+    case TK_CHAR:
+        emit_formatted(codegen, "gray_json_write_string(%s, gray_builtin_char_to_utf8(gray_default_arena, %s));\n", stream, c_expr);
+        return;
+    case TK_FLOAT:
+        emit_formatted(codegen, "gray_json_write_float(%s, (double)(%s));\n", stream, c_expr);
+        return;
+    case TK_BOOL:
+        emit_formatted(codegen, "fputs((%s) ? \"true\" : \"false\", %s);\n", c_expr, stream);
+        return;
+    case TK_INT: case TK_BYTE: case TK_UINT:
+        emit_value_print(codegen, c_expr, type, stream, false);
+        return;
+    case TK_ARRAY: {
+        const char *elem_tn = type->element_type ? type->element_type : "int";
+        char c_elem[TYPE_NAME_MAX], elem[SHORT_VAR_BUF];
+        snprintf(c_elem, sizeof(c_elem), "%s", array_storage_c_type(codegen, elem_tn));
+        snprintf(elem, sizeof(elem), "_gray_je%d", uid);
+        emit_formatted(codegen, "fputc('[', %s);\n", stream);
+        emit_indent(codegen);
+        emit_formatted(codegen, "for (int32_t _gray_ji%d = 0; _gray_ji%d < (%s).len; _gray_ji%d++) {\n", uid, uid, c_expr, uid);
+        codegen->indent++;
+        emit_indent(codegen);
+        emit_formatted(codegen, "if (_gray_ji%d > 0) fputc(',', %s);\n", uid, stream);
+        emit_indent(codegen);
+        emit_formatted(codegen, "%s %s = GRAY_ARRAY_GET((%s), %s, _gray_ji%d);\n", c_elem, elem, c_expr, c_elem, uid);
+        emit_json_write(codegen, elem, type_from_name(elem_tn), stream, depth + 1);
+        codegen->indent--;
+        emit_indent(codegen);
+        emit_formatted(codegen, "} fputc(']', %s);\n", stream);
+        return;
+    }
+    case TK_MAP: {
+        const char *key_tn = type->key_type ? type->key_type : "string";
+        const char *val_tn = type->value_type ? type->value_type : "int";
+        char c_key[TYPE_NAME_MAX], c_val[TYPE_NAME_MAX], key[SHORT_VAR_BUF], val[SHORT_VAR_BUF];
+        snprintf(c_key, sizeof(c_key), "%s", gray_map_element_c_type(codegen, key_tn));
+        snprintf(c_val, sizeof(c_val), "%s", gray_map_element_c_type(codegen, val_tn));
+        snprintf(key, sizeof(key), "_gray_jk%d", uid);
+        snprintf(val, sizeof(val), "_gray_je%d", uid);
+        emit_formatted(codegen, "fputc('{', %s);\n", stream);
+        emit_indent(codegen);
+        emit_formatted(codegen, "for (int32_t _gray_ji%d = 0; _gray_ji%d < (%s).order_len; _gray_ji%d++) {\n", uid, uid, c_expr, uid);
+        codegen->indent++;
+        emit_indent(codegen);
+        emit_formatted(codegen, "if (_gray_ji%d > 0) fputc(',', %s);\n", uid, stream);
+        emit_indent(codegen);
+        emit_formatted(codegen, "%s %s = *(%s *)gray_map_key_at(&(%s), (%s).order[_gray_ji%d]);\n", c_key, key, c_key, c_expr, c_expr, uid);
+        emit_indent(codegen);
+        emit_formatted(codegen, "%s %s = *(%s *)gray_map_value_at(&(%s), (%s).order[_gray_ji%d]);\n", c_val, val, c_val, c_expr, c_expr, uid);
+        /* Keys are strings in JSON */
+        GrayType *key_t = type_from_name(key_tn);
+        bool quoted = key_t && (key_t->kind == TK_STRING || key_t->kind == TK_CHAR ||
+                                (key_t->name && codegen_enum_is_string(codegen, key_t->name)));
+        emit_indent(codegen);
+        emit_formatted(codegen, quoted ? ";\n" : "fputc('\"', %s);\n", stream);
+        emit_json_write(codegen, key, key_t, stream, depth + 1);
+        emit_indent(codegen);
+        emit_formatted(codegen, quoted ? "fputc(':', %s);\n" : "fputs(\"\\\":\", %s);\n", stream);
+        emit_json_write(codegen, val, type_from_name(val_tn), stream, depth + 1);
+        codegen->indent--;
+        emit_indent(codegen);
+        emit_formatted(codegen, "} fputc('}', %s);\n", stream);
+        return;
+    }
+    case TK_STRUCT: {
+        AstNode *sdecl = find_struct_declaration(codegen, type->name);
+        emit_formatted(codegen, "fputc('{', %s);\n", stream);
+        for (int i = 0; sdecl && i < sdecl->data.struct_decl.field_count; i++) {
+            StructField *field = &sdecl->data.struct_decl.fields[i];
+            emit_indent(codegen);
+            emit_formatted(codegen, "fputs(\"%s\\\"%s\\\": \", %s);\n", i > 0 ? ", " : "", field->name, stream);
+            char member[MSG_BUF_SIZE];
+            snprintf(member, sizeof(member), "(%s).%s", c_expr, sanitize_name(field->name));
+            emit_json_write(codegen, member, type_from_name(field->type_name), stream, depth + 1);
+        }
+        emit_indent(codegen);
+        emit_formatted(codegen, "fputc('}', %s);\n", stream);
+        return;
+    }
+    default:
+        emit_formatted(codegen, "fputs(\"null\", %s);\n", stream);
+        return;
+    }
+}
+
+/* Emit an expression for the JSON text of a value. */
+static void emit_json_encode(CodeGen *codegen, AstNode *arg) {
+    GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
+    int uid = _gray_print_uid++;
+    char stream[SHORT_VAR_BUF], value[SHORT_VAR_BUF];
+    snprintf(stream, sizeof(stream), "_gray_ts%d", uid);
+    snprintf(value, sizeof(value), "_gray_jv%d", uid);
+    emit_formatted(codegen, "({ %s %s = ", type && type->kind == TK_ARRAY ? "GrayArray" :
+                   type && type->kind == TK_MAP ? "GrayMap" : "__auto_type", value);
+    emit_expression(codegen, arg);
+    emit_formatted(codegen, "; char *_gray_tb%d = NULL; size_t _gray_tn%d = 0; FILE *%s = gray_text_open(&_gray_tb%d, &_gray_tn%d);\n",
+                   uid, uid, stream, uid, uid);
+    codegen->indent++;
+    emit_json_write(codegen, value, type, stream, 0);
+    emit_indent(codegen);
+    emit_formatted(codegen, "gray_text_close(gray_default_arena, %s, &_gray_tb%d, &_gray_tn%d); })", stream, uid, uid);
+    codegen->indent--;
+}
+
 static bool emit_json_call(CodeGen *codegen, AstNode *node, const char *func) {
     if (strcmp(func, "encode") == 0) {
-        AstNode *arg = node->data.call.args[0];
-        GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
-        if (arg_t && arg_t->kind == TK_MAP) {
-            /* Typed map: dispatch based on value type.
-             * Materialize into a temporary to handle rvalue expressions
-             * (e.g. inline map literals). */
-            emit(codegen, "({ GrayMap _jm = ");
-            emit_expression(codegen, arg);
-            if (arg_t->value_type && strcmp(arg_t->value_type, "int") == 0) {
-                emit(codegen, "; gray_json_encode_map_int(gray_default_arena, &_jm); })");
-            } else if (arg_t->value_type && strcmp(arg_t->value_type, "float") == 0) {
-                emit(codegen, "; gray_json_encode_map_float(gray_default_arena, &_jm); })");
-            } else if (arg_t->value_type && strcmp(arg_t->value_type, "bool") == 0) {
-                emit(codegen, "; gray_json_encode_map_bool(gray_default_arena, &_jm); })");
-            } else {
-                emit(codegen, "; gray_json_encode_map(gray_default_arena, &_jm); })");
-            }
-        } else if (arg_t && arg_t->kind == TK_ARRAY) {
-            /* Typed array: dispatch based on element type.
-             * Materialize into a temporary for the same rvalue reason. */
-            emit(codegen, "({ GrayArray _ja = ");
-            emit_expression(codegen, arg);
-            if (arg_t->element_type && strcmp(arg_t->element_type, "float") == 0) {
-                emit(codegen, "; gray_json_encode_array_float(gray_default_arena, &_ja); })");
-            } else if (arg_t->element_type && strcmp(arg_t->element_type, "string") == 0) {
-                emit(codegen, "; gray_json_encode_array_string(gray_default_arena, &_ja); })");
-            } else if (arg_t->element_type && strcmp(arg_t->element_type, "bool") == 0) {
-                emit(codegen, "; gray_json_encode_array_bool(gray_default_arena, &_ja); })");
-            } else {
-                emit(codegen, "; gray_json_encode_array_int(gray_default_arena, &_ja); })");
-            }
-        } else if (arg_t && arg_t->kind == TK_INT) {
-            /* Int: format as JSON number string */
-            emit(codegen, "({ char _jbuf[32]; snprintf(_jbuf, sizeof(_jbuf), \"%\" PRId64, (int64_t)");
-            emit_expression(codegen, arg);
-            emit(codegen, "); gray_string_new(gray_default_arena, _jbuf, (int32_t)strlen(_jbuf)); })");
-        } else if (arg_t && arg_t->kind == TK_FLOAT) {
-            emit(codegen, "({ char _jbuf[64]; snprintf(_jbuf, sizeof(_jbuf), \"%g\", (double)");
-            emit_expression(codegen, arg);
-            emit(codegen, "); gray_string_new(gray_default_arena, _jbuf, (int32_t)strlen(_jbuf)); })");
-        } else if (arg_t && arg_t->kind == TK_BOOL) {
-            emit(codegen, "(");
-            emit_expression(codegen, arg);
-            emit(codegen, " ? gray_string_lit(\"true\") : gray_string_lit(\"false\"))");
-        } else if (arg_t && arg_t->kind == TK_STRING) {
-            /* String: wrap in quotes */
-            emit(codegen, "({ GrayString _js = ");
-            emit_expression(codegen, arg);
-            emit(codegen, "; char *_jbuf = gray_arena_alloc(gray_default_arena, _js.len + 3); ");
-            emit(codegen, "_jbuf[0] = '\"'; memcpy(_jbuf+1, _js.data, _js.len); _jbuf[_js.len+1] = '\"'; _jbuf[_js.len+2] = '\\0'; ");
-            emit(codegen, "gray_string_new(gray_default_arena, _jbuf, _js.len + 2); })");
-        } else {
-            /* Fallback: store in temp to allow & */
-            emit(codegen, "({ __auto_type _jtmp = ");
-            emit_expression(codegen, arg);
-            emit(codegen, "; gray_json_encode_map(gray_default_arena, (GrayMap *)&_jtmp); })");
-        }
+        emit_json_encode(codegen, node->data.call.args[0]);
         return true;
     }
     if (strcmp(func, "decode") == 0) {
@@ -5062,24 +5136,8 @@ static bool emit_json_call(CodeGen *codegen, AstNode *node, const char *func) {
         emit(codegen, ")");
         return true;
     }
-    /* : json.stringify(); dispatch to per-struct helper when
-     * the argument is a #json struct. */
     if (strcmp(func, "stringify") == 0 && node->data.call.arg_count >= 1) {
-        AstNode *arg = node->data.call.args[0];
-        GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
-        if (arg_t && arg_t->kind == TK_STRUCT && arg_t->name) {
-            AstNode *sdecl = find_struct_declaration(codegen, arg_t->name);
-            if (sdecl && sdecl->data.struct_decl.is_json) {
-                emit_formatted(codegen, "gray_json_stringify_%s(gray_default_arena, ", arg_t->name);
-                emit_expression(codegen, arg);
-                emit(codegen, ")");
-                return true;
-            }
-        }
-        /* Fallback: encode as map */
-        emit(codegen, "({ __auto_type _jtmp = ");
-        emit_expression(codegen, arg);
-        emit(codegen, "; gray_json_encode_map(gray_default_arena, (GrayMap *)&_jtmp); })");
+        emit_json_encode(codegen, node->data.call.args[0]);
         return true;
     }
     if (strcmp(func, "is_valid") == 0) {
@@ -5089,8 +5147,8 @@ static bool emit_json_call(CodeGen *codegen, AstNode *node, const char *func) {
         return true;
     }
     if (strcmp(func, "pretty_print") == 0) {
-        emit(codegen, "gray_json_pretty_map(gray_default_arena, &");
-        emit_expression(codegen, node->data.call.args[0]);
+        emit(codegen, "gray_json_pretty(gray_default_arena, ");
+        emit_json_encode(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, ")");
@@ -9997,12 +10055,19 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
         }
     }
 
-    /* : emit JSON parse/stringify helpers for #json structs. Each
-     * #json struct gets two static functions:
+    /* : emit JSON parse helpers for #json structs. Each #json struct gets two
+     * static functions:
      *   - gray_json_parse_<Name>(arena, json_string) → GrayStruct_<Name>
-     *   - gray_json_stringify_<Name>(arena, struct_value) → GrayString
-     * These are called by json.parse() / json.stringify() which the
-     * typechecker dispatches based on the target/argument struct type. */
+     *   - gray_json_parse_array_<Name>(arena, json_string) → GrayArray
+     * These are called by json.parse(), which the typechecker dispatches
+     * based on the target struct type, and by each other for nested structs. */
+    for (int i = 0; i < program->data.program.stmt_count; i++) {
+        AstNode *stmt = program->data.program.stmts[i];
+        if (stmt->kind != NODE_STRUCT_DECL || !stmt->data.struct_decl.is_json) continue;
+        const char *struct_name = stmt->data.struct_decl.name;
+        emit_formatted(codegen, "static GrayStruct_%s gray_json_parse_%s(GrayArena *arena, GrayString text);\n", struct_name, struct_name);
+        emit_formatted(codegen, "static GrayArray gray_json_parse_array_%s(GrayArena *arena, GrayString text);\n", struct_name);
+    }
     for (int i = 0; i < program->data.program.stmt_count; i++) {
         AstNode *stmt = program->data.program.stmts[i];
         if (stmt->kind != NODE_STRUCT_DECL || !stmt->data.struct_decl.is_json) continue;
@@ -10012,92 +10077,36 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
         /* --- parse: JSON string → struct --- */
         emit_formatted(codegen, "static GrayStruct_%s gray_json_parse_%s(GrayArena *arena, GrayString text) {\n", struct_name, struct_name);
         emit_formatted(codegen, "    GrayStruct_%s _r = {0};\n", struct_name);
-        emit_formatted(codegen, "    GrayMap _m = gray_json_decode(arena, text);\n");
+        emit_formatted(codegen, "    GrayMap _m = gray_json_fields(arena, text);\n");
         for (int j = 0; j < field_count; j++) {
             StructField *field = &stmt->data.struct_decl.fields[j];
-            if (strcmp(field->type_name, "string") == 0) {
-                emit_formatted(codegen, "    { GrayString _k = gray_string_lit(\"%s\"); void *_v = gray_map_get(&_m, &_k);\n", field->name);
-                emit_formatted(codegen, "      if (_v) _r.%s = *(GrayString *)_v; }\n", sanitize_name(field->name));
-            } else if (strcmp(field->type_name, "int") == 0 || strcmp(field->type_name, "i64") == 0) {
-                emit_formatted(codegen, "    { GrayString _k = gray_string_lit(\"%s\"); void *_v = gray_map_get(&_m, &_k);\n", field->name);
-                emit_formatted(codegen, "      if (_v) { GrayString _sv = *(GrayString *)_v; _r.%s = gray_builtin_string_to_int(_sv); } }\n", sanitize_name(field->name));
-            } else if (strcmp(field->type_name, "float") == 0 || strcmp(field->type_name, "f64") == 0) {
-                emit_formatted(codegen, "    { GrayString _k = gray_string_lit(\"%s\"); void *_v = gray_map_get(&_m, &_k);\n", field->name);
-                emit_formatted(codegen, "      if (_v) { GrayString _sv = *(GrayString *)_v; _r.%s = gray_builtin_string_to_float(_sv); } }\n", sanitize_name(field->name));
-            } else if (strcmp(field->type_name, "bool") == 0) {
-                emit_formatted(codegen, "    { GrayString _k = gray_string_lit(\"%s\"); void *_v = gray_map_get(&_m, &_k);\n", field->name);
-                emit_formatted(codegen, "      if (_v) { GrayString _sv = *(GrayString *)_v; _r.%s = (_sv.len == 4 && memcmp(_sv.data, \"true\", 4) == 0); } }\n", sanitize_name(field->name));
-            }
+            const char *name = sanitize_name(field->name);
+            const char *tn = field->type_name;
+            GrayType *field_t = type_from_name(tn);
+            AstNode *inner = find_struct_declaration(codegen, tn);
+            AstNode *inner_elem = field_t && field_t->kind == TK_ARRAY ? find_struct_declaration(codegen, field_t->element_type) : NULL;
+            char set[MSG_BUF_SIZE] = "";
+            if (strcmp(tn, "string") == 0) {
+                snprintf(set, sizeof(set), "_r.%s = gray_json_text(arena, _v)", name);
+            } else if (strcmp(tn, "int") == 0 || strcmp(tn, "i64") == 0) {
+                snprintf(set, sizeof(set), "_r.%s = gray_builtin_string_to_int(gray_json_text(arena, _v))", name);
+            } else if (strcmp(tn, "uint") == 0 || strcmp(tn, "u64") == 0) {
+                snprintf(set, sizeof(set), "_r.%s = gray_builtin_string_to_uint(gray_json_text(arena, _v), UINT64_MAX)", name);
+            } else if (strcmp(tn, "float") == 0 || strcmp(tn, "f64") == 0) {
+                snprintf(set, sizeof(set), "_r.%s = gray_builtin_string_to_float(gray_json_text(arena, _v))", name);
+            } else if (strcmp(tn, "bool") == 0) {
+                snprintf(set, sizeof(set), "_r.%s = gray_string_eq(gray_json_text(arena, _v), gray_string_lit(\"true\"))", name);
+            } else if (inner && inner->data.struct_decl.is_json) {
+                snprintf(set, sizeof(set), "_r.%s = gray_json_parse_%s(arena, _v)", name, tn);
+            } else if (inner_elem && inner_elem->data.struct_decl.is_json) {
+                snprintf(set, sizeof(set), "_r.%s = gray_json_parse_array_%s(arena, _v)", name, field_t->element_type);
+            }
+            if (!*set) continue;
+            emit_formatted(codegen, "    { GrayString _k = gray_string_lit(\"%s\"); GrayString *_p = gray_map_get(&_m, &_k);\n", field->name);
+            emit_formatted(codegen, "      if (_p && !gray_string_eq(*_p, gray_string_lit(\"null\"))) { GrayString _v = *_p; %s; } }\n", set);
         }
         emit_formatted(codegen, "    return _r;\n}\n\n");
 
-        /* --- stringify: struct → JSON string --- */
-        emit_formatted(codegen, "static GrayString gray_json_stringify_%s(GrayArena *arena, GrayStruct_%s _s) {\n", struct_name, struct_name);
-
-        /* Pass 1: compute exact buffer size at runtime.
-         * Field names are identifiers (no escaping), so their contribution
-         * is compile-time constant.  String values need json_escaped_len().
-         * Numeric types use safe upper bounds (21 for int64, 24 for double). */
-        {
-            /* Compile-time constant part: braces + separators + all key literals */
-            int fixed = 2; /* { } */
-            for (int j = 0; j < field_count; j++) {
-                StructField *field = &stmt->data.struct_decl.fields[j];
-                if (j > 0) fixed += 2; /* ", " */
-                fixed += 2 + (int)strlen(field->name) + 2; /* "key": */
-                /* Value upper bound for non-string types */
-                if (strcmp(field->type_name, "int") == 0 || strcmp(field->type_name, "i64") == 0) {
-                    fixed += 21;
-                } else if (strcmp(field->type_name, "float") == 0 || strcmp(field->type_name, "f64") == 0) {
-                    fixed += 24;
-                } else if (strcmp(field->type_name, "bool") == 0) {
-                    fixed += 5;
-                }
-                /* string fields are added at runtime below */
-            }
-            emit_formatted(codegen, "    size_t _need = %d;\n", fixed);
-        }
-        /* Add runtime string field sizes */
-        for (int j = 0; j < field_count; j++) {
-            StructField *field = &stmt->data.struct_decl.fields[j];
-            if (strcmp(field->type_name, "string") == 0) {
-                emit_formatted(codegen, "    _need += json_escaped_len(_s.%s);\n", sanitize_name(field->name));
-            }
-        }
-
-        /* Pass 2: allocate and write */
-        emit_formatted(codegen, "    char *_buf = gray_arena_alloc(arena, _need + 1);\n");
-        emit_formatted(codegen, "    int _pos = 0;\n");
-        emit_formatted(codegen, "    _buf[_pos++] = '{';\n");
-        for (int j = 0; j < field_count; j++) {
-            StructField *field = &stmt->data.struct_decl.fields[j];
-            if (j > 0) emit_formatted(codegen, "    _buf[_pos++] = ','; _buf[_pos++] = ' ';\n");
-            /* Key */
-            emit_formatted(codegen, "    _buf[_pos++] = '\"';\n");
-            int fname_len = (int)strlen(field->name);
-            emit_formatted(codegen, "    memcpy(_buf + _pos, \"%s\", %d); _pos += %d;\n",
-                field->name, fname_len, fname_len);
-            emit_formatted(codegen, "    _buf[_pos++] = '\"'; _buf[_pos++] = ':'; _buf[_pos++] = ' ';\n");
-            /* Value */
-            if (strcmp(field->type_name, "string") == 0) {
-                emit_formatted(codegen, "    json_append_escaped(_buf, &_pos, _s.%s);\n", sanitize_name(field->name));
-            } else if (strcmp(field->type_name, "int") == 0 || strcmp(field->type_name, "i64") == 0) {
-                emit_formatted(codegen, "    _pos += snprintf(_buf + _pos, _need + 1 - (size_t)_pos, \"%%lld\", (long long)_s.%s);\n",
-                    sanitize_name(field->name));
-            } else if (strcmp(field->type_name, "float") == 0 || strcmp(field->type_name, "f64") == 0) {
-                emit_formatted(codegen, "    _pos += snprintf(_buf + _pos, _need + 1 - (size_t)_pos, \"%%g\", _s.%s);\n",
-                    sanitize_name(field->name));
-            } else if (strcmp(field->type_name, "bool") == 0) {
-                emit_formatted(codegen, "    { const char *_bv = _s.%s ? \"true\" : \"false\"; int _bl = _s.%s ? 4 : 5;\n",
-                    sanitize_name(field->name), sanitize_name(field->name));
-                emit_formatted(codegen, "      memcpy(_buf + _pos, _bv, (size_t)_bl); _pos += _bl; }\n");
-            }
-        }
-        emit_formatted(codegen, "    _buf[_pos++] = '}';\n");
-        emit_formatted(codegen, "    _buf[_pos] = '\\0';\n");
-        emit_formatted(codegen, "    return (GrayString){_buf, (int32_t)_pos};\n");
-        emit_formatted(codegen, "}\n\n");
-
         /* --- parse array: JSON array string → GrayArray of structs --- */
         emit_formatted(codegen, "static GrayArray gray_json_parse_array_%s(GrayArena *arena, GrayString text) {\n", struct_name);
         emit_formatted(codegen, "    GrayArray _elems = gray_json_split_array(arena, text);\n");
diff --git a/grayc/src/stdlib/json.c b/grayc/src/stdlib/json.c
index 322a4fa..2de790d 100644
--- a/grayc/src/stdlib/json.c
+++ b/grayc/src/stdlib/json.c
@@ -10,305 +10,145 @@
  */
 
 #include "json.h"
+#include "builtins.h"
 #include <string.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <ctype.h>
-#include <inttypes.h>
+#include <math.h>
 
 /* --- Encoder --- */
 
-/* Exact byte count that json_append_escaped would write (includes quotes). */
-size_t json_escaped_len(GrayString s) {
-    size_t n = 2; /* opening + closing quote */
+void gray_json_write_string(FILE *out, GrayString s) {
+    fputc('"', out);
     for (int32_t i = 0; i < s.len; i++) {
         unsigned char c = (unsigned char)s.data[i];
-        if (c == '"' || c == '\\') n += 2;
-        else if (c == '\b' || c == '\f' || c == '\n' || c == '\r' || c == '\t') n += 2;
-        else if (c < 0x20) n += 6; /* \uXXXX */
-        else n += 1;
+        if (c == '"' || c == '\\') { fputc('\\', out); fputc(c, out); }
+        else if (c == '\b') fputs("\\b", out);
+        else if (c == '\f') fputs("\\f", out);
+        else if (c == '\n') fputs("\\n", out);
+        else if (c == '\r') fputs("\\r", out);
+        else if (c == '\t') fputs("\\t", out);
+        else if (c < 0x20) fprintf(out, "\\u%04x", c);
+        else fputc(c, out);
     }
-    return n;
+    fputc('"', out);
 }
 
-void json_append_escaped(char *buf, int *pos, GrayString s) {
-    static const char hex[] = "0123456789abcdef";
-    buf[(*pos)++] = '"';
-    for (int32_t i = 0; i < s.len; i++) {
-        unsigned char c = (unsigned char)s.data[i];
-        if (c == '"') { buf[(*pos)++] = '\\'; buf[(*pos)++] = '"'; }
-        else if (c == '\\') { buf[(*pos)++] = '\\'; buf[(*pos)++] = '\\'; }
-        else if (c == '\b') { buf[(*pos)++] = '\\'; buf[(*pos)++] = 'b'; }
-        else if (c == '\f') { buf[(*pos)++] = '\\'; buf[(*pos)++] = 'f'; }
-        else if (c == '\n') { buf[(*pos)++] = '\\'; buf[(*pos)++] = 'n'; }
-        else if (c == '\r') { buf[(*pos)++] = '\\'; buf[(*pos)++] = 'r'; }
-        else if (c == '\t') { buf[(*pos)++] = '\\'; buf[(*pos)++] = 't'; }
-        else if (c < 0x20) {
-            buf[(*pos)++] = '\\'; buf[(*pos)++] = 'u';
-            buf[(*pos)++] = '0'; buf[(*pos)++] = '0';
-            buf[(*pos)++] = hex[c >> 4]; buf[(*pos)++] = hex[c & 0xf];
-        }
-        else buf[(*pos)++] = (char)c;
-    }
-    buf[(*pos)++] = '"';
-}
-
-/* Helper: byte length of a map[string:string] value in JSON output.
- * All string values are always quoted — never infer JSON types from content. */
-static size_t json_map_val_len(GrayString *val) {
-    return json_escaped_len(*val);
-}
-
-GrayString gray_json_encode_map(GrayArena *arena, GrayMap *m) {
-    /* Pass 1: compute exact size */
-    size_t need = 2; /* { } */
-    int counted = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (counted > 0) need += 1; /* comma */
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        GrayString *val = (GrayString *)((char *)m->values + (size_t)i * (size_t)m->value_size);
-        need += json_escaped_len(*key) + 1 /* colon */ + json_map_val_len(val);
-        counted++;
+void gray_json_write_float(FILE *out, double value) {
+    /* The shortest digits that read back as the same value; JSON has no infinities or NaN */
+    if (!isfinite(value)) { fputs("null", out); return; }
+    char text[32];
+    for (int digits = 6; digits <= 17; digits++) {
+        snprintf(text, sizeof(text), "%.*g", digits, value);
+        if (strtod(text, NULL) == value) break;
     }
-    /* Pass 2: write */
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '{';
-    int entry = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (entry > 0) { buf[pos++] = ','; }
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        GrayString *val = (GrayString *)((char *)m->values + (size_t)i * (size_t)m->value_size);
-        json_append_escaped(buf, &pos, *key);
-        buf[pos++] = ':';
-        json_append_escaped(buf, &pos, *val);
-        entry++;
-    }
-    buf[pos++] = '}';
-    buf[pos] = '\0';
-    GrayString r = { buf, (int32_t)pos };
-    return r;
+    fputs(text, out);
 }
 
-/* --- Array Encoders --- */
-
-GrayString gray_json_encode_array_int(GrayArena *arena, GrayArray *arr) {
-    /* 21 chars max per int64 + comma, plus brackets + nul */
-    size_t need = 2 + (arr->len > 0 ? (size_t)arr->len * 22 - 1 : 0);
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '[';
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (i > 0) { buf[pos++] = ','; }
-        int64_t val = *(int64_t *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size);
-        int w = snprintf(buf + pos, need + 1 - (size_t)pos, "%" PRId64, val);
-        if (w > 0 && (size_t)w < need + 1 - (size_t)pos) pos += w;
-        else { pos = (int)need; break; }
-    }
-    buf[pos++] = ']';
-    buf[pos] = '\0';
-    return (GrayString){ buf, (int32_t)pos };
-}
-
-GrayString gray_json_encode_array_float(GrayArena *arena, GrayArray *arr) {
-    /* 24 chars max per %g double + comma, plus brackets + nul */
-    size_t need = 2 + (arr->len > 0 ? (size_t)arr->len * 25 - 1 : 0);
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '[';
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (i > 0) { buf[pos++] = ','; }
-        double val = *(double *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size);
-        int w = snprintf(buf + pos, need + 1 - (size_t)pos, "%g", val);
-        if (w > 0 && (size_t)w < need + 1 - (size_t)pos) pos += w;
-        else { pos = (int)need; break; }
-    }
-    buf[pos++] = ']';
-    buf[pos] = '\0';
-    return (GrayString){ buf, (int32_t)pos };
-}
-
-GrayString gray_json_encode_array_string(GrayArena *arena, GrayArray *arr) {
-    /* Pass 1: exact size */
-    size_t need = 2; /* [ ] */
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (i > 0) need += 1; /* comma */
-        GrayString *val = (GrayString *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size);
-        need += json_escaped_len(*val);
-    }
-    /* Pass 2: write */
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '[';
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (i > 0) { buf[pos++] = ','; }
-        GrayString *val = (GrayString *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size);
-        json_append_escaped(buf, &pos, *val);
-    }
-    buf[pos++] = ']';
-    buf[pos] = '\0';
-    return (GrayString){ buf, (int32_t)pos };
-}
+/* --- Decoder --- */
 
-GrayString gray_json_encode_array_bool(GrayArena *arena, GrayArray *arr) {
-    /* Pass 1: exact size */
-    size_t need = 2; /* [ ] */
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (i > 0) need += 1;
-        bool val = *(bool *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size);
-        need += val ? 4 : 5;
-    }
-    /* Pass 2: write */
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '[';
-    for (int32_t i = 0; i < arr->len; i++) {
-        if (i > 0) { buf[pos++] = ','; }
-        bool val = *(bool *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size);
-        if (val) { memcpy(buf + pos, "true", 4); pos += 4; }
-        else { memcpy(buf + pos, "false", 5); pos += 5; }
-    }
-    buf[pos++] = ']';
-    buf[pos] = '\0';
-    return (GrayString){ buf, (int32_t)pos };
+static void skip_ws(const char **s, const char *end) {
+    while (*s < end && (**s == ' ' || **s == '\t' || **s == '\n' || **s == '\r')) (*s)++;
 }
 
-/* --- Typed Map Encoders --- */
-
-GrayString gray_json_encode_map_int(GrayArena *arena, GrayMap *m) {
-    /* Pass 1: exact size — key (escaped) + colon + int (max 21) */
-    size_t need = 2;
-    int counted = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (counted > 0) need += 1;
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        need += json_escaped_len(*key) + 1 + 21;
-        counted++;
-    }
-    /* Pass 2: write */
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '{';
-    int entry = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (entry > 0) { buf[pos++] = ','; }
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        int64_t *val = (int64_t *)((char *)m->values + (size_t)i * (size_t)m->value_size);
-        json_append_escaped(buf, &pos, *key);
-        buf[pos++] = ':';
-        int w = snprintf(buf + pos, need + 1 - (size_t)pos, "%" PRId64, *val);
-        if (w > 0 && (size_t)w < need + 1 - (size_t)pos) pos += w;
-        else { pos = (int)need; break; }
-        entry++;
+static unsigned hex4(const char *s) {
+    unsigned value = 0;
+    for (int i = 0; i < 4; i++) {
+        char c = s[i];
+        value = value * 16 + (unsigned)(c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10);
     }
-    buf[pos++] = '}';
-    buf[pos] = '\0';
-    return (GrayString){ buf, (int32_t)pos };
+    return value;
 }
 
-GrayString gray_json_encode_map_float(GrayArena *arena, GrayMap *m) {
-    /* Pass 1: exact size — key (escaped) + colon + float (max 24) */
-    size_t need = 2;
-    int counted = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (counted > 0) need += 1;
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        need += json_escaped_len(*key) + 1 + 24;
-        counted++;
-    }
-    /* Pass 2: write */
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '{';
-    int entry = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (entry > 0) { buf[pos++] = ','; }
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        double *val = (double *)((char *)m->values + (size_t)i * (size_t)m->value_size);
-        json_append_escaped(buf, &pos, *key);
-        buf[pos++] = ':';
-        int w = snprintf(buf + pos, need + 1 - (size_t)pos, "%g", *val);
-        if (w > 0 && (size_t)w < need + 1 - (size_t)pos) pos += w;
-        else { pos = (int)need; break; }
-        entry++;
-    }
-    buf[pos++] = '}';
-    buf[pos] = '\0';
-    return (GrayString){ buf, (int32_t)pos };
+static bool is_hex4(const char *s, const char *end) {
+    if (end - s < 4) return false;
+    for (int i = 0; i < 4; i++) if (!isxdigit((unsigned char)s[i])) return false;
+    return true;
 }
 
-GrayString gray_json_encode_map_bool(GrayArena *arena, GrayMap *m) {
-    /* Pass 1: exact size */
-    size_t need = 2;
-    int counted = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (counted > 0) need += 1;
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        bool *val = (bool *)((char *)m->values + (size_t)i * (size_t)m->value_size);
-        need += json_escaped_len(*key) + 1 + (*val ? 4 : 5);
-        counted++;
-    }
-    /* Pass 2: write */
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '{';
-    int entry = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (entry > 0) { buf[pos++] = ','; }
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        bool *val = (bool *)((char *)m->values + (size_t)i * (size_t)m->value_size);
-        json_append_escaped(buf, &pos, *key);
-        buf[pos++] = ':';
-        if (*val) { memcpy(buf + pos, "true", 4); pos += 4; }
-        else { memcpy(buf + pos, "false", 5); pos += 5; }
-        entry++;
+static int put_utf8(char *out, unsigned c) {
+    if (c < 0x80) { out[0] = (char)c; return 1; }
+    if (c < 0x800) { out[0] = (char)(0xC0 | c >> 6); out[1] = (char)(0x80 | (c & 0x3F)); return 2; }
+    if (c < 0x10000) {
+        out[0] = (char)(0xE0 | c >> 12); out[1] = (char)(0x80 | (c >> 6 & 0x3F)); out[2] = (char)(0x80 | (c & 0x3F));
+        return 3;
     }
-    buf[pos++] = '}';
-    buf[pos] = '\0';
-    return (GrayString){ buf, (int32_t)pos };
-}
-
-/* --- Decoder --- */
-
-static void skip_ws(const char **s, const char *end) {
-    while (*s < end && isspace((unsigned char)**s)) (*s)++;
+    out[0] = (char)(0xF0 | c >> 18); out[1] = (char)(0x80 | (c >> 12 & 0x3F));
+    out[2] = (char)(0x80 | (c >> 6 & 0x3F)); out[3] = (char)(0x80 | (c & 0x3F));
+    return 4;
 }
 
 static GrayString parse_json_string(GrayArena *arena, const char **s, const char *end) {
-    if (**s != '"') return gray_string_lit("");
+    if (*s >= end || **s != '"') return gray_string_lit("");
     (*s)++;
-    const char *start = *s;
-    while (*s < end && **s != '"') {
-        if (**s == '\\') (*s)++;
-        (*s)++;
+    /* No escape is longer than what it stands for */
+    const char *close = *s;
+    while (close < end && *close != '"') close += *close == '\\' && close + 1 < end ? 2 : 1;
+    char *text = gray_arena_alloc(arena, (size_t)(close - *s) + 1);
+    int32_t length = 0;
+    while (*s < close) {
+        char c = *(*s)++;
+        if (c != '\\' || *s >= close) { text[length++] = c; continue; }
+        c = *(*s)++;
+        switch (c) {
+        case 'b': text[length++] = '\b'; break;
+        case 'f': text[length++] = '\f'; break;
+        case 'n': text[length++] = '\n'; break;
+        case 'r': text[length++] = '\r'; break;
+        case 't': text[length++] = '\t'; break;
+        case 'u': {
+            if (!is_hex4(*s, close)) { text[length++] = c; break; }
+            unsigned unit = hex4(*s);
+            *s += 4;
+            if (unit >= 0xD800 && unit < 0xDC00 && close - *s >= 6 && (*s)[0] == '\\' && (*s)[1] == 'u' &&
+                is_hex4(*s + 2, close) && hex4(*s + 2) >= 0xDC00 && hex4(*s + 2) < 0xE000) {
+                unit = 0x10000 + ((unit - 0xD800) << 10) + (hex4(*s + 2) - 0xDC00);
+                *s += 6;
+            } else if (unit >= 0xD800 && unit < 0xE000) {
+                unit = 0xFFFD; /* half of a surrogate pair */
+            }
+            length += put_utf8(text + length, unit);
+            break;
+        }
+        default: text[length++] = c; break;
+        }
     }
-    GrayString r = gray_string_new(arena, start, (int32_t)(*s - start));
+    text[length] = '\0';
     if (*s < end) (*s)++; /* skip closing quote */
-    return r;
+    return (GrayString){text, length};
 }
 
-static GrayString parse_json_value_as_string(GrayArena *arena, const char **s, const char *end) {
-    skip_ws(s, end);
-    if (*s >= end) return gray_string_lit("");
-
-    if (**s == '"') {
-        return parse_json_string(arena, s, end);
-    }
-
-    /* Number, bool, null — read until delimiter */
-    const char *start = *s;
-    while (*s < end && **s != ',' && **s != '}' && **s != ']' && !isspace((unsigned char)**s)) (*s)++;
-    return gray_string_new(arena, start, (int32_t)(*s - start));
+/* Skip one value: a string, an array or object with everything in it, or a
+ * scalar up to the next delimiter. */
+static void skip_json_value(const char **s, const char *end) {
+    int depth = 0;
+    do {
+        if (*s >= end) return;
+        char c = **s;
+        if (c == '"') {
+            (*s)++;
+            while (*s < end && **s != '"') *s += **s == '\\' && *s + 1 < end ? 2 : 1;
+            if (*s < end) (*s)++;
+        } else if (c == '{' || c == '[') {
+            depth++;
+            (*s)++;
+        } else if (c == '}' || c == ']') {
+            if (depth == 0) return;
+            depth--;
+            (*s)++;
+        } else if (depth > 0 && (c == ',' || c == ':' || isspace((unsigned char)c))) {
+            (*s)++;
+        } else {
+            do (*s)++;
+            while (*s < end && !memchr(",:{}[]\"", **s, 7) && !isspace((unsigned char)**s));
+            if (depth == 0) return;
+        }
+    } while (depth > 0);
 }
 
-GrayMap gray_json_decode(GrayArena *arena, GrayString text) {
+/* The fields of a JSON object, each with the text of its value as written */
+GrayMap gray_json_fields(GrayArena *arena, GrayString text) {
     GrayMap m = gray_map_new(arena, sizeof(GrayString), sizeof(GrayString), 8);
     const char *s = text.data;
     const char *end = s + text.len;
@@ -318,16 +158,35 @@ GrayMap gray_json_decode(GrayArena *arena, GrayString text) {
 
     while (s < end) {
         skip_ws(&s, end);
-        if (s >= end || *s == '}') break;
-
+        if (s >= end || *s != '"') break;
         GrayString key = parse_json_string(arena, &s, end);
         skip_ws(&s, end);
         if (s < end && *s == ':') s++;
-        GrayString val = parse_json_value_as_string(arena, &s, end);
-        gray_map_set(arena, &m, &key, &val);
+        skip_ws(&s, end);
+        const char *start = s;
+        skip_json_value(&s, end);
+        GrayString value = gray_string_new(arena, start, (int32_t)(s - start));
+        gray_map_set(arena, &m, &key, &value);
 
         skip_ws(&s, end);
-        if (s < end && *s == ',') s++;
+        if (s >= end || *s != ',') break;
+        s++;
+    }
+    return m;
+}
+
+/* The text a value stands for: a string without quotes and escapes, anything
+ * else as written. */
+GrayString gray_json_text(GrayArena *arena, GrayString raw) {
+    const char *s = raw.data;
+    return raw.len > 0 && *s == '"' ? parse_json_string(arena, &s, s + raw.len) : raw;
+}
+
+GrayMap gray_json_decode(GrayArena *arena, GrayString text) {
+    GrayMap m = gray_json_fields(arena, text);
+    for (int32_t i = 0; i < m.order_len; i++) {
+        GrayString *value = gray_map_value_at(&m, m.order[i]);
+        *value = gray_json_text(arena, *value);
     }
     return m;
 }
@@ -350,10 +209,6 @@ GrayMap gray_json_decode(GrayArena *arena, GrayString text) {
 
 static bool v_value(const char **s, const char *end, int depth);
 
-static void v_skip_ws(const char **s, const char *end) {
-    while (*s < end && isspace((unsigned char)**s)) (*s)++;
-}
-
 static bool v_string_lit(const char **s, const char *end) {
     if (*s >= end || **s != '"') return false;
     (*s)++;
@@ -425,12 +280,12 @@ static bool v_literal(const char **s, const char *end, const char *lit) {
 static bool v_array(const char **s, const char *end, int depth) {
     if (*s >= end || **s != '[') return false;
     (*s)++;
-    v_skip_ws(s, end);
+    skip_ws(s, end);
     if (*s < end && **s == ']') { (*s)++; return true; }
     for (;;) {
-        v_skip_ws(s, end);
+        skip_ws(s, end);
         if (!v_value(s, end, depth + 1)) return false;
-        v_skip_ws(s, end);
+        skip_ws(s, end);
         if (*s >= end) return false;
         if (**s == ',') { (*s)++; continue; }
         if (**s == ']') { (*s)++; return true; }
@@ -441,17 +296,17 @@ static bool v_array(const char **s, const char *end, int depth) {
 static bool v_object(const char **s, const char *end, int depth) {
     if (*s >= end || **s != '{') return false;
     (*s)++;
-    v_skip_ws(s, end);
+    skip_ws(s, end);
     if (*s < end && **s == '}') { (*s)++; return true; }
     for (;;) {
-        v_skip_ws(s, end);
+        skip_ws(s, end);
         if (!v_string_lit(s, end)) return false;
-        v_skip_ws(s, end);
+        skip_ws(s, end);
         if (*s >= end || **s != ':') return false;
         (*s)++;
-        v_skip_ws(s, end);
+        skip_ws(s, end);
         if (!v_value(s, end, depth + 1)) return false;
-        v_skip_ws(s, end);
+        skip_ws(s, end);
         if (*s >= end) return false;
         if (**s == ',') { (*s)++; continue; }
         if (**s == '}') { (*s)++; return true; }
@@ -461,7 +316,7 @@ static bool v_object(const char **s, const char *end, int depth) {
 
 static bool v_value(const char **s, const char *end, int depth) {
     if (depth > GRAY_JSON_MAX_DEPTH) return false;
-    v_skip_ws(s, end);
+    skip_ws(s, end);
     if (*s >= end) return false;
     char c = **s;
     if (c == '{') return v_object(s, end, depth);
@@ -478,49 +333,52 @@ bool gray_json_is_valid(GrayString text) {
     if (text.len <= 0 || !text.data) return false;
     const char *s = text.data;
     const char *end = s + text.len;
-    v_skip_ws(&s, end);
+    skip_ws(&s, end);
     if (s >= end) return false;
     if (!v_value(&s, end, 0)) return false;
-    v_skip_ws(&s, end);
+    skip_ws(&s, end);
     return s == end;
 }
 
-GrayString gray_json_pretty_map(GrayArena *arena, GrayMap *m, int64_t indent_size) {
-    /* Pass 1: exact size */
-    size_t indent = indent_size > 0 ? (size_t)indent_size : 0;
-    size_t need = 3; /* { \n } */
-    int counted = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (counted > 0) need += 2; /* ,\n */
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        GrayString *val = (GrayString *)((char *)m->values + (size_t)i * (size_t)m->value_size);
-        need += indent + json_escaped_len(*key) + 2 /* ": " */ + json_escaped_len(*val);
-        counted++;
-    }
-    if (counted > 0) need += 1; /* trailing \n before } */
-    /* Pass 2: write */
-    char *buf = gray_arena_alloc(arena, need + 1);
-    int pos = 0;
-    buf[pos++] = '{';
-    buf[pos++] = '\n';
-    int entry = 0;
-    for (int32_t i = 0; i < m->capacity; i++) {
-        if (m->states[i] != 1) continue;
-        if (entry > 0) { buf[pos++] = ','; buf[pos++] = '\n'; }
-        for (size_t j = 0; j < indent; j++) buf[pos++] = ' ';
-        GrayString *key = (GrayString *)((char *)m->keys + (size_t)i * (size_t)m->key_size);
-        GrayString *val = (GrayString *)((char *)m->values + (size_t)i * (size_t)m->value_size);
-        json_append_escaped(buf, &pos, *key);
-        buf[pos++] = ':'; buf[pos++] = ' ';
-        json_append_escaped(buf, &pos, *val);
-        entry++;
+static void pretty_break(FILE *out, int depth, int64_t indent) {
+    fputc('\n', out);
+    for (int64_t i = 0; i < depth * indent; i++) fputc(' ', out);
+}
+
+/* Lay out valid JSON text over several lines */
+GrayString gray_json_pretty(GrayArena *arena, GrayString text, int64_t indent) {
+    char *buffer = NULL;
+    size_t size = 0;
+    FILE *out = gray_text_open(&buffer, &size);
+    if (indent < 0) indent = 0;
+    int depth = 0;
+    for (int32_t i = 0; i < text.len; i++) {
+        char c = text.data[i];
+        if (c == '"') {
+            fputc(c, out);
+            for (i++; i < text.len && text.data[i] != '"'; i++) {
+                fputc(text.data[i], out);
+                if (text.data[i] == '\\' && i + 1 < text.len) fputc(text.data[++i], out);
+            }
+            fputc('"', out);
+        } else if (c == '{' || c == '[') {
+            fputc(c, out);
+            char next = i + 1 < text.len ? text.data[i + 1] : '\0';
+            if (next == '}' || next == ']') { fputc(next, out); i++; }
+            else pretty_break(out, ++depth, indent);
+        } else if (c == '}' || c == ']') {
+            pretty_break(out, --depth, indent);
+            fputc(c, out);
+        } else if (c == ',') {
+            fputc(c, out);
+            pretty_break(out, depth, indent);
+        } else if (c == ':') {
+            fputs(": ", out);
+        } else if (c != ' ') {
+            fputc(c, out);
+        }
     }
-    buf[pos++] = '\n';
-    buf[pos++] = '}';
-    buf[pos] = '\0';
-    GrayString r = { buf, (int32_t)pos };
-    return r;
+    return gray_text_close(arena, out, &buffer, &size);
 }
 
 /* --- Array splitter ---
@@ -595,6 +453,9 @@ GrayResult_map gray_json_decode_result(GrayArena *arena, GrayString text) {
         return r;
     }
     r.v0 = gray_json_decode(arena, text);
-    r.v1 = NULL;
+    /* valid, but not an object: there is no map it could denote */
+    const char *s = text.data, *end = s + text.len;
+    skip_ws(&s, end);
+    r.v1 = *s == '{' ? NULL : gray_error_new(arena, gray_string_format(arena, "JSON value is not an object"));
     return r;
 }
diff --git a/grayc/src/stdlib/json.h b/grayc/src/stdlib/json.h
index a10d073..7d8374d 100644
--- a/grayc/src/stdlib/json.h
+++ b/grayc/src/stdlib/json.h
@@ -14,10 +14,13 @@
 #include "../runtime/runtime.h"
 #include "../runtime/array.h"
 #include "../runtime/map.h"
+#include <stdio.h>
 
-/* JSON string escaping helpers (used by generated #json struct code) */
-size_t json_escaped_len(GrayString s);
-void json_append_escaped(char *buf, int *pos, GrayString s);
+/* Writers and readers used by generated code */
+void gray_json_write_string(FILE *out, GrayString s);
+void gray_json_write_float(FILE *out, double value);
+GrayMap gray_json_fields(GrayArena *arena, GrayString text);
+GrayString gray_json_text(GrayArena *arena, GrayString raw);
 
 /*@man encode
  *@module json
@@ -34,19 +37,7 @@ void json_append_escaped(char *buf, int *pos, GrayString s);
  *   println(json.encode(arr))
  *@end
  */
-/* json.encode(value) — convert map to JSON string */
-GrayString gray_json_encode_map(GrayArena *arena, GrayMap *m);
-
-/* json.encode(array) — convert typed arrays to JSON */
-GrayString gray_json_encode_array_int(GrayArena *arena, GrayArray *arr);
-GrayString gray_json_encode_array_float(GrayArena *arena, GrayArray *arr);
-GrayString gray_json_encode_array_string(GrayArena *arena, GrayArray *arr);
-GrayString gray_json_encode_array_bool(GrayArena *arena, GrayArray *arr);
-
-/* json.encode(map) — convert typed maps to JSON */
-GrayString gray_json_encode_map_int(GrayArena *arena, GrayMap *m);
-GrayString gray_json_encode_map_float(GrayArena *arena, GrayMap *m);
-GrayString gray_json_encode_map_bool(GrayArena *arena, GrayMap *m);
+/* json.encode — codegen-dispatched on the value's type */
 
 /*@man stringify
  *@module json
@@ -127,8 +118,8 @@ bool gray_json_is_valid(GrayString text);
  *   println(json.pretty_print(m, 2))
  *@end
  */
-/* json.pretty(value, indent) — pretty-print JSON */
-GrayString gray_json_pretty_map(GrayArena *arena, GrayMap *m, int64_t indent);
+/* json.pretty_print(m, indent) — lay out the encoded map */
+GrayString gray_json_pretty(GrayArena *arena, GrayString text, int64_t indent);
 
 /* json array splitting: returns an GrayArray of GrayString, each being one
  * top-level JSON element from a JSON array string like "[{...},{...}]". */
-- 
2.43.0


From 373f2f4c494e68fc7ad2b1cc4fe4d7fbe3c6e1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:57:18 +0000
Subject: [PATCH 53/96] fix: io reports failed reads, writes and closes;
 recursive operations do not follow links; path edge cases

---
 grayc/src/stdlib/io.c | 353 ++++++++++++++++++------------------------
 1 file changed, 148 insertions(+), 205 deletions(-)

diff --git a/grayc/src/stdlib/io.c b/grayc/src/stdlib/io.c
index 4535ae6..a310416 100644
--- a/grayc/src/stdlib/io.c
+++ b/grayc/src/stdlib/io.c
@@ -25,19 +25,20 @@
 #include <errno.h>
 #include <glob.h>
 #include <stdlib.h>
+#include <pthread.h>
 
 #define GRAY_IO_PATH_BUF          4096
 #define GRAY_IO_COPY_BUF          8192
-#define GRAY_IO_MAX_SEGMENTS      256
 #define GRAY_IO_DIR_MODE          0755
 #define GRAY_IO_FILE_MODE         0644
 #define GRAY_IO_WALK_INITIAL_CAP  32
-#define GRAY_IO_MAX_TEMP_PATHS    256
 
 /* ---- Temp cleanup registry ---- */
 
-static char *temp_paths[GRAY_IO_MAX_TEMP_PATHS];
+static pthread_mutex_t temp_lock = PTHREAD_MUTEX_INITIALIZER;
+static char **temp_paths = NULL;
 static int temp_path_count = 0;
+static int temp_path_cap = 0;
 static bool temp_cleanup_registered = false;
 
 static bool remove_dir_recursive(const char *path); /* forward decl */
@@ -45,7 +46,7 @@ static bool remove_dir_recursive(const char *path); /* forward decl */
 static void gray_io_temp_cleanup(void) {
     for (int i = 0; i < temp_path_count; i++) {
         struct stat st;
-        if (stat(temp_paths[i], &st) == 0) {
+        if (lstat(temp_paths[i], &st) == 0) {
             if (S_ISDIR(st.st_mode))
                 remove_dir_recursive(temp_paths[i]);
             else
@@ -57,13 +58,19 @@ static void gray_io_temp_cleanup(void) {
 }
 
 static void temp_registry_add(const char *path) {
+    pthread_mutex_lock(&temp_lock);
     if (!temp_cleanup_registered) {
         atexit(gray_io_temp_cleanup);
         temp_cleanup_registered = true;
     }
-    if (temp_path_count < GRAY_IO_MAX_TEMP_PATHS) {
-        temp_paths[temp_path_count++] = strdup(path);
+    if (temp_path_count == temp_path_cap) {
+        int cap = temp_path_cap ? temp_path_cap * 2 : 64;
+        char **grown = realloc(temp_paths, (size_t)cap * sizeof(*grown));
+        if (grown) { temp_paths = grown; temp_path_cap = cap; }
     }
+    char *copy = temp_path_count < temp_path_cap ? strdup(path) : NULL;
+    if (copy) temp_paths[temp_path_count++] = copy;
+    pthread_mutex_unlock(&temp_lock);
 }
 
 /* ---- Path manipulation (pure, no I/O) ---- */
@@ -75,7 +82,7 @@ GrayString gray_io_path_join(GrayArena *arena, GrayArray parts) {
         GrayString seg = GRAY_ARRAY_GET(parts, GrayString, i);
         if (seg.len == 0) continue;
         /* Absolute segment replaces accumulated path */
-        if (seg.data[0] == '/' || seg.data[0] == '\\') {
+        if (result.len == 0 || seg.data[0] == '/' || seg.data[0] == '\\') {
             result = seg;
             continue;
         }
@@ -162,7 +169,7 @@ GrayString gray_io_normalize(GrayArena *arena, GrayString path) {
     bool absolute = (buf[0] == '/');
 
     /* Split into segments */
-    char *segments[GRAY_IO_MAX_SEGMENTS];
+    char **segments = gray_arena_alloc(arena, ((size_t)path.len / 2 + 1) * sizeof(char *));
     int seg_count = 0;
     char *tok = buf;
     while (*tok) {
@@ -179,7 +186,7 @@ GrayString gray_io_normalize(GrayArena *arena, GrayString path) {
                 segments[seg_count++] = seg_start;
             }
         } else {
-            if (seg_count < GRAY_IO_MAX_SEGMENTS) segments[seg_count++] = seg_start;
+            segments[seg_count++] = seg_start;
         }
     }
 
@@ -203,77 +210,59 @@ GrayString gray_io_normalize(GrayArena *arena, GrayString path) {
 
 /* ---- Existing file operations ---- */
 
-GrayString gray_io_read_file(GrayArena *arena, GrayString path) {
-    struct stat _st;
-    if (stat(path.data, &_st) == 0 && S_ISDIR(_st.st_mode))
-        gray_panic_code("P0086", "io.read_file() cannot read a directory; use io.list_dir() or io.walk() to list directory contents");
-    FILE *f = fopen(path.data, "rb");
-    if (!f) return gray_string_lit("");
-
-    /* Try to size the buffer from the file. Falls back to streaming
-     * when the file isn't seekable (pipes, FIFOs, /dev/stdin, /proc,
-     * sockets). On those, ftell returns -1, which used to wrap to
-     * (size_t)-1 + 1 = 0 and let fread write past the arena slot. */
-    long size = -1;
-    if (fseek(f, 0, SEEK_END) == 0) {
-        size = ftell(f);
-        if (size >= 0) (void)fseek(f, 0, SEEK_SET);
-    }
-
-    if (size >= 0 && size <= INT32_MAX) {
-        char *buf = gray_arena_alloc(arena, (size_t)size + 1);
-        size_t read = fread(buf, 1, (size_t)size, f);
-        buf[read] = '\0';
-        fclose(f);
-        return (GrayString){ buf, (int32_t)read };
-    }
+typedef enum { READ_OK, READ_FAILED, READ_TOO_BIG } ReadStatus;
 
-    /* Streaming fallback for non-seekable inputs. */
-    clearerr(f);
+/* Read f up to end of file into an arena buffer with a terminating NUL. The
+ * file size is only a hint: pipes, devices and /proc files do not report it. */
+static ReadStatus read_stream(GrayArena *arena, FILE *f, char **data, int32_t *data_len) {
     size_t capacity = 4096;
+    struct stat st;
+    if (fstat(fileno(f), &st) == 0 && S_ISREG(st.st_mode)) {
+        if (st.st_size > INT32_MAX) return READ_TOO_BIG;
+        if (st.st_size > 0) capacity = (size_t)st.st_size + 1;
+    }
     size_t len = 0;
     char *buf = gray_arena_alloc(arena, capacity);
     for (;;) {
-        if (len == capacity) {
-            if (capacity > (size_t)INT32_MAX / 2) {
-                fclose(f);
-                gray_panic_code("P0053", "io.read_file: input exceeds maximum string length");
-            }
-            size_t new_capacity = capacity * 2;
-            char *new_buffer = gray_arena_alloc(arena, new_capacity);
-            memcpy(new_buffer, buf, len);
-            buf = new_buffer;
-            capacity = new_capacity;
-        }
         size_t got = fread(buf + len, 1, capacity - len, f);
-        if (got == 0) break;
         len += got;
-    }
-    if (len == capacity) {
-        char *grow = gray_arena_alloc(arena, len + 1);
-        memcpy(grow, buf, len);
-        buf = grow;
-    }
+        if (len < capacity) break;
+        if (len > INT32_MAX) return READ_TOO_BIG;
+        size_t new_capacity = capacity * 2;
+        char *new_buffer = gray_arena_alloc(arena, new_capacity);
+        memcpy(new_buffer, buf, len);
+        buf = new_buffer;
+        capacity = new_capacity;
+    }
+    if (ferror(f)) return READ_FAILED;
+    if (len > INT32_MAX) return READ_TOO_BIG;
     buf[len] = '\0';
+    *data = buf;
+    *data_len = (int32_t)len;
+    return READ_OK;
+}
+
+GrayString gray_io_read_file(GrayArena *arena, GrayString path) {
+    struct stat _st;
+    if (stat(path.data, &_st) == 0 && S_ISDIR(_st.st_mode))
+        gray_panic_code("P0086", "io.read_file() cannot read a directory; use io.list_dir() or io.walk() to list directory contents");
+    FILE *f = fopen(path.data, "rb");
+    if (!f) return gray_string_lit("");
+    char *buf = NULL;
+    int32_t len = 0;
+    ReadStatus status = read_stream(arena, f, &buf, &len);
     fclose(f);
-    return (GrayString){ buf, (int32_t)len };
+    if (status == READ_TOO_BIG)
+        gray_panic_code("P0053", "io.read_file: input exceeds maximum string length");
+    if (status != READ_OK) return gray_string_lit("");
+    return (GrayString){ buf, len };
 }
 
 GrayArray gray_io_read_bytes(GrayArena *arena, GrayString path) {
     struct stat _st;
     if (stat(path.data, &_st) == 0 && S_ISDIR(_st.st_mode))
         gray_panic_code("P0086", "io.read_bytes() cannot read a directory");
-    FILE *f = fopen(path.data, "rb");
-    GrayArray arr = gray_array_new(arena, (int32_t)sizeof(uint8_t), 0);
-    if (!f) return arr;
-    uint8_t buf[4096];
-    size_t n;
-    while ((n = fread(buf, 1, sizeof(buf), f)) > 0) {
-        for (size_t i = 0; i < n; i++)
-            gray_array_push(arena, &arr, &buf[i]);
-    }
-    fclose(f);
-    return arr;
+    return gray_io_read_bytes_result(arena, path).v0;
 }
 
 GrayArray gray_io_read_lines(GrayArena *arena, GrayString path) {
@@ -331,48 +320,41 @@ GrayResult_int gray_io_file_size_result(GrayArena *arena, GrayString path) {
     return (GrayResult_int){(int64_t)st.st_size, NULL};
 }
 
+/* Write all of data; buffered output only fails, at the latest, in fclose. */
+static bool write_all(const char *path, const char *mode, const void *data, size_t len) {
+    FILE *f = fopen(path, mode);
+    if (!f) return false;
+    bool ok = fwrite(data, 1, len, f) == len;
+    if (fclose(f) != 0) ok = false;
+    return ok;
+}
+
 bool gray_io_write_file(GrayString path, GrayString content) {
     struct stat _st;
     if (stat(path.data, &_st) == 0 && S_ISDIR(_st.st_mode))
         gray_panic_code("P0087", "io.write_file() cannot write to a directory");
-    FILE *f = fopen(path.data, "wb");
-    if (!f) return false;
-    size_t written = fwrite(content.data, 1, (size_t)content.len, f);
-    fclose(f);
-    return written == (size_t)content.len;
+    return write_all(path.data, "wb", content.data, (size_t)content.len);
 }
 
 bool gray_io_append_file(GrayString path, GrayString content) {
     struct stat _st;
     if (stat(path.data, &_st) == 0 && S_ISDIR(_st.st_mode))
         gray_panic_code("P0088", "io.append_file() cannot append to a directory");
-    FILE *f = fopen(path.data, "ab");
-    if (!f) return false;
-    size_t written = fwrite(content.data, 1, (size_t)content.len, f);
-    fclose(f);
-    return written == (size_t)content.len;
+    return write_all(path.data, "ab", content.data, (size_t)content.len);
 }
 
 bool gray_io_write_bytes(GrayString path, GrayArray data) {
     struct stat _st;
     if (stat(path.data, &_st) == 0 && S_ISDIR(_st.st_mode))
         gray_panic_code("P0087", "io.write_bytes() cannot write to a directory");
-    FILE *f = fopen(path.data, "wb");
-    if (!f) return false;
-    size_t written = fwrite(data.data, 1, (size_t)data.len, f);
-    fclose(f);
-    return written == (size_t)data.len;
+    return write_all(path.data, "wb", data.data, (size_t)data.len);
 }
 
 bool gray_io_append_bytes(GrayString path, GrayArray data) {
     struct stat _st;
     if (stat(path.data, &_st) == 0 && S_ISDIR(_st.st_mode))
         gray_panic_code("P0088", "io.append_bytes() cannot append to a directory");
-    FILE *f = fopen(path.data, "ab");
-    if (!f) return false;
-    size_t written = fwrite(data.data, 1, (size_t)data.len, f);
-    fclose(f);
-    return written == (size_t)data.len;
+    return write_all(path.data, "ab", data.data, (size_t)data.len);
 }
 
 GrayString gray_io_temp_file(GrayArena *arena) {
@@ -393,7 +375,7 @@ GrayString gray_io_temp_dir(GrayArena *arena) {
 
 bool gray_io_delete_file(GrayString path) {
     struct stat st;
-    if (stat(path.data, &st) == 0 && S_ISDIR(st.st_mode))
+    if (lstat(path.data, &st) == 0 && S_ISDIR(st.st_mode))
         gray_panic_code("P0077", "io.delete_file() cannot delete a directory; use io.remove_dir() for directories");
     return unlink(path.data) == 0;
 }
@@ -410,6 +392,13 @@ bool gray_io_copy_file(GrayString src, GrayString dst) {
         gray_panic_code("P0089", "io.copy_file() cannot copy a directory; use io.walk() to enumerate files and copy them individually");
     FILE *in = fopen(src.data, "rb");
     if (!in) return false;
+    /* Copying a file onto itself would truncate it before it is read. */
+    struct stat src_st, dst_st;
+    if (fstat(fileno(in), &src_st) == 0 && stat(dst.data, &dst_st) == 0 &&
+        src_st.st_dev == dst_st.st_dev && src_st.st_ino == dst_st.st_ino) {
+        fclose(in);
+        return false;
+    }
     int out_fd = open(dst.data, O_WRONLY | O_CREAT | O_TRUNC, GRAY_IO_FILE_MODE);
     if (out_fd < 0) { fclose(in); return false; }
     FILE *out = fdopen(out_fd, "wb");
@@ -420,32 +409,40 @@ bool gray_io_copy_file(GrayString src, GrayString dst) {
     while ((n = fread(buf, 1, sizeof(buf), in)) > 0) {
         if (fwrite(buf, 1, n, out) != n) { ok = false; break; }
     }
+    if (ferror(in)) ok = false;
     fclose(in);
-    fclose(out);
+    if (fclose(out) != 0) ok = false;
     return ok;
 }
 
 bool gray_io_move_file(GrayString src, GrayString dst) {
     if (rename(src.data, dst.data) == 0) return true;
+    if (errno != EXDEV || gray_io_is_directory(src)) return false;
     if (!gray_io_copy_file(src, dst)) return false;
-    unlink(src.data);
-    return true;
+    return unlink(src.data) == 0;
 }
 
 /* ---- Directory operations ---- */
 
-GrayArray gray_io_list_dir(GrayArena *arena, GrayString path) {
-    GrayArray arr = gray_array_new(arena, (int32_t)sizeof(GrayString), 16);
-    DIR *d = opendir(path.data);
-    if (!d) return arr;
+/* Append the names in an open directory to out and close it; false when
+ * reading the directory failed part-way. */
+static bool list_entries(GrayArena *arena, DIR *d, GrayArray *out) {
     struct dirent *ent;
+    errno = 0;
     while ((ent = readdir(d)) != NULL) {
-        if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0) continue;
-        GrayString name = gray_string_format(arena, "%s", ent->d_name);
-        gray_array_push(arena, &arr, &name);
+        if (strcmp(ent->d_name, ".") != 0 && strcmp(ent->d_name, "..") != 0) {
+            GrayString name = gray_string_format(arena, "%s", ent->d_name);
+            gray_array_push(arena, out, &name);
+        }
+        errno = 0;
     }
+    bool ok = errno == 0;
     closedir(d);
-    return arr;
+    return ok;
+}
+
+GrayArray gray_io_list_dir(GrayArena *arena, GrayString path) {
+    return gray_io_list_dir_result(arena, path).v0;
 }
 
 bool gray_io_make_dir(GrayString path) {
@@ -465,7 +462,7 @@ bool gray_io_make_dir_all(GrayString path) {
             *p = '/';
         }
     }
-    return mkdir(buf, GRAY_IO_DIR_MODE) == 0 || errno == EEXIST;
+    return mkdir(buf, GRAY_IO_DIR_MODE) == 0 || (errno == EEXIST && gray_io_is_directory(path));
 }
 
 bool gray_io_remove_dir(GrayString path) {
@@ -477,59 +474,56 @@ static bool remove_dir_recursive(const char *path) {
     if (!d) return false;
     struct dirent *ent;
     bool ok = true;
-    while ((ent = readdir(d)) != NULL) {
+    for (errno = 0; (ent = readdir(d)) != NULL; errno = 0) {
         if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0) continue;
         char child[GRAY_IO_PATH_BUF];
-        snprintf(child, sizeof(child), "%s/%s", path, ent->d_name);
+        if (snprintf(child, sizeof(child), "%s/%s", path, ent->d_name) >= (int)sizeof(child)) { ok = false; continue; }
         struct stat st;
-        if (stat(child, &st) != 0) { ok = false; continue; }
+        if (lstat(child, &st) != 0) { ok = false; continue; }
         if (S_ISDIR(st.st_mode)) {
             if (!remove_dir_recursive(child)) ok = false;
         } else {
             if (unlink(child) != 0) ok = false;
         }
     }
+    if (errno != 0) ok = false;
     closedir(d);
     if (rmdir(path) != 0) ok = false;
     return ok;
 }
 
 bool gray_io_remove_dir_all(GrayString path) {
+    struct stat st;
+    if (lstat(path.data, &st) != 0 || !S_ISDIR(st.st_mode)) return false;
     return remove_dir_recursive(path.data);
 }
 
-static void walk_recursive(GrayArena *arena, const char *base, const char *rel, GrayArray *out) {
+/* False when some directory could not be read completely. */
+static bool walk_recursive(GrayArena *arena, const char *base, const char *rel, GrayArray *out) {
     char full[GRAY_IO_PATH_BUF];
-    if (rel[0] == '\0') {
-        snprintf(full, sizeof(full), "%s", base);
-    } else {
-        snprintf(full, sizeof(full), "%s/%s", base, rel);
-    }
+    const char *sep = rel[0] == '\0' ? "" : "/";
+    if (snprintf(full, sizeof(full), "%s%s%s", base, sep, rel) >= (int)sizeof(full)) return false;
     DIR *d = opendir(full);
-    if (!d) return;
-    struct dirent *ent;
-    while ((ent = readdir(d)) != NULL) {
-        if (strcmp(ent->d_name, ".") == 0 || strcmp(ent->d_name, "..") == 0) continue;
-        GrayString child_rel;
-        if (rel[0] == '\0') {
-            child_rel = gray_string_format(arena, "%s", ent->d_name);
-        } else {
-            child_rel = gray_string_format(arena, "%s/%s", rel, ent->d_name);
-        }
+    if (!d) return false;
+    GrayArray names = gray_array_new(arena, (int32_t)sizeof(GrayString), 16);
+    bool ok = list_entries(arena, d, &names);
+    for (int32_t i = 0; i < names.len; i++) {
+        GrayString name = GRAY_ARRAY_GET(names, GrayString, i);
+        GrayString child_rel = gray_string_format(arena, "%s%s%s", rel, sep, name.data);
         gray_array_push(arena, out, &child_rel);
-        char child_full[GRAY_IO_PATH_BUF];
-        snprintf(child_full, sizeof(child_full), "%s/%s", full, ent->d_name);
+        GrayString child_full = gray_string_format(arena, "%s/%s", full, name.data);
         struct stat st;
-        if (stat(child_full, &st) == 0 && S_ISDIR(st.st_mode)) {
-            walk_recursive(arena, base, child_rel.data, out);
+        /* Symbolic links are listed but not followed. */
+        if (lstat(child_full.data, &st) == 0 && S_ISDIR(st.st_mode)) {
+            if (!walk_recursive(arena, base, child_rel.data, out)) ok = false;
         }
     }
-    closedir(d);
+    return ok;
 }
 
 GrayArray gray_io_walk(GrayArena *arena, GrayString path) {
     GrayArray arr = gray_array_new(arena, (int32_t)sizeof(GrayString), GRAY_IO_WALK_INITIAL_CAP);
-    walk_recursive(arena, path.data, "", &arr);
+    (void)walk_recursive(arena, path.data, "", &arr);
     return arr;
 }
 
@@ -563,55 +557,18 @@ GrayResult_string gray_io_read_file_result(GrayArena *arena, GrayString path) {
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot read '%s'", path.data));
         return r;
     }
-    long size = -1;
-    if (fseek(f, 0, SEEK_END) == 0) {
-        size = ftell(f);
-        if (size >= 0) (void)fseek(f, 0, SEEK_SET);
-    }
-    if (size >= 0 && size <= INT32_MAX) {
-        char *buf = gray_arena_alloc(arena, (size_t)size + 1);
-        size_t bytes = fread(buf, 1, (size_t)size, f);
-        buf[bytes] = '\0';
-        fclose(f);
-        r.v0 = (GrayString){ buf, (int32_t)bytes };
-        r.v1 = NULL;
-        return r;
-    }
-    if (size > INT32_MAX) {
-        fclose(f);
+    char *buf = NULL;
+    int32_t len = 0;
+    ReadStatus status = read_stream(arena, f, &buf, &len);
+    fclose(f);
+    if (status != READ_OK) {
         r.v0 = gray_string_lit("");
-        r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot read '%s': file exceeds maximum string length", path.data));
+        r.v1 = gray_error_new(arena, gray_string_format(arena, status == READ_TOO_BIG
+            ? "cannot read '%s': file exceeds maximum string length"
+            : "cannot read '%s'", path.data));
         return r;
     }
-    /* Streaming fallback for non-seekable inputs (pipes, /dev/stdin, etc.) */
-    clearerr(f);
-    size_t capacity = 4096;
-    size_t len = 0;
-    char *buf = gray_arena_alloc(arena, capacity);
-    for (;;) {
-        if (len == capacity) {
-            if (capacity > (size_t)INT32_MAX / 2) {
-                fclose(f);
-                gray_panic_code("P0053", "io.read_file: input exceeds maximum string length");
-            }
-            size_t new_capacity = capacity * 2;
-            char *new_buffer = gray_arena_alloc(arena, new_capacity);
-            memcpy(new_buffer, buf, len);
-            buf = new_buffer;
-            capacity = new_capacity;
-        }
-        size_t got = fread(buf + len, 1, capacity - len, f);
-        if (got == 0) break;
-        len += got;
-    }
-    if (len == capacity) {
-        char *grow = gray_arena_alloc(arena, len + 1);
-        memcpy(grow, buf, len);
-        buf = grow;
-    }
-    buf[len] = '\0';
-    fclose(f);
-    r.v0 = (GrayString){ buf, (int32_t)len };
+    r.v0 = (GrayString){ buf, len };
     r.v1 = NULL;
     return r;
 }
@@ -625,23 +582,15 @@ GrayResult_bool gray_io_write_file_result(GrayArena *arena, GrayString path, Gra
             "cannot write '%s': is a directory", path.data));
         return r;
     }
-    FILE *f = fopen(path.data, "wb");
-    if (!f) {
-        r.v0 = false;
-        r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot write '%s'", path.data));
-        return r;
-    }
-    fwrite(content.data, 1, (size_t)content.len, f);
-    fclose(f);
-    r.v0 = true;
-    r.v1 = NULL;
+    r.v0 = write_all(path.data, "wb", content.data, (size_t)content.len);
+    r.v1 = r.v0 ? NULL : gray_error_new(arena, gray_string_format(arena, "cannot write '%s'", path.data));
     return r;
 }
 
 GrayResult_bool gray_io_delete_file_result(GrayArena *arena, GrayString path) {
     GrayResult_bool r;
     struct stat st;
-    if (stat(path.data, &st) == 0 && S_ISDIR(st.st_mode)) {
+    if (lstat(path.data, &st) == 0 && S_ISDIR(st.st_mode)) {
         r.v0 = false;
         r.v1 = gray_error_new(arena, gray_string_format(arena,
             "cannot delete '%s': is a directory; use io.remove_dir() for directories", path.data));
@@ -727,9 +676,12 @@ GrayResult_array gray_io_list_dir_result(GrayArena *arena, GrayString path) {
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot list directory '%s'", path.data));
         return r;
     }
-    closedir(d);
-    r.v0 = gray_io_list_dir(arena, path);
+    r.v0 = gray_array_new(arena, (int32_t)sizeof(GrayString), 16);
     r.v1 = NULL;
+    if (!list_entries(arena, d, &r.v0)) {
+        r.v0 = gray_array_new(arena, (int32_t)sizeof(GrayString), 0);
+        r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot list directory '%s'", path.data));
+    }
     return r;
 }
 
@@ -783,15 +735,12 @@ GrayResult_bool gray_io_remove_dir_all_result(GrayArena *arena, GrayString path)
 
 GrayResult_array gray_io_walk_result(GrayArena *arena, GrayString path) {
     GrayResult_array r;
-    DIR *d = opendir(path.data);
-    if (!d) {
+    r.v0 = gray_array_new(arena, (int32_t)sizeof(GrayString), GRAY_IO_WALK_INITIAL_CAP);
+    r.v1 = NULL;
+    if (!walk_recursive(arena, path.data, "", &r.v0)) {
         r.v0 = gray_array_new(arena, (int32_t)sizeof(GrayString), 0);
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot walk directory '%s'", path.data));
-        return r;
     }
-    closedir(d);
-    r.v0 = gray_io_walk(arena, path);
-    r.v1 = NULL;
     return r;
 }
 
@@ -810,14 +759,16 @@ GrayResult_array gray_io_read_bytes_result(GrayArena *arena, GrayString path) {
         r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot read '%s'", path.data));
         return r;
     }
-    r.v0 = gray_array_new(arena, (int32_t)sizeof(uint8_t), 0);
-    uint8_t buf[4096];
-    size_t n;
-    while ((n = fread(buf, 1, sizeof(buf), f)) > 0) {
-        for (size_t i = 0; i < n; i++)
-            gray_array_push(arena, &r.v0, &buf[i]);
-    }
+    char *buf = NULL;
+    int32_t len = 0;
+    ReadStatus status = read_stream(arena, f, &buf, &len);
     fclose(f);
+    if (status != READ_OK) {
+        r.v0 = gray_array_new(arena, (int32_t)sizeof(uint8_t), 0);
+        r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot read '%s'", path.data));
+        return r;
+    }
+    r.v0 = gray_array_from(arena, buf, (int32_t)sizeof(uint8_t), len);
     r.v1 = NULL;
     return r;
 }
@@ -886,16 +837,8 @@ GrayResult_bool gray_io_write_bytes_result(GrayArena *arena, GrayString path, Gr
             "cannot write '%s': is a directory", path.data));
         return r;
     }
-    FILE *f = fopen(path.data, "wb");
-    if (!f) {
-        r.v0 = false;
-        r.v1 = gray_error_new(arena, gray_string_format(arena, "cannot write '%s'", path.data));
-        return r;
-    }
-    fwrite(data.data, 1, (size_t)data.len, f);
-    fclose(f);
-    r.v0 = true;
-    r.v1 = NULL;
+    r.v0 = write_all(path.data, "wb", data.data, (size_t)data.len);
+    r.v1 = r.v0 ? NULL : gray_error_new(arena, gray_string_format(arena, "cannot write '%s'", path.data));
     return r;
 }
 
-- 
2.43.0


From 509ddae20646f948129fd4aece3e1d0b1bef363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:57:18 +0000
Subject: [PATCH 54/96] fix: os.exec distinguishes a failed launch from a
 command exiting with 127 and retries interrupted calls

---
 grayc/src/stdlib/os.c | 52 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/grayc/src/stdlib/os.c b/grayc/src/stdlib/os.c
index 62dcdc1..72fc43f 100644
--- a/grayc/src/stdlib/os.c
+++ b/grayc/src/stdlib/os.c
@@ -17,6 +17,7 @@
 #include <sys/select.h>
 #include <sys/wait.h>
 #include <errno.h>
+#include <fcntl.h>
 
 #define GRAY_HOSTNAME_BUF 256
 #define GRAY_EXEC_OUTPUT_MAX (64 * 1024 * 1024) /* 64 MiB per stream */
@@ -102,6 +103,13 @@ int64_t gray_os_pid(void) {
     return (int64_t)getpid();
 }
 
+static int cloexec_pipe(int fds[2]) {
+    if (pipe(fds) < 0) return -1;
+    fcntl(fds[0], F_SETFD, FD_CLOEXEC);
+    fcntl(fds[1], F_SETFD, FD_CLOEXEC);
+    return 0;
+}
+
 GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args) {
     GrayOsExecResult fail = {0, gray_string_lit(""), gray_string_lit(""), false};
 
@@ -115,17 +123,25 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
     }
     argv[argc] = NULL;
 
-    int stdout_pipe[2], stderr_pipe[2];
-    if (pipe(stdout_pipe) < 0) return fail;
-    if (pipe(stderr_pipe) < 0) {
+    /* The launch pipe closes on a successful exec and carries errno otherwise,
+     * so a command that itself exits with 127 is not mistaken for a failure. */
+    int stdout_pipe[2], stderr_pipe[2], launch_pipe[2];
+    if (cloexec_pipe(stdout_pipe) < 0) return fail;
+    if (cloexec_pipe(stderr_pipe) < 0) {
         close(stdout_pipe[0]); close(stdout_pipe[1]);
         return fail;
     }
+    if (cloexec_pipe(launch_pipe) < 0) {
+        close(stdout_pipe[0]); close(stdout_pipe[1]);
+        close(stderr_pipe[0]); close(stderr_pipe[1]);
+        return fail;
+    }
 
     pid_t pid = fork();
     if (pid < 0) {
         close(stdout_pipe[0]); close(stdout_pipe[1]);
         close(stderr_pipe[0]); close(stderr_pipe[1]);
+        close(launch_pipe[0]); close(launch_pipe[1]);
         return fail;
     }
 
@@ -138,7 +154,9 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
         close(stdout_pipe[1]);
         close(stderr_pipe[1]);
         execvp(cmd.data, argv);
-        /* execvp failed */
+        int launch_error = errno;
+        ssize_t told = write(launch_pipe[1], &launch_error, sizeof(launch_error));
+        (void)told;
         _exit(127);
     }
 
@@ -146,6 +164,14 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
      * using select() to avoid deadlock when one pipe's buffer fills. */
     close(stdout_pipe[1]);
     close(stderr_pipe[1]);
+    close(launch_pipe[1]);
+    int launch_error = 0;
+    ssize_t told;
+    do {
+        told = read(launch_pipe[0], &launch_error, sizeof(launch_error));
+    } while (told < 0 && errno == EINTR);
+    bool launched = told != (ssize_t)sizeof(launch_error);
+    close(launch_pipe[0]);
 
     char buf[4096];
     size_t out_total = 0, err_total = 0;
@@ -163,11 +189,16 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
         if (!out_done) FD_SET(out_fd, &fds);
         if (!err_done) FD_SET(err_fd, &fds);
         int maxfd = (out_fd > err_fd ? out_fd : err_fd) + 1;
-        if (select(maxfd, &fds, NULL, NULL, NULL) < 0) break;
+        if (select(maxfd, &fds, NULL, NULL, NULL) < 0) {
+            if (errno == EINTR) continue;
+            break;
+        }
 
         if (!out_done && FD_ISSET(out_fd, &fds)) {
             ssize_t n = read(out_fd, buf, sizeof(buf));
-            if (n <= 0) {
+            if (n < 0 && errno == EINTR) {
+                /* interrupted before any data; try again */
+            } else if (n <= 0) {
                 out_done = true;
             } else if (out_total + (size_t)n > GRAY_EXEC_OUTPUT_MAX) {
                 kill(pid, SIGKILL);
@@ -189,7 +220,9 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
 
         if (!err_done && FD_ISSET(err_fd, &fds)) {
             ssize_t n = read(err_fd, buf, sizeof(buf));
-            if (n <= 0) {
+            if (n < 0 && errno == EINTR) {
+                /* interrupted before any data; try again */
+            } else if (n <= 0) {
                 err_done = true;
             } else if (err_total + (size_t)n > GRAY_EXEC_OUTPUT_MAX) {
                 kill(pid, SIGKILL);
@@ -214,7 +247,7 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
     close(err_fd);
 
     int status = 0;
-    waitpid(pid, &status, 0);
+    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) { }
 
     int exit_code = 0;
     if (WIFEXITED(status)) {
@@ -223,8 +256,7 @@ GrayOsExecResult gray_os_exec(GrayArena *arena, GrayString cmd, GrayArray args)
         exit_code = 128 + WTERMSIG(status);
     }
 
-    /* exit_code 127 means execvp failed (command not found / bad path) */
-    if (exit_code == 127 || truncated) return fail;
+    if (!launched || truncated) return fail;
 
     GrayString stdout_str = gray_string_new(arena, out_buf, (int32_t)out_total);
     GrayString stderr_str = gray_string_new(arena, err_buf, (int32_t)err_total);
-- 
2.43.0


From d78b0bfeca31e2008d43c99f45d7d8504e495004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:35:58 +0000
Subject: [PATCH 55/96] fix: the recursion depth guard counts per thread

---
 grayc/src/runtime/runtime.c | 2 +-
 grayc/src/runtime/runtime.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/grayc/src/runtime/runtime.c b/grayc/src/runtime/runtime.c
index bee0d24..58dfe84 100644
--- a/grayc/src/runtime/runtime.c
+++ b/grayc/src/runtime/runtime.c
@@ -275,7 +275,7 @@ void gray_scope_restore(GrayArena *arena, GrayScopeMark mark) {
 }
 
 /* --- Stack depth guard --- */
-int gray_call_depth = 0;
+_Thread_local int gray_call_depth = 0;
 
 /* --- Runtime Init/Shutdown --- */
 
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index 875cf1c..63c47df 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -173,7 +173,7 @@ void gray_panic_code_at(const char *file, int line, const char *code, const char
 /* --- Stack depth guard --- */
 
 #define GRAY_MAX_CALL_DEPTH 10000
-extern int gray_call_depth;
+extern _Thread_local int gray_call_depth;
 
 static inline void gray_enter_func(const char *file, int line) {
     if (++gray_call_depth > GRAY_MAX_CALL_DEPTH) {
-- 
2.43.0


From 45485940662dc48ff89dc9405ad2fa3e58839a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:35:58 +0000
Subject: [PATCH 56/96] fix: threads: detach cannot free a live handle twice,
 and a failed spawn panics

---
 grayc/src/stdlib/threads.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/grayc/src/stdlib/threads.c b/grayc/src/stdlib/threads.c
index 73c29ec..2332a6e 100644
--- a/grayc/src/stdlib/threads.c
+++ b/grayc/src/stdlib/threads.c
@@ -19,7 +19,7 @@
 typedef struct {
     pthread_t pt;
     _Atomic int alive;       /* 1 between entry and exit, 0 otherwise */
-    _Atomic int detached;    /* 1 once detach() has been called */
+    _Atomic int owners;      /* thread and handle; the last to let go frees */
 } GrayThreadInternal;
 
 static _Atomic int64_t gray_threads_live_count = 0;
@@ -32,6 +32,10 @@ typedef struct {
     GrayThreadInternal *state;
 } ThreadArg;
 
+static void release_state(GrayThreadInternal *state) {
+    if (atomic_fetch_sub(&state->owners, 1) == 1) free(state);
+}
+
 static void *thread_entry(void *raw) {
     ThreadArg *ta = (ThreadArg *)raw;
     GrayThreadInternal *state = ta->state;
@@ -45,8 +49,7 @@ static void *thread_entry(void *raw) {
     gray_default_arena = NULL;
     atomic_fetch_sub(&gray_threads_live_count, 1);
     atomic_store(&state->alive, 0);
-    /* If detached, the state struct's lifetime ends here too. */
-    if (atomic_load(&state->detached)) free(state);
+    release_state(state);
     free(ta);
     return NULL;
 }
@@ -57,9 +60,11 @@ static GrayThread spawn_thread(ThreadArg *ta) {
      * after spawn() returns; otherwise callers race the scheduler. The
      * thread wrapper clears it on exit. */
     atomic_store(&state->alive, 1);
-    atomic_store(&state->detached, 0);
+    atomic_store(&state->owners, 2);
     atomic_fetch_add(&gray_threads_live_count, 1);
-    pthread_create(&state->pt, NULL, thread_entry, ta);
+    if (pthread_create(&state->pt, NULL, thread_entry, ta) != 0) {
+        gray_panic(__FILE__, __LINE__, "threads.spawn: cannot create a thread");
+    }
     GrayThread t;
     t._internal = state;
     return t;
@@ -87,24 +92,14 @@ void gray_threads_join(GrayThread t) {
     if (!t._internal) return;
     GrayThreadInternal *state = (GrayThreadInternal *)t._internal;
     pthread_join(state->pt, NULL);
-    free(state);
+    release_state(state);
 }
 
 void gray_threads_detach(GrayThread t) {
     if (!t._internal) return;
     GrayThreadInternal *state = (GrayThreadInternal *)t._internal;
-    atomic_store(&state->detached, 1);
-    /* If the thread already exited before detach() was called, the entry
-     * function already saw detached=0 and won't free the struct — free
-     * it here. Otherwise the entry function frees it once it finishes. */
-    if (!atomic_load(&state->alive)) {
-        /* Race-safe: pthread_detach is idempotent for a finished thread,
-         * and we only free in the branch where alive was already 0. */
-        pthread_detach(state->pt);
-        free(state);
-    } else {
-        pthread_detach(state->pt);
-    }
+    pthread_detach(state->pt);
+    release_state(state);
 }
 
 bool gray_threads_is_alive(GrayThread t) {
-- 
2.43.0


From b0baad84bc50bf89d72cffa498e42110443ebf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:35:58 +0000
Subject: [PATCH 57/96] fix: channels check closed under the lock and report
 impossible capacities

---
 grayc/src/stdlib/channels.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/grayc/src/stdlib/channels.c b/grayc/src/stdlib/channels.c
index 5adcb99..9308b44 100644
--- a/grayc/src/stdlib/channels.c
+++ b/grayc/src/stdlib/channels.c
@@ -27,7 +27,10 @@ typedef struct {
 GrayChannel gray_channels_open(int64_t capacity) {
     if (capacity < 1) capacity = 1;
     GrayChannelInternal *ch = malloc(sizeof(GrayChannelInternal));
-    ch->buffer = malloc(sizeof(int64_t) * (size_t)capacity);
+    if (ch) ch->buffer = calloc((size_t)capacity, sizeof(int64_t));
+    if (!ch || !ch->buffer) {
+        gray_panic(__FILE__, __LINE__, "channels.open: cannot allocate a channel of capacity %lld", (long long)capacity);
+    }
     ch->capacity = capacity;
     ch->count = 0;
     ch->head = 0;
@@ -43,7 +46,7 @@ GrayChannel gray_channels_open(int64_t capacity) {
 
 void gray_channels_send(GrayChannel handle, int64_t value) {
     GrayChannelInternal *ch = (GrayChannelInternal *)handle._internal;
-    if (!ch || ch->closed) return;
+    if (!ch) return;
 
     pthread_mutex_lock(&ch->mutex);
     while (ch->count == ch->capacity && !ch->closed) {
@@ -82,7 +85,7 @@ int64_t gray_channels_receive(GrayChannel handle) {
 
 bool gray_channels_try_send(GrayChannel handle, int64_t value) {
     GrayChannelInternal *ch = (GrayChannelInternal *)handle._internal;
-    if (!ch || ch->closed) return false;
+    if (!ch) return false;
 
     pthread_mutex_lock(&ch->mutex);
     if (ch->count == ch->capacity || ch->closed) {
-- 
2.43.0


From 07f819a2d0c3f9150432f1e197fc975fabffda6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:35:58 +0000
Subject: [PATCH 58/96] fix: random seeds itself once when first used from
 several threads

---
 grayc/src/stdlib/random.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/grayc/src/stdlib/random.c b/grayc/src/stdlib/random.c
index 19d1293..1a9421f 100644
--- a/grayc/src/stdlib/random.c
+++ b/grayc/src/stdlib/random.c
@@ -9,19 +9,20 @@
  */
 
 #include "random.h"
+#include <stdatomic.h>
 #include <stdlib.h>
 #include <string.h>
 #include <time.h>
 #include <math.h>
 
-static bool _seeded = false;
+static atomic_bool _seeded = false;
 static void ensure_seed(void) {
-    if (!_seeded) { srand((unsigned)time(NULL)); _seeded = true; }
+    if (!atomic_exchange(&_seeded, true)) srand((unsigned)time(NULL));
 }
 
 void gray_random_seed(int64_t value) {
+    atomic_store(&_seeded, true);
     srand((unsigned)value);
-    _seeded = true;
 }
 
 /* Uniform-ish value in [0, n), n > 0. One rand() covers ranges up to
-- 
2.43.0


From 56725bc5ae5efd879c6271b6a5e822177a14a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:35:58 +0000
Subject: [PATCH 59/96] fix: println writes one whole line even when several
 threads print

---
 grayc/src/codegen/codegen.c | 20 ++++++++++++--------
 grayc/src/stdlib/builtins.c | 13 +++++++++++++
 grayc/src/stdlib/builtins.h |  2 ++
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 535f0a9..3eb8711 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -3604,7 +3604,7 @@ static void emit_value_print(CodeGen *codegen, const char *c_expr, GrayType *typ
 }
 
 /* Emit statements that evaluate expr once and print its value to stream. */
-static void emit_captured_print(CodeGen *codegen, AstNode *expr, GrayType *type, const char *stream) {
+static void emit_captured_print(CodeGen *codegen, AstNode *expr, GrayType *type, const char *stream, bool newline) {
     int uid = _gray_print_uid++;
     char c_type[TYPE_NAME_MAX];
     if (type->kind == TK_ARRAY) snprintf(c_type, sizeof(c_type), "GrayArray");
@@ -3622,7 +3622,16 @@ static void emit_captured_print(CodeGen *codegen, AstNode *expr, GrayType *type,
 
     char var[SHORT_VAR_BUF];
     snprintf(var, sizeof(var), "_gray_pv%d", uid);
+    /* The pieces of one value stay together when several threads print. */
+    emit_indent(codegen);
+    emit_formatted(codegen, "gray_print_lock(%s);\n", stream);
     emit_value_print(codegen, var, type, stream, false);
+    if (newline) {
+        emit_indent(codegen);
+        emit_formatted(codegen, "fprintf(%s, \"\\n\");\n", stream);
+    }
+    emit_indent(codegen);
+    emit_formatted(codegen, "gray_print_unlock(%s);\n", stream);
 }
 
 /* Emit an expression for the text of an interpolated composite value: the same
@@ -3634,7 +3643,7 @@ static void emit_composite_text(CodeGen *codegen, AstNode *part, GrayType *type)
     emit_formatted(codegen, "({ char *_gray_tb%d = NULL; size_t _gray_tn%d = 0; FILE *%s = gray_text_open(&_gray_tb%d, &_gray_tn%d);\n",
                    uid, uid, stream, uid, uid);
     codegen->indent++;
-    emit_captured_print(codegen, part, type, stream);
+    emit_captured_print(codegen, part, type, stream, false);
     emit_indent(codegen);
     emit_formatted(codegen, "gray_text_close(gray_default_arena, %s, &_gray_tb%d, &_gray_tn%d); })", stream, uid, uid);
     codegen->indent--;
@@ -3657,12 +3666,7 @@ static bool emit_composite_print(CodeGen *codegen, AstNode *node,
     emit(codegen, "{\n");
     codegen->indent++;
 
-    emit_captured_print(codegen, arg, type, stream);
-
-    if (newline) {
-        emit_indent(codegen);
-        emit_formatted(codegen, "fprintf(%s, \"\\n\");\n", stream);
-    }
+    emit_captured_print(codegen, arg, type, stream, newline);
 
     codegen->indent--;
     emit_indent(codegen);
diff --git a/grayc/src/stdlib/builtins.c b/grayc/src/stdlib/builtins.c
index 0166b9a..f82497b 100644
--- a/grayc/src/stdlib/builtins.c
+++ b/grayc/src/stdlib/builtins.c
@@ -67,8 +67,10 @@ static void fput_utf8(int32_t c, FILE *f) {
 /* --- println --- */
 
 void gray_builtin_println_str(GrayString s) {
+    flockfile(stdout);
     fwrite(s.data, 1, (size_t)s.len, stdout);
     putchar('\n');
+    funlockfile(stdout);
 }
 
 void gray_builtin_println_int(int64_t v) {
@@ -90,8 +92,10 @@ void gray_builtin_println_bool(bool v) {
 }
 
 void gray_builtin_println_char(int32_t c) {
+    flockfile(stdout);
     fput_utf8(c, stdout);
     putchar('\n');
+    funlockfile(stdout);
 }
 
 void gray_builtin_println_addr(uintptr_t v) {
@@ -123,7 +127,9 @@ void gray_builtin_print_bool(bool v) {
 }
 
 void gray_builtin_print_char(int32_t c) {
+    flockfile(stdout);
     fput_utf8(c, stdout);
+    funlockfile(stdout);
 }
 
 void gray_builtin_print_addr(uintptr_t v) {
@@ -133,8 +139,10 @@ void gray_builtin_print_addr(uintptr_t v) {
 /* --- eprintln / eprint --- */
 
 void gray_builtin_eprintln_str(GrayString s) {
+    flockfile(stderr);
     fwrite(s.data, 1, (size_t)s.len, stderr);
     fputc('\n', stderr);
+    funlockfile(stderr);
 }
 
 void gray_builtin_eprintln_int(int64_t v) {
@@ -146,8 +154,10 @@ void gray_builtin_eprintln_uint(uint64_t v) {
 }
 
 void gray_builtin_eprintln_char(int32_t c) {
+    flockfile(stderr);
     fput_utf8(c, stderr);
     fputc('\n', stderr);
+    funlockfile(stderr);
 }
 
 void gray_builtin_eprintln_float(double v) {
@@ -370,6 +380,9 @@ static void out_of_memory(void) {
     exit(1);
 }
 
+void gray_print_lock(FILE *stream) { flockfile(stream); }
+void gray_print_unlock(FILE *stream) { funlockfile(stream); }
+
 FILE *gray_text_open(char **text, size_t *size) {
     FILE *out = open_memstream(text, size);
     if (!out) out_of_memory();
diff --git a/grayc/src/stdlib/builtins.h b/grayc/src/stdlib/builtins.h
index 0ba14c7..717b478 100644
--- a/grayc/src/stdlib/builtins.h
+++ b/grayc/src/stdlib/builtins.h
@@ -438,6 +438,8 @@ GrayString gray_builtin_format_float(GrayArena *arena, double v);
 
 /* composite to_string */
 /* Collect the rendering of a composite value in memory (interpolation) */
+void gray_print_lock(FILE *stream);
+void gray_print_unlock(FILE *stream);
 FILE *gray_text_open(char **text, size_t *size);
 GrayString gray_text_close(GrayArena *arena, FILE *out, char **text, size_t *size);
 
-- 
2.43.0


From c943623a43e14446ed8432528e5d93bad9c90467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:44:31 +0000
Subject: [PATCH 60/96] fix: uuid.parse panics with its own code P0074

---
 grayc/src/stdlib/uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grayc/src/stdlib/uuid.c b/grayc/src/stdlib/uuid.c
index 01d0381..85f2be4 100644
--- a/grayc/src/stdlib/uuid.c
+++ b/grayc/src/stdlib/uuid.c
@@ -135,7 +135,7 @@ bool gray_uuid_is_valid(GrayString s) {
  * normalized to lowercase, wrapped in a UUID struct. */
 GrayUUID gray_uuid_parse(GrayArena *arena, GrayString s) {
     if (!gray_uuid_is_valid(s)) {
-        gray_builtin_panic_msg(gray_string_lit("uuid.parse: invalid UUID string"));
+        gray_panic_code("P0074", "uuid.parse: invalid UUID string");
     }
     char *buf = (char *)gray_arena_alloc(arena, GRAY_UUID_LEN + 1);
     for (int i = 0; i < GRAY_UUID_LEN; i++) {
-- 
2.43.0


From 3158c77b8452e9f1d857877f92b8199ec9656c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:44:31 +0000
Subject: [PATCH 61/96] fix: run-time panics in imported files name the
 imported file

---
 grayc/src/codegen/codegen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 3eb8711..6b039bf 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -8997,6 +8997,10 @@ static const char *function_return_type(CodeGen *codegen, AstNode *node) {
 }
 
 static void emit_function_declaration(CodeGen *codegen, AstNode *node, bool is_main) {
+    /* Run-time checks name the file the function was written in. */
+    const char *main_file = codegen->file;
+    if (node->token.file) codegen->file = node->token.file;
+
     /* Return type */
     if (is_main) {
         emit(codegen, "static void gray_fn_main(void)");
@@ -9091,6 +9095,7 @@ static void emit_function_declaration(CodeGen *codegen, AstNode *node, bool is_m
     codegen->using_module_count = prev_using_count;
     codegen->indent--;
     emit(codegen, "}\n\n");
+    codegen->file = main_file;
 }
 
 static void emit_expression_statement(CodeGen *codegen, AstNode *node) {
-- 
2.43.0


From a2934797c297df6d952930bedf8f681f175f61e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:51:27 +0000
Subject: [PATCH 62/96] fix: HTTP responses and requests outlive the function
 that returns them

---
 grayc/src/codegen/codegen.c | 20 ++++++++++++++++++--
 grayc/src/codegen/codegen.h |  1 +
 grayc/src/runtime/map.c     | 10 ++++++++++
 grayc/src/runtime/map.h     |  3 +++
 grayc/src/stdlib/http.c     |  6 ++++++
 grayc/src/stdlib/http.h     |  3 +++
 grayc/src/stdlib/server.c   | 17 +++++++++++++++++
 grayc/src/stdlib/server.h   |  4 ++++
 grayc/src/stdlib/uuid.h     |  4 ++++
 9 files changed, 66 insertions(+), 2 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 6b039bf..e3a4545 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -379,7 +379,8 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
     if (strcmp(type_name, "string") == 0) return "GrayString";
     if (strcmp(type_name, "Error") == 0 || strcmp(type_name, "error") == 0) return "GrayError *";
     if (strcmp(type_name, "HttpRequest") == 0) return "GrayRequest";
-    if (strcmp(type_name, "HttpResponse") == 0) return "GrayResponse";
+    if (strcmp(type_name, "HttpResponse") == 0)
+        return codegen->has_server ? "GrayResponse" : "GrayHttpResponse";
     /* Stdlib opaque types: scalar path uses __auto_type and never reaches
      * this resolver, but [T] / map[_:T] / struct fields write the type
      * name explicitly and need it mapped here. Without this, the fallback
@@ -620,6 +621,15 @@ static const char *bound_type_name(CodeGen *codegen, char *buffer, size_t size,
     return buffer;
 }
 
+/* The copy function of a stdlib struct that holds strings or maps, else NULL. */
+static const char *stdlib_struct_copy(CodeGen *codegen, const char *gray_tn) {
+    if (strcmp(gray_tn, "HttpResponse") == 0)
+        return codegen->has_server ? "gray_server_response_copy" : "gray_http_response_copy";
+    if (strcmp(gray_tn, "HttpRequest") == 0) return "gray_server_request_copy";
+    if (strcmp(gray_tn, "UUID") == 0) return "gray_uuid_copy";
+    return NULL;
+}
+
 static bool type_needs_deep_copy(CodeGen *codegen, const char *gray_tn) {
     if (!gray_tn || !*gray_tn) return false;
     if (gray_tn[0] == '[') return true;
@@ -633,7 +643,7 @@ static bool type_needs_deep_copy(CodeGen *codegen, const char *gray_tn) {
     gray_tn = deep_copy_type_name(codegen, gray_tn);
     AstNode *sdecl = find_generic_struct(codegen, gray_tn);
     AstNode *edecl = sdecl ? NULL : find_tagged_enum(codegen, gray_tn);
-    if (!sdecl && !edecl) return false;
+    if (!sdecl && !edecl) return stdlib_struct_copy(codegen, gray_tn) != NULL;
     /* Cycle detection: if we're already visiting this type, stop. */
     for (int j = 0; j < type_name_deep_copy_depth; j++) {
         if (strcmp(type_name_deep_copy_visiting[j], gray_tn) == 0) return false;
@@ -905,6 +915,11 @@ static void emit_value_deep_copy(CodeGen *codegen, const char *gray_tn, const ch
         emit_formatted(codegen, "gray_error_copy(gray_default_arena, %s)", src_var);
         return;
     }
+    const char *copy = stdlib_struct_copy(codegen, gray_tn);
+    if (copy && !find_generic_struct(codegen, gray_tn) && !find_tagged_enum(codegen, gray_tn)) {
+        emit_formatted(codegen, "%s(gray_default_arena, %s)", copy, src_var);
+        return;
+    }
     /* A struct or tagged enum. */
     emit_struct_deep_copy(codegen, gray_tn, src_var);
 }
@@ -9770,6 +9785,7 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
                 ImportItem *item = &stmt->data.import_stmt.items[j];
                 if (item->is_stdlib && item->module) {
                     if (strcmp(item->module, "mem") == 0) codegen->has_mem = true;
+                    if (strcmp(item->module, "server") == 0) codegen->has_server = true;
                     if (strcmp(item->module, "fmt") == 0) codegen->has_fmt = true;
                     if (stdlib_import_count < MAX_STDLIB_IMPORTS)
                         stdlib_imports[stdlib_import_count++] = item->module;
diff --git a/grayc/src/codegen/codegen.h b/grayc/src/codegen/codegen.h
index 6e744a3..1aa53b8 100644
--- a/grayc/src/codegen/codegen.h
+++ b/grayc/src/codegen/codegen.h
@@ -33,6 +33,7 @@ typedef struct {
     Buf global_init;    /* Deferred initialization for file-scope arrays */
     int indent;
     bool has_mem;       /* Whether @mem was imported */
+    bool has_server;               /* whether @server is imported */
     bool has_fmt;       /* Whether @fmt was imported */
     const char *file;
 
diff --git a/grayc/src/runtime/map.c b/grayc/src/runtime/map.c
index 31ddfe3..50361a7 100644
--- a/grayc/src/runtime/map.c
+++ b/grayc/src/runtime/map.c
@@ -329,3 +329,13 @@ GrayMap gray_map_copy(GrayArena *arena, const GrayMap *src) {
 
     return m;
 }
+
+GrayMap gray_map_copy_strings(GrayArena *arena, const GrayMap *src) {
+    GrayMap m = gray_map_copy(arena, src);
+    for (int32_t i = 0; i < m.capacity; i++) {
+        if (m.states[i] != 1) continue;
+        GrayString *value = (GrayString *)val_ptr(&m, i);
+        *value = gray_string_new(arena, value->data, value->len);
+    }
+    return m;
+}
diff --git a/grayc/src/runtime/map.h b/grayc/src/runtime/map.h
index 25c1dd8..fae96db 100644
--- a/grayc/src/runtime/map.h
+++ b/grayc/src/runtime/map.h
@@ -80,4 +80,7 @@ void *gray_map_value_at(GrayMap *m, int32_t internal_idx);
  * the original. */
 GrayMap gray_map_copy(GrayArena *arena, const GrayMap *src);
 
+/* As gray_map_copy, for a map[string:string]: also copies the values */
+GrayMap gray_map_copy_strings(GrayArena *arena, const GrayMap *src);
+
 #endif
diff --git a/grayc/src/stdlib/http.c b/grayc/src/stdlib/http.c
index 46a0425..36a75cd 100644
--- a/grayc/src/stdlib/http.c
+++ b/grayc/src/stdlib/http.c
@@ -256,6 +256,12 @@ static GrayHttpResponse do_request(GrayArena *arena, const char *method,
     return result;
 }
 
+GrayHttpResponse gray_http_response_copy(GrayArena *arena, GrayHttpResponse resp) {
+    resp.body = gray_string_new(arena, resp.body.data, resp.body.len);
+    resp.headers = gray_map_copy_strings(arena, &resp.headers);
+    return resp;
+}
+
 GrayHttpResponse gray_http_get(GrayArena *arena, GrayString url, GrayMap *headers) {
     return do_request(arena, "GET", url, (GrayString){"", 0}, headers);
 }
diff --git a/grayc/src/stdlib/http.h b/grayc/src/stdlib/http.h
index cfec685..94c1d52 100644
--- a/grayc/src/stdlib/http.h
+++ b/grayc/src/stdlib/http.h
@@ -35,6 +35,9 @@ typedef struct {
     GrayMap headers;
 } GrayHttpResponse;
 
+/* A copy that owns its strings and map */
+GrayHttpResponse gray_http_response_copy(GrayArena *arena, GrayHttpResponse resp);
+
 /*@man get
  *@module http
  *@group Requests
diff --git a/grayc/src/stdlib/server.c b/grayc/src/stdlib/server.c
index 94c1b64..8f168f9 100644
--- a/grayc/src/stdlib/server.c
+++ b/grayc/src/stdlib/server.c
@@ -248,6 +248,7 @@ typedef struct {
 static void *handle_connection(void *arg) {
     ConnCtx *ctx = (ConnCtx *)arg;
     GrayArena *arena = gray_arena_create(GRAY_SERVER_REQUEST_ARENA); /* 64KB per request */
+    gray_default_arena = arena; /* the handler's response is copied here */
 
     /* Apply read timeout so slow or idle connections don't hold threads indefinitely */
     struct timeval tv;
@@ -460,6 +461,22 @@ void gray_server_listen(int64_t port, GrayRouter *r) {
     }
 }
 
+GrayRequest gray_server_request_copy(GrayArena *arena, GrayRequest req) {
+    req.method = gray_string_new(arena, req.method.data, req.method.len);
+    req.path = gray_string_new(arena, req.path.data, req.path.len);
+    req.body = gray_string_new(arena, req.body.data, req.body.len);
+    req.query = gray_map_copy_strings(arena, &req.query);
+    req.headers = gray_map_copy_strings(arena, &req.headers);
+    req.params = gray_map_copy_strings(arena, &req.params);
+    return req;
+}
+
+GrayResponse gray_server_response_copy(GrayArena *arena, GrayResponse resp) {
+    resp.body = gray_string_new(arena, resp.body.data, resp.body.len);
+    resp.content_type = gray_string_new(arena, resp.content_type.data, resp.content_type.len);
+    return resp;
+}
+
 /* Response builders */
 GrayResponse gray_server_text(int64_t status, GrayString body) {
     return (GrayResponse){status, body, gray_string_lit("text/plain")};
diff --git a/grayc/src/stdlib/server.h b/grayc/src/stdlib/server.h
index e51d79c..7716117 100644
--- a/grayc/src/stdlib/server.h
+++ b/grayc/src/stdlib/server.h
@@ -65,6 +65,10 @@ typedef struct {
     GrayString content_type;
 } GrayResponse;
 
+/* Copies that own their strings and maps */
+GrayRequest gray_server_request_copy(GrayArena *arena, GrayRequest req);
+GrayResponse gray_server_response_copy(GrayArena *arena, GrayResponse resp);
+
 /* Route entry */
 typedef struct {
     const char *method;
diff --git a/grayc/src/stdlib/uuid.h b/grayc/src/stdlib/uuid.h
index 490e84d..64d82a5 100644
--- a/grayc/src/stdlib/uuid.h
+++ b/grayc/src/stdlib/uuid.h
@@ -17,6 +17,10 @@ typedef struct {
     GrayString value;
 } GrayUUID;
 
+static inline GrayUUID gray_uuid_copy(GrayArena *arena, GrayUUID id) {
+    return (GrayUUID){gray_string_new(arena, id.value.data, id.value.len)};
+}
+
 GrayUUID gray_uuid_generate(GrayArena *arena);
 GrayString gray_uuid_generate_compact(GrayArena *arena, GrayUUID id);
 GrayUUID gray_uuid_generate_random(GrayArena *arena);
-- 
2.43.0


From e86e554741960d8e85467e762f9ac5a264d887e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:53:41 +0000
Subject: [PATCH 63/96] fix: the HTTP server reads whole requests, refuses
 malformed ones and sends whole responses

---
 grayc/src/stdlib/server.c | 392 +++++++++++++++++++++++++-------------
 1 file changed, 261 insertions(+), 131 deletions(-)

diff --git a/grayc/src/stdlib/server.c b/grayc/src/stdlib/server.c
index 8f168f9..8084b52 100644
--- a/grayc/src/stdlib/server.c
+++ b/grayc/src/stdlib/server.c
@@ -18,6 +18,12 @@
 #include <pthread.h>
 #include <sys/socket.h>
 #include <sys/time.h>
+#include <errno.h>
+#include <strings.h>
+
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0 /* SO_NOSIGPIPE is set instead */
+#endif
 
 #define GRAY_SERVER_BUF_SIZE          65536
 #define GRAY_SERVER_REQUEST_ARENA     (64 * 1024)
@@ -27,6 +33,7 @@
 #define GRAY_HTTP_PATH_BUF_SERVER     2048
 #define GRAY_SERVER_MAX_CONNECTIONS   1024
 #define GRAY_SERVER_READ_TIMEOUT_MS   30000
+#define GRAY_SERVER_MAX_BODY          (64u * 1024 * 1024)
 
 static int32_t active_connections = 0;
 
@@ -46,10 +53,13 @@ static const char *http_reason_phrase(int status) {
         case 403: return "Forbidden";
         case 404: return "Not Found";
         case 405: return "Method Not Allowed";
+        case 408: return "Request Timeout";
         case 409: return "Conflict";
         case 410: return "Gone";
+        case 413: return "Content Too Large";
         case 422: return "Unprocessable Entity";
         case 429: return "Too Many Requests";
+        case 431: return "Request Header Fields Too Large";
         case 500: return "Internal Server Error";
         case 501: return "Not Implemented";
         case 502: return "Bad Gateway";
@@ -164,40 +174,158 @@ static bool match_route(const char *pattern, const char *path,
     return false;
 }
 
-/* Parse HTTP request from raw data */
-static bool parse_request(GrayArena *arena, const char *data, int data_len,
-                          GrayRequest *req) {
-    if (data_len < 10) return false;
+/* One line of a request, without its line end. */
+typedef struct {
+    const char *start;
+    const char *end;
+} RequestLine;
+
+/* Take the next line (ended by CR LF or LF) off the data; false when none is complete. */
+static bool next_line(const char **cursor, const char *end, RequestLine *line) {
+    const char *newline = memchr(*cursor, '\n', (size_t)(end - *cursor));
+    if (!newline) return false;
+    line->start = *cursor;
+    line->end = newline > *cursor && newline[-1] == '\r' ? newline - 1 : newline;
+    *cursor = newline + 1;
+    return true;
+}
+
+/* Skip the empty lines a client may send before a request. */
+static const char *request_start(const char *data, const char *end) {
+    while (data < end && (*data == '\r' || *data == '\n')) data++;
+    return data;
+}
+
+/* The end of the header section (just after its empty line), or NULL while it is incomplete. */
+static const char *header_section_end(const char *data, const char *end) {
+    const char *cursor = request_start(data, end);
+    RequestLine line;
+    while (next_line(&cursor, end, &line)) {
+        if (line.start == line.end) return cursor;
+    }
+    return NULL;
+}
+
+/* Split a header line; false if it is malformed. */
+static bool split_header(RequestLine line, GrayString *name, GrayString *value) {
+    const char *colon = memchr(line.start, ':', (size_t)(line.end - line.start));
+    if (!colon || colon == line.start) return false;
+    for (const char *c = line.start; c < colon; c++) {
+        if (*c == ' ' || *c == '\t') return false;
+    }
+    const char *first = colon + 1, *last = line.end;
+    while (first < last && (*first == ' ' || *first == '\t')) first++;
+    while (last > first && (last[-1] == ' ' || last[-1] == '\t')) last--;
+    *name = (GrayString){(char *)line.start, (int32_t)(colon - line.start)};
+    *value = (GrayString){(char *)first, (int32_t)(last - first)};
+    return true;
+}
+
+static bool header_is(GrayString name, const char *expected) {
+    return strlen(expected) == (size_t)name.len && strncasecmp(name.data, expected, (size_t)name.len) == 0;
+}
+
+/* Find how many body bytes follow the header section. Returns 0, or the status
+ * to refuse the request with. */
+static int body_size(const char *data, const char *header_end, size_t *size) {
+    const char *cursor = request_start(data, header_end);
+    RequestLine line;
+    bool given = false;
+    *size = 0;
+    if (!next_line(&cursor, header_end, &line)) return 400;
+    while (next_line(&cursor, header_end, &line) && line.start < line.end) {
+        GrayString name, value;
+        if (!split_header(line, &name, &value)) return 400;
+        if (header_is(name, "Transfer-Encoding")) return 501;
+        if (!header_is(name, "Content-Length")) continue;
+        size_t length = 0;
+        if (value.len == 0) return 400;
+        for (int32_t i = 0; i < value.len; i++) {
+            if (value.data[i] < '0' || value.data[i] > '9') return 400;
+            if (length <= GRAY_SERVER_MAX_BODY) length = length * 10 + (size_t)(value.data[i] - '0');
+        }
+        if (given && length != *size) return 400;
+        given = true;
+        *size = length;
+    }
+    return *size > GRAY_SERVER_MAX_BODY ? 413 : 0;
+}
+
+/* Receive a whole request: the header section and as many body bytes as it
+ * announces. Returns 0 with *data (malloc'd, or NULL if the client closed without
+ * sending any), *header_size and *body_length set, or the status to refuse it with. */
+static int read_request(int fd, char **data, size_t *header_size, size_t *body_length) {
+    size_t capacity = GRAY_SERVER_BUF_SIZE, used = 0, wanted = 0;
+    char *buf = malloc(capacity);
+    if (!buf) return 503;
+    *data = buf;
+    *header_size = 0;
+    while (*header_size == 0 || used < wanted) {
+        if (used == capacity) {
+            if (*header_size == 0) return 431;
+            capacity = wanted;
+            char *grown = realloc(buf, capacity);
+            if (!grown) return 503;
+            *data = buf = grown;
+        }
+        ssize_t n = recv(fd, buf + used, capacity - used, 0);
+        if (n < 0 && errno == EINTR) continue;
+        if (n <= 0) {
+            if (used > 0) return n < 0 ? 408 : 400;
+            free(buf);
+            *data = NULL;
+            return 0;
+        }
+        used += (size_t)n;
+        if (*header_size > 0) continue;
+        const char *header_end = header_section_end(buf, buf + used);
+        if (!header_end) continue;
+        *header_size = (size_t)(header_end - buf);
+        if (memchr(buf, '\0', *header_size)) return 400;
+        int refused = body_size(buf, header_end, body_length);
+        if (refused) return refused;
+        wanted = *header_size + *body_length;
+    }
+    return 0;
+}
+
+/* Parse an HTTP request: its header section and the body that follows it */
+static bool parse_request(GrayArena *arena, const char *data, size_t header_size,
+                          size_t body_length, GrayRequest *req) {
+    const char *header_end = data + header_size;
+    const char *next = request_start(data, header_end);
+    RequestLine line;
+    if (!next_line(&next, header_end, &line)) return false;
 
     /* Parse request line: METHOD /path HTTP/1.1 */
-    const char *first_space = memchr(data, ' ', data_len);
-    if (!first_space) return false;
-    req->method = gray_string_new(arena, data, (int32_t)(first_space - data));
+    const char *first_space = memchr(line.start, ' ', (size_t)(line.end - line.start));
+    if (!first_space || first_space == line.start) return false;
+    req->method = gray_string_new(arena, line.start, (int32_t)(first_space - line.start));
 
     const char *path_start = first_space + 1;
-    const char *second_space = memchr(path_start, ' ', data_len - (path_start - data));
-    if (!second_space) return false;
+    const char *second_space = memchr(path_start, ' ', (size_t)(line.end - path_start));
+    if (!second_space || second_space == path_start) return false;
+    if (line.end - second_space < 6 || strncmp(second_space + 1, "HTTP/", 5) != 0) return false;
 
     /* Split path and query string */
-    const char *qmark = memchr(path_start, '?', second_space - path_start);
+    const char *qmark = memchr(path_start, '?', (size_t)(second_space - path_start));
     if (qmark) {
         req->path = gray_string_new(arena, path_start, (int32_t)(qmark - path_start));
-        /* Parse query params */
-        const char *query_string = qmark + 1;
-        int32_t query_string_length = (int32_t)(second_space - query_string);
         /* Simple key=value&key2=value2 parser */
-        const char *cursor = query_string;
-        const char *end = query_string + query_string_length;
-        while (cursor < end) {
-            const char *eq = memchr(cursor, '=', end - cursor);
-            if (!eq) break;
-            const char *amp = memchr(eq, '&', end - eq);
-            if (!amp) amp = end;
-
-            GrayString key = gray_string_new(arena, cursor, (int32_t)(eq - cursor));
-            GrayString val = gray_string_new(arena, eq + 1, (int32_t)(amp - eq - 1));
-            gray_map_set(arena, &req->query, &key, &val);
-
+        const char *cursor = qmark + 1;
+        while (cursor < second_space) {
+            const char *amp = memchr(cursor, '&', (size_t)(second_space - cursor));
+            if (!amp) amp = second_space;
+            const char *eq = memchr(cursor, '=', (size_t)(amp - cursor));
+            if (eq) {
+                GrayString key = gray_string_new(arena, cursor, (int32_t)(eq - cursor));
+                GrayString val = gray_string_new(arena, eq + 1, (int32_t)(amp - eq - 1));
+                gray_map_set(arena, &req->query, &key, &val);
+            } else if (amp > cursor) {
+                GrayString key = gray_string_new(arena, cursor, (int32_t)(amp - cursor));
+                GrayString val = gray_string_lit("");
+                gray_map_set(arena, &req->query, &key, &val);
+            }
             cursor = amp + 1;
         }
     } else {
@@ -205,37 +333,16 @@ static bool parse_request(GrayArena *arena, const char *data, int data_len,
     }
 
     /* Parse headers */
-    const char *header_start = strstr(data, "\r\n");
-    const char *body_separator = strstr(data, "\r\n\r\n");
-    if (header_start) header_start += 2;
-
-    while (header_start && header_start < body_separator) {
-        const char *end_of_line = strstr(header_start, "\r\n");
-        if (!end_of_line) break;
-
-        const char *colon = memchr(header_start, ':', end_of_line - header_start);
-        if (colon) {
-            int32_t key_length = (int32_t)(colon - header_start);
-            const char *vstart = colon + 1;
-            while (*vstart == ' ') vstart++;
-            int32_t value_length = (int32_t)(end_of_line - vstart);
-
-            GrayString key = gray_string_new(arena, header_start, key_length);
-            GrayString val = gray_string_new(arena, vstart, value_length);
-            gray_map_set(arena, &req->headers, &key, &val);
-        }
-        header_start = end_of_line + 2;
+    while (next_line(&next, header_end, &line) && line.start < line.end) {
+        GrayString name, value;
+        if (!split_header(line, &name, &value)) return false;
+        GrayString key = gray_string_new(arena, name.data, name.len);
+        GrayString val = gray_string_new(arena, value.data, value.len);
+        gray_map_set(arena, &req->headers, &key, &val);
     }
 
     /* Body */
-    if (body_separator) {
-        const char *body_start = body_separator + 4;
-        int32_t body_length = (int32_t)(data_len - (body_start - data));
-        if (body_length > 0) {
-            req->body = gray_string_new(arena, body_start, body_length);
-        }
-    }
-
+    if (body_length > 0) req->body = gray_string_new(arena, header_end, (int32_t)body_length);
     return true;
 }
 
@@ -245,29 +352,99 @@ typedef struct {
     GrayRouter *router;
 } ConnCtx;
 
+/* Send everything; a client that went away is no reason to stop the server. */
+static bool send_all(int fd, const char *data, size_t len) {
+    while (len > 0) {
+        ssize_t n = send(fd, data, len, MSG_NOSIGNAL);
+        if (n < 0 && errno == EINTR) continue;
+        if (n <= 0) return false;
+        data += n;
+        len -= (size_t)n;
+    }
+    return true;
+}
+
+/* Close a connection so that a client that is still sending can read the response. */
+static void close_connection(int fd) {
+    struct timeval tv = {1, 0};
+    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
+    shutdown(fd, SHUT_WR);
+    char rest[4096];
+    for (int i = 0; i < 4096 && recv(fd, rest, sizeof(rest), 0) > 0; i++) {}
+    close(fd);
+}
+
+static bool has_line_break(GrayString s) {
+    return memchr(s.data, '\r', (size_t)s.len) || memchr(s.data, '\n', (size_t)s.len);
+}
+
+static void send_response(GrayArena *arena, int fd, GrayResponse resp, const char *cors_origin) {
+    int status = (int)resp.status;
+    GrayString cors = gray_string_lit("");
+    if (cors_origin) {
+        cors = gray_string_format(arena,
+            "Access-Control-Allow-Origin: %s\r\n"
+            "Access-Control-Allow-Methods: GET, POST, PUT, DELETE, PATCH, OPTIONS\r\n"
+            "Access-Control-Allow-Headers: Content-Type, Authorization\r\n",
+            cors_origin);
+    }
+
+    /* A redirect holds its target in the body and has no content type. */
+    GrayString header;
+    if (status >= 300 && status < 400 && resp.content_type.len == 0 && resp.body.len > 0 &&
+        !has_line_break(resp.body)) {
+        header = gray_string_format(arena,
+            "HTTP/1.1 %d %s\r\n"
+            "Location: %.*s\r\n"
+            "Content-Length: 0\r\n"
+            "%s"
+            "Connection: close\r\n"
+            "\r\n",
+            status, http_reason_phrase(status),
+            (int)resp.body.len, resp.body.data, cors.data);
+        resp.body.len = 0;
+    } else {
+        if (resp.content_type.len == 0) {
+            if (status >= 300 && status < 400) { /* a target that cannot be sent in a header */
+                status = 500;
+                resp.body.len = 0;
+            }
+            resp.content_type = gray_string_lit("text/plain");
+        }
+        header = gray_string_format(arena,
+            "HTTP/1.1 %d %s\r\n"
+            "Content-Type: %.*s\r\n"
+            "Content-Length: %d\r\n"
+            "%s"
+            "Connection: close\r\n"
+            "\r\n",
+            status, http_reason_phrase(status),
+            (int)resp.content_type.len, resp.content_type.data,
+            (int)resp.body.len, cors.data);
+    }
+    if (send_all(fd, header.data, (size_t)header.len)) send_all(fd, resp.body.data, (size_t)resp.body.len);
+}
+
 static void *handle_connection(void *arg) {
     ConnCtx *ctx = (ConnCtx *)arg;
     GrayArena *arena = gray_arena_create(GRAY_SERVER_REQUEST_ARENA); /* 64KB per request */
     gray_default_arena = arena; /* the handler's response is copied here */
 
-    /* Apply read timeout so slow or idle connections don't hold threads indefinitely */
+    /* Apply timeouts so slow or idle connections don't hold threads indefinitely */
     struct timeval tv;
     tv.tv_sec  = GRAY_SERVER_READ_TIMEOUT_MS / 1000;
     tv.tv_usec = (GRAY_SERVER_READ_TIMEOUT_MS % 1000) * 1000;
     setsockopt(ctx->client_fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
+    setsockopt(ctx->client_fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
+#ifdef SO_NOSIGPIPE
+    int no_sigpipe = 1;
+    setsockopt(ctx->client_fd, SOL_SOCKET, SO_NOSIGPIPE, &no_sigpipe, sizeof(no_sigpipe));
+#endif
 
     /* Receive request data */
-    char buf[GRAY_SERVER_BUF_SIZE];
-    ssize_t n = recv(ctx->client_fd, buf, sizeof(buf) - 1, 0);
-    if (n <= 0) {
-        close(ctx->client_fd);
-        free(ctx);
-        gray_arena_destroy(arena, __FILE__, __LINE__);
-        free(arena);
-        gray_atomic_sub32(&active_connections, 1);
-        return NULL;
-    }
-    buf[n] = '\0';
+    char *data = NULL;
+    size_t header_size = 0, body_length = 0;
+    int refused = read_request(ctx->client_fd, &data, &header_size, &body_length);
 
     /* Parse request */
     GrayRequest req;
@@ -275,24 +452,20 @@ static void *handle_connection(void *arg) {
     req.query = gray_map_new(arena, sizeof(GrayString), sizeof(GrayString), 8);
     req.headers = gray_map_new(arena, sizeof(GrayString), sizeof(GrayString), 16);
     req.params = gray_map_new(arena, sizeof(GrayString), sizeof(GrayString), 8);
-
-    GrayResponse resp;
-    resp.status = 404;
-    resp.body = gray_string_new(arena, "Not Found", sizeof("Not Found") - 1);
-    resp.content_type = gray_string_new(arena, "text/plain", sizeof("text/plain") - 1);
-
-    if (parse_request(arena, buf, (int)n, &req)) {
-        /* Reject oversized method or path before copying into fixed stack buffers */
-        if (req.method.len >= GRAY_HTTP_METHOD_BUF || req.path.len >= GRAY_HTTP_PATH_BUF_SERVER) {
-            const char *err = "HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\nConnection: close\r\n\r\n";
-            send(ctx->client_fd, err, strlen(err), 0);
-            close(ctx->client_fd);
-            free(ctx);
-            gray_arena_destroy(arena, __FILE__, __LINE__);
-            free(arena);
-            gray_atomic_sub32(&active_connections, 1);
-            return NULL;
+    if (data && !refused) {
+        if (!parse_request(arena, data, header_size, body_length, &req)) {
+            refused = 400;
+        } else if (req.method.len >= GRAY_HTTP_METHOD_BUF || req.path.len >= GRAY_HTTP_PATH_BUF_SERVER) {
+            /* Reject oversized method or path before copying into fixed stack buffers */
+            refused = 400;
         }
+    }
+
+    if (refused) {
+        GrayString phrase = gray_string_format(arena, "%s", http_reason_phrase(refused));
+        send_response(arena, ctx->client_fd, gray_server_text(refused, phrase), NULL);
+    } else if (data) {
+        GrayResponse resp = gray_server_text(404, gray_string_lit("Not Found"));
 
         /* Find matching route */
         char method_buf[GRAY_HTTP_METHOD_BUF], path_buf[GRAY_HTTP_PATH_BUF_SERVER];
@@ -314,55 +487,12 @@ static void *handle_connection(void *arg) {
         for (int i = 0; i < ctx->router->mw_count; i++) {
             ctx->router->middlewares[i](&req, &resp);
         }
-    }
-
-    /* Build HTTP response with optional CORS headers */
-    char cors_hdrs[GRAY_SERVER_CORS_BUF];
-    cors_hdrs[0] = '\0';
-    if (ctx->router->cors_origin) {
-        snprintf(cors_hdrs, sizeof(cors_hdrs),
-            "Access-Control-Allow-Origin: %s\r\n"
-            "Access-Control-Allow-Methods: GET, POST, PUT, DELETE, PATCH, OPTIONS\r\n"
-            "Access-Control-Allow-Headers: Content-Type, Authorization\r\n",
-            ctx->router->cors_origin);
-    }
-
-    char response_buffer[GRAY_SERVER_BUF_SIZE];
-    int response_length;
-    int status = (int)resp.status;
-    bool is_redirect = (status >= 300 && status < 400 && resp.body.len > 0);
 
-    if (is_redirect) {
-        response_length = snprintf(response_buffer, sizeof(response_buffer),
-            "HTTP/1.1 %d %s\r\n"
-            "Location: %.*s\r\n"
-            "Content-Length: 0\r\n"
-            "%s"
-            "Connection: close\r\n"
-            "\r\n",
-            status, http_reason_phrase(status),
-            (int)resp.body.len, resp.body.data,
-            cors_hdrs);
-    } else {
-        response_length = snprintf(response_buffer, sizeof(response_buffer),
-            "HTTP/1.1 %d %s\r\n"
-            "Content-Type: %.*s\r\n"
-            "Content-Length: %d\r\n"
-            "%s"
-            "Connection: close\r\n"
-            "\r\n"
-            "%.*s",
-            status, http_reason_phrase(status),
-            (int)resp.content_type.len, resp.content_type.data,
-            (int)resp.body.len,
-            cors_hdrs,
-            (int)resp.body.len, resp.body.data);
+        send_response(arena, ctx->client_fd, resp, ctx->router->cors_origin);
     }
 
-    size_t send_len = (response_length > 0 && (size_t)response_length < sizeof(response_buffer))
-        ? (size_t)response_length : sizeof(response_buffer) - 1;
-    send(ctx->client_fd, response_buffer, send_len, 0);
-    close(ctx->client_fd);
+    free(data);
+    close_connection(ctx->client_fd);
     free(ctx);
     gray_arena_destroy(arena, __FILE__, __LINE__);
     free(arena);
@@ -389,7 +519,7 @@ void gray_server_listen_host(int64_t port, GrayString host, GrayRouter *r) {
         if (prev >= GRAY_SERVER_MAX_CONNECTIONS) {
             gray_atomic_sub32(&active_connections, 1);
             const char *r503 = "HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\nConnection: close\r\n\r\n";
-            send(client.fd, r503, strlen(r503), 0);
+            send(client.fd, r503, strlen(r503), MSG_NOSIGNAL);
             close(client.fd);
             continue;
         }
@@ -435,7 +565,7 @@ void gray_server_listen(int64_t port, GrayRouter *r) {
         if (prev >= GRAY_SERVER_MAX_CONNECTIONS) {
             gray_atomic_sub32(&active_connections, 1);
             const char *r503 = "HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\nConnection: close\r\n\r\n";
-            send(client.fd, r503, strlen(r503), 0);
+            send(client.fd, r503, strlen(r503), MSG_NOSIGNAL);
             close(client.fd);
             continue;
         }
@@ -492,5 +622,5 @@ GrayResponse gray_server_html(int64_t status, GrayString body) {
 
 GrayResponse gray_server_redirect(int64_t status, GrayString location) {
     /* For redirect, body contains Location header value */
-    return (GrayResponse){status, location, gray_string_lit("text/plain")};
+    return (GrayResponse){status, location, gray_string_lit("")};
 }
-- 
2.43.0


From df30874526ca2b4702a27efb06f7908a8b63d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:53:41 +0000
Subject: [PATCH 64/96] fix: HTTP routes see only their own, non-empty path
 parameters

---
 grayc/src/stdlib/server.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/grayc/src/stdlib/server.c b/grayc/src/stdlib/server.c
index 8084b52..809f605 100644
--- a/grayc/src/stdlib/server.c
+++ b/grayc/src/stdlib/server.c
@@ -146,7 +146,7 @@ static bool match_route(const char *pattern, const char *path,
     const char *path_ptr = path;
 
     while (*pattern_ptr && *path_ptr) {
-        if (*pattern_ptr == ':') {
+        if (*pattern_ptr == ':' && (pattern_ptr == pattern || pattern_ptr[-1] == '/')) {
             /* Path parameter — extract name and value */
             pattern_ptr++; /* skip : */
             const char *name_start = pattern_ptr;
@@ -156,6 +156,7 @@ static bool match_route(const char *pattern, const char *path,
             const char *val_start = path_ptr;
             while (*path_ptr && *path_ptr != '/') path_ptr++;
             int32_t val_len = (int32_t)(path_ptr - val_start);
+            if (val_len == 0) return false;
 
             GrayString key = gray_string_new(arena, name_start, name_len);
             GrayString val = gray_string_new(arena, val_start, val_len);
@@ -476,8 +477,11 @@ static void *handle_connection(void *arg) {
 
         for (int i = 0; i < ctx->router->count; i++) {
             GrayRoute *route = &ctx->router->routes[i];
-            if (strcmp(route->method, method_buf) == 0 &&
-                match_route(route->pattern, path_buf, arena, &req.params)) {
+            if (strcmp(route->method, method_buf) != 0) continue;
+            /* A route that matches only in part leaves no parameters behind */
+            GrayMap params = gray_map_new(arena, sizeof(GrayString), sizeof(GrayString), 8);
+            if (match_route(route->pattern, path_buf, arena, &params)) {
+                req.params = params;
                 resp = route->handler(req);
                 break;
             }
-- 
2.43.0


From 43804887e4449f31e41c1ea54c73479637b239d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:29:54 +0000
Subject: [PATCH 65/96] fix: the HTTP client sends and reads whole messages and
 reports malformed ones

---
 grayc/src/stdlib/http.c | 527 +++++++++++++++++++++++++---------------
 1 file changed, 333 insertions(+), 194 deletions(-)

diff --git a/grayc/src/stdlib/http.c b/grayc/src/stdlib/http.c
index 36a75cd..d8ed706 100644
--- a/grayc/src/stdlib/http.c
+++ b/grayc/src/stdlib/http.c
@@ -13,246 +13,385 @@
 #include <string.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <strings.h>
+#include <errno.h>
+#include <sys/socket.h>
 
 #define GRAY_HTTP_DEFAULT_PORT    80
 #define GRAY_HTTP_TIMEOUT_MS      10000
-#define GRAY_HTTP_URL_BUF         4096
 #define GRAY_HTTP_HOST_BUF        256
-#define GRAY_HTTP_PATH_BUF        2048
-#define GRAY_HTTP_HDR_BUF         4096
-#define GRAY_HTTP_RESP_BUF        1048576
-#define GRAY_HTTP_MIN_RESP_LEN    12
-
-/* Helper: null-terminate an GrayString */
-static const char *http_cstr(GrayString s, char *buf, size_t buffer_size) {
-    size_t len = (size_t)s.len < buffer_size - 1 ? (size_t)s.len : buffer_size - 1;
-    memcpy(buf, s.data, len);
-    buf[len] = '\0';
-    return buf;
-}
+#define GRAY_HTTP_BUF             65536
+#define GRAY_HTTP_MAX_HEADER      (1024 * 1024)
+#define GRAY_HTTP_MAX_RESPONSE    ((size_t)1024 * 1024 * 1024)
 
-/* Parse a URL into host, port, and path components */
-static bool parse_url(const char *url, char *host, size_t host_sz,
-                      int *port, char *path, size_t path_sz) {
-    /* Require http:// or https:// scheme */
-    const char *cursor = url;
-    if (strncmp(cursor, "http://", 7) == 0) {
-        cursor += 7;
-    } else if (strncmp(cursor, "https://", 8) == 0) {
-        return false;
-    } else {
-        return false;
+typedef struct {
+    GrayString host;
+    int port;
+    GrayString path; /* path and query, as in the request line; "" when the URL has none */
+} HttpUrl;
+
+/* Split an http:// URL into host, port, and path; false if it is not one. */
+static bool parse_url(GrayString url, HttpUrl *out) {
+    const char *cursor = url.data, *end = url.data + url.len;
+    if (url.len < 7 || strncmp(cursor, "http://", 7) != 0) return false;
+    cursor += 7;
+
+    /* No byte that could end the request line or a header */
+    for (const char *c = cursor; c < end; c++) {
+        if ((unsigned char)*c <= ' ' || *c == 0x7f) return false;
     }
 
-    /* Reject empty host or host containing characters that would break HTTP headers */
-    if (*cursor == '\0' || *cursor == '/' || *cursor == ':') return false;
-    for (const char *c = cursor; *c && *c != '/' && *c != ':'; c++) {
-        if (*c == ' ' || *c == '\t' || *c == '\r' || *c == '\n') return false;
+    const char *path = cursor;
+    while (path < end && *path != '/' && *path != '?' && *path != '#') path++;
+    const char *colon = memchr(cursor, ':', (size_t)(path - cursor));
+    const char *host_end = colon ? colon : path;
+    if (host_end == cursor || host_end - cursor >= GRAY_HTTP_HOST_BUF) return false;
+    out->host = (GrayString){(char *)cursor, (int32_t)(host_end - cursor)};
+
+    out->port = GRAY_HTTP_DEFAULT_PORT;
+    if (colon && colon + 1 < path) {
+        out->port = 0;
+        for (const char *c = colon + 1; c < path; c++) {
+            if (*c < '0' || *c > '9') return false;
+            out->port = out->port * 10 + (*c - '0');
+            if (out->port > 65535) return false;
+        }
+        if (out->port == 0) return false;
     }
 
-    /* Extract host[:port] */
-    const char *slash = strchr(cursor, '/');
-    const char *colon = strchr(cursor, ':');
-
-    if (colon && (!slash || colon < slash)) {
-        /* host:port */
-        size_t host_length = (size_t)(colon - cursor);
-        if (host_length >= host_sz) host_length = host_sz - 1;
-        memcpy(host, cursor, host_length);
-        host[host_length] = '\0';
-        *port = atoi(colon + 1);
-    } else {
-        /* host only */
-        size_t host_length = slash ? (size_t)(slash - cursor) : strlen(cursor);
-        if (host_length >= host_sz) host_length = host_sz - 1;
-        memcpy(host, cursor, host_length);
-        host[host_length] = '\0';
-        *port = GRAY_HTTP_DEFAULT_PORT;
-    }
+    /* A fragment is not sent. */
+    const char *fragment = memchr(path, '#', (size_t)(end - path));
+    out->path = (GrayString){(char *)path, (int32_t)((fragment ? fragment : end) - path)};
+    return true;
+}
 
-    /* Path — reject CR/LF to prevent header injection via request line */
-    if (slash) {
-        size_t path_length = strlen(slash);
-        if (path_length >= path_sz) path_length = path_sz - 1;
-        memcpy(path, slash, path_length);
-        path[path_length] = '\0';
-        for (size_t i = 0; i < path_length; i++) {
-            if (path[i] == '\r' || path[i] == '\n') return false;
-        }
-    } else {
-        path[0] = '/';
-        path[1] = '\0';
-    }
+/* A growing byte buffer */
+typedef struct {
+    char *data;
+    size_t len;
+    size_t capacity;
+} HttpBuf;
+
+static bool http_buf_reserve(HttpBuf *buf, size_t extra) {
+    if (buf->capacity - buf->len >= extra) return true;
+    size_t capacity = buf->capacity ? buf->capacity : GRAY_HTTP_BUF;
+    while (capacity - buf->len < extra) capacity *= 2;
+    char *grown = realloc(buf->data, capacity);
+    if (!grown) return false;
+    buf->data = grown;
+    buf->capacity = capacity;
+    return true;
+}
 
-    return host[0] != '\0';
+static bool http_buf_add(HttpBuf *buf, const char *data, size_t len) {
+    if (!http_buf_reserve(buf, len)) return false;
+    if (len > 0) memcpy(buf->data + buf->len, data, len);
+    buf->len += len;
+    return true;
 }
 
-/* Parse HTTP response: extract status code, headers, body */
-static GrayHttpResponse parse_response(GrayArena *arena, const char *data, int data_len) {
-    GrayHttpResponse resp;
-    resp.status = 0;
-    resp.body = (GrayString){"", 0};
-    resp.headers = gray_map_new(arena, sizeof(GrayString), sizeof(GrayString), 16);
+static bool http_buf_add_text(HttpBuf *buf, const char *text) {
+    return http_buf_add(buf, text, strlen(text));
+}
 
-    if (data_len < GRAY_HTTP_MIN_RESP_LEN) return resp;
+static bool http_buf_add_string(HttpBuf *buf, GrayString s) {
+    return http_buf_add(buf, s.data, (size_t)s.len);
+}
 
-    /* Parse status line: HTTP/1.1 200 OK */
-    if (strncmp(data, "HTTP/", 5) == 0) {
-        const char *sp = strchr(data, ' ');
-        if (sp) resp.status = atoi(sp + 1);
-    }
+static bool name_is(const char *name, size_t len, const char *expected) {
+    return len == strlen(expected) && strncasecmp(name, expected, len) == 0;
+}
 
-    /* Find header/body separator */
-    const char *body_start = NULL;
-    const char *header_end = strstr(data, "\r\n\r\n");
-    if (header_end) {
-        body_start = header_end + 4;
-    } else {
-        header_end = strstr(data, "\n\n");
-        if (header_end) body_start = header_end + 2;
+static bool has_header(GrayMap *headers, const char *name) {
+    for (int32_t i = 0; headers && i < headers->order_len; i++) {
+        if (headers->order[i] < 0) continue;
+        GrayString *k = (GrayString *)gray_map_key_at(headers, headers->order[i]);
+        if (k && name_is(k->data, (size_t)k->len, name)) return true;
     }
+    return false;
+}
 
-    /* Parse headers */
-    const char *line = strchr(data, '\n');
-    if (line) line++;
-    while (line && line < header_end) {
-        const char *end_of_line = strchr(line, '\n');
-        if (!end_of_line || end_of_line > header_end) break;
-
-        const char *colon = memchr(line, ':', (size_t)(end_of_line - line));
-        if (colon) {
-            int32_t key_length = (int32_t)(colon - line);
-            const char *vstart = colon + 1;
-            while (*vstart == ' ') vstart++;
-            int32_t value_length = (int32_t)(end_of_line - vstart);
-            if (value_length > 0 && vstart[value_length - 1] == '\r') value_length--;
-
-            GrayString key = gray_string_new(arena, line, key_length);
-            GrayString val = gray_string_new(arena, vstart, value_length);
-            gray_map_set(arena, &resp.headers, &key, &val);
+/* Append the caller's headers; false if one is not a valid header. */
+static bool add_custom_headers(HttpBuf *request, GrayMap *headers) {
+    for (int32_t i = 0; headers && i < headers->order_len; i++) {
+        if (headers->order[i] < 0) continue;
+        GrayString *k = (GrayString *)gray_map_key_at(headers, headers->order[i]);
+        GrayString *v = (GrayString *)gray_map_value_at(headers, headers->order[i]);
+        if (!k || !v) continue;
+        if (k->len == 0) return false;
+        for (int32_t c = 0; c < k->len; c++) {
+            if ((unsigned char)k->data[c] <= ' ' || k->data[c] == ':' || k->data[c] == 0x7f) return false;
         }
-        line = end_of_line + 1;
+        for (int32_t c = 0; c < v->len; c++) {
+            if (v->data[c] == '\r' || v->data[c] == '\n' || v->data[c] == '\0') return false;
+        }
+        http_buf_add_string(request, *k);
+        http_buf_add_text(request, ": ");
+        http_buf_add_string(request, *v);
+        if (!http_buf_add_text(request, "\r\n")) return false;
     }
+    return true;
+}
 
-    /* Body */
-    if (body_start) {
-        int32_t body_length = (int32_t)(data_len - (int)(body_start - data));
-        if (body_length > 0) {
-            resp.body = gray_string_new(arena, body_start, body_length);
+/* How far a response has been understood */
+typedef struct {
+    size_t header_start;    /* of the final response, after any 1xx responses */
+    size_t body_start;      /* 0 while the header section is incomplete */
+    int status;
+    bool chunked;
+    bool has_length;
+    size_t length;          /* body bytes announced */
+    size_t next_chunk;      /* where the next chunk starts */
+    HttpBuf body;           /* the decoded chunks */
+} HttpReader;
+
+typedef enum { HTTP_MORE, HTTP_DONE, HTTP_BAD } HttpProgress;
+
+static HttpProgress read_header_line(HttpReader *reader, const char *line, const char *end) {
+    const char *colon = memchr(line, ':', (size_t)(end - line));
+    if (!colon) return HTTP_BAD;
+    const char *value = colon + 1;
+    while (value < end && (*value == ' ' || *value == '\t')) value++;
+    while (end > value && (end[-1] == ' ' || end[-1] == '\t')) end--;
+    size_t name_len = (size_t)(colon - line);
+    if (name_is(line, name_len, "Transfer-Encoding")) {
+        if (!name_is(value, (size_t)(end - value), "chunked")) return HTTP_BAD;
+        reader->chunked = true;
+    } else if (name_is(line, name_len, "Content-Length")) {
+        size_t length = 0;
+        if (value == end) return HTTP_BAD;
+        for (; value < end; value++) {
+            if (*value < '0' || *value > '9') return HTTP_BAD;
+            if (length <= GRAY_HTTP_MAX_RESPONSE) length = length * 10 + (size_t)(*value - '0');
         }
+        if (length > GRAY_HTTP_MAX_RESPONSE || (reader->has_length && length != reader->length)) return HTTP_BAD;
+        reader->has_length = true;
+        reader->length = length;
     }
-
-    return resp;
+    return HTTP_MORE;
 }
 
-/* Core HTTP request function */
-static GrayHttpResponse do_request(GrayArena *arena, const char *method,
-                                  GrayString url, GrayString body, GrayMap *custom_headers) {
-    GrayHttpResponse err_resp;
-    err_resp.status = 0;
-    err_resp.body = (GrayString){"", 0};
-    err_resp.headers = gray_map_new(arena, sizeof(GrayString), sizeof(GrayString), 4);
-
-    char url_buf[GRAY_HTTP_URL_BUF];
-    http_cstr(url, url_buf, sizeof(url_buf));
-
-    if (strncmp(url_buf, "https://", 8) == 0) {
-        const char *detail = "https:// is not supported; use http://";
-        err_resp.body = gray_string_new(arena, detail, (int32_t)strlen(detail));
-        return err_resp;
+/* Take the status line and the headers once they have all arrived. */
+static HttpProgress read_header_section(HttpReader *reader, const HttpBuf *in, bool head) {
+    const char *end = in->data + in->len;
+    const char *line = in->data + reader->header_start;
+    size_t prefix = (size_t)(end - line) < 5 ? (size_t)(end - line) : 5;
+    if (strncmp(line, "HTTP/", prefix) != 0) return HTTP_BAD;
+
+    /* Find the empty line before looking at anything */
+    const char *cursor = line, *newline;
+    for (;;) {
+        newline = memchr(cursor, '\n', (size_t)(end - cursor));
+        if (!newline) return in->len - reader->header_start > GRAY_HTTP_MAX_HEADER ? HTTP_BAD : HTTP_MORE;
+        if (newline == cursor || (newline == cursor + 1 && *cursor == '\r')) break;
+        cursor = newline + 1;
     }
-
-    char host[GRAY_HTTP_HOST_BUF], path[GRAY_HTTP_PATH_BUF];
-    int port;
-    if (!parse_url(url_buf, host, sizeof(host), &port, path, sizeof(path))) {
-        const char *detail = "invalid URL: expected http:// scheme";
-        err_resp.body = gray_string_new(arena, detail, (int32_t)strlen(detail));
-        return err_resp;
+    const char *section_end = cursor;
+    reader->chunked = reader->has_length = false;
+    if (memchr(line, '\0', (size_t)(section_end - line)) || section_end == line) return HTTP_BAD;
+
+    const char *status_end = memchr(line, '\n', (size_t)(section_end - line));
+    const char *space = memchr(line, ' ', (size_t)(status_end - line));
+    if (!space || status_end - space < 4) return HTTP_BAD;
+    reader->status = 0;
+    for (int i = 1; i <= 3; i++) {
+        if (space[i] < '0' || space[i] > '9') return HTTP_BAD;
+        reader->status = reader->status * 10 + (space[i] - '0');
     }
+    if (reader->status < 100 || (space[4] != ' ' && space[4] != '\r' && space[4] != '\n')) return HTTP_BAD;
 
-    /* Connect */
-    GrayString host_str = gray_string_new(arena, host, (int32_t)strlen(host));
-    GraySocket sock = gray_net_dial(arena, host_str, port);
-    if (sock.fd < 0) {
-        err_resp.body = gray_string_new(arena, "connection failed", 17);
-        return err_resp;
+    for (cursor = status_end + 1; cursor < section_end; cursor = newline + 1) {
+        newline = memchr(cursor, '\n', (size_t)(section_end - cursor));
+        const char *line_end = newline > cursor && newline[-1] == '\r' ? newline - 1 : newline;
+        if (read_header_line(reader, cursor, line_end) == HTTP_BAD) return HTTP_BAD;
+    }
+    const char *after = (const char *)memchr(section_end, '\n', (size_t)(end - section_end)) + 1;
+    if (reader->status < 200 && reader->status != 101) {
+        reader->header_start = (size_t)(after - in->data); /* interim: the response follows */
+        return reader->header_start < in->len ? read_header_section(reader, in, head) : HTTP_MORE;
     }
+    reader->body_start = reader->next_chunk = (size_t)(after - in->data);
+    if (head || reader->status == 204 || reader->status == 304) {
+        reader->chunked = false;
+        reader->has_length = true;
+        reader->length = 0;
+    }
+    return HTTP_MORE;
+}
 
-    /* Set 10s timeout */
-    gray_net_set_timeout(sock, GRAY_HTTP_TIMEOUT_MS);
+/* Decode the chunks that have arrived whole. */
+static HttpProgress read_chunks(HttpReader *reader, const HttpBuf *in) {
+    for (;;) {
+        const char *start = in->data + reader->next_chunk, *end = in->data + in->len;
+        const char *newline = memchr(start, '\n', (size_t)(end - start));
+        if (!newline) return end - start > GRAY_HTTP_MAX_HEADER ? HTTP_BAD : HTTP_MORE;
+        size_t size = 0;
+        const char *c = start;
+        for (; c < newline; c++) {
+            int digit;
+            if (*c >= '0' && *c <= '9') digit = *c - '0';
+            else if (*c >= 'a' && *c <= 'f') digit = *c - 'a' + 10;
+            else if (*c >= 'A' && *c <= 'F') digit = *c - 'A' + 10;
+            else break;
+            size = size * 16 + (size_t)digit;
+            if (size > GRAY_HTTP_MAX_RESPONSE) return HTTP_BAD;
+        }
+        if (c == start || (*c != '\r' && *c != '\n' && *c != ';' && *c != ' ')) return HTTP_BAD;
+        const char *data = newline + 1;
+        if (size == 0) {
+            /* Trailer lines up to an empty one */
+            for (const char *line = data;;) {
+                newline = memchr(line, '\n', (size_t)(end - line));
+                if (!newline) return end - data > GRAY_HTTP_MAX_HEADER ? HTTP_BAD : HTTP_MORE;
+                if (newline == line || (newline == line + 1 && *line == '\r')) return HTTP_DONE;
+                line = newline + 1;
+            }
+        }
+        size_t have = (size_t)(end - data);
+        if (have < size + 1) return HTTP_MORE;
+        size_t ending = data[size] == '\r' ? 2 : 1;
+        if (have < size + ending) return HTTP_MORE;
+        if (data[size + ending - 1] != '\n' || !http_buf_add(&reader->body, data, size)) return HTTP_BAD;
+        reader->next_chunk = (size_t)(data - in->data) + size + ending;
+    }
+}
 
-    /* Build headers — body is sent separately to avoid truncation */
-    char header[GRAY_HTTP_HDR_BUF];
-    int header_length;
-
-    if (body.data && body.len > 0) {
-        header_length = snprintf(header, sizeof(header),
-            "%s %s HTTP/1.1\r\n"
-            "Host: %s\r\n"
-            "Content-Length: %d\r\n"
-            "Content-Type: application/x-www-form-urlencoded\r\n"
-            "Connection: close\r\n",
-            method, path, host, (int)body.len);
-    } else {
-        header_length = snprintf(header, sizeof(header),
-            "%s %s HTTP/1.1\r\n"
-            "Host: %s\r\n"
-            "Connection: close\r\n",
-            method, path, host);
+static HttpProgress read_progress(HttpReader *reader, const HttpBuf *in, bool head) {
+    if (reader->body_start == 0) {
+        HttpProgress progress = read_header_section(reader, in, head);
+        if (progress != HTTP_MORE || reader->body_start == 0) return progress;
     }
+    if (reader->chunked) return read_chunks(reader, in);
+    if (reader->has_length && in->len - reader->body_start >= reader->length) return HTTP_DONE;
+    return HTTP_MORE;
+}
 
-    /* Append custom headers */
-    if (custom_headers && custom_headers->count > 0) {
-        for (int32_t i = 0; i < custom_headers->order_len; i++) {
-            int32_t slot = custom_headers->order[i];
-            if (slot < 0) continue;
-            GrayString *k = (GrayString *)gray_map_key_at(custom_headers, slot);
-            GrayString *v = (GrayString *)gray_map_value_at(custom_headers, slot);
-            if (!k || !v) continue;
-            int n = snprintf(header + header_length, sizeof(header) - (size_t)header_length,
-                "%.*s: %.*s\r\n", (int)k->len, k->data, (int)v->len, v->data);
-            if (n > 0) header_length += n;
+/* Receive a whole response. Returns NULL, or what is wrong. */
+static const char *read_response(GraySocket sock, bool head, HttpBuf *in, HttpReader *reader) {
+    for (;;) {
+        if (!http_buf_reserve(in, GRAY_HTTP_BUF)) return "out of memory";
+        ssize_t n = recv(sock.fd, in->data + in->len, GRAY_HTTP_BUF, 0);
+        if (n < 0 && errno == EINTR) continue;
+        if (n < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) return "the server does not answer";
+        if (n < 0) return "connection lost";
+        if (n == 0) {
+            if (reader->body_start == 0 || reader->chunked || reader->has_length)
+                return "connection closed before the whole response arrived";
+            return NULL; /* the body ends with the connection */
         }
+        in->len += (size_t)n;
+        if (in->len > GRAY_HTTP_MAX_RESPONSE) return "response too large";
+        HttpProgress progress = read_progress(reader, in, head);
+        if (progress == HTTP_BAD) return "malformed response";
+        if (progress == HTTP_DONE) return NULL;
     }
+}
 
-    /* Terminate headers */
-    if ((size_t)header_length + 2 < sizeof(header)) {
-        header[header_length++] = '\r';
-        header[header_length++] = '\n';
-    }
+static GrayHttpResponse failed_response(GrayArena *arena, const char *reason) {
+    GrayHttpResponse resp;
+    resp.status = 0;
+    resp.body = gray_string_new(arena, reason, (int32_t)strlen(reason));
+    resp.headers = gray_map_new(arena, sizeof(GrayString), sizeof(GrayString), 4);
+    return resp;
+}
+
+/* The response that has been read: status, headers, body */
+static GrayHttpResponse parse_response(GrayArena *arena, const HttpBuf *in, const HttpReader *reader) {
+    GrayHttpResponse resp;
+    resp.status = reader->status;
+    resp.headers = gray_map_new(arena, sizeof(GrayString), sizeof(GrayString), 16);
 
-    if (header_length <= 0 || (size_t)header_length >= sizeof(header)) {
-        gray_net_close(sock);
-        const char *detail = "request URL or path too long";
-        err_resp.body = gray_string_new(arena, detail, (int32_t)strlen(detail));
-        return err_resp;
+    const char *section_end = in->data + reader->body_start;
+    const char *line = in->data + reader->header_start;
+    line = (const char *)memchr(line, '\n', (size_t)(section_end - line)) + 1;
+    while (line < section_end) {
+        const char *newline = memchr(line, '\n', (size_t)(section_end - line));
+        const char *end = newline > line && newline[-1] == '\r' ? newline - 1 : newline;
+        const char *colon = memchr(line, ':', (size_t)(end - line));
+        if (colon) {
+            const char *value = colon + 1;
+            while (value < end && (*value == ' ' || *value == '\t')) value++;
+            while (end > value && (end[-1] == ' ' || end[-1] == '\t')) end--;
+            GrayString key = gray_string_new(arena, line, (int32_t)(colon - line));
+            GrayString val = gray_string_new(arena, value, (int32_t)(end - value));
+            gray_map_set(arena, &resp.headers, &key, &val);
+        }
+        line = newline + 1;
     }
 
-    GrayString hdr_str = {header, (int32_t)header_length};
-    gray_net_send(sock, hdr_str);
-    if (body.data && body.len > 0) {
-        gray_net_send(sock, body);
+    if (reader->chunked) {
+        resp.body = gray_string_new(arena, reader->body.data, (int32_t)reader->body.len);
+    } else {
+        size_t length = in->len - reader->body_start;
+        if (reader->has_length) length = reader->length;
+        resp.body = gray_string_new(arena, in->data + reader->body_start, (int32_t)length);
     }
+    return resp;
+}
 
-    /* Receive response (up to 1MB) — heap-allocated to avoid stack overflow */
-    char *response_buffer = malloc(GRAY_HTTP_RESP_BUF);
-    if (!response_buffer) {
-        gray_net_close(sock);
-        return err_resp;
+/* Core HTTP request function */
+static GrayHttpResponse do_request(GrayArena *arena, const char *method,
+                                  GrayString url, GrayString body, GrayMap *custom_headers) {
+    if (url.len >= 8 && strncmp(url.data, "https://", 8) == 0)
+        return failed_response(arena, "https:// is not supported; use http://");
+    HttpUrl target;
+    if (!parse_url(url, &target))
+        return failed_response(arena, "invalid URL: expected http:// scheme");
+
+    /* Build the request; a header the caller gives replaces the default */
+    HttpBuf request = {0};
+    http_buf_add_text(&request, method);
+    http_buf_add_text(&request, " ");
+    if (target.path.len == 0 || target.path.data[0] != '/') http_buf_add_text(&request, "/");
+    http_buf_add_string(&request, target.path);
+    http_buf_add_text(&request, " HTTP/1.1\r\n");
+    char number[32];
+    if (!has_header(custom_headers, "Host")) {
+        http_buf_add_text(&request, "Host: ");
+        http_buf_add_string(&request, target.host);
+        snprintf(number, sizeof(number), ":%d", target.port);
+        if (target.port != GRAY_HTTP_DEFAULT_PORT) http_buf_add_text(&request, number);
+        http_buf_add_text(&request, "\r\n");
+    }
+    bool may_have_body = method[0] == 'P'; /* POST, PUT, PATCH */
+    if (may_have_body && !has_header(custom_headers, "Content-Length")) {
+        snprintf(number, sizeof(number), "Content-Length: %d\r\n", (int)body.len);
+        http_buf_add_text(&request, number);
     }
-    int total = 0;
-    while (total < GRAY_HTTP_RESP_BUF - 1) {
-        GrayString chunk = gray_net_recv(arena, sock, GRAY_HTTP_RESP_BUF - total);
-        if (chunk.len <= 0) break;
-        memcpy(response_buffer + total, chunk.data, (size_t)chunk.len);
-        total += chunk.len;
+    if (body.len > 0 && !has_header(custom_headers, "Content-Type"))
+        http_buf_add_text(&request, "Content-Type: application/x-www-form-urlencoded\r\n");
+    if (!has_header(custom_headers, "Connection")) http_buf_add_text(&request, "Connection: close\r\n");
+    bool valid = add_custom_headers(&request, custom_headers);
+    if (!valid || !http_buf_add_text(&request, "\r\n") || !http_buf_add_string(&request, body)) {
+        free(request.data);
+        return failed_response(arena, valid ? "out of memory" : "invalid header name or value");
+    }
+
+    /* Connect */
+    GraySocket sock = gray_net_dial(arena, target.host, target.port);
+    if (sock.fd < 0) {
+        free(request.data);
+        return failed_response(arena, "connection failed");
     }
-    response_buffer[total] = '\0';
+    gray_net_set_timeout(sock, GRAY_HTTP_TIMEOUT_MS);
 
+    /* A server may answer before it has read everything, so a failed send
+     * is only reported if there is no response. */
+    HttpBuf in = {0};
+    HttpReader reader = {0};
+    for (size_t sent = 0; sent < request.len; ) {
+        size_t part = request.len - sent < INT32_MAX ? request.len - sent : INT32_MAX;
+        int64_t n = gray_net_send(sock, (GrayString){request.data + sent, (int32_t)part});
+        if (n <= 0) break;
+        sent += (size_t)n;
+    }
+    free(request.data);
+    const char *reason = read_response(sock, strcmp(method, "HEAD") == 0, &in, &reader);
     gray_net_close(sock);
 
-    GrayHttpResponse result = parse_response(arena, response_buffer, total);
-    free(response_buffer);
+    GrayHttpResponse result = reason ? failed_response(arena, reason) : parse_response(arena, &in, &reader);
+    free(in.data);
+    free(reader.body.data);
     return result;
 }
 
-- 
2.43.0


From 3f1c335169197c3b5b7c051e4088ec0b789bb760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:29:54 +0000
Subject: [PATCH 66/96] fix: sockets send everything, survive closed peers and
 reject invalid hosts and ports

---
 grayc/src/stdlib/net.c | 72 ++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/grayc/src/stdlib/net.c b/grayc/src/stdlib/net.c
index 1b68c66..b40b5d9 100644
--- a/grayc/src/stdlib/net.c
+++ b/grayc/src/stdlib/net.c
@@ -11,6 +11,7 @@
 #include "net.h"
 #include <string.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <unistd.h>
 #include <errno.h>
 #include <sys/socket.h>
@@ -19,17 +20,31 @@
 #include <netdb.h>
 #include <sys/time.h>
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0 /* SO_NOSIGPIPE is set instead */
+#endif
+
 #define GRAY_NET_HOST_BUF         256
 #define GRAY_NET_PORT_BUF         16
 #define GRAY_NET_MAX_RECV_BUF     1048576
 #define GRAY_NET_LISTEN_BACKLOG   128
 
-/* Helper: null-terminate an GrayString */
-static const char *net_cstr(GrayString s, char *buf, size_t buffer_size) {
-    size_t len = (size_t)s.len < buffer_size - 1 ? (size_t)s.len : buffer_size - 1;
-    memcpy(buf, s.data, len);
-    buf[len] = '\0';
-    return buf;
+/* Helper: null-terminate a host name; false if it is too long to be one */
+static bool net_cstr(GrayString s, char *buf, size_t buffer_size) {
+    if ((size_t)s.len >= buffer_size || memchr(s.data, '\0', (size_t)s.len)) return false;
+    memcpy(buf, s.data, (size_t)s.len);
+    buf[s.len] = '\0';
+    return true;
+}
+
+/* A peer that went away is an error, not a signal. */
+static void net_no_sigpipe(int fd) {
+#ifdef SO_NOSIGPIPE
+    int on = 1;
+    setsockopt(fd, SOL_SOCKET, SO_NOSIGPIPE, &on, sizeof(on));
+#else
+    (void)fd;
+#endif
 }
 
 GraySocket gray_net_dial(GrayArena *arena, GrayString host, int64_t port) {
@@ -37,7 +52,7 @@ GraySocket gray_net_dial(GrayArena *arena, GrayString host, int64_t port) {
     GraySocket sock = {-1};
 
     char host_buf[GRAY_NET_HOST_BUF];
-    net_cstr(host, host_buf, sizeof(host_buf));
+    if (!net_cstr(host, host_buf, sizeof(host_buf)) || port < 0 || port > 65535) return sock;
 
     /* Resolve hostname */
     struct addrinfo hints, *res;
@@ -58,6 +73,7 @@ GraySocket gray_net_dial(GrayArena *arena, GrayString host, int64_t port) {
         return sock;
     }
 
+    net_no_sigpipe(fd);
     if (connect(fd, res->ai_addr, res->ai_addrlen) != 0) {
         close(fd);
         freeaddrinfo(res);
@@ -77,8 +93,14 @@ void gray_net_close(GraySocket sock) {
 
 int64_t gray_net_send(GraySocket sock, GrayString data) {
     if (sock.fd < 0 || !data.data) return -1;
-    ssize_t sent = send(sock.fd, data.data, (size_t)data.len, 0);
-    return (int64_t)sent;
+    int64_t total = 0;
+    while (total < data.len) {
+        ssize_t sent = send(sock.fd, data.data + total, (size_t)(data.len - total), MSG_NOSIGNAL);
+        if (sent < 0 && errno == EINTR) continue;
+        if (sent <= 0) return total > 0 ? total : -1;
+        total += sent;
+    }
+    return total;
 }
 
 GrayString gray_net_recv(GrayArena *arena, GraySocket sock, int64_t max_bytes) {
@@ -86,17 +108,22 @@ GrayString gray_net_recv(GrayArena *arena, GraySocket sock, int64_t max_bytes) {
 
     size_t buffer_size = (size_t)max_bytes;
     if (buffer_size > GRAY_NET_MAX_RECV_BUF) buffer_size = GRAY_NET_MAX_RECV_BUF; /* cap at 1MB */
-    char *buf = gray_arena_alloc(arena, buffer_size);
-
-    ssize_t n = recv(sock.fd, buf, buffer_size, 0);
-    if (n <= 0) return (GrayString){"", 0};
-
-    return (GrayString){buf, (int32_t)n};
+    char *buf = malloc(buffer_size);
+    if (!buf) return (GrayString){"", 0};
+
+    ssize_t n;
+    do {
+        n = recv(sock.fd, buf, buffer_size, 0);
+    } while (n < 0 && errno == EINTR);
+    GrayString received = n > 0 ? gray_string_new(arena, buf, (int32_t)n) : (GrayString){"", 0};
+    free(buf);
+    return received;
 }
 
 GraySocket gray_net_listen(GrayArena *arena, int64_t port) {
     (void)arena;
     GraySocket sock = {-1};
+    if (port < 0 || port > 65535) return sock;
 
     int fd = socket(AF_INET, SOCK_STREAM, 0);
     if (fd < 0) return sock;
@@ -132,8 +159,12 @@ GraySocket gray_net_accept(GrayArena *arena, GraySocket listener) {
 
     struct sockaddr_in client_addr;
     socklen_t client_len = sizeof(client_addr);
-    int fd = accept(listener.fd, (struct sockaddr *)&client_addr, &client_len);
+    int fd;
+    do {
+        fd = accept(listener.fd, (struct sockaddr *)&client_addr, &client_len);
+    } while (fd < 0 && errno == EINTR);
     if (fd < 0) return sock;
+    net_no_sigpipe(fd);
 
     sock.fd = fd;
     return sock;
@@ -150,7 +181,7 @@ void gray_net_set_timeout(GraySocket sock, int64_t milliseconds) {
 
 GrayString gray_net_resolve(GrayArena *arena, GrayString hostname) {
     char host_buf[GRAY_NET_HOST_BUF];
-    net_cstr(hostname, host_buf, sizeof(host_buf));
+    if (!net_cstr(hostname, host_buf, sizeof(host_buf))) return (GrayString){"", 0};
 
     struct addrinfo hints, *res;
     memset(&hints, 0, sizeof(hints));
@@ -186,6 +217,8 @@ GrayResult_socket gray_net_dial_result(GrayArena *arena, GrayString host, int64_
 GraySocket gray_net_listen_host(GrayArena *arena, GrayString host, int64_t port) {
     (void)arena;
     GraySocket sock = {-1};
+    char host_buf[GRAY_NET_HOST_BUF];
+    if (!net_cstr(host, host_buf, sizeof(host_buf)) || port < 0 || port > 65535) return sock;
 
     int fd = socket(AF_INET, SOCK_STREAM, 0);
     if (fd < 0) return sock;
@@ -193,9 +226,6 @@ GraySocket gray_net_listen_host(GrayArena *arena, GrayString host, int64_t port)
     int opt = 1;
     setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &opt, sizeof(opt));
 
-    char host_buf[GRAY_NET_HOST_BUF];
-    net_cstr(host, host_buf, sizeof(host_buf));
-
     struct sockaddr_in addr;
     memset(&addr, 0, sizeof(addr));
     addr.sin_family = AF_INET;
@@ -269,7 +299,7 @@ GrayResult_int gray_net_send_result(GrayArena *arena, GraySocket sock, GrayStrin
 GrayResult_string gray_net_recv_result(GrayArena *arena, GraySocket sock, int64_t max_bytes) {
     GrayResult_string r;
     r.v0 = gray_net_recv(arena, sock, max_bytes);
-    if (r.v0.len == 0 && sock.fd >= 0) {
+    if (r.v0.len == 0) {
         r.v1 = gray_error_new(arena, gray_string_format(arena, "recv returned no data on fd %d", sock.fd));
     } else {
         r.v1 = NULL;
-- 
2.43.0


From 733553f3f6298740034a580cd9f9aaff7141365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:56:06 +0000
Subject: [PATCH 67/96] fix: ensure runs only the calls reached, after the
 return value is computed, in the function's own scope

---
 grayc/src/codegen/codegen.c | 122 ++++++++++++++++++++----------------
 grayc/src/codegen/codegen.h |   1 +
 2 files changed, 70 insertions(+), 53 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index e3a4545..5b792d0 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -8432,22 +8432,37 @@ static void collect_ensures(AstNode *block, AstNode ***ensures, int *count, int
     }
 }
 
-/* Emit ensure cleanup calls in LIFO order */
-static void emit_ensure_cleanup(CodeGen *codegen) {
-    if (!codegen->current_func || !codegen->current_func->data.func_decl.body) return;
+/* The number of ensure statements in the function being emitted */
+static int function_ensure_count(CodeGen *codegen, AstNode ***ensures) {
+    *ensures = NULL;
+    int count = 0, cap = 0;
+    if (codegen->current_func) collect_ensures(codegen->current_func->data.func_decl.body, ensures, &count, &cap);
+    return count;
+}
 
-    AstNode **ensures = NULL;
-    int ensure_count = 0;
-    int ensure_cap = 0;
-    collect_ensures(codegen->current_func->data.func_decl.body, &ensures, &ensure_count, &ensure_cap);
+static bool function_has_ensures(CodeGen *codegen) {
+    AstNode **ensures;
+    int count = function_ensure_count(codegen, &ensures);
+    free(ensures);
+    return count > 0;
+}
 
-    /* Emit in reverse (LIFO) order */
-    for (int i = ensure_count - 1; i >= 0; i--) {
+/* Emit the ensure calls at the end of the function, in LIFO order. A return jumps
+ * to the last one that was reached before it, so that those after it do not run and
+ * every call sees the variables of the function's own scope. */
+static void emit_ensure_cleanup(CodeGen *codegen) {
+    AstNode **ensures;
+    for (int i = function_ensure_count(codegen, &ensures) - 1; i >= 0; i--) {
+        emit_indent(codegen);
+        emit_formatted(codegen, "_ensure_%d: __attribute__((unused));\n", i + 1);
         emit_indent(codegen);
         emit_expression(codegen, ensures[i]->data.ensure_stmt.expr);
         emit(codegen, ";\n");
     }
-
+    if (ensures) {
+        emit_indent(codegen);
+        emit(codegen, "_ensure_0: __attribute__((unused));\n");
+    }
     free(ensures);
 }
 
@@ -8498,10 +8513,9 @@ static void emit_loop_exit_unwind(CodeGen *codegen) {
 }
 
 /* : emit escape + cleanup for a non-void function return.
- * Escapes the return value (_ret) to _func_saved, then unwinds any
- * nested scratch arenas live at this exit point, then
- * destroys the function arena. The escape must run first because it
- * may read from memory still owned by a scratch arena. */
+ * Escapes the return value (_ret) to _func_saved. The escape must run before
+ * the function is left because it may read from memory still owned by a
+ * scratch arena. */
 /* The arena a returned value must be copied to: the one the function was called
  * with. A function that uses its caller's arena allocates there already, except
  * inside the blocks that have arenas of their own; NULL when it has left all. */
@@ -8528,14 +8542,10 @@ static void emit_function_return_escape(CodeGen *codegen, const char *ret_type_n
         emit_value_deep_copy(codegen, ret_type_name, "_ret");
         emit(codegen, "; gray_default_arena = _esc; } ");
     }
-    emit_scratch_arena_unwind(codegen);
-    if (function_uses_caller_arena(codegen->current_func)) return;
-    emit(codegen, "gray_default_arena = _func_saved; ");
-    emit(codegen, "gray_arena_destroy(_func_arena, __FILE__, __LINE__); free(_func_arena); ");
 }
 
 /* Escape every heap field of the live GrayMulti_* _ret struct from _func_arena
- * to _func_saved, then unwind scratch arenas and destroy _func_arena.
+ * to _func_saved.
  * Mirrors emit_function_return_escape but covers all fields of a multi-return. */
 static void emit_multi_function_return_escape(CodeGen *codegen) {
     const char *dest = return_arena(codegen);
@@ -8560,10 +8570,26 @@ static void emit_multi_function_return_escape(CodeGen *codegen) {
             emit(codegen, "; gray_default_arena = _esc; } ");
         }
     }
+}
+
+/* Leave the function with _ret, if it has a value: through the ensure calls
+ * reached so far, if the function has any. */
+static void emit_leave_function(CodeGen *codegen, bool has_value) {
     emit_scratch_arena_unwind(codegen);
-    if (function_uses_caller_arena(codegen->current_func)) return;
-    emit(codegen, "gray_default_arena = _func_saved; ");
-    emit(codegen, "gray_arena_destroy(_func_arena, __FILE__, __LINE__); free(_func_arena); ");
+    if (function_has_ensures(codegen)) {
+        if (has_value) emit(codegen, "_ensured = _ret; ");
+        emit_formatted(codegen, "goto _ensure_%d; }\n", codegen->ensures_reached);
+        return;
+    }
+    if (!codegen->current_func || !function_uses_caller_arena(codegen->current_func)) {
+        if (has_value) {
+            emit(codegen, "gray_default_arena = _func_saved; ");
+            emit(codegen, "gray_arena_destroy(_func_arena, __FILE__, __LINE__); free(_func_arena); ");
+        } else {
+            emit(codegen, "gray_scope_restore(gray_default_arena, _scope_mark); ");
+        }
+    }
+    emit_formatted(codegen, "gray_exit_func(); return%s; }\n", has_value ? " _ret" : "");
 }
 
 /* Emit a value returned in the given position: an empty literal has the element
@@ -8577,23 +8603,11 @@ static void emit_return_value(CodeGen *codegen, AstNode *value, int position) {
 }
 
 static void emit_return_statement(CodeGen *codegen, AstNode *node) {
-    /* Emit ensure cleanup before return */
-    emit_ensure_cleanup(codegen);
-
-    /* Caller-arena functions have no _scope_mark to restore. */
-    bool caller_arena = codegen->current_func &&
-                        function_uses_caller_arena(codegen->current_func);
-
     /* Guard against malformed AST: count > 0 but NULL values array */
     if (node->data.return_stmt.count > 0 && !node->data.return_stmt.values) {
         emit_indent(codegen);
         emit(codegen, "{ ");
-        emit_scratch_arena_unwind(codegen);
-        if (caller_arena) {
-            emit(codegen, "gray_exit_func(); return; }\n");
-        } else {
-            emit(codegen, "gray_scope_restore(gray_default_arena, _scope_mark); gray_exit_func(); return; }\n");
-        }
+        emit_leave_function(codegen, false);
         return;
     }
 
@@ -8608,7 +8622,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         }
         emit(codegen, "}; ");
         emit_multi_function_return_escape(codegen);
-        emit(codegen, "gray_exit_func(); return _ret; }\n");
+        emit_leave_function(codegen, true);
     } else if (node->data.return_stmt.count == 1 && codegen->current_func &&
                codegen->current_func->data.func_decl.return_type_count > 1) {
         /* Single value returned from multi-return function (or_return propagation) */
@@ -8633,18 +8647,13 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         emit_expression(codegen, node->data.return_stmt.values[0]);
         emit(codegen, "}; ");
         emit_multi_function_return_escape(codegen);
-        emit(codegen, "gray_exit_func(); return _ret; }\n");
+        emit_leave_function(codegen, true);
     } else if (codegen->current_func &&
                codegen->current_func->data.func_decl.return_type_count == 0) {
         /* Void function */
         emit_indent(codegen);
         emit(codegen, "{ ");
-        emit_scratch_arena_unwind(codegen);
-        if (caller_arena) {
-            emit(codegen, "gray_exit_func(); return; }\n");
-        } else {
-            emit(codegen, "gray_scope_restore(gray_default_arena, _scope_mark); gray_exit_func(); return; }\n");
-        }
+        emit_leave_function(codegen, false);
     } else if (node->data.return_stmt.count == 1) {
         /* Single return value: evaluate into temp, then exit and return */
         emit_indent(codegen);
@@ -8655,7 +8664,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
             const char *ret_tn = codegen->current_func->data.func_decl.return_types[0];
             emit_function_return_escape(codegen, ret_tn);
         }
-        emit(codegen, "gray_exit_func(); return _ret; }\n");
+        emit_leave_function(codegen, true);
     } else if (node->data.return_stmt.count == 0 && codegen->current_func &&
                codegen->current_func->data.func_decl.return_names &&
                codegen->current_func->data.func_decl.return_type_count > 0) {
@@ -8666,7 +8675,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
             emit_formatted(codegen, "{ __auto_type _ret = %s; ",
                 sanitize_name(codegen->current_func->data.func_decl.return_names[0]));
             emit_function_return_escape(codegen, codegen->current_func->data.func_decl.return_types[0]);
-            emit(codegen, "gray_exit_func(); return _ret; }\n");
+            emit_leave_function(codegen, true);
         } else {
             emit_indent(codegen);
             const char *mbn3 = multi_return_name(codegen->current_func);
@@ -8681,18 +8690,13 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
             }
             emit(codegen, "}; ");
             emit_multi_function_return_escape(codegen);
-            emit(codegen, "gray_exit_func(); return _ret; }\n");
+            emit_leave_function(codegen, true);
         }
     } else {
         /* Bare return (no value, non-void; shouldn't happen but handle gracefully) */
         emit_indent(codegen);
         emit(codegen, "{ ");
-        emit_scratch_arena_unwind(codegen);
-        if (caller_arena) {
-            emit(codegen, "gray_exit_func(); return; }\n");
-        } else {
-            emit(codegen, "gray_scope_restore(gray_default_arena, _scope_mark); gray_exit_func(); return; }\n");
-        }
+        emit_leave_function(codegen, false);
     }
 }
 
@@ -9085,8 +9089,15 @@ static void emit_function_declaration(CodeGen *codegen, AstNode *node, bool is_m
         /* Stack depth guard */
         emit_indent(codegen);
         emit_formatted(codegen, "gray_enter_func(\"%s\", %d);\n", codegen->file, node->token.line);
+        if (!is_void_fn && function_has_ensures(codegen)) {
+            emit_indent(codegen);
+            emit_formatted(codegen, "%s _ensured = {0};\n", function_return_type(codegen, node));
+        }
+        int outer_ensures = codegen->ensures_reached;
+        codegen->ensures_reached = 0;
         emit_block(codegen, node->data.func_decl.body);
-        /* Emit ensure cleanup at end of function (for implicit returns) */
+        codegen->ensures_reached = outer_ensures;
+        bool ensured_value = !is_void_fn && function_has_ensures(codegen);
         emit_ensure_cleanup(codegen);
         /* : cleanup function-scoped memory */
         if (!is_main && !caller_arena) {
@@ -9102,6 +9113,10 @@ static void emit_function_declaration(CodeGen *codegen, AstNode *node, bool is_m
         }
         emit_indent(codegen);
         emit(codegen, "gray_exit_func();\n");
+        if (ensured_value) {
+            emit_indent(codegen);
+            emit(codegen, "return _ensured;\n");
+        }
 
         /* Named return variables: E3080 enforces the user must explicitly
          * return the named variable, so no implicit fall-through is needed. */
@@ -9571,6 +9586,7 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
         break;
     case NODE_ENSURE_STMT:
         /* Ensure is collected and emitted at return/function-exit */
+        codegen->ensures_reached++;
         break;
     case NODE_STRUCT_DECL:
         /* Struct declarations are emitted in the preamble */
diff --git a/grayc/src/codegen/codegen.h b/grayc/src/codegen/codegen.h
index 1aa53b8..c38892a 100644
--- a/grayc/src/codegen/codegen.h
+++ b/grayc/src/codegen/codegen.h
@@ -166,6 +166,7 @@ typedef struct {
     ScopeArena *scope_arenas;
     int scope_arena_count;
     int scope_arena_cap;
+    int ensures_reached;        /* ensure statements already passed in the current function */
 
     /* Heap-allocated "StructName_funcName" strings patched into AST nodes.
      * Tracked here so codegen_destroy() can free them. */
-- 
2.43.0


From 472548223e4ee272ebb576643f23f2f4e3e95291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:57:11 +0000
Subject: [PATCH 68/96] fix: bare or_return returns zero for the other slots
 whatever their type

---
 grayc/src/codegen/codegen.c | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 5b792d0..4012abd 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -8629,21 +8629,8 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         int rc = codegen->current_func->data.func_decl.return_type_count;
         emit_indent(codegen);
         const char *mbn2 = multi_return_name(codegen->current_func);
-        emit_formatted(codegen, "{ GrayMulti_%s _ret = (GrayMulti_%s){", mbn2, mbn2);
-        for (int i = 0; i < rc - 1; i++) {
-            /* Use {0} for composite types (structs, arrays, maps, strings)
-             * and 0 for scalars to avoid -Wbraced-scalar-init. */
-            const char *return_type_str = codegen->current_func->data.func_decl.return_types[i];
-            bool composite = false;
-            if (return_type_str) {
-                GrayType *rtt = type_from_name(return_type_str);
-                if (rtt && (rtt->kind == TK_STRUCT || rtt->kind == TK_ARRAY ||
-                            rtt->kind == TK_MAP || rtt->kind == TK_STRING ||
-                            rtt->kind == TK_ERROR))
-                    composite = true;
-            }
-            emit(codegen, composite ? "{0}, " : "0, ");
-        }
+        /* The other slots are zero */
+        emit_formatted(codegen, "{ GrayMulti_%s _ret = (GrayMulti_%s){.v%d = ", mbn2, mbn2, rc - 1);
         emit_expression(codegen, node->data.return_stmt.values[0]);
         emit(codegen, "}; ");
         emit_multi_function_return_escape(codegen);
-- 
2.43.0


From f59d0395ded88ac3750e04c7139a064a375a0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:07 +0000
Subject: [PATCH 69/96] fix: enum payload types may be arrays, maps, pointers
 and qualified names

---
 grayc/src/parser/parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grayc/src/parser/parser.c b/grayc/src/parser/parser.c
index b032c71..18ade11 100644
--- a/grayc/src/parser/parser.c
+++ b/grayc/src/parser/parser.c
@@ -2532,7 +2532,9 @@ static AstNode *parse_enum_declaration(Parser *parser) {
                     memcpy(new_pt, ev->payload_types, sizeof(const char *) * ev->payload_count);
                     ev->payload_types = new_pt;
                 }
-                ev->payload_types[ev->payload_count++] = parser->cur_token.literal;
+                const char *payload_type = parse_complex_type(parser);
+                if (!payload_type) break;
+                ev->payload_types[ev->payload_count++] = payload_type;
                 next_token(parser);
                 if (current_token_is(parser, TOK_COMMA)) next_token(parser);
             }
-- 
2.43.0


From d0749a36556432cfd679d47b110821b96406607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:07 +0000
Subject: [PATCH 70/96] fix: when rejects members of another enum, and implied
 enum values are checked for duplicates

---
 grayc/src/typechecker/typechecker.c | 40 ++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index f09de99..1eccaef 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -356,6 +356,32 @@ static bool typechecker_same_array_element(TypeChecker *checker, const char *a,
     return false;
 }
 
+/* The value of an enum member, counting on from the last explicit one; false
+ * where it is not a plain integer (string, tagged and #flags enums, members
+ * that follow a computed value). */
+static bool enum_member_value(AstNode *decl, int index, int64_t *value) {
+    uint64_t current = 0;
+    bool known = true;
+    if (decl->data.enum_decl.is_flags || decl->data.enum_decl.is_tagged) return false;
+    for (int i = 0; i <= index; i++) {
+        AstNode *explicit_value = decl->data.enum_decl.values[i].value;
+        bool negative = explicit_value && explicit_value->kind == NODE_PREFIX_EXPR &&
+            explicit_value->data.prefix.op == TOK_MINUS;
+        if (negative) explicit_value = explicit_value->data.prefix.right;
+        if (!explicit_value) {
+            if (i > 0) current++;
+        } else if (explicit_value->kind == NODE_INT_VALUE && !explicit_value->data.int_value.overflow) {
+            current = (uint64_t)explicit_value->data.int_value.value;
+            if (negative) current = 0 - current;
+            known = true;
+        } else {
+            known = false;
+        }
+    }
+    *value = (int64_t)current;
+    return known;
+}
+
 /* Returns true if the named enum is string-backed. */
 static bool typechecker_enum_is_string(TypeChecker *checker, const char *name) {
     int i = find_enum_index(checker, name);
@@ -10701,6 +10727,9 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                          typechecker_enum_is_string(checker, case_t->name)) ||
                         (when_t->kind == TK_ENUM && case_t->kind == TK_STRING &&
                          typechecker_enum_is_string(checker, when_t->name));
+                    if (when_t->kind == TK_ENUM && case_t->kind == TK_ENUM &&
+                        when_t->name && case_t->name && strcmp(when_t->name, case_t->name) != 0)
+                        compat = false;
                     if (!compat) {
                         diagnostic_error_code_formatted(checker->diag, "E3018", NODE_FILE(checker, val_i), val_i->token.line, val_i->token.column, 0, type_display_name(checker, when_t), type_display_name(checker, case_t));
                     }
@@ -11122,15 +11151,12 @@ static void register_declarations(TypeChecker *checker, AstNode *program) {
         if (stmt->data.enum_decl.value_count == 0) {
             diagnostic_error_code_formatted(checker->diag, "E2016", NODE_FILE(checker, stmt), stmt->token.line, stmt->token.column, 0, en);
         }
-        /* E3033: check for duplicate enum values */
+        /* E3033: check for duplicate enum values, implied ones included */
         for (int j = 0; j < stmt->data.enum_decl.value_count; j++) {
-            if (!stmt->data.enum_decl.values[j].value) continue;
+            int64_t value_j, value_k;
+            if (!enum_member_value(stmt, j, &value_j)) continue;
             for (int k = 0; k < j; k++) {
-                if (!stmt->data.enum_decl.values[k].value) continue;
-                if (stmt->data.enum_decl.values[j].value->kind == NODE_INT_VALUE &&
-                    stmt->data.enum_decl.values[k].value->kind == NODE_INT_VALUE &&
-                    stmt->data.enum_decl.values[j].value->data.int_value.value ==
-                    stmt->data.enum_decl.values[k].value->data.int_value.value) {
+                if (enum_member_value(stmt, k, &value_k) && value_j == value_k) {
                     diagnostic_error_code_formatted(checker->diag, "E3033", NODE_FILE(checker, stmt), stmt->token.line, stmt->token.column, 0, en,
                         stmt->data.enum_decl.values[k].name,
                         stmt->data.enum_decl.values[j].name);
-- 
2.43.0


From 13e6e4aad8e1fafb209624c10c01a570aec4cdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:07 +0000
Subject: [PATCH 71/96] fix: enum values and payloads keep their declared type,
 text and name in the emitted C

---
 grayc/src/codegen/codegen.c | 54 ++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 4012abd..9e3a30e 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -866,7 +866,7 @@ static void emit_deep_copy_functions(CodeGen *codegen) {
             for (int k = 0; k < ev->payload_count; k++) {
                 if (!type_needs_deep_copy(codegen, ev->payload_types[k])) continue;
                 char src[MSG_BUF_SIZE];
-                snprintf(src, sizeof(src), "_v.data.%s._%d", ev->name, k);
+                snprintf(src, sizeof(src), "_v.data.v_%s._%d", ev->name, k);
                 emit_formatted(codegen, "    if (_v.tag == GrayEnum_%s_TAG_%s) %s = ", gray_tn, ev->name, src);
                 emit_value_deep_copy(codegen, ev->payload_types[k], src);
                 emit(codegen, ";\n");
@@ -1100,6 +1100,26 @@ static void emit_expression_as(CodeGen *codegen, AstNode *value, const char *c_t
     }
 }
 
+/* Emit the payload of a tagged enum constructor, each value in the type its
+ * slot declares. */
+static void emit_enum_payload(CodeGen *codegen, AstNode *call, EnumVal *variant) {
+    const char *saved = codegen->current_var_type;
+    emit_formatted(codegen, ", .data.v_%s = { ", variant->name);
+    for (int i = 0; i < call->data.call.arg_count; i++) {
+        AstNode *value = call->data.call.args[i];
+        const char *type_name = i < variant->payload_count ? variant->payload_types[i] : NULL;
+        emit_formatted(codegen, "%s._%d = ", i > 0 ? ", " : "", i);
+        codegen->current_var_type = type_name;
+        if (type_name && is_bigint_type(type_name)) {
+            emit_bigint_conversion(codegen, value, type_name, call->token.line);
+        } else if (!type_name || !emit_narrowing_cast(codegen, type_name, value, call->token.line)) {
+            emit_expression(codegen, value);
+        }
+    }
+    codegen->current_var_type = saved;
+    emit(codegen, " }");
+}
+
 /* Emit a bigint operand, widening smaller integer or bigint operands so
  * mixed-width expressions like i128+i64 or i256+i128 pass correctly typed
  * values to the bigint arithmetic helpers. */
@@ -6557,12 +6577,7 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
             }
             emit_formatted(codegen, "(GrayEnum_%s){ .tag = GrayEnum_%s_TAG_%s", resolved_ename, resolved_ename, vname);
             if (vidx >= 0 && decl->data.enum_decl.values[vidx].payload_count > 0) {
-                emit_formatted(codegen, ", .data.%s = { ", vname);
-                for (int ai = 0; ai < node->data.call.arg_count; ai++) {
-                    if (ai > 0) emit(codegen, ", ");
-                    emit_expression(codegen, node->data.call.args[ai]);
-                }
-                emit(codegen, " }");
+                emit_enum_payload(codegen, node, &decl->data.enum_decl.values[vidx]);
             }
             emit(codegen, " }");
             return;
@@ -6582,12 +6597,7 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
             }
             emit_formatted(codegen, "(GrayEnum_%s){ .tag = GrayEnum_%s_TAG_%s", ename, ename, vname);
             if (vidx >= 0 && decl->data.enum_decl.values[vidx].payload_count > 0) {
-                emit_formatted(codegen, ", .data.%s = { ", vname);
-                for (int ai = 0; ai < node->data.call.arg_count; ai++) {
-                    if (ai > 0) emit(codegen, ", ");
-                    emit_expression(codegen, node->data.call.args[ai]);
-                }
-                emit(codegen, " }");
+                emit_enum_payload(codegen, node, &decl->data.enum_decl.values[vidx]);
             }
             emit(codegen, " }");
             return;
@@ -9496,9 +9506,9 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
                                 emit_indent(codegen);
                                 emit_formatted(codegen, "%s %s = ",
                                     gray_type_to_c_codegen(codegen, ev->payload_types[bi]),
-                                    pat->data.when_pattern.bindings[bi]);
+                                    sanitize_name(pat->data.when_pattern.bindings[bi]));
                                 emit(codegen, when_tmp);
-                                emit_formatted(codegen, ".data.%s._%d;\n", vname, bi);
+                                emit_formatted(codegen, ".data.v_%s._%d;\n", vname, bi);
                             }
                         }
                     }
@@ -9734,7 +9744,7 @@ static void emit_tagged_enum_types(CodeGen *codegen, AstNode *node) {
         for (int j = 0; j < node->data.enum_decl.value_count; j++) {
             EnumVal *ev = &node->data.enum_decl.values[j];
             if (ev->payload_count > 0) {
-                emit_formatted(codegen, "        GrayEnum_%s_Data_%s %s;\n", ename, ev->name, ev->name);
+                emit_formatted(codegen, "        GrayEnum_%s_Data_%s v_%s;\n", ename, ev->name, ev->name);
             }
         }
         emit_formatted(codegen, "    } data;\n");
@@ -9964,13 +9974,13 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
                 emit_formatted(codegen, "typedef GrayString GrayEnum_%s;\n", stmt->data.enum_decl.name);
                 for (int j = 0; j < stmt->data.enum_decl.value_count; j++) {
                     EnumVal *ev = &stmt->data.enum_decl.values[j];
-                    const char *str_val = ev->name;
+                    emit_formatted(codegen, "#define GrayEnum_%s_%s (", stmt->data.enum_decl.name, ev->name);
                     if (ev->value && ev->value->kind == NODE_STRING_VALUE) {
-                        str_val = ev->value->data.string_value.value;
+                        emit_expression(codegen, ev->value);
+                    } else {
+                        emit_formatted(codegen, "GRAY_STRING_LIT(\"%s\")", ev->name);
                     }
-                    emit_formatted(codegen, "#define GrayEnum_%s_%s ((GrayString){ \"%s\", %d })\n",
-                        stmt->data.enum_decl.name, ev->name,
-                        str_val, (int)strlen(str_val));
+                    emit(codegen, ")\n");
                 }
                 emit(codegen, "\n");
             } else if (is_tagged) {
@@ -9985,7 +9995,7 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
                         emit(codegen, " = ");
                         emit_expression(codegen, ev->value);
                     } else if (is_flags) {
-                        emit_formatted(codegen, " = %d", 1 << j);
+                        emit_formatted(codegen, " = INT64_C(%lld)", (long long)(1ULL << (j < 63 ? j : 63)));
                     }
                     /* Non-flags without explicit value: omit `= N` and
                      * let C's enum auto-increment continue from the
-- 
2.43.0


From b28108a08fdb8942031b599dd7a8d499a7008932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:28 +0000
Subject: [PATCH 72/96] fix: check every return value, reference arguments,
 calls through references and missing named arguments

---
 grayc/src/typechecker/typechecker.c | 213 +++++++++++++++++-----------
 1 file changed, 132 insertions(+), 81 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 1eccaef..c2a83f8 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -1495,9 +1495,17 @@ static void typechecker_resolve_named_arguments(TypeChecker *checker, AstNode *n
     /* Fill interior gaps with default value AST nodes from the function
      * declaration so codegen doesn't encounter NULL arg pointers. */
     for (int i = 0; i < filled; i++) {
-        if (!new_args[i] && i < param_count && params[i].default_value) {
+        if (new_args[i]) continue;
+        if (i < param_count && params[i].default_value) {
             new_args[i] = params[i].default_value;
+            continue;
         }
+        char *msg = typechecker_format(checker,
+            "missing argument for parameter '%s' in call to '%s'",
+            params[i].name, display_name);
+        diagnostic_error_message(checker->diag, "E5008", msg,
+            NODE_FILE(checker, node), node->token.line, node->token.column, 0);
+        return;
     }
 
     /* Replace the node's args in-place */
@@ -2301,8 +2309,31 @@ static GrayType *resolve_implicit_enum(TypeChecker *checker, AstNode *node) {
 /* E3027: validate that an argument passed to a mutable (&) parameter is a
  * mutable assignment target. Emits a diagnostic and returns if the argument
  * is a constant variable, an enum constant, or a literal/expression. */
-static void check_mutable_arg(TypeChecker *checker, AstNode *arg,
+/* The name under which two spellings of one numeric type compare equal. */
+static const char *numeric_type_canonical_name(const char *name) {
+    if (strcmp(name, "i64") == 0) return "int";
+    if (strcmp(name, "u64") == 0) return "uint";
+    if (strcmp(name, "byte") == 0) return "u8";
+    if (strcmp(name, "f64") == 0) return "float";
+    return name;
+}
+
+/* Also E3001: the callee writes through the argument's address, so a numeric
+ * argument must have exactly the parameter's type. */
+static void check_mutable_arg(TypeChecker *checker, AstNode *arg, GrayType *param_type,
                                const char *param_desc, const char *func_display) {
+    GrayType *arg_type = resolve_expression(checker, arg);
+    if (param_type && arg_type &&
+        (is_int_kind(param_type->kind) || param_type->kind == TK_FLOAT) &&
+        (is_int_kind(arg_type->kind) || arg_type->kind == TK_FLOAT) &&
+        strcmp(numeric_type_canonical_name(type_name(arg_type)),
+               numeric_type_canonical_name(type_name(param_type))) != 0) {
+        char *msg = typechecker_format(checker,
+            "%s of '%s' has type %s, but the argument is a variable of type %s",
+            param_desc, func_display, type_name(param_type), type_name(arg_type));
+        diagnostic_error_message(checker->diag, "E3001", msg,
+            NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
+    }
     if (arg->kind == NODE_LABEL) {
         Symbol *sym = scope_lookup(checker->current_scope, arg->data.label.value);
         if (sym && !sym->mutable) {
@@ -3484,6 +3515,47 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
     return result;
 }
 
+/* Check a call through a function reference against the signature its type
+ * declares; returns the type of the call. */
+static GrayType *check_reference_call(TypeChecker *checker, AstNode *node,
+                                      GrayFuncSig *sig, const char *function_name) {
+    int ac = node->data.call.arg_count;
+    if (ac != sig->param_count) {
+        char *msg = NULL;
+        msg = typechecker_format(checker,
+            "function reference '%s' expects %d argument(s), got %d",
+            function_name, sig->param_count, ac);
+        diagnostic_error_message(checker->diag, "E5008", msg,
+            NODE_FILE(checker, node), node->token.line, node->token.column, 0);
+    } else {
+        for (int argument_index = 0; argument_index < sig->param_count; argument_index++) {
+            AstNode *arg = node->data.call.args[argument_index];
+            GrayType *at = resolve_expression(checker, arg);
+            GrayType *pt = sig->param_types[argument_index] ? type_from_name(sig->param_types[argument_index]) : NULL;
+            if (at && pt && at->kind != TK_UNKNOWN && pt->kind != TK_UNKNOWN &&
+                at->kind != pt->kind &&
+                !(is_int_kind(at->kind) && is_int_kind(pt->kind)) &&
+                !(pt->kind == TK_FLOAT && is_int_kind(at->kind))) {
+                char *msg = NULL;
+                msg = typechecker_format(checker,
+                    "argument %d of '%s': expected %s, got %s",
+                    argument_index + 1, function_name,
+                    type_display_name(checker, pt), type_display_name(checker, at));
+                diagnostic_error_message(checker->diag, "E3001", msg,
+                    NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
+            }
+            /* E3027: `&` param requires an assignment target */
+            if (sig->param_mutable[argument_index]) {
+                char param_desc[MSG_BUF_SIZE];
+                snprintf(param_desc, sizeof(param_desc), "'&' parameter %d", argument_index + 1);
+                check_mutable_arg(checker, arg, pt, param_desc, function_name);
+            }
+        }
+    }
+    if (sig->return_count > 0 && sig->return_types[0]) return type_from_name(sig->return_types[0]);
+    return &TYPE_VOID;
+}
+
 static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *node, const char *mod, const char *mfn, const char *mod_raw, AstNode *fn) {
     GrayType *result = &TYPE_UNKNOWN;
     if (is_struct_name(checker, mod)) {
@@ -3651,7 +3723,7 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                         char param_desc[MSG_BUF_SIZE];
                         snprintf(param_desc, sizeof(param_desc), "mutable parameter '%s'",
                             found_declaration->data.func_decl.params[argument_index].name);
-                        check_mutable_arg(checker, arg, param_desc, fn_display);
+                        check_mutable_arg(checker, arg, type_from_name(found_declaration->data.func_decl.params[argument_index].type_name), param_desc, fn_display);
                     }
                 }
             }
@@ -3704,11 +3776,9 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                      * return type from the encoded signature so
                      * downstream uses get a typed value. */
                     sym->used = true;
-                    result = (field_t->func_sig &&
-                              field_t->func_sig->return_count > 0 &&
-                              field_t->func_sig->return_types &&
-                              field_t->func_sig->return_types[0])
-                        ? type_from_name(field_t->func_sig->return_types[0])
+                    resolve_expression(checker, fn->data.member.object);
+                    result = field_t->func_sig
+                        ? check_reference_call(checker, node, field_t->func_sig, mfn)
                         : &TYPE_UNKNOWN;
                     return result;
                 }
@@ -3931,7 +4001,7 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                                 char param_desc[MSG_BUF_SIZE];
                                 snprintf(param_desc, sizeof(param_desc), "mutable parameter '%s'",
                                     ssig->decl->data.func_decl.params[argument_index].name);
-                                check_mutable_arg(checker, arg, param_desc, fn_display);
+                                check_mutable_arg(checker, arg, type_from_name(ssig->decl->data.func_decl.params[argument_index].type_name), param_desc, fn_display);
                             }
                         }
                     }
@@ -4027,7 +4097,7 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                             char param_desc[MSG_BUF_SIZE];
                             snprintf(param_desc, sizeof(param_desc), "mutable parameter '%s'",
                                 ssig->decl->data.func_decl.params[argument_index].name);
-                            check_mutable_arg(checker, node->data.call.args[argument_index],
+                            check_mutable_arg(checker, node->data.call.args[argument_index], type_from_name(ssig->decl->data.func_decl.params[argument_index].type_name),
                                 param_desc, fn_display);
                         }
                     }
@@ -4954,7 +5024,7 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                     char param_desc[MSG_BUF_SIZE];
                     snprintf(param_desc, sizeof(param_desc), "mutable parameter '%s'",
                         s->data.func_decl.params[argument_index].name);
-                    check_mutable_arg(checker, arg, param_desc, function_name);
+                    check_mutable_arg(checker, arg, type_from_name(s->data.func_decl.params[argument_index].type_name), param_desc, function_name);
                     break;
                 }
             }
@@ -5058,7 +5128,7 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                                 char param_desc[MSG_BUF_SIZE];
                                 snprintf(param_desc, sizeof(param_desc), "mutable parameter '%s'",
                                     s->data.func_decl.params[argument_index].name);
-                                check_mutable_arg(checker, arg, param_desc, func_display_name(ref_sig));
+                                check_mutable_arg(checker, arg, type_from_name(s->data.func_decl.params[argument_index].type_name), param_desc, func_display_name(ref_sig));
                                 break;
                             }
                         }
@@ -5072,45 +5142,7 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                 /* No source FuncSig; validate against the typed-
                  * func signature from the variable's annotated type
                  * (e.g. callback parameters: do f(g func(int)->int)). */
-                GrayFuncSig *sig = fn_sym->type->func_sig;
-                int ac = node->data.call.arg_count;
-                if (ac != sig->param_count) {
-                    char *msg = NULL;
-                    msg = typechecker_format(checker,
-                        "function reference '%s' expects %d argument(s), got %d",
-                        function_name, sig->param_count, ac);
-                    diagnostic_error_message(checker->diag, "E5008", msg,
-                        NODE_FILE(checker, node), node->token.line, node->token.column, 0);
-                } else {
-                    for (int argument_index = 0; argument_index < sig->param_count; argument_index++) {
-                        AstNode *arg = node->data.call.args[argument_index];
-                        GrayType *at = resolve_expression(checker, arg);
-                        GrayType *pt = sig->param_types[argument_index] ? type_from_name(sig->param_types[argument_index]) : NULL;
-                        if (at && pt && at->kind != TK_UNKNOWN && pt->kind != TK_UNKNOWN &&
-                            at->kind != pt->kind &&
-                            !(is_int_kind(at->kind) && is_int_kind(pt->kind)) &&
-                            !(pt->kind == TK_FLOAT && is_int_kind(at->kind))) {
-                            char *msg = NULL;
-                            msg = typechecker_format(checker,
-                                "argument %d of '%s': expected %s, got %s",
-                                argument_index + 1, function_name,
-                                type_display_name(checker, pt), type_display_name(checker, at));
-                            diagnostic_error_message(checker->diag, "E3001", msg,
-                                NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
-                        }
-                        /* E3027: `&` param requires an assignment target */
-                        if (sig->param_mutable[argument_index]) {
-                            char param_desc[MSG_BUF_SIZE];
-                            snprintf(param_desc, sizeof(param_desc), "'&' parameter %d", argument_index + 1);
-                            check_mutable_arg(checker, arg, param_desc, function_name);
-                        }
-                    }
-                }
-                if (sig->return_count > 0 && sig->return_types[0]) {
-                    result = type_from_name(sig->return_types[0]);
-                } else {
-                    result = &TYPE_VOID;
-                }
+                result = check_reference_call(checker, node, fn_sym->type->func_sig, function_name);
             }
         } else if (fn_sym && fn_sym->type) {
             /* Variable exists but is not a function */
@@ -5266,15 +5298,19 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
     return result;
 }
 
+/* ref(f) builds a reference, as ()f does. */
+static bool is_ref_builtin_call(AstNode *call) {
+    return call->data.call.function && call->data.call.function->kind == NODE_LABEL &&
+        strcmp(call->data.call.function->data.label.value, "ref") == 0;
+}
+
 static GrayType *resolve_call_expr(TypeChecker *checker, AstNode *node) {
     GrayType *result = &TYPE_UNKNOWN;
     /* Resolve argument types first. Skip the argument of ref()
      * when it's a bare function name; the ref() builtin handler
      * below resolves it specially, and the general resolve_expression
      * path would fire E3031 on the bare name ( follow-up). */
-    bool is_ref_call = (node->data.call.function &&
-        node->data.call.function->kind == NODE_LABEL &&
-        strcmp(node->data.call.function->data.label.value, "ref") == 0);
+    bool is_ref_call = is_ref_builtin_call(node);
     for (int i = 0; i < node->data.call.arg_count; i++) {
         if (is_ref_call && node->data.call.args[i]->kind == NODE_LABEL &&
             find_func(checker, node->data.call.args[i]->data.label.value)) {
@@ -5363,6 +5399,14 @@ static GrayType *resolve_call_expr(TypeChecker *checker, AstNode *node) {
         resolve_expression(checker, fn);
     }
 
+    /* An inline reference `()f(x)` calls f itself. */
+    if (fn && fn->kind == NODE_FUNC_REF &&
+        fn->data.func_ref.function->kind == NODE_LABEL &&
+        find_func(checker, fn->data.func_ref.function->data.label.value)) {
+        fn = fn->data.func_ref.function;
+        node->data.call.function = fn;
+    }
+
     /* E5030: chained call on a function-call result — e.g. get_fn()(5).
      * A call result is never directly callable in Grayscale; func references
      * must be created with ()func_name or ref(func_name) first. */
@@ -5545,7 +5589,7 @@ static GrayType *resolve_call_expr(TypeChecker *checker, AstNode *node) {
                     char param_desc[MSG_BUF_SIZE];
                     snprintf(param_desc, sizeof(param_desc), "mutable parameter '%s'",
                         found_declaration->data.func_decl.params[argument_index].name);
-                    check_mutable_arg(checker, arg, param_desc, fn_display);
+                    check_mutable_arg(checker, arg, type_from_name(found_declaration->data.func_decl.params[argument_index].type_name), param_desc, fn_display);
                 }
             }
         } else {
@@ -6736,8 +6780,7 @@ static GrayType *resolve_func_ref(TypeChecker *checker, AstNode *node) {
             bool mut_p = (ref_sig->decl && ref_sig->decl->kind == NODE_FUNC_DECL &&
                           i < ref_sig->decl->data.func_decl.param_count &&
                           ref_sig->decl->data.func_decl.params[i].mutable);
-            const char *ptn = (ref_sig->param_types[i] && ref_sig->param_types[i]->name)
-                ? ref_sig->param_types[i]->name : "int";
+            const char *ptn = ref_sig->param_types[i] ? type_name(ref_sig->param_types[i]) : "int";
             int w = snprintf(buffer + n, buffer_size - (size_t)n, "%s%s%s",
                 i ? "," : "", mut_p ? "&" : "", ptn);
             if (w > 0 && (size_t)w < buffer_size - (size_t)n) n += w;
@@ -6749,11 +6792,10 @@ static GrayType *resolve_func_ref(TypeChecker *checker, AstNode *node) {
             else n = (int)buffer_size - 1;
         }
         if (ref_sig->return_count == 1 && ref_sig->return_types[0] &&
-            ref_sig->return_types[0]->name &&
-            strcmp(ref_sig->return_types[0]->name, "void") != 0 &&
+            strcmp(type_name(ref_sig->return_types[0]), "void") != 0 &&
             (size_t)n < buffer_size - 1) {
             int w = snprintf(buffer + n, buffer_size - (size_t)n, "->%s",
-                ref_sig->return_types[0]->name);
+                type_name(ref_sig->return_types[0]));
             if (w > 0 && (size_t)w < buffer_size - (size_t)n) n += w;
             else n = (int)buffer_size - 1;
         } else if (ref_sig->return_count > 1 && (size_t)n < buffer_size - 1) {
@@ -6761,8 +6803,7 @@ static GrayType *resolve_func_ref(TypeChecker *checker, AstNode *node) {
             if (w > 0 && (size_t)w < buffer_size - (size_t)n) n += w;
             else n = (int)buffer_size - 1;
             for (int i = 0; i < ref_sig->return_count && (size_t)n < buffer_size - 1; i++) {
-                const char *rn = (ref_sig->return_types[i] && ref_sig->return_types[i]->name)
-                    ? ref_sig->return_types[i]->name : "int";
+                const char *rn = ref_sig->return_types[i] ? type_name(ref_sig->return_types[i]) : "int";
                 w = snprintf(buffer + n, buffer_size - (size_t)n, "%s%s",
                     i ? "," : "", rn);
                 if (w > 0 && (size_t)w < buffer_size - (size_t)n) n += w;
@@ -8120,7 +8161,8 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
             /* E3102: cannot assign a func-type return value to a variable.
              * Func references must be created with ()func_name or ref(func_name). */
             if (value_type->kind == TK_FUNCTION &&
-                node->data.var_decl.value->kind == NODE_CALL_EXPR) {
+                node->data.var_decl.value->kind == NODE_CALL_EXPR &&
+                !is_ref_builtin_call(node->data.var_decl.value)) {
                 AstNode *call_fn = node->data.var_decl.value->data.call.function;
                 const char *called = "function";
                 char called_buf[MSG_BUF_SIZE];
@@ -9013,9 +9055,16 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
             }
             /* Track referenced function for func-typed vars so calls through
              * them can be arity/type-checked at compile time. */
+            AstNode *fref = NULL;
             if (node->data.var_decl.value &&
-                node->data.var_decl.value->kind == NODE_FUNC_REF) {
-                AstNode *fref = node->data.var_decl.value->data.func_ref.function;
+                node->data.var_decl.value->kind == NODE_FUNC_REF)
+                fref = node->data.var_decl.value->data.func_ref.function;
+            else if (node->data.var_decl.value &&
+                     node->data.var_decl.value->kind == NODE_CALL_EXPR &&
+                     is_ref_builtin_call(node->data.var_decl.value) &&
+                     node->data.var_decl.value->data.call.arg_count == 1)
+                fref = node->data.var_decl.value->data.call.args[0];
+            if (fref) {
                 const char *rname = NULL;
                 if (fref->kind == NODE_LABEL) {
                     rname = fref->data.label.value;
@@ -9515,10 +9564,10 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
         /* E3072: `return nil` from a function returning a non-nullable type
          * (struct, int, string, array, etc.). nil is only valid for pointer
          * and error return types. */
-        if (checker->current_return_count > 0 && node->data.return_stmt.count > 0) {
-            AstNode *return_val = node->data.return_stmt.values[0];
+        for (int slot = 0; slot < node->data.return_stmt.count && slot < checker->current_return_count; slot++) {
+            AstNode *return_val = node->data.return_stmt.values[slot];
             if (return_val->kind == NODE_NIL_VALUE) {
-                GrayType *expected = checker->current_return_types[0];
+                GrayType *expected = checker->current_return_types[slot];
                 if (expected && expected->kind != TK_POINTER &&
                     expected->kind != TK_ERROR && expected->kind != TK_UNKNOWN &&
                     expected->kind != TK_NIL && expected->kind != TK_VOID) {
@@ -9569,17 +9618,18 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
             }
         } else if (checker->current_return_count > 0 && node->data.return_stmt.count > 0 &&
                    node->data.return_stmt.count == checker->current_return_count) {
-            /* Check first return value type (skip for or_return synthetic returns) */
-            GrayType *ret_t = resolve_expression(checker, node->data.return_stmt.values[0]);
-            GrayType *expected = checker->current_return_types[0];
+            /* Check the type of every returned value */
+            for (int slot = 0; slot < node->data.return_stmt.count; slot++) {
+            GrayType *ret_t = resolve_expression(checker, node->data.return_stmt.values[slot]);
+            GrayType *expected = checker->current_return_types[slot];
             /* : same push as var_decl; when a func-pointer call
              * is the return value and the function's declared return
              * type is concrete, push it onto the call node so codegen
              * uses the right function-pointer return cast. */
             if (ret_t->kind == TK_UNKNOWN && expected->kind != TK_UNKNOWN &&
                 expected->kind != TK_VOID &&
-                node->data.return_stmt.values[0]->kind == NODE_CALL_EXPR) {
-                typetable_set(checker->type_table, node->data.return_stmt.values[0], expected);
+                node->data.return_stmt.values[slot]->kind == NODE_CALL_EXPR) {
+                typetable_set(checker->type_table, node->data.return_stmt.values[slot], expected);
                 ret_t = expected;
             }
             if (ret_t->kind != TK_UNKNOWN && expected->kind != TK_UNKNOWN &&
@@ -9632,9 +9682,9 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                     "cannot return %s from function declared to return %s",
                     type_display_name(checker, ret_t), type_display_name(checker, expected));
                 diagnostic_error_message(checker->diag, "E3066", msg,
-                    NODE_FILE(checker, node->data.return_stmt.values[0]),
-                    node->data.return_stmt.values[0]->token.line,
-                    node->data.return_stmt.values[0]->token.column, 0);
+                    NODE_FILE(checker, node->data.return_stmt.values[slot]),
+                    node->data.return_stmt.values[slot]->token.line,
+                    node->data.return_stmt.values[slot]->token.column, 0);
             }
             /* Array element type mismatch in return */
             if (ret_t->kind == TK_ARRAY && expected->kind == TK_ARRAY &&
@@ -9689,16 +9739,17 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                     NODE_FILE(checker, node), node->token.line, node->token.column, 0);
             }
             /* E5024: signed-to-unsigned return type mismatch */
-            if (checker->current_return_type_names && checker->current_return_type_names[0] &&
-                is_unsigned_type(checker->current_return_type_names[0]) &&
-                node->data.return_stmt.values[0]->kind == NODE_LABEL) {
-                const char *src_name = node->data.return_stmt.values[0]->data.label.value;
+            if (checker->current_return_type_names && checker->current_return_type_names[slot] &&
+                is_unsigned_type(checker->current_return_type_names[slot]) &&
+                node->data.return_stmt.values[slot]->kind == NODE_LABEL) {
+                const char *src_name = node->data.return_stmt.values[slot]->data.label.value;
                 Symbol *src_sym = scope_lookup(checker->current_scope, src_name);
                 if (src_sym && src_sym->declared_type &&
                     is_signed_int_type(src_sym->declared_type)) {
-                    diagnostic_error_code_formatted(checker->diag, "E5024", NODE_FILE(checker, node), node->token.line, node->token.column, 0, src_sym->declared_type, checker->current_return_type_names[0]);
+                    diagnostic_error_code_formatted(checker->diag, "E5024", NODE_FILE(checker, node), node->token.line, node->token.column, 0, src_sym->declared_type, checker->current_return_type_names[slot]);
                 }
             }
+            }
             /* E3073: named return variable must be the value returned */
             if (checker->current_has_named_returns && checker->current_return_names) {
                 for (int i = 0; i < node->data.return_stmt.count && i < checker->current_return_count; i++) {
-- 
2.43.0


From 7f0a41d80247a88c1ce217404e2a095d5385db8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:28 +0000
Subject: [PATCH 73/96] fix: every call form passes its arguments in the types
 the parameters declare

---
 grayc/src/codegen/codegen.c | 277 +++++++++++++++++-------------------
 grayc/src/codegen/codegen.h |   9 +-
 2 files changed, 141 insertions(+), 145 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 9e3a30e..51dbf92 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -269,8 +269,8 @@ static const char *sanitize_name(const char *name) {
  * string has no wildcard. The substituted string lives in a small ring
  * of static buffers so a handful of nested calls can each keep their
  * result alive simultaneously. */
-static const char *multi_return_base_name(const char *fn_name);
-static const char *multi_return_name(AstNode *func);
+static const char *multi_return_base_name(CodeGen *codegen, const char *fn_name);
+static const char *multi_return_name(CodeGen *codegen, AstNode *func);
 static const char *codegen_effective_type_string(CodeGen *codegen, const char *type_name) {
     if (!type_name || !codegen || !codegen->wildcard_binding) return type_name;
     if (!strchr(type_name, '?')) return type_name;
@@ -1261,31 +1261,28 @@ static bool is_result_temporary(const char *name) {
 }
 
 static int function_name_compare(const void *left, const void *right) {
-    const AstNode *left_func = *(const AstNode *const *)left;
-    const AstNode *right_func = *(const AstNode *const *)right;
-    return strcmp(left_func->data.func_decl.name, right_func->data.func_decl.name);
+    return strcmp(((const NamedFunction *)left)->name, ((const NamedFunction *)right)->name);
 }
 
-/* Find a function declaration by name. Builds and reuses a sorted view of
- * codegen->all_funcs so lookups are O(log n) after the first call. The view is
- * invalidated whenever a new function is registered (see register sites). */
+/* Find a function declaration by its declared name. Builds and reuses a sorted
+ * view of codegen->all_funcs so lookups are O(log n) after the first call. The
+ * view keeps the names as registered: while an instance of a generic function
+ * is emitted, its declaration temporarily carries the instance's name. */
 static AstNode *find_function(CodeGen *codegen, const char *name) {
     if (codegen->func_count == 0) return NULL;
     if (!codegen->funcs_by_name_built) {
         codegen->funcs_by_name = xrealloc(codegen->funcs_by_name,
-            sizeof(AstNode *) * (size_t)codegen->func_count);
-        memcpy(codegen->funcs_by_name, codegen->all_funcs,
-            sizeof(AstNode *) * (size_t)codegen->func_count);
-        qsort(codegen->funcs_by_name, (size_t)codegen->func_count, sizeof(AstNode *), function_name_compare);
+            sizeof(NamedFunction) * (size_t)codegen->func_count);
+        for (int i = 0; i < codegen->func_count; i++)
+            codegen->funcs_by_name[i] = (NamedFunction){
+                codegen->all_funcs[i]->data.func_decl.name, codegen->all_funcs[i] };
+        qsort(codegen->funcs_by_name, (size_t)codegen->func_count, sizeof(NamedFunction), function_name_compare);
         codegen->funcs_by_name_built = true;
     }
-    /* Build a stack key node so bsearch can compare against the name field. */
-    AstNode key;
-    key.data.func_decl.name = name;
-    AstNode *key_ptr = &key;
-    AstNode **hit = bsearch(&key_ptr, codegen->funcs_by_name, (size_t)codegen->func_count,
-        sizeof(AstNode *), function_name_compare);
-    return hit ? *hit : NULL;
+    NamedFunction key = { name, NULL };
+    NamedFunction *hit = bsearch(&key, codegen->funcs_by_name, (size_t)codegen->func_count,
+        sizeof(NamedFunction), function_name_compare);
+    return hit ? hit->func : NULL;
 }
 
 /* Build the (field_name, struct_name) index for func-typed fields once.
@@ -6285,6 +6282,60 @@ static void emit_call_expression(CodeGen *codegen, AstNode *node) {
     memcpy(codegen->call_arena, outer, sizeof(outer));
 }
 
+/* Emit one argument in the type its parameter declares: the address of the
+ * caller's variable, field or element for a `&` parameter, a checked value
+ * otherwise. */
+static void emit_call_argument(CodeGen *codegen, const char *param_type, bool by_reference,
+                               AstNode *arg, int line) {
+    if (by_reference) {
+        note_reference_argument(codegen, arg);
+        if (arg->kind == NODE_LABEL && is_mutable_parameter(codegen, arg->data.label.value)) {
+            emit(codegen, sanitize_name(arg->data.label.value));
+        } else if (arg->kind == NODE_LABEL) {
+            emit(codegen, "&");
+            emit_expression(codegen, arg);
+        } else if (arg->kind == NODE_INDEX_EXPR) {
+            GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
+            const char *slot = param_type && !strchr(param_type, '?') ? param_type : arg_t ? type_name(arg_t) : NULL;
+            const char *c_slot = slot ? gray_type_to_c_codegen(codegen, slot) : "int64_t";
+            AstNode *base = arg->data.index_expr.left;
+            GrayType *base_t = codegen->type_table ? typetable_get(codegen->type_table, base) : NULL;
+            if (base_t && base_t->kind == TK_MAP) {
+                const char *c_key = base_t->key_type ? gray_map_element_c_type(codegen, base_t->key_type) : "GrayString";
+                emit_formatted(codegen, "({ %s _mk = ", c_key);
+                emit_expression_as(codegen, arg->data.index_expr.index, c_key);
+                emit(codegen, "; void *_mv = gray_map_get(");
+                emit_array_argument_address(codegen, base);
+                emit_formatted(codegen, ", &_mk); if (!_mv) { gray_panic_code_at(\"%s\", %d, \"P0081\", \"key not found in map\"); } (%s *)_mv; })",
+                    codegen->file, line, c_slot);
+            } else {
+                emit_formatted(codegen, "(%s *)gray_array_get_ptr(", c_slot);
+                emit_array_argument_address(codegen, base);
+                emit(codegen, ", ");
+                emit_expression(codegen, arg->data.index_expr.index);
+                emit_formatted(codegen, ", \"%s\", %d)", codegen->file, line);
+            }
+        } else {
+            emit_array_argument_address(codegen, arg);
+        }
+        return;
+    }
+    const char *saved = codegen->current_var_type;
+    if (param_type && !strchr(param_type, '?')) codegen->current_var_type = param_type;
+    GrayType *value_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
+    bool sign_change = param_type && value_t && value_t->kind == TK_INT &&
+        arg->kind != NODE_INT_VALUE && !is_bigint_type(type_name(value_t)) &&
+        (strcmp(param_type, "uint") == 0 || strcmp(param_type, "u64") == 0);
+    if (param_type && is_bigint_type(param_type)) {
+        emit_bigint_conversion(codegen, arg, param_type, line);
+    } else if (sign_change) {
+        emit_integer_conversion(codegen, param_type, arg, line);
+    } else if (!param_type || !emit_narrowing_cast(codegen, param_type, arg, line)) {
+        emit_expression(codegen, arg);
+    }
+    codegen->current_var_type = saved;
+}
+
 static void emit_call_body(CodeGen *codegen, AstNode *node) {
     const char *module = NULL;
     const char *func = NULL;
@@ -6533,17 +6584,9 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
                         for (int i = 0; i < total; i++) {
                             if (i > 0) emit(codegen, ", ");
                             if (i < ac) {
-                                bool mut_param = i < pc && uf->data.func_decl.params[i].mutable;
-                                if (mut_param) note_reference_argument(codegen, node->data.call.args[i]);
-                                if (mut_param && node->data.call.args[i]->kind == NODE_LABEL) {
-                                    const char *vn = node->data.call.args[i]->data.label.value;
-                                    if (is_mutable_parameter(codegen, vn)) emit(codegen, vn);
-                                    else emit_formatted(codegen, "&%s", vn);
-                                } else if (mut_param && node->data.call.args[i]->kind == NODE_MEMBER_EXPR) {
-                                    emit(codegen, "&"); emit_expression(codegen, node->data.call.args[i]);
-                                } else {
-                                    emit_expression(codegen, node->data.call.args[i]);
-                                }
+                                emit_call_argument(codegen, i < pc ? uf->data.func_decl.params[i].type_name : NULL,
+                                    i < pc && uf->data.func_decl.params[i].mutable,
+                                    node->data.call.args[i], node->token.line);
                             } else if (i < pc && uf->data.func_decl.params[i].default_value) {
                                 emit_expression(codegen, uf->data.func_decl.params[i].default_value);
                             }
@@ -6621,18 +6664,10 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
                 emit_formatted(codegen, "gray_fn_%s(", full_name);
                 for (int i = 0; i < node->data.call.arg_count; i++) {
                     if (i > 0) emit(codegen, ", ");
-                    bool mut_param = i < ns_func->data.func_decl.param_count &&
-                        ns_func->data.func_decl.params[i].mutable;
-                    if (mut_param) note_reference_argument(codegen, node->data.call.args[i]);
-                                if (mut_param && node->data.call.args[i]->kind == NODE_LABEL) {
-                        const char *vn = node->data.call.args[i]->data.label.value;
-                        if (is_mutable_parameter(codegen, vn)) emit(codegen, vn);
-                        else emit_formatted(codegen, "&%s", vn);
-                    } else if (mut_param && node->data.call.args[i]->kind == NODE_MEMBER_EXPR) {
-                        emit(codegen, "&"); emit_expression(codegen, node->data.call.args[i]);
-                    } else {
-                        emit_expression(codegen, node->data.call.args[i]);
-                    }
+                    bool declared = i < ns_func->data.func_decl.param_count;
+                    emit_call_argument(codegen, declared ? ns_func->data.func_decl.params[i].type_name : NULL,
+                        declared && ns_func->data.func_decl.params[i].mutable,
+                        node->data.call.args[i], node->token.line);
                 }
                 emit(codegen, ")");
                 return;
@@ -6750,9 +6785,18 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
                                 const char *c_ret = (ret_t && ret_t->kind != TK_UNKNOWN && ret_t->kind != TK_VOID)
                                     ? gray_type_to_c_codegen(codegen, type_name(ret_t)) : "int64_t";
                                 if (ret_t && ret_t->kind == TK_VOID) c_ret = "void";
+                                GrayType *field_t = type_from_name(sdecl->data.struct_decl.fields[field_index].type_name);
+                                GrayFuncSig *sig = field_t && field_t->kind == TK_FUNCTION ? field_t->func_sig : NULL;
+                                if (sig && sig->return_count <= 1)
+                                    c_ret = sig->return_count ? gray_type_to_c_codegen(codegen, sig->return_types[0]) : "void";
                                 emit_formatted(codegen, "((%s (*)(", c_ret);
                                 for (int ai = 0; ai < nargs; ai++) {
                                     if (ai > 0) emit(codegen, ", ");
+                                    if (sig && ai < sig->param_count) {
+                                        emit_formatted(codegen, "%s%s", gray_type_to_c_codegen(codegen, sig->param_types[ai]),
+                                            sig->param_mutable[ai] ? " *" : "");
+                                        continue;
+                                    }
                                     GrayType *arg_type = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[ai]) : NULL;
                                     emit(codegen, arg_type ? gray_type_to_c_codegen(codegen, type_name(arg_type)) : "int64_t");
                                 }
@@ -6761,7 +6805,10 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
                                 emit_formatted(codegen, "%s%s)(", obj_is_ptr ? "->" : ".", member);
                                 for (int ai = 0; ai < nargs; ai++) {
                                     if (ai > 0) emit(codegen, ", ");
-                                    emit_expression(codegen, node->data.call.args[ai]);
+                                    bool declared = sig && ai < sig->param_count;
+                                    emit_call_argument(codegen, declared ? sig->param_types[ai] : NULL,
+                                        declared && sig->param_mutable[ai],
+                                        node->data.call.args[ai], node->token.line);
                                 }
                                 emit(codegen, ")");
                                 return;
@@ -6791,18 +6838,10 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
                     emit_formatted(codegen, "gray_fn_%s(", member);
                     for (int i = 0; i < node->data.call.arg_count; i++) {
                         if (i > 0) emit(codegen, ", ");
-                        bool mut_param = i < ns_func->data.func_decl.param_count &&
-                            ns_func->data.func_decl.params[i].mutable;
-                        if (mut_param) note_reference_argument(codegen, node->data.call.args[i]);
-                                if (mut_param && node->data.call.args[i]->kind == NODE_LABEL) {
-                            const char *vn = node->data.call.args[i]->data.label.value;
-                            if (is_mutable_parameter(codegen, vn)) emit(codegen, vn);
-                            else emit_formatted(codegen, "&%s", vn);
-                        } else if (mut_param && node->data.call.args[i]->kind == NODE_MEMBER_EXPR) {
-                            emit(codegen, "&"); emit_expression(codegen, node->data.call.args[i]);
-                        } else {
-                            emit_expression(codegen, node->data.call.args[i]);
-                        }
+                        bool declared = i < ns_func->data.func_decl.param_count;
+                        emit_call_argument(codegen, declared ? ns_func->data.func_decl.params[i].type_name : NULL,
+                            declared && ns_func->data.func_decl.params[i].mutable,
+                            node->data.call.args[i], node->token.line);
                     }
                     emit(codegen, ")");
                     return;
@@ -6860,11 +6899,15 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
                 bool self_injected = false;
                 if (instance_dispatch &&
                     ns_func->data.func_decl.param_count > node->data.call.arg_count) {
+                    const char *self_type = ns_func->data.func_decl.params[0].type_name;
+                    bool self_is_ptr = self_type && self_type[0] == '^';
                     if (ns_func->data.func_decl.params[0].mutable) {
                         note_reference_argument(codegen, obj);
                         if (obj_is_ptr) emit_expression(codegen, obj);
                         else { emit(codegen, "&"); emit_expression(codegen, obj); }
                     } else {
+                        if (self_is_ptr && !obj_is_ptr) emit(codegen, "&");
+                        else if (!self_is_ptr && obj_is_ptr) emit(codegen, "*");
                         emit_expression(codegen, obj);
                     }
                     self_injected = true;
@@ -6872,18 +6915,10 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
                 for (int i = 0; i < node->data.call.arg_count; i++) {
                     if (i > 0 || self_injected) emit(codegen, ", ");
                     int pi = self_injected ? i + 1 : i;
-                    bool mut_param = pi < ns_func->data.func_decl.param_count &&
-                        ns_func->data.func_decl.params[pi].mutable;
-                    if (mut_param) note_reference_argument(codegen, node->data.call.args[i]);
-                                if (mut_param && node->data.call.args[i]->kind == NODE_LABEL) {
-                        const char *vn = node->data.call.args[i]->data.label.value;
-                        if (is_mutable_parameter(codegen, vn)) emit(codegen, vn);
-                        else emit_formatted(codegen, "&%s", vn);
-                    } else if (mut_param && node->data.call.args[i]->kind == NODE_MEMBER_EXPR) {
-                        emit(codegen, "&"); emit_expression(codegen, node->data.call.args[i]);
-                    } else {
-                        emit_expression(codegen, node->data.call.args[i]);
-                    }
+                    bool declared = pi < ns_func->data.func_decl.param_count;
+                    emit_call_argument(codegen, declared ? ns_func->data.func_decl.params[pi].type_name : NULL,
+                        declared && ns_func->data.func_decl.params[pi].mutable,
+                        node->data.call.args[i], node->token.line);
                 }
                 /* Inject default values for omitted trailing parameters */
                 {
@@ -7026,9 +7061,8 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
          * AST decl carries default values that the typed-func sig does
          * not, so the scan is needed for the defaults-fill path below. */
         {
-            for (int si = 0; si < codegen->func_count && !ref_func; si++) {
-                AstNode *fn_decl = codegen->all_funcs[si];
-                if (!fn_decl->data.func_decl.body) continue;
+            AstNode *fn_decl = codegen->current_func;
+            if (fn_decl && fn_decl->data.func_decl.body) {
                 for (int bi = 0; bi < fn_decl->data.func_decl.body->data.block.count && !ref_func; bi++) {
                     AstNode *st = fn_decl->data.func_decl.body->data.block.stmts[bi];
                     if (st->kind == NODE_VAR_DECL &&
@@ -7221,14 +7255,20 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
         emit(codegen, "({ ");
         for (int i = 0; i < node->data.call.arg_count; i++) {
             if (target_func->data.func_decl.params[i].is_type_param) continue;
-            const char *pname = target_func->data.func_decl.params[i].name;
             const char *ptn = target_func->data.func_decl.params[i].type_name;
             const char *c_ty = ptn ? gray_type_to_c_codegen(codegen, ptn) : "int64_t";
-            emit_formatted(codegen, "%s %s = ", c_ty, pname ? sanitize_name(pname) : "_arg");
-            if (!emit_narrowing_cast(codegen, ptn, node->data.call.args[i], node->token.line))
-                emit_expression(codegen, node->data.call.args[i]);
+            emit_formatted(codegen, "%s _arg%d = ", c_ty, i);
+            emit_call_argument(codegen, ptn, false, node->data.call.args[i], node->token.line);
             emit(codegen, "; ");
         }
+        for (int i = 0; i < node->data.call.arg_count; i++) {
+            if (target_func->data.func_decl.params[i].is_type_param) continue;
+            const char *pname = target_func->data.func_decl.params[i].name;
+            const char *ptn = target_func->data.func_decl.params[i].type_name;
+            if (!pname) continue;
+            emit_formatted(codegen, "%s %s = _arg%d; (void)%s; ",
+                ptn ? gray_type_to_c_codegen(codegen, ptn) : "int64_t", sanitize_name(pname), i, sanitize_name(pname));
+        }
         emit(codegen, saved_fn);
         emit(codegen, "(");
         {
@@ -7238,8 +7278,7 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
                 if (!df_first) emit(codegen, ", ");
                 df_first = false;
                 if (i < node->data.call.arg_count) {
-                    const char *pname = target_func->data.func_decl.params[i].name;
-                    emit_formatted(codegen, "%s", pname ? sanitize_name(pname) : "_arg");
+                    emit_formatted(codegen, "_arg%d", i);
                 } else {
                     emit_expression(codegen, target_func->data.func_decl.params[i].default_value);
                 }
@@ -7261,56 +7300,15 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
         if (i < node->data.call.arg_count) {
             /* Provided argument */
             bool needs_addr = false;
+            const char *param_tn = NULL;
             if (target_func && i < target_func->data.func_decl.param_count) {
                 needs_addr = target_func->data.func_decl.params[i].mutable;
+                param_tn = target_func->data.func_decl.params[i].type_name;
             } else if (call_typed_sig && i < call_typed_sig->param_count) {
                 needs_addr = call_typed_sig->param_mutable[i];
+                param_tn = call_typed_sig->param_types[i];
             }
-            if (needs_addr) note_reference_argument(codegen, node->data.call.args[i]);
-            if (needs_addr && node->data.call.args[i]->kind == NODE_LABEL) {
-                const char *var_name = node->data.call.args[i]->data.label.value;
-                if (is_mutable_parameter(codegen, var_name)) {
-                    /* Already a pointer; pass through */
-                    emit(codegen, var_name);
-                } else {
-                    emit_formatted(codegen, "&%s", var_name);
-                }
-            } else if (needs_addr && node->data.call.args[i]->kind == NODE_INDEX_EXPR) {
-                /* Mutable param on indexed element: array or map */
-                AstNode *idx_node = node->data.call.args[i];
-                GrayType *left_t = codegen->type_table
-                    ? typetable_get(codegen->type_table, idx_node->data.index_expr.left) : NULL;
-                if (left_t && left_t->kind == TK_MAP) {
-                    /* Map: get pointer to value via gray_map_get */
-                    const char *c_key = "GrayString";
-                    if (left_t->key_type) c_key = gray_map_element_c_type(codegen, left_t->key_type);
-                    emit_formatted(codegen, "({ %s _mk = ", c_key);
-                    emit_expression_as(codegen, idx_node->data.index_expr.index, c_key);
-                    emit(codegen, "; void *_mv = gray_map_get(&");
-                    emit_expression(codegen, idx_node->data.index_expr.left);
-                    emit_formatted(codegen, ", &_mk); if (!_mv) { gray_panic_code_at(\"%s\", %d, \"P0081\", \"key not found in map\"); } ", codegen->file, node->token.line);
-                    emit(codegen, "(int64_t *)_mv; })");
-                } else {
-                    /* Array: pass pointer to element */
-                    emit(codegen, "(int64_t *)gray_array_get_ptr(&");
-                    emit_expression(codegen, idx_node->data.index_expr.left);
-                    emit(codegen, ", ");
-                    emit_expression(codegen, idx_node->data.index_expr.index);
-                    emit(codegen, ", __FILE__, __LINE__)");
-                }
-            } else if (needs_addr && node->data.call.args[i]->kind == NODE_MEMBER_EXPR) {
-                /* Mutable param on struct field: pass address of field */
-                emit(codegen, "&");
-                emit_expression(codegen, node->data.call.args[i]);
-            } else {
-                const char *param_tn = NULL;
-                if (target_func && i < target_func->data.func_decl.param_count)
-                    param_tn = target_func->data.func_decl.params[i].type_name;
-                else if (call_typed_sig && i < call_typed_sig->param_count)
-                    param_tn = call_typed_sig->param_types[i];
-                if (!emit_narrowing_cast(codegen, param_tn, node->data.call.args[i], node->token.line))
-                    emit_expression(codegen, node->data.call.args[i]);
-            }
+            emit_call_argument(codegen, param_tn, needs_addr, node->data.call.args[i], node->token.line);
         } else if (target_func && i < param_count &&
                    target_func->data.func_decl.params[i].default_value) {
             /* Default value */
@@ -8624,7 +8622,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
     if (node->data.return_stmt.count > 1 && codegen->current_func) {
         /* Multi-return: evaluate into temp, then exit and return */
         emit_indent(codegen);
-        const char *mbn = multi_return_name(codegen->current_func);
+        const char *mbn = multi_return_name(codegen, codegen->current_func);
         emit_formatted(codegen, "{ GrayMulti_%s _ret = (GrayMulti_%s){", mbn, mbn);
         for (int i = 0; i < node->data.return_stmt.count; i++) {
             if (i > 0) emit(codegen, ", ");
@@ -8638,7 +8636,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         /* Single value returned from multi-return function (or_return propagation) */
         int rc = codegen->current_func->data.func_decl.return_type_count;
         emit_indent(codegen);
-        const char *mbn2 = multi_return_name(codegen->current_func);
+        const char *mbn2 = multi_return_name(codegen, codegen->current_func);
         /* The other slots are zero */
         emit_formatted(codegen, "{ GrayMulti_%s _ret = (GrayMulti_%s){.v%d = ", mbn2, mbn2, rc - 1);
         emit_expression(codegen, node->data.return_stmt.values[0]);
@@ -8675,7 +8673,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
             emit_leave_function(codegen, true);
         } else {
             emit_indent(codegen);
-            const char *mbn3 = multi_return_name(codegen->current_func);
+            const char *mbn3 = multi_return_name(codegen, codegen->current_func);
             emit_formatted(codegen, "{ GrayMulti_%s _ret = (GrayMulti_%s){", mbn3, mbn3);
             for (int i = 0; i < rc; i++) {
                 if (i > 0) emit(codegen, ", ");
@@ -8936,27 +8934,14 @@ static void emit_loop_statement(CodeGen *codegen, AstNode *node) {
  * to `<name>__<binding>`, but the GrayMulti typedef is emitted once
  * under the original name. Returns a pointer to a small ring of
  * static buffers so a few concurrent uses stay alive. */
-static const char *multi_return_base_name(const char *fn_name) {
-    static char bufs[4][MSG_BUF_SIZE];
-    static int bi = 0;
-    char *out = bufs[bi]; bi = (bi + 1) & 3;
-    const char *dunder = strstr(fn_name, "__");
-    if (dunder) {
-        size_t n = (size_t)(dunder - fn_name);
-        if (n >= sizeof(bufs[0])) n = sizeof(bufs[0]) - 1;
-        memcpy(out, fn_name, n);
-        out[n] = '\0';
-    } else {
-        strncpy(out, fn_name, sizeof(bufs[0]) - 1);
-        out[sizeof(bufs[0]) - 1] = '\0';
-    }
-    return out;
+static const char *multi_return_base_name(CodeGen *codegen, const char *fn_name) {
+    return codegen->generic_base_name ? codegen->generic_base_name : fn_name;
 }
 
 /*  + : pick the right multi-return struct name. Use
  * the full mangled name when return types contain '?'
  * (per-instantiation struct), base name otherwise (shared). */
-static const char *multi_return_name(AstNode *func) {
+static const char *multi_return_name(CodeGen *codegen, AstNode *func) {
     bool has_wc = false;
     for (int i = 0; i < func->data.func_decl.return_type_count; i++) {
         if (func->data.func_decl.return_types[i] &&
@@ -8966,7 +8951,7 @@ static const char *multi_return_name(AstNode *func) {
         }
     }
     return has_wc ? func->data.func_decl.name
-                  : multi_return_base_name(func->data.func_decl.name);
+                  : multi_return_base_name(codegen, func->data.func_decl.name);
 }
 
 /* Build a multi-return type name like GrayMulti_add */
@@ -9002,7 +8987,7 @@ static const char *function_return_type(CodeGen *codegen, AstNode *node) {
     }
     if (!has_wc_ret) {
         /* : strip __<binding> suffix; shared struct. */
-        snprintf(buffer, sizeof(buffer), "GrayMulti_%s", multi_return_base_name(fn_name));
+        snprintf(buffer, sizeof(buffer), "GrayMulti_%s", multi_return_base_name(codegen, fn_name));
     } else {
         /* : use the full (possibly mangled) name; per-instantiation
          * struct. The wildcard_binding is active so gray_type_to_c_codegen will
@@ -9563,6 +9548,7 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
                 mangled[pos] = '\0';
 
                 node->data.func_decl.name = mangled;
+                codegen->generic_base_name = orig_name;
                 const char *saved = codegen->wildcard_binding;
                 codegen->wildcard_binding = concrete;
                 /* Per-instantiation multi-return typedefs were already
@@ -9571,6 +9557,7 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
                 codegen->wildcard_binding = saved;
             }
             node->data.func_decl.name = orig_name;
+            codegen->generic_base_name = NULL;
         } else {
             emit_function_declaration(codegen, node,
                 strcmp(node->data.func_decl.name, "main") == 0);
@@ -10220,6 +10207,8 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
         }
     }
 
+    find_function(codegen, "");  /* index the declared names before any is changed */
+
     /* Emit forward declarations for all functions (including struct-namespaced) */
     for (int i = 0; i < codegen->func_count; i++) {
         AstNode *stmt = codegen->all_funcs[i];
@@ -10264,7 +10253,7 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
             /* Temporarily set the func name to the mangled version so
              * function_return_type sees the right name for multi-return
              * structs  + ). */
-            if (has_wc) stmt->data.func_decl.name = mangled;
+            if (has_wc) { stmt->data.func_decl.name = mangled; codegen->generic_base_name = orig_name; }
             /* : emit per-instantiation multi-return typedef
              * before the forward declaration that references it. */
             if (has_wc && stmt->data.func_decl.return_type_count > 1) {
@@ -10279,7 +10268,7 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
                 if (has_wc_ret) emit_multi_return_typedef(codegen, stmt);
             }
             emit_formatted(codegen, "static %s ", function_return_type(codegen, stmt));
-            if (has_wc) stmt->data.func_decl.name = orig_name;
+            if (has_wc) { stmt->data.func_decl.name = orig_name; codegen->generic_base_name = NULL; }
             emit_formatted(codegen, "gray_fn_%s(", emit_name);
             {
                 bool fwd_first = true;
diff --git a/grayc/src/codegen/codegen.h b/grayc/src/codegen/codegen.h
index c38892a..99e1ee2 100644
--- a/grayc/src/codegen/codegen.h
+++ b/grayc/src/codegen/codegen.h
@@ -14,6 +14,12 @@
 #include "../util/buf.h"
 #include "../typechecker/typechecker.h"
 
+/* A function under the name it was declared with. */
+typedef struct {
+    const char *name;
+    AstNode *func;
+} NamedFunction;
+
 /* Per-scope scratch arena identifier pair tracked by codegen so that
  * early-exit paths can unwind every live scratch arena innermost-first. */
 typedef struct {
@@ -60,7 +66,8 @@ typedef struct {
     /* Sorted view of all_funcs by func_decl.name, built lazily for
      * O(log n) find_func lookups. all_funcs itself stays in insertion
      * order because emission and several prefix-match scans depend on it. */
-    AstNode **funcs_by_name;
+    NamedFunction *funcs_by_name;
+    const char *generic_base_name;  /* declared name while an instance is emitted */
     bool funcs_by_name_built;
 
     /* Type table from type checker (for type-aware codegen) */
-- 
2.43.0


From fc7077dc3a96f32c059e44f1f5183786f3e1db66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:36 +0000
Subject: [PATCH 74/96] fix: operands, arguments and struct fields are
 evaluated in the order they are written

---
 grayc/src/codegen/codegen.c | 189 ++++++++++++++++++++++++++++++++++++
 grayc/src/codegen/codegen.h |  13 +++
 2 files changed, 202 insertions(+)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 51dbf92..d316882 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -9,6 +9,7 @@
 
 #include "codegen.h"
 #include "../util/constants.h"
+#include "../util/reserved.h"
 #include "../util/xalloc.h"
 #include <stdio.h>
 #include <stdlib.h>
@@ -1396,7 +1397,191 @@ static void emit_interpolated_part(CodeGen *codegen, AstNode *part) {
     emit(codegen, "))");
 }
 
+/* Whether the callee is a variable holding a function reference. */
+static bool typed_callee(CodeGen *codegen, AstNode *function) {
+    GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, function) : NULL;
+    return type && type->kind == TK_FUNCTION;
+}
+
+/* A call of a user's function, whose arguments are all emitted in the types
+ * and the manner its parameters declare. */
+static bool is_user_call(CodeGen *codegen, AstNode *call) {
+    AstNode *function = call->data.call.function;
+    if (function->kind == NODE_LABEL)
+        return call->data.call.referenced_func || find_function(codegen, function->data.label.value) ||
+            typed_callee(codegen, function);
+    return function->kind == NODE_MEMBER_EXPR && function->data.member.object->kind == NODE_LABEL &&
+        !is_stdlib_module_name(resolve_alias(codegen, function->data.member.object->data.label.value));
+}
+
+/* A builtin or standard library function without effects of its own. */
+static bool is_pure_call(CodeGen *codegen, AstNode *call) {
+    static const char *const builtins[] = { "len", "to_char", "type_of", "size_of", "copy", "addr", "ref", "error",
+        "int", "uint", "float", "string", "char", "byte", "bool", "i8", "i16", "i32", "i64", "i128", "i256",
+        "u8", "u16", "u32", "u64", "u128", "u256", "f32", "f64" };
+    static const char *const modules[] = { "math", "strings", "strconv", "paths", "encoding", "regex", "bytes", "json", "csv" };
+    AstNode *function = call->data.call.function;
+    if (is_user_call(codegen, call)) return false;
+    if (function->kind == NODE_LABEL) {
+        for (int i = 0; i < (int)(sizeof(builtins) / sizeof(builtins[0])); i++)
+            if (strcmp(function->data.label.value, builtins[i]) == 0) return true;
+    } else if (function->kind == NODE_MEMBER_EXPR && function->data.member.object->kind == NODE_LABEL) {
+        const char *module = resolve_alias(codegen, function->data.member.object->data.label.value);
+        for (int i = 0; i < (int)(sizeof(modules) / sizeof(modules[0])); i++)
+            if (strcmp(module, modules[i]) == 0) return true;
+    }
+    return false;
+}
+
+static bool any_has_effects(CodeGen *codegen, AstNode **nodes, int count);
+
+/* Whether evaluating the expression may change what another one evaluates to. */
+static bool has_effects(CodeGen *codegen, AstNode *node) {
+    if (!node) return false;
+    switch (node->kind) {
+    case NODE_CALL_EXPR:
+        if (!is_pure_call(codegen, node)) return true;
+        return any_has_effects(codegen, node->data.call.args, node->data.call.arg_count);
+    case NODE_POSTFIX_EXPR: return true;
+    case NODE_PREFIX_EXPR:  return has_effects(codegen, node->data.prefix.right);
+    case NODE_INFIX_EXPR:   return has_effects(codegen, node->data.infix.left) || has_effects(codegen, node->data.infix.right);
+    case NODE_INDEX_EXPR:   return has_effects(codegen, node->data.index_expr.left) || has_effects(codegen, node->data.index_expr.index);
+    case NODE_MEMBER_EXPR:  return has_effects(codegen, node->data.member.object);
+    case NODE_CAST_EXPR:    return has_effects(codegen, node->data.cast.value);
+    case NODE_INTERPOLATED_STRING:
+        return any_has_effects(codegen, node->data.interpolated_string.parts, node->data.interpolated_string.part_count);
+    case NODE_ARRAY_VALUE:  return any_has_effects(codegen, node->data.array_value.elements, node->data.array_value.count);
+    case NODE_MAP_VALUE:
+        return any_has_effects(codegen, node->data.map_value.keys, node->data.map_value.count) ||
+            any_has_effects(codegen, node->data.map_value.values, node->data.map_value.count);
+    case NODE_STRUCT_VALUE: return any_has_effects(codegen, node->data.struct_value.field_values, node->data.struct_value.count);
+    default:                return false;
+    }
+}
+
+static bool any_has_effects(CodeGen *codegen, AstNode **nodes, int count) {
+    for (int i = 0; i < count; i++)
+        if (has_effects(codegen, nodes[i])) return true;
+    return false;
+}
+
+/* Whether the expression reads a variable, field, element or pointer. */
+static bool reads_state(AstNode *node) {
+    if (!node) return false;
+    switch (node->kind) {
+    case NODE_LABEL: case NODE_INDEX_EXPR: case NODE_MEMBER_EXPR: case NODE_CALL_EXPR:
+    case NODE_INTERPOLATED_STRING:
+        return true;
+    case NODE_PREFIX_EXPR: return reads_state(node->data.prefix.right);
+    case NODE_INFIX_EXPR:  return reads_state(node->data.infix.left) || reads_state(node->data.infix.right);
+    case NODE_CAST_EXPR:   return reads_state(node->data.cast.value);
+    default:               return false;
+    }
+}
+
+/* Whether the operand's value may be kept in a temporary of its own type. */
+static bool may_be_temporary(CodeGen *codegen, AstNode *node, bool lvalues) {
+    switch (node->kind) {
+    case NODE_LABEL: case NODE_INDEX_EXPR: case NODE_MEMBER_EXPR:
+        if (!lvalues) return false;
+        break;
+    case NODE_CALL_EXPR: case NODE_INFIX_EXPR: case NODE_PREFIX_EXPR:
+    case NODE_INTERPOLATED_STRING: case NODE_CAST_EXPR: case NODE_STRUCT_VALUE:
+        break;
+    default:
+        return false;
+    }
+    GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, node) : NULL;
+    if (!type) return false;
+    switch (type->kind) {
+    case TK_INT: case TK_UINT: case TK_FLOAT: case TK_BOOL: case TK_CHAR: case TK_BYTE:
+    case TK_STRING: case TK_STRUCT: case TK_ENUM: case TK_ARRAY: case TK_MAP: case TK_POINTER:
+        return true;
+    default:
+        return false;
+    }
+}
+
+static int compare_operand_position(const void *left, const void *right) {
+    const Token *a = &(*(AstNode *const *)left)->token, *b = &(*(AstNode *const *)right)->token;
+    if (a->line != b->line) return a->line < b->line ? -1 : 1;
+    return a->column < b->column ? -1 : a->column > b->column;
+}
+
+/* C leaves the order in which it evaluates operands open.  When that order
+ * could show, evaluate the operands of node into temporaries first, in the
+ * order they are written, and emit node over those; otherwise return false. */
+static bool emit_sequenced(CodeGen *codegen, AstNode *node) {
+    AstNode *pair[2];
+    AstNode **operands = NULL;
+    int count = 0;
+    bool lvalues = true;
+    if (codegen->sequencing == node || !codegen->current_func) return false;
+    if (node->kind == NODE_INFIX_EXPR) {
+        if (node->data.infix.op == TOK_AND || node->data.infix.op == TOK_OR) return false;
+        pair[0] = node->data.infix.left;
+        pair[1] = node->data.infix.right;
+        operands = pair;
+        count = 2;
+    } else if (node->kind == NODE_CALL_EXPR) {
+        operands = node->data.call.args;
+        count = node->data.call.arg_count;
+        lvalues = is_user_call(codegen, node);
+    } else if (node->kind == NODE_STRUCT_VALUE) {
+        operands = node->data.struct_value.field_values;
+        count = node->data.struct_value.count;
+    }
+    if (count < 2 || !any_has_effects(codegen, operands, count)) return false;
+
+    AstNode **written = xmalloc(sizeof(AstNode *) * (size_t)count);
+    memcpy(written, operands, sizeof(AstNode *) * (size_t)count);
+    qsort(written, (size_t)count, sizeof(AstNode *), compare_operand_position);
+    int last_effect = -1, last_read = -1;
+    for (int i = 0; i < count; i++) {
+        if (has_effects(codegen, written[i])) last_effect = i;
+        if (reads_state(written[i])) last_read = i;
+    }
+    int until = last_read > last_effect ? last_effect + 1 : last_effect;
+    int outer_count = codegen->sequenced_count;
+    AstNode *outer = codegen->sequencing;
+    const char *outer_var_type = codegen->current_var_type;
+    for (int i = 0; i < until; i++) {
+        if (!reads_state(written[i]) && !has_effects(codegen, written[i])) continue;
+        if (!may_be_temporary(codegen, written[i], lvalues)) continue;
+        if (codegen->sequenced_count == outer_count) emit(codegen, "({ ");
+        int temporary = codegen->sequence_serial++;
+        emit_formatted(codegen, "__auto_type _seq%d = ", temporary);
+        codegen->current_var_type = NULL;
+        codegen->sequencing = NULL;
+        emit_expression(codegen, written[i]);
+        emit(codegen, "; ");
+        if (codegen->sequenced_count >= codegen->sequenced_cap) {
+            codegen->sequenced_cap = codegen->sequenced_cap ? codegen->sequenced_cap * 2 : 16;
+            codegen->sequenced = xrealloc(codegen->sequenced, sizeof(SequencedOperand) * (size_t)codegen->sequenced_cap);
+        }
+        codegen->sequenced[codegen->sequenced_count++] = (SequencedOperand){ written[i], temporary };
+    }
+    free(written);
+    codegen->current_var_type = outer_var_type;
+    bool any = codegen->sequenced_count > outer_count;
+    if (any) {
+        codegen->sequencing = node;
+        emit_expression(codegen, node);
+        emit(codegen, "; })");
+    }
+    codegen->sequencing = outer;
+    codegen->sequenced_count = outer_count;
+    return any;
+}
+
 static void emit_expression(CodeGen *codegen, AstNode *node) {
+    for (int i = codegen->sequenced_count - 1; node && i >= 0; i--) {
+        if (codegen->sequenced[i].operand == node) {
+            emit_formatted(codegen, "_seq%d", codegen->sequenced[i].temporary);
+            return;
+        }
+    }
+    if (node && node != codegen->stored_value && emit_sequenced(codegen, node)) return;
     if (node && node == codegen->stored_value) {
         emit(codegen, codegen->stored_text);
         return;
@@ -6288,6 +6473,8 @@ static void emit_call_expression(CodeGen *codegen, AstNode *node) {
 static void emit_call_argument(CodeGen *codegen, const char *param_type, bool by_reference,
                                AstNode *arg, int line) {
     if (by_reference) {
+        int outer_sequenced = codegen->sequenced_count;
+        codegen->sequenced_count = 0;
         note_reference_argument(codegen, arg);
         if (arg->kind == NODE_LABEL && is_mutable_parameter(codegen, arg->data.label.value)) {
             emit(codegen, sanitize_name(arg->data.label.value));
@@ -6318,6 +6505,7 @@ static void emit_call_argument(CodeGen *codegen, const char *param_type, bool by
         } else {
             emit_array_argument_address(codegen, arg);
         }
+        codegen->sequenced_count = outer_sequenced;
         return;
     }
     const char *saved = codegen->current_var_type;
@@ -10355,6 +10543,7 @@ void codegen_destroy(CodeGen *codegen) {
     free(codegen->enum_decls);
     free(codegen->all_funcs);
     free(codegen->funcs_by_name);
+    free(codegen->sequenced);
     free(codegen->ref_vars);
     free(codegen->bigint_var_names);
     free(codegen->bigint_var_types);
diff --git a/grayc/src/codegen/codegen.h b/grayc/src/codegen/codegen.h
index 99e1ee2..f51500f 100644
--- a/grayc/src/codegen/codegen.h
+++ b/grayc/src/codegen/codegen.h
@@ -14,6 +14,12 @@
 #include "../util/buf.h"
 #include "../typechecker/typechecker.h"
 
+/* An operand and the number of the temporary holding its value. */
+typedef struct {
+    AstNode *operand;
+    int temporary;
+} SequencedOperand;
+
 /* A function under the name it was declared with. */
 typedef struct {
     const char *name;
@@ -157,6 +163,13 @@ typedef struct {
     /* Value node of the assignment being emitted whose value is already in a
      * C temporary, and that temporary's name. */
     AstNode *stored_value;
+    /* Operands already evaluated into a temporary _seqN, innermost last, and
+     * the expression whose operands are being emitted that way. */
+    SequencedOperand *sequenced;
+    int sequenced_count;
+    int sequenced_cap;
+    int sequence_serial;
+    AstNode *sequencing;
     const char *stored_text;
 
     /* Arena the call being emitted must allocate in: the longest-lived owner
-- 
2.43.0


From 5f0966f40abc48f19cd6a7acc6514d74044d27d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 75/96] fix: indices of an assigned place, printed errors and
 range bounds are evaluated once, in order

---
 grayc/src/codegen/codegen.c | 153 ++++++++++++++++++++++++------------
 1 file changed, 101 insertions(+), 52 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index d316882..d5ffc29 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -1508,11 +1508,31 @@ static int compare_operand_position(const void *left, const void *right) {
     return a->column < b->column ? -1 : a->column > b->column;
 }
 
+/* Evaluate operand into a temporary that stands for it from here on. */
+static void store_operand(CodeGen *codegen, AstNode *operand) {
+    if (!has_effects(codegen, operand) && !reads_state(operand)) return;
+    int temporary = codegen->sequence_serial++;
+    AstNode *outer = codegen->sequencing;
+    const char *outer_var_type = codegen->current_var_type;
+    emit_formatted(codegen, "__auto_type _seq%d = ", temporary);
+    codegen->current_var_type = NULL;
+    codegen->sequencing = NULL;
+    emit_expression(codegen, operand);
+    emit(codegen, "; ");
+    codegen->sequencing = outer;
+    codegen->current_var_type = outer_var_type;
+    if (codegen->sequenced_count >= codegen->sequenced_cap) {
+        codegen->sequenced_cap = codegen->sequenced_cap ? codegen->sequenced_cap * 2 : 16;
+        codegen->sequenced = xrealloc(codegen->sequenced, sizeof(SequencedOperand) * (size_t)codegen->sequenced_cap);
+    }
+    codegen->sequenced[codegen->sequenced_count++] = (SequencedOperand){ operand, temporary };
+}
+
 /* C leaves the order in which it evaluates operands open.  When that order
  * could show, evaluate the operands of node into temporaries first, in the
  * order they are written, and emit node over those; otherwise return false. */
 static bool emit_sequenced(CodeGen *codegen, AstNode *node) {
-    AstNode *pair[2];
+    AstNode *pair[8];
     AstNode **operands = NULL;
     int count = 0;
     bool lvalues = true;
@@ -1530,6 +1550,15 @@ static bool emit_sequenced(CodeGen *codegen, AstNode *node) {
     } else if (node->kind == NODE_STRUCT_VALUE) {
         operands = node->data.struct_value.field_values;
         count = node->data.struct_value.count;
+    } else if (node->kind == NODE_INDEX_EXPR && node->data.index_expr.left->kind == NODE_INDEX_EXPR) {
+        GrayType *element = codegen->type_table ? typetable_get(codegen->type_table, node) : NULL;
+        if (!element || element->kind == TK_ARRAY || element->kind == TK_MAP || element->kind == TK_STRUCT) return false;
+        AstNode *chain = node;
+        while (chain->kind == NODE_INDEX_EXPR && count < (int)(sizeof(pair) / sizeof(pair[0]))) {
+            pair[count++] = chain->data.index_expr.index;
+            chain = chain->data.index_expr.left;
+        }
+        operands = pair;
     }
     if (count < 2 || !any_has_effects(codegen, operands, count)) return false;
 
@@ -1549,17 +1578,7 @@ static bool emit_sequenced(CodeGen *codegen, AstNode *node) {
         if (!reads_state(written[i]) && !has_effects(codegen, written[i])) continue;
         if (!may_be_temporary(codegen, written[i], lvalues)) continue;
         if (codegen->sequenced_count == outer_count) emit(codegen, "({ ");
-        int temporary = codegen->sequence_serial++;
-        emit_formatted(codegen, "__auto_type _seq%d = ", temporary);
-        codegen->current_var_type = NULL;
-        codegen->sequencing = NULL;
-        emit_expression(codegen, written[i]);
-        emit(codegen, "; ");
-        if (codegen->sequenced_count >= codegen->sequenced_cap) {
-            codegen->sequenced_cap = codegen->sequenced_cap ? codegen->sequenced_cap * 2 : 16;
-            codegen->sequenced = xrealloc(codegen->sequenced, sizeof(SequencedOperand) * (size_t)codegen->sequenced_cap);
-        }
-        codegen->sequenced[codegen->sequenced_count++] = (SequencedOperand){ written[i], temporary };
+        store_operand(codegen, written[i]);
     }
     free(written);
     codegen->current_var_type = outer_var_type;
@@ -3907,10 +3926,9 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
             GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
             if (arg_t && arg_t->kind == TK_ERROR) {
                 emit(codegen, "gray_builtin_println_str(");
+                emit(codegen, "({ GrayError *_print_err = ");
                 emit_expression(codegen, arg);
-                emit(codegen, " ? ");
-                emit_expression(codegen, arg);
-                emit(codegen, "->message : gray_string_lit(\"nil\"))");
+                emit(codegen, "; _print_err ? _print_err->message : gray_string_lit(\"nil\"); }))");
             } else if (arg_t && arg_t->kind == TK_STRUCT && arg_t->name &&
                        strcmp(arg_t->name, "UUID") == 0) {
                 emit(codegen, "gray_builtin_println_str(");
@@ -4195,10 +4213,9 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
             GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
             if (arg_t && arg_t->kind == TK_ERROR) {
                 emit(codegen, "gray_builtin_eprintln_str(");
+                emit(codegen, "({ GrayError *_print_err = ");
                 emit_expression(codegen, arg);
-                emit(codegen, " ? ");
-                emit_expression(codegen, arg);
-                emit(codegen, "->message : gray_string_lit(\"nil\"))");
+                emit(codegen, "; _print_err ? _print_err->message : gray_string_lit(\"nil\"); }))");
             } else if (arg_t && arg_t->kind == TK_STRUCT && arg_t->name &&
                        strcmp(arg_t->name, "UUID") == 0) {
                 emit(codegen, "gray_builtin_eprintln_str(");
@@ -4226,10 +4243,9 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
         GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
         if (arg_t && arg_t->kind == TK_ERROR) {
             emit(codegen, "gray_builtin_eprint_str(");
+            emit(codegen, "({ GrayError *_print_err = ");
             emit_expression(codegen, arg);
-            emit(codegen, " ? ");
-            emit_expression(codegen, arg);
-            emit(codegen, "->message : gray_string_lit(\"nil\"))");
+            emit(codegen, "; _print_err ? _print_err->message : gray_string_lit(\"nil\"); }))");
         } else if (arg_t && arg_t->kind == TK_STRUCT && arg_t->name &&
                    strcmp(arg_t->name, "UUID") == 0) {
             emit(codegen, "gray_builtin_eprint_str(");
@@ -4382,10 +4398,9 @@ static bool emit_builtin_call(CodeGen *codegen, AstNode *node, const char *func)
         GrayType *arg_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
         if (arg_t && arg_t->kind == TK_ERROR) {
             emit(codegen, "gray_builtin_print_str(");
+            emit(codegen, "({ GrayError *_print_err = ");
             emit_expression(codegen, arg);
-            emit(codegen, " ? ");
-            emit_expression(codegen, arg);
-            emit(codegen, "->message : gray_string_lit(\"nil\"))");
+            emit(codegen, "; _print_err ? _print_err->message : gray_string_lit(\"nil\"); }))");
         } else if (arg_t && arg_t->kind == TK_STRUCT && arg_t->name &&
                    strcmp(arg_t->name, "UUID") == 0) {
             emit(codegen, "gray_builtin_print_str(");
@@ -8603,7 +8618,40 @@ static void emit_assignment(CodeGen *codegen, AstNode *node) {
     emit(codegen, ";\n");
 }
 
+/* The indices along the place target names, in the order they are written. */
+static void store_target_indices(CodeGen *codegen, AstNode *target) {
+    if (target->kind == NODE_MEMBER_EXPR) {
+        store_target_indices(codegen, target->data.member.object);
+    } else if (target->kind == NODE_INDEX_EXPR) {
+        store_target_indices(codegen, target->data.index_expr.left);
+        store_operand(codegen, target->data.index_expr.index);
+    }
+}
+
+/* Evaluate the indices of an assigned place before the assignment, once each. */
+static int begin_target(CodeGen *codegen, AstNode *target) {
+    int outer = codegen->sequenced_count;
+    if (!codegen->current_func || !has_effects(codegen, target)) return outer;
+    emit_indent(codegen);
+    emit(codegen, "{ ");
+    store_target_indices(codegen, target);
+    emit(codegen, "\n");
+    if (codegen->sequenced_count == outer) {
+        emit_indent(codegen);
+        emit(codegen, "}\n");
+    }
+    return outer;
+}
+
+static void end_target(CodeGen *codegen, int outer) {
+    if (codegen->sequenced_count == outer) return;
+    codegen->sequenced_count = outer;
+    emit_indent(codegen);
+    emit(codegen, "}\n");
+}
+
 static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
+    int outer = begin_target(codegen, node->data.assign.target);
     /* An empty literal has the element types of the place it is assigned to. */
     GrayType *target_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
     const char *outer_var_type = codegen->current_var_type;
@@ -8611,6 +8659,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         codegen->current_var_type = type_name(target_t);
     emit_assignment(codegen, node);
     codegen->current_var_type = outer_var_type;
+    end_target(codegen, outer);
 }
 
 /* Collect ensure statements from a block, growing the buffer as needed. */
@@ -9036,48 +9085,45 @@ static void emit_for_statement(CodeGen *codegen, AstNode *node) {
                 }
             }
 
-            if (iter->data.range_expr.step && !known_direction) {
-                /* Variable step: store step and end once, emit runtime direction ternary. */
-                static int step_var_counter = 0;
-                int svc = step_var_counter++;
-                /* emit_indent already called above — use it for the var declaration line */
-                emit_formatted(codegen, "int64_t _gray_step_%d = ", svc);
+            /* The bounds and the step are evaluated once, in the order they are written. */
+            int bound = codegen->sequence_serial++;
+            emit_formatted(codegen, "int64_t _gray_start_%d = ", bound);
+            emit_expression(codegen, iter->data.range_expr.start);
+            emit_formatted(codegen, ", _gray_end_%d = ", bound);
+            emit_expression(codegen, iter->data.range_expr.end);
+            if (iter->data.range_expr.step) {
+                emit_formatted(codegen, ", _gray_step_%d = ", bound);
                 emit_expression(codegen, iter->data.range_expr.step);
-                emit_formatted(codegen, ", _gray_end_%d = ", svc);
-                emit_expression(codegen, iter->data.range_expr.end);
-                emit(codegen, ";\n");
+            }
+            emit(codegen, ";\n");
+            emit_indent(codegen);
+            if (iter->data.range_expr.step && !known_direction) {
                 /* P0090: zero step at runtime is always a panic */
+                emit_formatted(codegen, "if (_gray_step_%d == 0) { gray_panic_code_at(\"%s\", %d, \"P0090\", \"range step cannot be zero\"); }\n", bound, codegen->file, node->token.line);
                 emit_indent(codegen);
-                emit_formatted(codegen, "if (_gray_step_%d == 0) { gray_panic_code_at(\"%s\", %d, \"P0090\", \"range step cannot be zero\"); }\n", svc, codegen->file, node->token.line);
-                emit_indent(codegen);
-                emit_formatted(codegen, "for (int64_t %s = ", var);
-                emit_expression(codegen, iter->data.range_expr.start);
-                emit_formatted(codegen, "; _gray_step_%d > 0 ? %s < _gray_end_%d : %s > _gray_end_%d", svc, var, svc, var, svc);
-                emit_formatted(codegen, "; %s = gray_add_check(%s, _gray_step_%d, \"%s\", %d)", var, var, svc, codegen->file, node->token.line);
+                emit_formatted(codegen, "for (int64_t %s = _gray_start_%d", var, bound);
+                emit_formatted(codegen, "; _gray_step_%d > 0 ? %s < _gray_end_%d : %s > _gray_end_%d", bound, var, bound, var, bound);
+                emit_formatted(codegen, "; %s = gray_add_check(%s, _gray_step_%d, \"%s\", %d)", var, var, bound, codegen->file, node->token.line);
             } else if (zero_step) {
                 /* P0090: literal zero step always panics; emit panic then a dead loop */
                 emit_formatted(codegen, "gray_panic_code_at(\"%s\", %d, \"P0090\", \"range step cannot be zero\");\n", codegen->file, node->token.line);
                 emit_indent(codegen);
                 emit_formatted(codegen, "for (int64_t %s = 0; 0; (void)0", var);
             } else {
-                emit_formatted(codegen, "for (int64_t %s = ", var);
-                emit_expression(codegen, iter->data.range_expr.start);
-                emit_formatted(codegen, "; %s %s ", var, neg_step ? ">" : "<");
-                emit_expression(codegen, iter->data.range_expr.end);
-                emit_formatted(codegen, "; %s", var);
-                if (iter->data.range_expr.step) {
-                    emit_formatted(codegen, " = gray_add_check(%s, ", var);
-                    emit_expression(codegen, iter->data.range_expr.step);
-                    emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
-                } else {
+                emit_formatted(codegen, "for (int64_t %s = _gray_start_%d; %s %s _gray_end_%d; %s", var, bound, var, neg_step ? ">" : "<", bound, var);
+                if (iter->data.range_expr.step)
+                    emit_formatted(codegen, " = gray_add_check(%s, _gray_step_%d, \"%s\", %d)", var, bound, codegen->file, node->token.line);
+                else
                     emit(codegen, "++");
-                }
             }
         } else {
             /* range(end) - start at 0 */
-            emit_formatted(codegen, "for (int64_t %s = 0; %s < ", var, var);
+            int bound = codegen->sequence_serial++;
+            emit_formatted(codegen, "int64_t _gray_end_%d = ", bound);
             emit_expression(codegen, iter->data.range_expr.end);
-            emit_formatted(codegen, "; %s++", var);
+            emit(codegen, ";\n");
+            emit_indent(codegen);
+            emit_formatted(codegen, "for (int64_t %s = 0; %s < _gray_end_%d; %s++", var, var, bound, var);
         }
 
         emit(codegen, ") {\n");
@@ -9313,9 +9359,12 @@ static void emit_expression_statement(CodeGen *codegen, AstNode *node) {
         emit_assign_statement(codegen, &assign);
         return;
     }
+    bool stepped = step->kind == NODE_POSTFIX_EXPR;
+    int outer = stepped ? begin_target(codegen, step->data.postfix.left) : 0;
     emit_indent(codegen);
     emit_expression(codegen, node->data.expr_stmt.expr);
     emit(codegen, ";\n");
+    if (stepped) end_target(codegen, outer);
 }
 
 static void emit_statement(CodeGen *codegen, AstNode *node) {
-- 
2.43.0


From b0b028d666e6a07b1cd321710ccaa29b3a3de54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 76/96] fix: values stored in entries, nested fields and
 elements, arguments, fields and array literals have the declared type

---
 grayc/src/typechecker/typechecker.c | 86 +++++++++++++++++++++++------
 1 file changed, 68 insertions(+), 18 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index c2a83f8..dd25276 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -1848,6 +1848,55 @@ static GrayType *typechecker_type_from_name(TypeChecker *checker, const char *na
     return t;
 }
 
+static bool is_int_kind(TypeKind k);
+
+static bool is_plain_kind(TypeKind kind) {
+    return is_int_kind(kind) || kind == TK_FLOAT || kind == TK_STRING || kind == TK_BOOL ||
+        kind == TK_STRUCT || kind == TK_ENUM || kind == TK_ARRAY || kind == TK_MAP || kind == TK_POINTER;
+}
+
+static bool element_types_differ(TypeChecker *checker, const char *want, const char *have) {
+    if (!want || !have || strcmp(want, have) == 0 || typechecker_same_array_element(checker, want, have)) return false;
+    GrayType *w = typechecker_type_from_name(checker, want);
+    GrayType *h = typechecker_type_from_name(checker, have);
+    if (!is_plain_kind(w->kind) || !is_plain_kind(h->kind)) return false;
+    if (w->kind != h->kind)
+        return !(is_int_kind(w->kind) && is_int_kind(h->kind)) && !(w->kind == TK_FLOAT && is_int_kind(h->kind));
+    if (w->kind == TK_STRUCT) return !typechecker_same_struct_type(checker, w->name, h->name);
+    if (w->kind == TK_ENUM) return !typechecker_same_enum_type(checker, w->name, h->name);
+    if (w->kind == TK_ARRAY) return element_types_differ(checker, w->element_type, h->element_type);
+    return false;
+}
+
+/* Whether a value of type have cannot be stored where want is declared. */
+static bool types_differ(TypeChecker *checker, GrayType *want, AstNode *value, GrayType *have) {
+    if (!want || !have) return false;
+    if (want->kind == TK_STRUCT && want->name && is_enum_name(checker, want->name))
+        want = typechecker_type_from_name(checker, want->name);
+    if (have->kind == TK_NIL) return is_plain_kind(want->kind) && want->kind != TK_POINTER;
+    if (!is_plain_kind(want->kind) || !is_plain_kind(have->kind)) return false;
+    if (want->kind != have->kind)
+        return !(is_int_kind(want->kind) && (is_int_kind(have->kind) || have->kind == TK_ENUM)) &&
+            !(want->kind == TK_FLOAT && is_int_kind(have->kind));
+    if (want->kind == TK_STRUCT) return want->name && have->name && !typechecker_same_struct_type(checker, want->name, have->name);
+    if (want->kind == TK_ENUM) return want->name && have->name && !typechecker_same_enum_type(checker, want->name, have->name);
+    if (value && (value->kind == NODE_ARRAY_VALUE || value->kind == NODE_MAP_VALUE)) {
+        if (want->kind != TK_ARRAY) return false;
+        GrayType *element = typechecker_type_from_name(checker, want->element_type);
+        for (int i = 0; i < value->data.array_value.count; i++) {
+            AstNode *item = value->data.array_value.elements[i];
+            GrayType *item_t = typetable_get(checker->type_table, item);
+            if (item_t && types_differ(checker, element, item, item_t)) return true;
+        }
+        return false;
+    }
+    if (want->kind == TK_ARRAY) return element_types_differ(checker, want->element_type, have->element_type);
+    if (want->kind == TK_MAP)
+        return element_types_differ(checker, want->key_type, have->key_type) ||
+            element_types_differ(checker, want->value_type, have->value_type);
+    return false;
+}
+
 /* --- Type signedness helpers --- */
 
 /* Check if a TypeKind is any integer type (signed or unsigned) */
@@ -2878,8 +2927,9 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                 } else if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
                     val_t && val_t->kind != TK_UNKNOWN) {
                     GrayType *elem_t = type_from_name(arr_t->element_type);
-                    if (elem_t->kind != TK_UNKNOWN && elem_t->kind != val_t->kind &&
-                        !(is_int_kind(elem_t->kind) && is_int_kind(val_t->kind))) {
+                    if (types_differ(checker, elem_t, val_node, val_t) ||
+                        (elem_t->kind != TK_UNKNOWN && elem_t->kind != val_t->kind &&
+                        !(is_int_kind(elem_t->kind) && is_int_kind(val_t->kind)))) {
                         char *msg = NULL;
                         msg = typechecker_format(checker,
                             "type mismatch in arrays.%s(); cannot add %s to array of %s",
@@ -3647,9 +3697,6 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                 if (arg_t->kind != TK_UNKNOWN && param_t->kind != TK_UNKNOWN &&
                     arg_t->kind != param_t->kind &&
                     !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM) &&
-                    !(param_t->kind == TK_ENUM && is_int_kind(arg_t->kind)) &&
-                    !(param_t->kind == TK_STRUCT && is_int_kind(arg_t->kind)) &&
-                    !(is_int_kind(param_t->kind) && arg_t->kind == TK_BOOL) &&
                     !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind))) {
                     char *msg = NULL;
                     msg = typechecker_format(checker,
@@ -3929,9 +3976,6 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                                 arg_t->kind != TK_UNKNOWN && param_t->kind != TK_UNKNOWN &&
                                 arg_t->kind != param_t->kind &&
                                 !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM) &&
-                                !(param_t->kind == TK_ENUM && is_int_kind(arg_t->kind)) &&
-                                !(param_t->kind == TK_STRUCT && is_int_kind(arg_t->kind)) &&
-                                !(is_int_kind(param_t->kind) && arg_t->kind == TK_BOOL) &&
                                 !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind))) {
                                 char amsg[MSG_BUF_SIZE];
                                 snprintf(amsg, sizeof(amsg),
@@ -4067,9 +4111,6 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                                 arg_t->kind != TK_UNKNOWN && param_t->kind != TK_UNKNOWN &&
                                 arg_t->kind != param_t->kind &&
                                 !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM) &&
-                                !(param_t->kind == TK_ENUM && is_int_kind(arg_t->kind)) &&
-                                !(param_t->kind == TK_STRUCT && is_int_kind(arg_t->kind)) &&
-                                !(is_int_kind(param_t->kind) && arg_t->kind == TK_BOOL) &&
                                 !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind))) {
                                 char amsg[MSG_BUF_SIZE];
                                 snprintf(amsg, sizeof(amsg),
@@ -4905,9 +4946,6 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
             if (arg_t->kind != TK_UNKNOWN && param_t->kind != TK_UNKNOWN &&
                 arg_t->kind != param_t->kind &&
                 !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM) &&
-                !(param_t->kind == TK_ENUM && is_int_kind(arg_t->kind)) &&
-                !(param_t->kind == TK_STRUCT && is_int_kind(arg_t->kind)) &&
-                !(is_int_kind(param_t->kind) && arg_t->kind == TK_BOOL) &&
                 !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind))) {
                 char *msg = NULL;
                 msg = typechecker_format(checker,
@@ -6580,7 +6618,8 @@ static GrayType *resolve_struct_value(TypeChecker *checker, AstNode *node) {
             }
             if (!found) {
                 diagnostic_error_code_formatted(checker->diag, "E3010", NODE_FILE(checker, node), node->token.line, node->token.column, 0, struct_name, fname);
-            } else if (expected_t && val_t->kind != TK_UNKNOWN &&
+            } else if (types_differ(checker, expected_t, node->data.struct_value.field_values[i], val_t) ||
+                       (expected_t && val_t->kind != TK_UNKNOWN &&
                        expected_t->kind != TK_UNKNOWN &&
                        /* kinds differ, OR both are pointers to different types,
                         * OR both are structs with different names */
@@ -6598,7 +6637,7 @@ static GrayType *resolve_struct_value(TypeChecker *checker, AstNode *node) {
                        !(expected_t->kind == TK_FLOAT && is_int_kind(val_t->kind)) &&
                        /* nil is a valid value for pointer and Error fields */
                        !(val_t->kind == TK_NIL &&
-                         (expected_t->kind == TK_POINTER || expected_t->kind == TK_ERROR))) {
+                         (expected_t->kind == TK_POINTER || expected_t->kind == TK_ERROR)))) {
                 char *msg = NULL;
                 msg = typechecker_format(checker,
                     "field '%s' of struct '%s': expected %s, got %s",
@@ -7220,6 +7259,9 @@ static GrayType *resolve_expression(TypeChecker *checker, AstNode *node) {
                     (is_int_kind(element_resolved->kind) && is_int_kind(first->kind)) ||
                     (element_resolved->kind == TK_BYTE && is_int_kind(first->kind)) ||
                     (is_int_kind(element_resolved->kind) && first->kind == TK_BYTE);
+                if (compatible && element_resolved->kind == first->kind &&
+                    types_differ(checker, first, node->data.array_value.elements[i], element_resolved))
+                    compatible = false;
                 if (!compatible) {
                     char *msg = NULL;
                     msg = typechecker_format(checker,
@@ -9136,6 +9178,7 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
             checker->expected_type = target_t;
         GrayType *value_t = resolve_expression(checker, node->data.assign.value);
         checker->expected_type = saved_expected;
+        int errors_before = checker->diag->error_count;
 
         /* Compound assignment type validation: x op= y must be valid
          * when x op y would be valid. Mirrors the checks in
@@ -9269,7 +9312,6 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                     !(is_int_kind(val_t->kind) && is_int_kind(elem_t->kind)) &&
                     !(val_t->kind == TK_ENUM   && is_int_kind(elem_t->kind)) &&
                     !(is_int_kind(val_t->kind) && elem_t->kind == TK_FLOAT)  &&
-                    !(val_t->kind == TK_FLOAT  && is_int_kind(elem_t->kind)) &&
                     /* enum array: type_from_name returns TK_STRUCT for enum names */
                     !(val_t->kind == TK_ENUM && elem_t->kind == TK_STRUCT &&
                       indexed_t->element_type && is_enum_name(checker, indexed_t->element_type))) {
@@ -9354,7 +9396,6 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                     (target_t->kind == TK_UINT && value_t->kind == TK_BYTE))) &&
                 !(target_t->kind == TK_ENUM && is_int_kind(value_t->kind)) &&
                 !(is_int_kind(target_t->kind) && value_t->kind == TK_ENUM) &&
-                !(target_t->kind == TK_STRUCT && is_int_kind(value_t->kind)) &&
                 !(target_t->kind == TK_POINTER && node->data.assign.value->kind == NODE_LABEL &&
                   scope_lookup(checker->current_scope, node->data.assign.value->data.label.value) &&
                   scope_lookup(checker->current_scope, node->data.assign.value->data.label.value)->is_ref) &&
@@ -9371,6 +9412,15 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                     NODE_FILE(checker, node), node->token.line, node->token.column, 0);
             }
         }
+        /* A place reached through fields, elements and entries holds its declared type too. */
+        if (checker->diag->error_count == errors_before && node->data.assign.op == TOK_ASSIGN &&
+            types_differ(checker, target_t, node->data.assign.value, value_t) &&
+            !(target_t->kind == TK_POINTER && node->data.assign.value->kind == NODE_LABEL)) {
+            diagnostic_error_message(checker->diag, "E3001",
+                typechecker_format(checker, "type mismatch: cannot assign %s to %s",
+                    type_display_name(checker, value_t), type_display_name(checker, target_t)),
+                NODE_FILE(checker, node), node->token.line, node->token.column, 0);
+        }
         if (node->data.assign.op == TOK_ASSIGN)
             coerce_integer_slot(checker, &node->data.assign.value, target_t);
         /* Struct-to-struct name mismatch on direct variable assignment */
-- 
2.43.0


From eef4d5e889ad6318aa06a0f8d6c9852f7262c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 77/96] fix: enum payloads, method and function value arguments
 have the declared type; unknown fields of call results are reported

---
 grayc/src/typechecker/typechecker.c | 68 +++++++++++++++++++----------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index dd25276..82f1d1f 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -449,6 +449,11 @@ static char *typechecker_format(TypeChecker *checker, const char *fmt, ...) {
 
 static AstNode *find_struct_in_program(AstNode *program, const char *name);
 
+/* v0, v1, ...: the results of a call with several, as the compiler names them */
+static bool is_result_member(const char *member) {
+    return member[0] == 'v' && member[1] >= '0' && member[1] <= '9';
+}
+
 static GrayType *struct_field_type(TypeChecker *checker, const char *struct_name, const char *field) {
     StructInfo *si = find_struct(checker, struct_name);
     /* : for mangled generic struct names (Pair__int), fall back
@@ -1851,7 +1856,7 @@ static GrayType *typechecker_type_from_name(TypeChecker *checker, const char *na
 static bool is_int_kind(TypeKind k);
 
 static bool is_plain_kind(TypeKind kind) {
-    return is_int_kind(kind) || kind == TK_FLOAT || kind == TK_STRING || kind == TK_BOOL ||
+    return is_int_kind(kind) || kind == TK_CHAR || kind == TK_FLOAT || kind == TK_STRING || kind == TK_BOOL ||
         kind == TK_STRUCT || kind == TK_ENUM || kind == TK_ARRAY || kind == TK_MAP || kind == TK_POINTER;
 }
 
@@ -1865,6 +1870,7 @@ static bool element_types_differ(TypeChecker *checker, const char *want, const c
     if (w->kind == TK_STRUCT) return !typechecker_same_struct_type(checker, w->name, h->name);
     if (w->kind == TK_ENUM) return !typechecker_same_enum_type(checker, w->name, h->name);
     if (w->kind == TK_ARRAY) return element_types_differ(checker, w->element_type, h->element_type);
+    if (w->kind == TK_POINTER) return w->name && h->name && !typechecker_same_struct_type(checker, w->name, h->name);
     return false;
 }
 
@@ -1876,10 +1882,13 @@ static bool types_differ(TypeChecker *checker, GrayType *want, AstNode *value, G
     if (have->kind == TK_NIL) return is_plain_kind(want->kind) && want->kind != TK_POINTER;
     if (!is_plain_kind(want->kind) || !is_plain_kind(have->kind)) return false;
     if (want->kind != have->kind)
-        return !(is_int_kind(want->kind) && (is_int_kind(have->kind) || have->kind == TK_ENUM)) &&
+        return !((is_int_kind(want->kind) || want->kind == TK_CHAR) && (is_int_kind(have->kind) || have->kind == TK_CHAR)) &&
+            !(is_int_kind(want->kind) && have->kind == TK_ENUM && !typechecker_enum_is_tagged(checker, have->name)) &&
             !(want->kind == TK_FLOAT && is_int_kind(have->kind));
     if (want->kind == TK_STRUCT) return want->name && have->name && !typechecker_same_struct_type(checker, want->name, have->name);
     if (want->kind == TK_ENUM) return want->name && have->name && !typechecker_same_enum_type(checker, want->name, have->name);
+    if (want->kind == TK_POINTER)
+        return want->name && have->name && strcmp(have->name, "nil") != 0 && !typechecker_same_struct_type(checker, want->name, have->name);
     if (value && (value->kind == NODE_ARRAY_VALUE || value->kind == NODE_MAP_VALUE)) {
         if (want->kind != TK_ARRAY) return false;
         GrayType *element = typechecker_type_from_name(checker, want->element_type);
@@ -3694,10 +3703,12 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                     checker->expected_type = param_t;
                 GrayType *arg_t = resolve_expression(checker, node->data.call.args[argument_index]);
                 checker->expected_type = saved_expected_m;
-                if (arg_t->kind != TK_UNKNOWN && param_t->kind != TK_UNKNOWN &&
+                bool collections = arg_t->kind == param_t->kind && (arg_t->kind == TK_ARRAY || arg_t->kind == TK_MAP);
+                if ((collections && types_differ(checker, param_t, node->data.call.args[argument_index], arg_t)) ||
+                    (arg_t->kind != TK_UNKNOWN && param_t->kind != TK_UNKNOWN &&
                     arg_t->kind != param_t->kind &&
-                    !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM) &&
-                    !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind))) {
+                    !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM && !typechecker_enum_is_tagged(checker, arg_t->name)) &&
+                    !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind)))) {
                     char *msg = NULL;
                     msg = typechecker_format(checker,
                         "argument %d of '%s.%s': expected %s, got %s",
@@ -3972,11 +3983,14 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                                 checker->expected_type = param_t;
                             GrayType *arg_t = resolve_expression(checker, node->data.call.args[argument_index]);
                             checker->expected_type = saved_expected_s;
-                            if (arg_t && param_t &&
+                            bool collections = arg_t && param_t && arg_t->kind == param_t->kind &&
+                                (arg_t->kind == TK_ARRAY || arg_t->kind == TK_MAP || arg_t->kind == TK_ENUM);
+                            if ((collections && types_differ(checker, param_t, node->data.call.args[argument_index], arg_t)) ||
+                                (arg_t && param_t &&
                                 arg_t->kind != TK_UNKNOWN && param_t->kind != TK_UNKNOWN &&
                                 arg_t->kind != param_t->kind &&
-                                !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM) &&
-                                !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind))) {
+                                !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM && !typechecker_enum_is_tagged(checker, arg_t->name)) &&
+                                !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind)))) {
                                 char amsg[MSG_BUF_SIZE];
                                 snprintf(amsg, sizeof(amsg),
                                     "argument %d of '%s.%s': expected %s, got %s",
@@ -4107,11 +4121,12 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                         for (int argument_index = 0; argument_index < check_count; argument_index++) {
                             GrayType *arg_t = resolve_expression(checker, node->data.call.args[argument_index]);
                             GrayType *param_t = ssig->param_types[argument_index];
-                            if (arg_t && param_t &&
+                            if (types_differ(checker, param_t, node->data.call.args[argument_index], arg_t) ||
+                                (arg_t && param_t &&
                                 arg_t->kind != TK_UNKNOWN && param_t->kind != TK_UNKNOWN &&
                                 arg_t->kind != param_t->kind &&
-                                !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM) &&
-                                !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind))) {
+                                !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM && !typechecker_enum_is_tagged(checker, arg_t->name)) &&
+                                !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind)))) {
                                 char amsg[MSG_BUF_SIZE];
                                 snprintf(amsg, sizeof(amsg),
                                     "argument %d of '%s.%s': expected %s, got %s",
@@ -4945,7 +4960,7 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
             }
             if (arg_t->kind != TK_UNKNOWN && param_t->kind != TK_UNKNOWN &&
                 arg_t->kind != param_t->kind &&
-                !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM) &&
+                !(is_int_kind(param_t->kind) && arg_t->kind == TK_ENUM && !typechecker_enum_is_tagged(checker, arg_t->name)) &&
                 !(param_t->kind == TK_FLOAT && is_int_kind(arg_t->kind))) {
                 char *msg = NULL;
                 msg = typechecker_format(checker,
@@ -5124,11 +5139,12 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                     for (int argument_index = 0; argument_index < ac; argument_index++) {
                         GrayType *at = resolve_expression(checker, node->data.call.args[argument_index]);
                         GrayType *pt = ref_sig->param_types[argument_index];
-                        if (at && pt && at->kind != TK_UNKNOWN &&
+                        if ((at && at->kind != TK_ENUM && types_differ(checker, pt, node->data.call.args[argument_index], at)) ||
+                            (at && pt && at->kind != TK_UNKNOWN &&
                             pt->kind != TK_UNKNOWN &&
                             at->kind != pt->kind &&
                             !(is_int_kind(at->kind) && is_int_kind(pt->kind)) &&
-                            !(pt->kind == TK_FLOAT && is_int_kind(at->kind))) {
+                            !(pt->kind == TK_FLOAT && is_int_kind(at->kind)))) {
                             char *msg = NULL;
                             msg = typechecker_format(checker,
                                 "argument %d of '%s': expected %s, got %s",
@@ -5542,10 +5558,11 @@ static GrayType *resolve_call_expr(TypeChecker *checker, AstNode *node) {
                         for (int argument_index = 0; argument_index < provided_argument_count; argument_index++) {
                             GrayType *arg_t = resolve_expression(checker, node->data.call.args[argument_index]);
                             GrayType *exp_t = typechecker_type_from_name(checker, checker->enum_payload_types[eidx][vidx][argument_index]);
-                            if (arg_t && exp_t &&
+                            if (types_differ(checker, exp_t, node->data.call.args[argument_index], arg_t) ||
+                                (arg_t && exp_t &&
                                 arg_t->kind != TK_UNKNOWN && exp_t->kind != TK_UNKNOWN &&
                                 arg_t->kind != exp_t->kind &&
-                                !(is_int_kind(arg_t->kind) && is_int_kind(exp_t->kind))) {
+                                !(is_int_kind(arg_t->kind) && is_int_kind(exp_t->kind)))) {
                                 diagnostic_error_code_formatted(checker->diag, "E3001", NODE_FILE(checker, node->data.call.args[argument_index]),
                                     node->data.call.args[argument_index]->token.line, node->data.call.args[argument_index]->token.column, 0);
                             }
@@ -5671,10 +5688,11 @@ static GrayType *resolve_call_expr(TypeChecker *checker, AstNode *node) {
                 for (int argument_index = 0; argument_index < provided_argument_count; argument_index++) {
                     GrayType *arg_t = resolve_expression(checker, node->data.call.args[argument_index]);
                     GrayType *expected_t = typechecker_type_from_name(checker, checker->enum_payload_types[eidx][vidx][argument_index]);
-                    if (arg_t && expected_t &&
+                    if (types_differ(checker, expected_t, node->data.call.args[argument_index], arg_t) ||
+                        (arg_t && expected_t &&
                         arg_t->kind != TK_UNKNOWN && expected_t->kind != TK_UNKNOWN &&
                         arg_t->kind != expected_t->kind &&
-                        !(is_int_kind(arg_t->kind) && is_int_kind(expected_t->kind))) {
+                        !(is_int_kind(arg_t->kind) && is_int_kind(expected_t->kind)))) {
                         diagnostic_error_code_formatted(checker->diag, "E3001", NODE_FILE(checker, node->data.call.args[argument_index]),
                             node->data.call.args[argument_index]->token.line, node->data.call.args[argument_index]->token.column, 0);
                     }
@@ -6414,7 +6432,7 @@ static GrayType *resolve_member_expr(TypeChecker *checker, AstNode *node) {
              * just a func field. */
             bool is_func_field = (result->kind == TK_UNKNOWN && result->name &&
                                   strcmp(result->name, "func") == 0);
-            if (result->kind == TK_UNKNOWN && !is_func_field && member[0] != 'v') {
+            if (result->kind == TK_UNKNOWN && !is_func_field && !is_result_member(member)) {
                 diagnostic_error_code_formatted(checker->diag, "E3010", NODE_FILE(checker, node), node->token.line, node->token.column, 0, struct_display_name(checker, sym->type->name), member);
             }
         } else if (sym && member[0] == 'v' && member[1] >= '0' && member[1] <= '9') {
@@ -6440,7 +6458,7 @@ static GrayType *resolve_member_expr(TypeChecker *checker, AstNode *node) {
         } else if (sym && sym->type->kind == TK_POINTER) {
             /* Pointer auto-deref field access */
             result = struct_field_type(checker, sym->type->element_type, member);
-            if (result->kind == TK_UNKNOWN && member[0] != 'v') {
+            if (result->kind == TK_UNKNOWN && !is_result_member(member)) {
                 diagnostic_error_code_formatted(checker->diag, "E3010", NODE_FILE(checker, node), node->token.line, node->token.column, 0, sym->type->element_type, member);
             }
         } else if (sym && sym->type->kind == TK_ERROR) {
@@ -6505,14 +6523,14 @@ static GrayType *resolve_member_expr(TypeChecker *checker, AstNode *node) {
             result = struct_field_type(checker, obj_t->name, member);
             bool is_func_field = (result->kind == TK_UNKNOWN && result->name &&
                                   strcmp(result->name, "func") == 0);
-            if (result->kind == TK_UNKNOWN && !is_func_field && member[0] != 'v') {
+            if (result->kind == TK_UNKNOWN && !is_func_field && !is_result_member(member)) {
                 diagnostic_error_code_formatted(checker->diag, "E3010", NODE_FILE(checker, node), node->token.line, node->token.column, 0,
                     struct_display_name(checker, obj_t->name), member);
             }
         } else if (obj_t && obj_t->kind == TK_POINTER) {
             /* Auto-deref pointer field: a.next.val where a.next is ^Node */
             result = struct_field_type(checker, obj_t->element_type, member);
-            if (result->kind == TK_UNKNOWN && member[0] != 'v') {
+            if (result->kind == TK_UNKNOWN && !is_result_member(member)) {
                 diagnostic_error_code_formatted(checker->diag, "E3010", NODE_FILE(checker, node), node->token.line, node->token.column, 0,
                     obj_t->element_type, member);
             }
@@ -6529,6 +6547,12 @@ static GrayType *resolve_member_expr(TypeChecker *checker, AstNode *node) {
         GrayType *obj_t = resolve_expression(checker, obj);
         if (obj_t && obj_t->kind == TK_STRUCT) {
             result = struct_field_type(checker, obj_t->name, member);
+            StructInfo *info = find_struct(checker, obj_t->name);
+            bool found = !info || is_result_member(member);
+            for (int i = 0; !found && i < info->field_count; i++) found = strcmp(info->field_names[i], member) == 0;
+            if (!found)
+                diagnostic_error_code_formatted(checker->diag, "E3010", NODE_FILE(checker, node), node->token.line, node->token.column, 0,
+                    struct_display_name(checker, obj_t->name), member);
         } else if (obj_t && obj_t->kind != TK_UNKNOWN && obj_t->kind != TK_VOID) {
             char *msg = NULL;
             msg = typechecker_format(checker,
-- 
2.43.0


From d8ae0c6dfed3c31d0c303bf87cffec4487146cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:15 +0000
Subject: [PATCH 78/96] fix: nesting and chain limits instead of a stack
 overflow; the parser's interpolation flag starts unset

---
 grayc/src/parser/parser.c | 57 +++++++++++++++++++++++++++++++++++++--
 grayc/src/parser/parser.h |  4 +++
 2 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/grayc/src/parser/parser.c b/grayc/src/parser/parser.c
index 18ade11..e1d700f 100644
--- a/grayc/src/parser/parser.c
+++ b/grayc/src/parser/parser.c
@@ -267,7 +267,28 @@ static const char *read_type_name(Parser *parser) {
  * Precondition: parser is ON the first token of the type ([, ^, map, or IDENT).
  * Postcondition: returns the type string, parser on the last token of the type.
  * Returns NULL on parse error (diagnostic already emitted). */
+static const char *parse_nested_type(Parser *parser);
+
 static const char *parse_complex_type(Parser *parser) {
+    bool fits = parser->type_depth < MAX_TYPE_DEPTH;
+    parser->type_depth++;
+    const char *type = fits ? parse_nested_type(parser) : NULL;
+    parser->type_depth--;
+    int depth = 0;
+    for (const char *c = type ? type : ""; *c; c++) {
+        if (*c == '[' && ++depth > MAX_TYPE_DEPTH) fits = false;
+        else if (*c == ']') depth--;
+    }
+    if (!fits) {
+        if (parser->type_depth == 0)
+            diagnostic_error_message(parser->diag, "E2001", strdup("type is nested too deeply; maximum depth is 32"),
+                parser->file, parser->cur_token.line, parser->cur_token.column, 0);
+        return NULL;
+    }
+    return type;
+}
+
+static const char *parse_nested_type(Parser *parser) {
     if (current_token_is(parser, TOK_QUESTION)) {
         /* Bare wildcard type: ? */
         return "?";
@@ -673,6 +694,7 @@ static AstNode *parse_interpolated_string(Parser *parser, const char *raw) {
                 }
                 Parser *expr_parser = parser_create(parser->arena, expr_lexer, parser->file, parser->diag);
                 expr_parser->in_interp = true;
+                expr_parser->depth = parser->depth;
                 /* Inherit struct names from parent so interpolated expressions
                  * can recognize struct literals. */
                 expr_parser->struct_names = parser->struct_names;
@@ -1250,6 +1272,14 @@ static AstNode *parse_infix(Parser *parser, AstNode *left) {
     }
 }
 
+/* Report a construct nested or chained beyond what the compiler handles, and
+ * skip the rest of the file, where nothing could be read in its context. */
+static void too_deep(Parser *parser, const char *message) {
+    diagnostic_error_message(parser->diag, "E2001", strdup(message),
+        parser->file, parser->cur_token.line, parser->cur_token.column, 0);
+    while (!current_token_is(parser, TOK_EOF)) next_token(parser);
+}
+
 static AstNode *parse_expression(Parser *parser, Precedence prec) {
     parser->depth++;
     if (parser->depth > MAX_PARSE_DEPTH) {
@@ -1263,7 +1293,13 @@ static AstNode *parse_expression(Parser *parser, Precedence prec) {
     AstNode *left = parse_prefix(parser);
     if (!left) { parser->depth--; return NULL; }
 
+    int chain = 0;
     while (!peek_token_is(parser, TOK_EOF) && prec < get_token_precedence(parser->peek_token.type)) {
+        if (++chain > MAX_CHAIN_LENGTH) {
+            too_deep(parser, "expression is too long; at most 1000 operators can follow each other");
+            parser->depth--;
+            return NULL;
+        }
         next_token(parser);
         left = parse_infix(parser, left);
         if (!left) { parser->depth--; return NULL; }
@@ -1626,6 +1662,11 @@ static AstNode *parse_return_statement(Parser *parser) {
 }
 
 static AstNode *parse_block_statement(Parser *parser) {
+    if (parser->statement_depth >= MAX_PARSE_DEPTH) {
+        too_deep(parser, "statements are nested too deeply; maximum depth is 256");
+        return NULL;
+    }
+    parser->statement_depth++;
     AstNode *node = ast_alloc(parser->arena, NODE_BLOCK_STMT, parser->cur_token);
     node->data.block.count = 0;
     node->data.block.cap = 8;
@@ -1652,6 +1693,7 @@ static AstNode *parse_block_statement(Parser *parser) {
         next_token(parser);
     }
 
+    parser->statement_depth--;
     return node;
 }
 
@@ -2138,7 +2180,7 @@ static AstNode *parse_using_statement(Parser *parser) {
     return node;
 }
 
-static AstNode *parse_if_statement(Parser *parser) {
+static AstNode *parse_if_chain(Parser *parser, int branches) {
     AstNode *node = ast_alloc(parser->arena, NODE_IF_STMT, parser->cur_token);
 
     next_token(parser);
@@ -2152,7 +2194,11 @@ static AstNode *parse_if_statement(Parser *parser) {
     if (peek_token_is(parser, TOK_OR_KW)) {
         next_token(parser); /* skip 'or' */
         /* 'or' acts like 'else if' */
-        node->data.if_stmt.alternative = parse_if_statement(parser);
+        if (branches >= MAX_CHAIN_LENGTH) {
+            too_deep(parser, "too many branches; an if has at most 1000");
+            return NULL;
+        }
+        node->data.if_stmt.alternative = parse_if_chain(parser, branches + 1);
     } else if (peek_token_is(parser, TOK_OTHERWISE)) {
         next_token(parser); /* skip 'otherwise'/'else' */
         node->data.if_stmt.else_token = parser->cur_token;
@@ -2163,6 +2209,10 @@ static AstNode *parse_if_statement(Parser *parser) {
     return node;
 }
 
+static AstNode *parse_if_statement(Parser *parser) {
+    return parse_if_chain(parser, 1);
+}
+
 static AstNode *parse_struct_declaration(Parser *parser) {
     /* cur_token is the struct name (IDENT), already consumed by caller */
     AstNode *node = ast_alloc(parser->arena, NODE_STRUCT_DECL, parser->cur_token);
@@ -3206,7 +3256,10 @@ Parser *parser_create(Arena *arena, Lexer *lexer, const char *file, DiagnosticLi
     parser->file = file;
     parser->diag = diag;
     parser->depth = 0;
+    parser->statement_depth = 0;
+    parser->type_depth = 0;
     parser->no_struct_literal = false;
+    parser->in_interp = false;
     parser->struct_name_count = 0;
     parser->struct_name_cap = STRUCT_NAME_INITIAL_CAP;
     parser->struct_names = arena_alloc(arena, sizeof(const char *) * STRUCT_NAME_INITIAL_CAP);
diff --git a/grayc/src/parser/parser.h b/grayc/src/parser/parser.h
index c0c81f5..90904cc 100644
--- a/grayc/src/parser/parser.h
+++ b/grayc/src/parser/parser.h
@@ -17,6 +17,8 @@
 #include "../util/error.h"
 
 #define MAX_PARSE_DEPTH 256
+#define MAX_TYPE_DEPTH 32        /* nesting of [ ] and ^ in one type */
+#define MAX_CHAIN_LENGTH 1000    /* operators, fields, indices or branches in one chain */
 
 typedef struct {
     Lexer *lexer;
@@ -26,6 +28,8 @@ typedef struct {
     const char *file;
     DiagnosticList *diag;
     int depth;
+    int statement_depth;
+    int type_depth;
     bool no_struct_literal; /* suppress struct literal parsing (RHS of in/not_in) */
     bool in_interp;         /* true when parsing a ${...} sub-expression */
 
-- 
2.43.0


From ef5847abc8c41b6cf3848fb1ae9989d1de618eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 79/96] fix: fmt keeps raw strings and files it cannot format,
 does the documented whitespace rules and reports failures

---
 cli/fmt.go          | 44 +++++++++++++++++-----
 grayc/src/fmt/fmt.c | 91 +++++++++++++++++++--------------------------
 grayc/src/main.c    | 54 +++++++++++++++++----------
 3 files changed, 107 insertions(+), 82 deletions(-)

diff --git a/cli/fmt.go b/cli/fmt.go
index 80acda9..77d1901 100644
--- a/cli/fmt.go
+++ b/cli/fmt.go
@@ -76,14 +76,14 @@ func formatGraySource(src []byte) []byte {
 //   - "dir"               — all .gray files directly inside dir (non-recursive)
 //   - "dir/subdir"        — all .gray files directly inside dir/subdir
 //   - "./..." or "dir/..." — recursive walk for .gray files
-func collectFmtFiles(args []string) []string {
+func collectFmtFiles(args []string) (files []string, failed bool) {
 	seen := make(map[string]struct{})
-	var files []string
 
 	add := func(p string) {
 		ap, err := filepath.Abs(p)
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "gray fmt: cannot resolve %s: %v\n", p, err)
+			failed = true
 			return
 		}
 		if _, ok := seen[ap]; ok {
@@ -101,6 +101,8 @@ func collectFmtFiles(args []string) []string {
 			}
 			filepath.Walk(baseDir, func(p string, info os.FileInfo, err error) error {
 				if err != nil {
+					fmt.Fprintf(os.Stderr, "gray fmt: %v\n", err)
+					failed = true
 					return nil
 				}
 				if !info.IsDir() && strings.HasSuffix(p, ".gray") {
@@ -114,6 +116,7 @@ func collectFmtFiles(args []string) []string {
 		info, err := os.Stat(arg)
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "gray fmt: %v\n", err)
+			failed = true
 			continue
 		}
 
@@ -121,6 +124,7 @@ func collectFmtFiles(args []string) []string {
 			entries, err := os.ReadDir(arg)
 			if err != nil {
 				fmt.Fprintf(os.Stderr, "gray fmt: %v\n", err)
+				failed = true
 				continue
 			}
 			for _, e := range entries {
@@ -132,21 +136,28 @@ func collectFmtFiles(args []string) []string {
 			add(arg)
 		} else {
 			fmt.Fprintf(os.Stderr, "gray fmt: '%s' is not a .gray file or directory\n", arg)
+			failed = true
 		}
 	}
-	return files
+	return files, failed
 }
 
 // runFmt is the entry point invoked by the Cobra fmtCmd. It returns the
 // exit code the caller should propagate (0 success, 1 on error).
 func runFmt(args []string, checkMode bool) int {
-	files := collectFmtFiles(args)
+	files, failed := collectFmtFiles(args)
+	if failed && len(files) == 0 {
+		return 1
+	}
 	if len(files) == 0 {
 		fmt.Println("gray fmt: no .gray files found")
 		return 0
 	}
 
 	exit := 0
+	if failed {
+		exit = 1
+	}
 	changed := 0
 
 	for _, path := range files {
@@ -166,12 +177,25 @@ func runFmt(args []string, checkMode bool) int {
 				continue
 			}
 			tmpName := tmp.Name()
-			tmp.Write(orig)
-			tmp.Close()
-
-			grayc.Fmt(tmpName)
+			_, err = tmp.Write(orig)
+			if cerr := tmp.Close(); err == nil {
+				err = cerr
+			}
+			code := 0
+			if err == nil {
+				code, err = grayc.Fmt(tmpName)
+			}
+			if err == nil && code != 0 {
+				os.Remove(tmpName)
+				fmt.Fprintf(os.Stderr, "gray fmt: failed to format '%s'\n", path)
+				exit = 1
+				continue
+			}
 
-			formatted, err := os.ReadFile(tmpName)
+			var formatted []byte
+			if err == nil {
+				formatted, err = os.ReadFile(tmpName)
+			}
 			os.Remove(tmpName)
 			if err != nil {
 				fmt.Fprintf(os.Stderr, "gray fmt: %v\n", err)
@@ -206,7 +230,7 @@ func runFmt(args []string, checkMode bool) int {
 		}
 	}
 
-	if !checkMode && changed == 0 {
+	if !checkMode && changed == 0 && exit == 0 {
 		fmt.Printf("gray fmt: %d file(s) checked, already formatted\n", len(files))
 	}
 	return exit
diff --git a/grayc/src/fmt/fmt.c b/grayc/src/fmt/fmt.c
index 5f3accd..529e498 100644
--- a/grayc/src/fmt/fmt.c
+++ b/grayc/src/fmt/fmt.c
@@ -19,6 +19,7 @@
 #include <ctype.h>
 
 #define FMT_INDENT_WIDTH 4
+#define FMT_MAX_BLANK_LINES 2
 #define FMT_ARENA_SIZE   (1024 * 1024)  /* 1 MB — enough for any source file */
 
 /* Count the number of newlines in src to find the maximum line number. */
@@ -40,7 +41,7 @@ static int count_lines(const char *src) {
  * the line is recorded, so the opening-brace line itself stays at the current
  * depth and the body lines inside get depth+1.
  */
-static int *build_depth_table(const char *src, const char *filename, int max_line) {
+static int *build_depth_table(const char *src, const char *filename, int max_line, bool *in_raw) {
     int *table = calloc(max_line + 2, sizeof(int));
     if (!table) return NULL;
 
@@ -56,7 +57,12 @@ static int *build_depth_table(const char *src, const char *filename, int max_lin
     int depth = 0;
     Token token;
     while ((token = lexer_next_token(lexer)).type != TOK_EOF) {
-        if (token.type == TOK_ILLEGAL) break;
+        if (token.type == TOK_ILLEGAL) {
+            /* Nothing is known about the text after it: leave the file alone. */
+            arena_destroy(arena);
+            free(table);
+            return NULL;
+        }
         if (token.type == TOK_NEWLINE) continue;
 
         int line = token.line;
@@ -72,6 +78,13 @@ static int *build_depth_table(const char *src, const char *filename, int max_lin
             table[line] = depth;
         }
 
+        /* Lines that begin inside a raw string belong to its text */
+        if (token.type == TOK_RAW_STRING) {
+            int inside = line;
+            for (const char *c = token.literal; *c; c++)
+                if (*c == '\n' && inside < max_line) in_raw[++inside] = true;
+        }
+
         /* Opening brace: indent for subsequent lines */
         if (token.type == TOK_LBRACE) {
             depth++;
@@ -94,81 +107,55 @@ static int *build_depth_table(const char *src, const char *filename, int max_lin
     return table;
 }
 
-/*
- * Returns true if `line` (NUL-terminated, with leading whitespace already
- * stripped) is inside a raw string that started on an earlier line.
- * We track this by counting unpaired backticks across the whole source up to
- * the given line number.  An odd count means we are inside a raw string.
- */
-static bool line_is_in_raw_string(const char *src, int target_line) {
-    int line = 1;
-    bool in_raw = false;
-    bool in_str = false;  /* regular double-quoted string */
-    const char *p = src;
-    while (*p && line < target_line) {
-        if (*p == '\n') { line++; p++; continue; }
-        if (in_raw) {
-            if (*p == '`') in_raw = false;
-            p++; continue;
-        }
-        if (in_str) {
-            if (*p == '\\' && *(p + 1)) { p += 2; continue; } /* skip escape */
-            if (*p == '"')  { in_str = false; }
-            p++; continue;
-        }
-        if (*p == '`') { in_raw = true; p++; continue; }
-        if (*p == '"') { in_str = true; p++; continue; }
-        p++;
-    }
-    return in_raw;
-}
+/* Blanks the formatter may drop at either end of a line. */
+static bool is_blank(char c) { return c == ' ' || c == '\t' || c == '\r'; }
 
 int gray_fmt_source(const char *src, const char *filename, FILE *out) {
     int max_line = count_lines(src);
-    int *depth_table = build_depth_table(src, filename, max_line);
-    if (!depth_table) return 1;
+    bool *in_raw = calloc((size_t)max_line + 2, sizeof(bool));
+    if (!in_raw) return 1;
+    int *depth_table = build_depth_table(src, filename, max_line, in_raw);
+    if (!depth_table) { free(in_raw); return 1; }
 
     /* Walk the source line by line, re-indenting each one. */
     const char *p = src;
     int line_num = 1;
+    int blank_lines = 0;   /* held back until the next line that is not blank */
 
     while (*p) {
         /* Find end of this line */
         const char *line_start = p;
         while (*p && *p != '\n') p++;
-        int line_len = (int)(p - line_start);
+        const char *line_end = p;
 
         /* Advance past newline for next iteration */
         if (*p == '\n') p++;
 
-        /* Skip leading whitespace to get the trimmed content */
+        /* The text of a raw string is kept as it is at either end of the line */
+        bool starts_raw = in_raw[line_num];
+        bool ends_raw = line_num < max_line && in_raw[line_num + 1];
+
         const char *content = line_start;
-        while (content < line_start + line_len && (*content == ' ' || *content == '\t'))
-            content++;
-        int content_len = (int)((line_start + line_len) - content);
+        if (!starts_raw)
+            while (content < line_end && is_blank(*content)) content++;
+        if (!ends_raw)
+            while (line_end > content && is_blank(line_end[-1])) line_end--;
 
-        if (content_len == 0) {
-            /* Blank line: emit as-is (no indentation) */
-            fputc('\n', out);
-        } else if (line_is_in_raw_string(src, line_num)) {
-            /* Inside a raw string: preserve the original line verbatim */
-            fwrite(line_start, 1, line_len, out);
-            fputc('\n', out);
+        if (content == line_end && !starts_raw && !ends_raw) {
+            blank_lines++;
         } else {
-            /* Emit corrected indentation + original content */
-            int depth = (line_num <= max_line) ? depth_table[line_num] : 0;
-            if (depth < 0) depth = 0;
-            for (int i = 0; i < depth * FMT_INDENT_WIDTH; i++) fputc(' ', out);
-            fwrite(content, 1, content_len, out);
+            for (int i = 0; i < blank_lines && i < FMT_MAX_BLANK_LINES; i++) fputc('\n', out);
+            blank_lines = 0;
+            if (!starts_raw)
+                for (int i = 0; i < depth_table[line_num] * FMT_INDENT_WIDTH; i++) fputc(' ', out);
+            fwrite(content, 1, (size_t)(line_end - content), out);
             fputc('\n', out);
         }
 
         line_num++;
     }
 
-    /* Ensure file ends with exactly one newline (already handled above if
-     * the source ended with \n; if it didn't, the last fputc above adds one). */
-
+    free(in_raw);
     free(depth_table);
     return 0;
 }
diff --git a/grayc/src/main.c b/grayc/src/main.c
index 6b89749..9451c6a 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -62,6 +62,33 @@ static void print_usage(void) {
     fprintf(stderr, "  -h, --help      Show this help\n");
 }
 
+/* Replace the contents of the file in one step, so that a failed write leaves
+ * it as it was. Links are followed and the permissions kept. */
+static int replace_file(const char *path, const char *text, size_t len) {
+    struct stat st;
+    char *target = realpath(path, NULL);
+    if (!target) return 1;
+    size_t n = strlen(target) + sizeof(".fmt-XXXXXX");
+    char *temp = malloc(n);
+    int fd = -1;
+    if (temp && stat(target, &st) == 0 && access(target, W_OK) == 0) {
+        snprintf(temp, n, "%s.fmt-XXXXXX", target);
+        fd = mkstemp(temp);
+    }
+    int rc = 1;
+    if (fd >= 0) {
+        FILE *f = fdopen(fd, "w");
+        bool ok = f && fchmod(fd, st.st_mode & 07777) == 0 && fwrite(text, 1, len, f) == len;
+        if (f) ok = fclose(f) == 0 && ok;
+        else close(fd);
+        if (ok && rename(temp, target) == 0) rc = 0;
+        else unlink(temp);
+    }
+    free(temp);
+    free(target);
+    return rc;
+}
+
 static char *read_file(const char *path) {
     /* Fast path for regular (seekable) files. */
     char *fast = read_file_to_string(path);
@@ -728,7 +755,10 @@ int main(int argc, char **argv) {
             free(source);
             return 1;
         }
-        int rc = gray_fmt_source(source, input_file, tmp);
+        struct stat st;
+        bool whole = stat(input_file, &st) == 0 && (!S_ISREG(st.st_mode) || (size_t)st.st_size == strlen(source));
+        int rc = whole ? gray_fmt_source(source, input_file, tmp) : 1;
+        if (rc == 0 && (fflush(tmp) != 0 || ferror(tmp))) rc = 1;
         if (rc != 0) {
             fprintf(stderr, "gray: fmt: failed to format '%s'\n", input_file);
             fclose(tmp);
@@ -747,27 +777,11 @@ int main(int argc, char **argv) {
         }
         fmt_buf[fmt_len] = '\0';
         fclose(tmp);
-        /* Write back to the original file with explicit 0644 permissions */
-        int wfd = open(input_file, O_WRONLY | O_CREAT | O_TRUNC, 0644);
-        if (wfd < 0) {
-            fprintf(stderr, "gray: fmt: cannot write '%s'\n", input_file);
-            free(fmt_buf);
-            free(source);
-            return 1;
-        }
-        FILE *f = fdopen(wfd, "w");
-        if (!f) {
-            fprintf(stderr, "gray: fmt: cannot write '%s'\n", input_file);
-            close(wfd);
-            free(fmt_buf);
-            free(source);
-            return 1;
-        }
-        fwrite(fmt_buf, 1, fmt_len, f);
-        fclose(f);
+        int written = replace_file(input_file, fmt_buf, (size_t)fmt_len);
+        if (written != 0) fprintf(stderr, "gray: fmt: cannot write '%s'\n", input_file);
         free(fmt_buf);
         free(source);
-        return 0;
+        return written;
     }
 
     /* Create compiler arena and diagnostics */
-- 
2.43.0


From bcd8824d25a5be718ec51042eba6f04ea081f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 80/96] fix: a declaration of more than 16 variables is refused
 before its names are stored

---
 grayc/src/parser/parser.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/grayc/src/parser/parser.c b/grayc/src/parser/parser.c
index e1d700f..56f7f4c 100644
--- a/grayc/src/parser/parser.c
+++ b/grayc/src/parser/parser.c
@@ -1550,6 +1550,10 @@ static AstNode *parse_var_declaration(Parser *parser) {
             while (peek_token_is(parser, TOK_COMMA)) {
                 next_token(parser); /* skip comma */
                 next_token(parser); /* name (IDENT or _) */
+                if (var_count == MAX_MULTI_VARS) {
+                    diagnostic_error_code_formatted(parser->diag, "E2062", parser->file, parser->cur_token.line, parser->cur_token.column, 0, MAX_MULTI_VARS);
+                    return NULL;
+                }
                 names[var_count] = parser->cur_token.literal;
                 if (current_token_is(parser, TOK_BLANK)) names[var_count] = "_";
                 if (peek_token_is(parser, TOK_IDENT) || peek_token_is(parser, TOK_CARET) ||
@@ -1562,10 +1566,6 @@ static AstNode *parse_var_declaration(Parser *parser) {
                     types[var_count] = NULL;
                 }
                 var_count++;
-                if (var_count > MAX_MULTI_VARS) {
-                    diagnostic_error_code_formatted(parser->diag, "E2062", parser->file, parser->cur_token.line, parser->cur_token.column, 0, MAX_MULTI_VARS);
-                    return NULL;
-                }
             }
 
             /* Expect = expr */
-- 
2.43.0


From 870c407c959866cb181e016e6b8cdc8cb78ad0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 81/96] fix: fmt keeps the layout of strings that span lines

---
 grayc/src/fmt/fmt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/grayc/src/fmt/fmt.c b/grayc/src/fmt/fmt.c
index 529e498..f651e38 100644
--- a/grayc/src/fmt/fmt.c
+++ b/grayc/src/fmt/fmt.c
@@ -78,8 +78,8 @@ static int *build_depth_table(const char *src, const char *filename, int max_lin
             table[line] = depth;
         }
 
-        /* Lines that begin inside a raw string belong to its text */
-        if (token.type == TOK_RAW_STRING) {
+        /* Lines that begin inside a string belong to its text */
+        if (token.type == TOK_RAW_STRING || token.type == TOK_STRING) {
             int inside = line;
             for (const char *c = token.literal; *c; c++)
                 if (*c == '\n' && inside < max_line) in_raw[++inside] = true;
@@ -131,7 +131,7 @@ int gray_fmt_source(const char *src, const char *filename, FILE *out) {
         /* Advance past newline for next iteration */
         if (*p == '\n') p++;
 
-        /* The text of a raw string is kept as it is at either end of the line */
+        /* The text of a string is kept as it is at either end of the line */
         bool starts_raw = in_raw[line_num];
         bool ends_raw = line_num < max_line && in_raw[line_num + 1];
 
-- 
2.43.0


From 420d402f379c77d4aa8f8064018d8f6ebf2ebc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 82/96] fix: extraction replaces damaged files, tags the
 sources and does not race with other processes

---
 internal/grayc/embedded.go | 45 ++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/internal/grayc/embedded.go b/internal/grayc/embedded.go
index 33ea4d1..4f96eb5 100644
--- a/internal/grayc/embedded.go
+++ b/internal/grayc/embedded.go
@@ -8,6 +8,7 @@
 package grayc
 
 import (
+	"bytes"
 	"crypto/sha256"
 	"embed"
 	"encoding/hex"
@@ -58,6 +59,22 @@ func extractEmbedded() (string, error) {
 		h := sha256.New()
 		h.Write(embeddedGrayc)
 		h.Write(embeddedLibgrayrt)
+		// The headers and sources are part of what a build uses.
+		if err := fs.WalkDir(embeddedSrc, "runtime/src", func(path string, d fs.DirEntry, err error) error {
+			if err != nil || d.IsDir() {
+				return err
+			}
+			data, err := embeddedSrc.ReadFile(path)
+			if err != nil {
+				return err
+			}
+			fmt.Fprintf(h, "%s %d\n", path, len(data))
+			h.Write(data)
+			return nil
+		}); err != nil {
+			extractErr = fmt.Errorf("read embedded sources: %w", err)
+			return
+		}
 		tag := hex.EncodeToString(h.Sum(nil))[:16]
 
 		home, err := os.UserHomeDir()
@@ -126,15 +143,29 @@ func extractSourceTree(dir string) error {
 }
 
 // writeIfMissing writes data to path with the given mode unless a file of
-// the same size already exists there. The content-hash tag in the parent
-// directory already guarantees uniqueness per build, so a size check is
-// sufficient to detect a successful prior extraction.
+// the same contents already exists there. The file appears whole or not at
+// all, whoever else is extracting.
 func writeIfMissing(path string, data []byte, mode fs.FileMode) error {
-	if st, err := os.Stat(path); err == nil && st.Size() == int64(len(data)) {
-		return nil
+	if st, err := os.Stat(path); err == nil && st.Size() == int64(len(data)) && st.Mode().Perm()&mode == mode {
+		if have, err := os.ReadFile(path); err == nil && bytes.Equal(have, data) {
+			return nil
+		}
+	}
+	// A name of this process's own: another one may be extracting as well.
+	f, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".tmp*")
+	if err != nil {
+		return fmt.Errorf("write %s: %w", path, err)
+	}
+	tmp := f.Name()
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Chmod(mode)
 	}
-	tmp := path + ".tmp"
-	if err := os.WriteFile(tmp, data, mode); err != nil {
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		_ = os.Remove(tmp)
 		return fmt.Errorf("write %s: %w", path, err)
 	}
 	if err := os.Rename(tmp, path); err != nil {
-- 
2.43.0


From 0fb161a9da0168c87700d53fc99431dbf2745595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 83/96] fix: running passes arguments and the exit status on,
 builds use a temporary file of their own, commands report their errors

---
 cli/commands.go  |  8 +++++--
 cli/doc.go       | 46 ++++++++++++++++++++++++++++-------------
 cli/main.go      |  1 +
 grayc/src/main.c | 54 ++++++++++++++++++++++++++++++++----------------
 4 files changed, 75 insertions(+), 34 deletions(-)

diff --git a/cli/commands.go b/cli/commands.go
index 343fd7a..9087072 100644
--- a/cli/commands.go
+++ b/cli/commands.go
@@ -150,9 +150,12 @@ Examples:
 Output is written to DOCS.md by default. Use -o/--output to write
 to a different path (parent directories are created as needed).`,
 	Args: cobra.MinimumNArgs(1),
-	Run: func(cmd *cobra.Command, args []string) {
+	RunE: func(cmd *cobra.Command, args []string) error {
 		output, _ := cmd.Flags().GetString("output")
-		generateDocs(args, output)
+		if !generateDocs(args, output) {
+			return &ExitError{1}
+		}
+		return nil
 	},
 }
 
@@ -608,6 +611,7 @@ var rootCmd = &cobra.Command{
 		if noColor, _ := cmd.Flags().GetBool("no-color"); noColor {
 			compilerArgs = append(compilerArgs, "--no-color")
 		}
+		compilerArgs = append(compilerArgs, "--")
 		compilerArgs = append(compilerArgs, extraArgs...)
 
 		code, err := grayc.Run(args[0], compilerArgs)
diff --git a/cli/doc.go b/cli/doc.go
index 6721371..f5982b9 100644
--- a/cli/doc.go
+++ b/cli/doc.go
@@ -33,7 +33,10 @@ const defaultDocOutputPath = "DOCS.md"
 // the destination markdown file; an empty string falls back to
 // defaultDocOutputPath so the `DOCS.md`-in-cwd behavior is
 // unchanged for callers that do not pass --output.
-func generateDocs(args []string, outputPath string) {
+//
+// It reports whether every path could be read and the output written.
+func generateDocs(args []string, outputPath string) bool {
+	docErrors = 0
 	if outputPath == "" {
 		outputPath = defaultDocOutputPath
 	}
@@ -56,7 +59,7 @@ func generateDocs(args []string, outputPath string) {
 
 	if len(entries) == 0 {
 		fmt.Println("No documented items found.")
-		return
+		return docErrors == 0
 	}
 
 	output := generateMarkdown(entries)
@@ -75,17 +78,26 @@ func generateDocs(args []string, outputPath string) {
 	// nested path like docs/API.md.
 	if dir := filepath.Dir(outputPath); dir != "" && dir != "." {
 		if err := os.MkdirAll(dir, 0o755); err != nil {
-			fmt.Printf("Error creating output directory %s: %v\n", dir, err)
-			return
+			docError("Error creating output directory %s: %v\n", dir, err)
+			return false
 		}
 	}
 
 	if err := os.WriteFile(outputPath, []byte(output), 0644); err != nil {
-		fmt.Printf("Error writing %s: %v\n", outputPath, err)
-		return
+		docError("Error writing %s: %v\n", outputPath, err)
+		return false
 	}
 
 	fmt.Printf("Generated %s with %d documented item(s)\n", outputPath, len(entries))
+	return docErrors == 0
+}
+
+// docErrors counts what docError reported during one generateDocs.
+var docErrors int
+
+func docError(format string, args ...any) {
+	docErrors++
+	fmt.Fprintf(os.Stderr, format, args...)
 }
 
 // collectDocsFromFile extracts documented items from a single .gray file using text scanning.
@@ -95,18 +107,19 @@ func collectDocsFromFile(filename string) []DocEntry {
 
 	absPath, err := filepath.Abs(filename)
 	if err != nil {
-		fmt.Printf("Error resolving path %s: %v\n", filename, err)
+		docError("Error resolving path %s: %v\n", filename, err)
 		return entries
 	}
 
 	f, err := os.Open(absPath)
 	if err != nil {
-		fmt.Printf("Error reading file %s: %v\n", filename, err)
+		docError("Error reading file %s: %v\n", filename, err)
 		return entries
 	}
 	defer f.Close()
 
 	scanner := bufio.NewScanner(f)
+	scanner.Buffer(nil, 1<<30) // a line may be longer than the default of 64 KB
 	var pendingDoc string
 	var inBlock bool
 	var blockLines []string
@@ -205,6 +218,10 @@ func collectDocsFromFile(filename string) []DocEntry {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		docError("Error reading file %s: %v\n", filename, err)
+	}
+
 	return entries
 }
 
@@ -250,12 +267,12 @@ func collectDocsFromDir(dir string) []DocEntry {
 	var entries []DocEntry
 	absDir, err := filepath.Abs(dir)
 	if err != nil {
-		fmt.Printf("Error resolving path %s: %v\n", dir, err)
+		docError("Error resolving path %s: %v\n", dir, err)
 		return entries
 	}
 	files, err := os.ReadDir(absDir)
 	if err != nil {
-		fmt.Printf("Error reading directory %s: %v\n", dir, err)
+		docError("Error reading directory %s: %v\n", dir, err)
 		return entries
 	}
 	for _, file := range files {
@@ -270,11 +287,12 @@ func collectDocsRecursive(dir string) []DocEntry {
 	var entries []DocEntry
 	absDir, err := filepath.Abs(dir)
 	if err != nil {
-		fmt.Printf("Error resolving path %s: %v\n", dir, err)
+		docError("Error resolving path %s: %v\n", dir, err)
 		return entries
 	}
 	filepath.Walk(absDir, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
+			docError("Error reading %s: %v\n", path, err)
 			return nil
 		}
 		if !info.IsDir() && strings.HasSuffix(path, ".gray") {
@@ -303,9 +321,9 @@ func generateMarkdown(entries []DocEntry) string {
 		}
 	}
 
-	sort.Slice(functions, func(i, j int) bool { return functions[i].Name < functions[j].Name })
-	sort.Slice(structs, func(i, j int) bool { return structs[i].Name < structs[j].Name })
-	sort.Slice(enums, func(i, j int) bool { return enums[i].Name < enums[j].Name })
+	sort.SliceStable(functions, func(i, j int) bool { return functions[i].Name < functions[j].Name })
+	sort.SliceStable(structs, func(i, j int) bool { return structs[i].Name < structs[j].Name })
+	sort.SliceStable(enums, func(i, j int) bool { return enums[i].Name < enums[j].Name })
 
 	if len(functions) > 0 {
 		buf.WriteString("## Functions\n\n")
diff --git a/cli/main.go b/cli/main.go
index f4c2495..84012fb 100644
--- a/cli/main.go
+++ b/cli/main.go
@@ -38,6 +38,7 @@ func main() {
 		if errors.As(err, &exitErr) {
 			os.Exit(exitErr.Code)
 		}
+		fmt.Fprintln(os.Stderr, err)
 		os.Exit(1)
 	}
 }
diff --git a/grayc/src/main.c b/grayc/src/main.c
index 9451c6a..6bf1be9 100644
--- a/grayc/src/main.c
+++ b/grayc/src/main.c
@@ -663,6 +663,8 @@ int main(int argc, char **argv) {
     bool quiet_all = false;
     const char *quiet_codes_arg = NULL;
     const char *opt_level = "-O2";
+    char **program_args = NULL;    /* what follows "--", for the program being run */
+    int program_arg_count = 0;
 
     /* Parse arguments */
     for (int i = 1; i < argc; i++) {
@@ -731,6 +733,11 @@ int main(int argc, char **argv) {
             fmt_mode = true;
             continue;
         }
+        if (strcmp(argv[i], "--") == 0) {
+            program_args = &argv[i + 1];
+            program_arg_count = argc - i - 1;
+            break;
+        }
         if (argv[i][0] == '-') {
             fprintf(stderr, "gray: unknown option '%s'\n", argv[i]);
             return 1;
@@ -1567,21 +1574,6 @@ int main(int argc, char **argv) {
         output_file = default_output;
     }
 
-    /* Write generated C to temp file */
-    const char *out_base = strrchr(output_file, '/');
-    out_base = out_base ? out_base + 1 : output_file;
-    char c_file[PATH_BUF_SIZE];
-    snprintf(c_file, sizeof(c_file), "/tmp/gray_%s.c", out_base);
-
-    if (!write_file(c_file, c_code)) {
-        codegen_destroy(&codegen);
-        typechecker_free(checker);
-        arena_destroy(arena);
-        free(source);
-        free(default_output);
-        return 1;
-    }
-
     if (emit_c_only) {
         /* Determine C output filename */
         const char *c_out = NULL;
@@ -1674,6 +1666,25 @@ int main(int argc, char **argv) {
         return 1;
     }
 
+    /* Write generated C to a temp file of this process's own */
+    const char *out_base = strrchr(output_file, '/');
+    out_base = out_base ? out_base + 1 : output_file;
+    char c_file[PATH_BUF_SIZE];
+    snprintf(c_file, sizeof(c_file), "/tmp/gray_%.200s_XXXXXX.c", out_base);
+    int c_fd = mkstemps(c_file, 2);
+    if (c_fd >= 0) close(c_fd);
+
+    if (c_fd < 0 || !write_file(c_file, c_code)) {
+        if (c_fd >= 0) unlink(c_file);
+        else fprintf(stderr, "gray: cannot create a temporary file in /tmp\n");
+        codegen_destroy(&codegen);
+        typechecker_free(checker);
+        arena_destroy(arena);
+        free(source);
+        free(default_output);
+        return 1;
+    }
+
     /* Compile the generated C code.
      * Try linking against pre-compiled libgrayrt.a first (fast path).
      * Fall back to compiling runtime from source if archive not found. */
@@ -1765,6 +1776,7 @@ int main(int argc, char **argv) {
 
     if (strlen(cmd) >= CMD_BUF_SIZE - 1) {
         fprintf(stderr, "gray: compile command too long (paths may be too deep)\n");
+        unlink(c_file);
         codegen_destroy(&codegen);
         typechecker_free(checker);
         diagnostic_destroy(diag);
@@ -1814,20 +1826,26 @@ int main(int argc, char **argv) {
         }
     }
 
+    int program_status = 0;
+
     /* Run mode: execute the binary and clean up.
      * Use fork+execv instead of system() to avoid shell injection — the
      * output path comes from user-supplied CLI input. */
     if (ret == 0 && run_mode) {
         pid_t pid = fork();
         if (pid == 0) {
-            char *args[] = { output_file, NULL };
+            char **args = malloc(sizeof(char *) * ((size_t)program_arg_count + 2));
+            if (!args) _exit(127);
+            args[0] = (char *)output_file;
+            for (int i = 0; i < program_arg_count; i++) args[i + 1] = program_args[i];
+            args[program_arg_count + 1] = NULL;
             execv(output_file, args);
             perror("gray: exec");
             _exit(127);
         } else if (pid > 0) {
             int status = 0;
             waitpid(pid, &status, 0);
-            ret = WIFEXITED(status) ? WEXITSTATUS(status) : 1;
+            program_status = WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
         } else {
             perror("gray: fork");
             ret = 1;
@@ -1842,5 +1860,5 @@ int main(int argc, char **argv) {
     free(source);
     free(default_output);
 
-    return ret != 0 ? 1 : 0;
+    return ret != 0 ? 1 : program_status;
 }
-- 
2.43.0


From 20170a42f7d6fe669c28f3c9a4316937671d9ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 84/96] fix: check accepts a project directory; the update
 notice stays out of the program's output

---
 cli/commands.go | 10 +++++++++-
 cli/update.go   |  6 +++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cli/commands.go b/cli/commands.go
index 9087072..96759d5 100644
--- a/cli/commands.go
+++ b/cli/commands.go
@@ -44,7 +44,15 @@ var checkCmd = &cobra.Command{
 		} else if quiet != "" {
 			extraArgs = append(extraArgs, "--quiet", quiet)
 		}
-		code, err := grayc.Check(args[0], extraArgs)
+		target := args[0]
+		if isDir {
+			// A project is checked from the file that holds its main().
+			target, statErr = findMainFile(args[0])
+			if statErr != nil {
+				return fmt.Errorf("error: %v", statErr)
+			}
+		}
+		code, err := grayc.Check(target, extraArgs)
 		if err != nil {
 			return fmt.Errorf("error: %v", err)
 		}
diff --git a/cli/update.go b/cli/update.go
index 1b96df9..665d38c 100644
--- a/cli/update.go
+++ b/cli/update.go
@@ -578,7 +578,7 @@ func CheckForUpdateAsync() {
 	// If we have cached state and it's fresh (checked today), use it
 	if state != nil && state.LatestVersion != "" && !shouldCheckForUpdate() {
 		if isNewerVersion(Version, state.LatestVersion) {
-			fmt.Printf("Note: Grayscale %s available (you have %s). Run `gray update` to upgrade.\n\n",
+			fmt.Fprintf(os.Stderr, "Note: Grayscale %s available (you have %s). Run `gray update` to upgrade.\n\n",
 				state.LatestVersion, Version)
 		}
 		return
@@ -593,7 +593,7 @@ func CheckForUpdateAsync() {
 		// Network error - fall back to cached state if available
 		if state != nil && state.LatestVersion != "" {
 			if isNewerVersion(Version, state.LatestVersion) {
-				fmt.Printf("Note: Grayscale %s available (you have %s). Run `gray update` to upgrade.\n\n",
+				fmt.Fprintf(os.Stderr, "Note: Grayscale %s available (you have %s). Run `gray update` to upgrade.\n\n",
 					state.LatestVersion, Version)
 			}
 		}
@@ -609,7 +609,7 @@ func CheckForUpdateAsync() {
 
 	// Print notification if newer version available
 	if isNewerVersion(Version, release.TagName) {
-		fmt.Printf("Note: Grayscale %s available (you have %s). Run `gray update` to upgrade.\n\n",
+		fmt.Fprintf(os.Stderr, "Note: Grayscale %s available (you have %s). Run `gray update` to upgrade.\n\n",
 			release.TagName, Version)
 	}
 }
-- 
2.43.0


From 8b50d9cdd12f326880ee85101b7f1a8a9dab2a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 85/96] fix: temporaries of a while condition are freed after
 each test

---
 grayc/src/codegen/codegen.c | 46 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index d5ffc29..f56847d 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -9139,10 +9139,54 @@ static void emit_for_statement(CodeGen *codegen, AstNode *node) {
     emit(codegen, "}\n");
 }
 
+/* Whether evaluating the expression takes no memory: names, fields, literals
+ * and operators between them. */
+static bool is_plain_expression(AstNode *node) {
+    if (!node) return true;
+    switch (node->kind) {
+    case NODE_LABEL: case NODE_INT_VALUE: case NODE_FLOAT_VALUE: case NODE_BOOL_VALUE:
+    case NODE_CHAR_VALUE: case NODE_STRING_VALUE: case NODE_NIL_VALUE:
+        return true;
+    case NODE_MEMBER_EXPR: return is_plain_expression(node->data.member.object);
+    case NODE_INDEX_EXPR:
+        return is_plain_expression(node->data.index_expr.left) && is_plain_expression(node->data.index_expr.index);
+    case NODE_PREFIX_EXPR: return is_plain_expression(node->data.prefix.right);
+    case NODE_INFIX_EXPR:
+        return is_plain_expression(node->data.infix.left) && is_plain_expression(node->data.infix.right);
+    default: return false;
+    }
+}
+
+/* The condition of a loop; its temporaries live in an arena of each test. */
+static void emit_loop_condition(CodeGen *codegen, AstNode *condition) {
+    if (is_plain_expression(condition)) {
+        emit_expression(codegen, condition);
+        return;
+    }
+    static int condition_counter = 0;
+    int id = condition_counter++;
+    emit(codegen, "({ ");
+    if (codegen->loop_scope_depth == 0)
+        emit(codegen, "GrayArena *_gray_outer_arena = gray_default_arena; ");
+    emit_formatted(codegen, "GrayArena *_cond_arena_%d = gray_arena_create(%d); ", id, IF_ARENA_SIZE);
+    emit_formatted(codegen, "GrayArena *_cond_saved_%d = gray_default_arena; ", id);
+    emit_formatted(codegen, "gray_default_arena = _cond_arena_%d; bool _cond_%d = (", id, id);
+    codegen->loop_scope_depth++;
+    char av[32], sv[32];
+    snprintf(av, sizeof(av), "_cond_arena_%d", id);
+    snprintf(sv, sizeof(sv), "_cond_saved_%d", id);
+    scope_arena_push(codegen, av, sv);
+    emit_expression(codegen, condition);
+    codegen->loop_scope_depth--;
+    scope_arena_pop(codegen);
+    emit_formatted(codegen, "); gray_default_arena = _cond_saved_%d; ", id);
+    emit_formatted(codegen, "gray_arena_destroy(_cond_arena_%d, __FILE__, __LINE__); free(_cond_arena_%d); _cond_%d; })", id, id, id);
+}
+
 static void emit_while_statement(CodeGen *codegen, AstNode *node) {
     emit_indent(codegen);
     emit(codegen, "while (");
-    emit_expression(codegen, node->data.while_stmt.condition);
+    emit_loop_condition(codegen, node->data.while_stmt.condition);
     emit(codegen, ") {\n");
 
     codegen->indent++;
-- 
2.43.0


From 8081e2022ee6ee7fd0093bff122f362967066f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:29 +0000
Subject: [PATCH 86/96] fix: assigning a literal to a 128- or 256-bit field or
 through a pointer's field widens it

---
 grayc/src/codegen/codegen.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index f56847d..07ce1f6 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -8258,6 +8258,17 @@ static bool is_compound_assign(TokenType op) {
            op == TOK_SLASH_ASSIGN || op == TOK_PERCENT_ASSIGN;
 }
 
+/* The assigned value, in the type of the place it is assigned to. */
+static void emit_assigned_value(CodeGen *codegen, AstNode *node) {
+    GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
+    const char *wide = type && type->name && is_bigint_type(type->name) ? type->name : NULL;
+    if (wide && node->data.assign.op == TOK_ASSIGN) {
+        emit_bigint_conversion(codegen, node->data.assign.value, wide, node->token.line);
+    } else {
+        emit_expression(codegen, node->data.assign.value);
+    }
+}
+
 static void emit_assignment(CodeGen *codegen, AstNode *node) {
     emit_indent(codegen);
 
@@ -8455,7 +8466,7 @@ static void emit_assignment(CodeGen *codegen, AstNode *node) {
         emit_expression(codegen, ptr);
         emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp->%s", codegen->file, node->token.line, sanitize_name(field));
         emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
-        emit_expression(codegen, node->data.assign.value);
+        emit_assigned_value(codegen, node);
         emit(codegen, "; }\n");
         return;
     }
@@ -8487,7 +8498,7 @@ static void emit_assignment(CodeGen *codegen, AstNode *node) {
                 if (i > 0) emit(codegen, ".");
             }
             emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
-            emit_expression(codegen, node->data.assign.value);
+            emit_assigned_value(codegen, node);
             emit(codegen, "; }\n");
             return;
         }
@@ -8503,7 +8514,7 @@ static void emit_assignment(CodeGen *codegen, AstNode *node) {
             emit_expression(codegen, obj);
             emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp->%s", codegen->file, node->token.line, sanitize_name(field));
             emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
-            emit_expression(codegen, node->data.assign.value);
+            emit_assigned_value(codegen, node);
             emit(codegen, "; }\n");
             return;
         }
@@ -8613,7 +8624,7 @@ static void emit_assignment(CodeGen *codegen, AstNode *node) {
             emit_expression(codegen, node->data.assign.value);
         }
     } else {
-        emit_expression(codegen, node->data.assign.value);
+        emit_assigned_value(codegen, node);
     }
     emit(codegen, ";\n");
 }
-- 
2.43.0


From 22108e1b1fb36bc49fd1c2c0cc1c3574a29e04bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:29 +0000
Subject: [PATCH 87/96] fix: mem.alloc copies what the value refers to and is
 typed as the pointer it returns; zero, fill and raw_copy are accepted

---
 grayc/src/codegen/codegen.c         | 52 ++++++++++++-----------------
 grayc/src/typechecker/typechecker.c | 10 ++++--
 2 files changed, 28 insertions(+), 34 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 07ce1f6..d994361 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -4523,38 +4523,28 @@ static bool emit_mem_call(CodeGen *codegen, AstNode *node, const char *func) {
         AstNode *arena_arg = node->data.call.args[0];
         AstNode *value_arg = node->data.call.args[1];
         GrayType *vt = codegen->type_table ? typetable_get(codegen->type_table, value_arg) : NULL;
-
-        if (vt && vt->kind == TK_STRING) {
-            emit(codegen, "({ GrayString _s = ");
-            emit_expression(codegen, value_arg);
-            emit(codegen, "; gray_string_new(");
-            emit_expression(codegen, arena_arg);
-            emit(codegen, ", _s.data, _s.len); })");
-        } else if (value_arg->kind == NODE_ARRAY_VALUE) {
-            int count = value_arg->data.array_value.count;
-            GrayType *elem_t = (count > 0 && codegen->type_table)
-                ? typetable_get(codegen->type_table, value_arg->data.array_value.elements[0])
-                : NULL;
-            const char *c_type = "int64_t";
-            if (elem_t) {
-                if (elem_t->kind == TK_FLOAT) c_type = "double";
-                else if (elem_t->kind == TK_STRING) c_type = "GrayString";
-                else if (elem_t->kind == TK_BOOL) c_type = "bool";
-            }
-            emit_formatted(codegen, "gray_array_from(");
-            emit_expression(codegen, arena_arg);
-            emit_formatted(codegen, ", (%s[]){", c_type);
-            for (int i = 0; i < count; i++) {
-                if (i > 0) emit(codegen, ", ");
-                emit_expression(codegen, value_arg->data.array_value.elements[i]);
-            }
-            emit_formatted(codegen, "}, sizeof(%s), %d)", c_type, count);
+        const char *type = vt ? type_name(vt) : "int";
+        int tag = next_deep_copy_tag();
+        char value_var[SHORT_VAR_BUF];
+        snprintf(value_var, sizeof(value_var), "_mv%d", tag);
+        /* The value and everything it refers to is copied into the arena.
+         * Strings, arrays and maps are handles to their contents there;
+         * any other value lives in the arena itself. */
+        bool is_handle = vt && (vt->kind == TK_STRING || vt->kind == TK_ARRAY || vt->kind == TK_MAP);
+        emit_formatted(codegen, "({ GrayArena *_ma%d = ", tag);
+        emit_expression(codegen, arena_arg);
+        emit_formatted(codegen, "; __auto_type %s = ", value_var);
+        emit_expression(codegen, value_arg);
+        emit_formatted(codegen, "; GrayArena *_ms%d = gray_default_arena; gray_default_arena = _ma%d; %s = ",
+            tag, tag, value_var);
+        emit_value_deep_copy(codegen, type, value_var);
+        emit_formatted(codegen, "; gray_default_arena = _ms%d; ", tag);
+        if (is_handle) {
+            emit_formatted(codegen, "%s; })", value_var);
         } else {
-            emit(codegen, "({ __auto_type _v = ");
-            emit_expression(codegen, value_arg);
-            emit(codegen, "; __auto_type _p = gray_arena_alloc(");
-            emit_expression(codegen, arena_arg);
-            emit(codegen, ", sizeof(_v)); *(__typeof__(_v) *)_p = _v; (__typeof__(_v) *)_p; })");
+            emit_formatted(codegen,
+                "__typeof__(%s) *_mp%d = gray_arena_alloc(_ma%d, sizeof(%s)); *_mp%d = %s; _mp%d; })",
+                value_var, tag, tag, value_var, tag, value_var, tag);
         }
         return true;
     }
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 82f1d1f..051753d 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2463,12 +2463,16 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                 result = &TYPE_UNKNOWN;
             }
         } else if (strcmp(mfn, "alloc") == 0 && node->data.call.arg_count == 2) {
-            /* alloc returns the same type as its second argument */
-            result = resolve_expression(checker, node->data.call.args[1]);
+            /* Strings, arrays and maps are handles already; anything else is
+             * reached through a pointer into the arena. */
+            GrayType *value_type = resolve_expression(checker, node->data.call.args[1]);
+            result = value_type->kind == TK_STRING || value_type->kind == TK_ARRAY || value_type->kind == TK_MAP
+                ? value_type : type_pointer(type_name(value_type));
         } else if (strcmp(mfn, "make") == 0) {
             result = &TYPE_UNKNOWN;
         } else if (strcmp(mfn, "free") == 0 || strcmp(mfn, "reset") == 0 ||
-                   strcmp(mfn, "destroy") == 0) {
+                   strcmp(mfn, "destroy") == 0 || strcmp(mfn, "zero") == 0 ||
+                   strcmp(mfn, "fill") == 0 || strcmp(mfn, "raw_copy") == 0) {
             result = &TYPE_VOID;
         } else {
             emit_unknown_stdlib_function(checker, mod, mfn, node);
-- 
2.43.0


From 3d554b03870dfbee90ad1faedc34043ac29e2795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:40 +0000
Subject: [PATCH 88/96] fix: mem.Arena is a type parameters, fields and results
 can have

---
 grayc/src/codegen/codegen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index d994361..182f68d 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -390,6 +390,7 @@ static const char *gray_type_to_c_codegen(CodeGen *codegen, const char *type_nam
     if (strcmp(type_name, "Thread") == 0)   return "GrayThread";
     if (strcmp(type_name, "Mutex") == 0)    return "GrayMutex";
     if (strcmp(type_name, "SpinLock") == 0) return "GraySpinLock";
+    if (strcmp(type_name, "Arena") == 0)    return "GrayArena *";
     if (strcmp(type_name, "Channel") == 0)  return "GrayChannel";
     if (strcmp(type_name, "Socket") == 0)   return "GraySocket";
     if (strcmp(type_name, "Listener") == 0) return "GraySocket";
-- 
2.43.0


From abf7dad650ea03d590c0efa45d0c8d3a8f7cc577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:25 +0000
Subject: [PATCH 89/96] fix: {} assigned to a map place or returned as a map is
 an empty map

---
 grayc/src/codegen/codegen.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 182f68d..e8d2135 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -1092,6 +1092,13 @@ static void emit_bigint_conversion(CodeGen *codegen, AstNode *value, const char
 
 static void emit_array_search(CodeGen *codegen, const char *fn, AstNode *arr, AstNode *value);
 
+/* {} is parsed as an empty array: make it the empty map its place holds. */
+static void mark_empty_map(AstNode *value) {
+    if (value->kind != NODE_ARRAY_VALUE || value->data.array_value.count > 0) return;
+    memset(&value->data, 0, sizeof(value->data));
+    value->kind = NODE_MAP_VALUE;
+}
+
 /* Emit a value for a slot of C type c_type: literals and narrower integers are
  * widened when the slot holds a wide integer. */
 static void emit_expression_as(CodeGen *codegen, AstNode *value, const char *c_type) {
@@ -2112,6 +2119,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             if (field_type) {
                 const char *saved = codegen->current_var_type;
                 codegen->current_var_type = field_type;
+                if (strncmp(field_type, "map[", 4) == 0) mark_empty_map(node->data.struct_value.field_values[i]);
                 if (is_bigint_type(field_type)) {
                     emit_bigint_conversion(codegen, node->data.struct_value.field_values[i], field_type, node->token.line);
                 } else {
@@ -8659,6 +8667,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
     const char *outer_var_type = codegen->current_var_type;
     if (target_t && (target_t->kind == TK_MAP || target_t->kind == TK_ARRAY))
         codegen->current_var_type = type_name(target_t);
+    if (target_t && target_t->kind == TK_MAP) mark_empty_map(node->data.assign.value);
     emit_assignment(codegen, node);
     codegen->current_var_type = outer_var_type;
     end_target(codegen, outer);
@@ -8858,6 +8867,12 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         return;
     }
 
+    for (int i = 0; i < node->data.return_stmt.count && codegen->current_func; i++) {
+        if (i < codegen->current_func->data.func_decl.return_type_count &&
+            strncmp(codegen->current_func->data.func_decl.return_types[i], "map[", 4) == 0)
+            mark_empty_map(node->data.return_stmt.values[i]);
+    }
+
     if (node->data.return_stmt.count > 1 && codegen->current_func) {
         /* Multi-return: evaluate into temp, then exit and return */
         emit_indent(codegen);
-- 
2.43.0


From dc9c5c4bd4d237b4aa702963a609a227fc9c95a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 90/96] fix: {} is an empty map as argument, default, payload,
 element and entry; an interpolated tagged enum is reported

---
 grayc/src/codegen/codegen.c         | 18 ++++++++++++++----
 grayc/src/typechecker/typechecker.c |  3 +++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index e8d2135..2212c01 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -1119,6 +1119,7 @@ static void emit_enum_payload(CodeGen *codegen, AstNode *call, EnumVal *variant)
         const char *type_name = i < variant->payload_count ? variant->payload_types[i] : NULL;
         emit_formatted(codegen, "%s._%d = ", i > 0 ? ", " : "", i);
         codegen->current_var_type = type_name;
+        if (type_name && strncmp(type_name, "map[", 4) == 0) mark_empty_map(value);
         if (type_name && is_bigint_type(type_name)) {
             emit_bigint_conversion(codegen, value, type_name, call->token.line);
         } else if (!type_name || !emit_narrowing_cast(codegen, type_name, value, call->token.line)) {
@@ -1854,6 +1855,10 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             break;
         }
 
+        bool of_maps = codegen->current_var_type && strncmp(codegen->current_var_type, "[map[", 5) == 0;
+        for (int i = 0; i < count; i++) of_maps |= node->data.array_value.elements[i]->kind == NODE_MAP_VALUE;
+        for (int i = 0; of_maps && i < count; i++) mark_empty_map(node->data.array_value.elements[i]);
+
         /* Check if this is a nested array (elements are arrays) */
         if (node->data.array_value.elements[0]->kind == NODE_ARRAY_VALUE) {
             /* Nested array: each element is an GrayArray */
@@ -2040,10 +2045,11 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
         /* For nested map values, propagate the inner type so inner literals
          * resolve their key/value C types correctly. */
         const char *inner_var_type = NULL;
-        if (decl_mt && decl_mt->value_type &&
-            strncmp(decl_mt->value_type, "map[", 4) == 0) {
+        bool inner_map = decl_mt && decl_mt->value_type && strncmp(decl_mt->value_type, "map[", 4) == 0;
+        if (inner_map || (decl_mt && decl_mt->value_type && decl_mt->value_type[0] == '[')) {
             inner_var_type = decl_mt->value_type;
         }
+        for (int i = 0; inner_map && i < count; i++) mark_empty_map(node->data.map_value.values[i]);
 
         for (int i = 0; i < count; i++) {
             emit_formatted(codegen, "{ %s _mk = ", c_key_type);
@@ -2136,6 +2142,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             for (int field_index = 0; field_index < sdecl_for_fields->data.struct_decl.field_count; field_index++) {
                 StructField *sf = &sdecl_for_fields->data.struct_decl.fields[field_index];
                 if (!sf->default_value) continue;
+                if (sf->type_name && strncmp(sf->type_name, "map[", 4) == 0) mark_empty_map(sf->default_value);
                 bool specified = false;
                 for (int si = 0; si < node->data.struct_value.count; si++) {
                     if (strcmp(node->data.struct_value.field_names[si], sf->name) == 0) {
@@ -5603,6 +5610,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
             else if (et->kind == TK_POINTER) c_elem = gray_type_to_c_codegen(codegen, elem_tn);
         }
         if (elem_tn) c_elem = array_storage_c_type(codegen, elem_tn);
+        if (elem_tn && strncmp(elem_tn, "map[", 4) == 0) mark_empty_map(node->data.call.args[1]);
         const char *owner = store_arena(codegen, node->data.call.args[0]);
         const char *alloc_arena = owner ? owner : "gray_default_arena";
         emit_formatted(codegen, "{ %s _av = ", c_elem);
@@ -6524,6 +6532,7 @@ static void emit_call_argument(CodeGen *codegen, const char *param_type, bool by
     }
     const char *saved = codegen->current_var_type;
     if (param_type && !strchr(param_type, '?')) codegen->current_var_type = param_type;
+    if (param_type && strncmp(param_type, "map[", 4) == 0) mark_empty_map(arg);
     GrayType *value_t = codegen->type_table ? typetable_get(codegen->type_table, arg) : NULL;
     bool sign_change = param_type && value_t && value_t->kind == TK_INT &&
         arg->kind != NODE_INT_VALUE && !is_bigint_type(type_name(value_t)) &&
@@ -7415,9 +7424,10 @@ static void emit_call_body(CodeGen *codegen, AstNode *node) {
     bool any_mut_param = false;
     if (target_func) {
         for (int i = node->data.call.arg_count; i < param_count; i++) {
-            if (target_func->data.func_decl.params[i].default_value) {
+            Param *param = &target_func->data.func_decl.params[i];
+            if (param->default_value) {
+                if (param->type_name && strncmp(param->type_name, "map[", 4) == 0) mark_empty_map(param->default_value);
                 uses_defaults = true;
-                break;
             }
         }
         for (int i = 0; i < target_func->data.func_decl.param_count; i++) {
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 051753d..3c3acd8 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -6952,6 +6952,9 @@ static GrayType *resolve_expression(TypeChecker *checker, AstNode *node) {
                 diagnostic_error_message(checker->diag, "E3041",
                     "cannot interpolate void expression; the function does not return a value",
                     NODE_FILE(checker, node), line, col, 0);
+            } else if (pt->kind == TK_ENUM && pt->name && typechecker_enum_is_tagged(checker, pt->name)) {
+                diagnostic_error_code_formatted(checker->diag, "E5038", NODE_FILE(checker, node), line, col, 0,
+                    enum_display_name(checker, pt->name), "interpolation");
             } else if (pt->kind == TK_STRUCT ||
                        pt->kind == TK_POINTER ||
                        is_func_type) {
-- 
2.43.0


From bb567e79e6161dbf2a6827d6768b2fcd0da1bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:25 +0000
Subject: [PATCH 91/96] fix: an array that cannot grow stops the program before
 the capacity overflows

---
 grayc/src/runtime/array.c | 4 ++--
 grayc/src/stdlib/arrays.c | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/grayc/src/runtime/array.c b/grayc/src/runtime/array.c
index 91af19b..67de05e 100644
--- a/grayc/src/runtime/array.c
+++ b/grayc/src/runtime/array.c
@@ -58,11 +58,11 @@ void gray_array_push(GrayArena *arena, GrayArray *arr, const void *value) {
     if (arr->iterating > 0)
         gray_panic_code("P0034", "cannot modify array during for_each iteration");
     if (arr->len >= arr->cap) {
-        int32_t new_cap = arr->cap < GRAY_ARRAY_MIN_CAP ? GRAY_ARRAY_MIN_CAP : arr->cap * 2;
-        if (new_cap < arr->cap) {
+        if (arr->cap > INT32_MAX / 2) {
             fprintf(stderr, "Grayscale runtime: array capacity overflow\n");
             exit(1);
         }
+        int32_t new_cap = arr->cap < GRAY_ARRAY_MIN_CAP ? GRAY_ARRAY_MIN_CAP : arr->cap * 2;
         void *new_data = gray_arena_alloc(arena, (size_t)new_cap * (size_t)arr->elem_size);
         if (arr->data && arr->len > 0) {
             memcpy(new_data, arr->data, (size_t)arr->len * (size_t)arr->elem_size);
diff --git a/grayc/src/stdlib/arrays.c b/grayc/src/stdlib/arrays.c
index 50c3bd0..7586412 100644
--- a/grayc/src/stdlib/arrays.c
+++ b/grayc/src/stdlib/arrays.c
@@ -141,6 +141,10 @@ void gray_arrays_clear(GrayArray *arr) {
 }
 
 void gray_arrays_fill(GrayArena *arena, GrayArray *arr, const void *value, int64_t count) {
+    if (count > INT32_MAX) {
+        fprintf(stderr, "Grayscale runtime: array capacity overflow\n");
+        exit(1);
+    }
     gray_arrays_clear(arr);
     for (int64_t i = 0; i < count; i++) {
         gray_array_push(arena, arr, value);
-- 
2.43.0


From 353d42a788d3768bde2ac92e378e7531a30e7c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:25 +0000
Subject: [PATCH 92/96] fix: json.pretty_print stops before writing an indent
 no string can hold

---
 grayc/src/stdlib/json.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grayc/src/stdlib/json.c b/grayc/src/stdlib/json.c
index 2de790d..b516764 100644
--- a/grayc/src/stdlib/json.c
+++ b/grayc/src/stdlib/json.c
@@ -341,8 +341,14 @@ bool gray_json_is_valid(GrayString text) {
 }
 
 static void pretty_break(FILE *out, int depth, int64_t indent) {
+    int64_t spaces;
+    if (__builtin_mul_overflow((int64_t)depth, indent, &spaces) ||
+        spaces > INT32_MAX - (int64_t)ftell(out)) {
+        fprintf(stderr, "Grayscale runtime: json.pretty_print() result exceeds maximum string length\n");
+        exit(1);
+    }
     fputc('\n', out);
-    for (int64_t i = 0; i < depth * indent; i++) fputc(' ', out);
+    for (int64_t i = 0; i < spaces; i++) fputc(' ', out);
 }
 
 /* Lay out valid JSON text over several lines */
-- 
2.43.0


From d05427936a502b2924a16c2f40c78213d3572a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:25 +0000
Subject: [PATCH 93/96] fix: time.elapsed_ms checks its subtraction

---
 grayc/src/stdlib/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grayc/src/stdlib/time.c b/grayc/src/stdlib/time.c
index 74817f8..44e5900 100644
--- a/grayc/src/stdlib/time.c
+++ b/grayc/src/stdlib/time.c
@@ -79,5 +79,5 @@ int64_t gray_time_tick(void) {
 }
 
 int64_t gray_time_elapsed_ms(int64_t start_tick) {
-    return (gray_time_tick() - start_tick) / NS_PER_MS;
+    return gray_sub_check(gray_time_tick(), start_tick, __FILE__, __LINE__) / NS_PER_MS;
 }
-- 
2.43.0


From 6d27c9fe44046b12fb2d5db3c80823072c538d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:25 +0000
Subject: [PATCH 94/96] fix: arrays.pair and maps.merge reject operands of
 different types

---
 grayc/src/typechecker/typechecker.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 3c3acd8..11c2d64 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2515,6 +2515,23 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                 diagnostic_error_code_formatted(checker->diag, "E12001", NODE_FILE(checker, arg0), arg0->token.line, arg0->token.column, 0, mfn);
             }
         }
+        /* maps.merge(a, b): both args must be maps with the same
+         * key/value types. */
+        if (strcmp(mfn, "merge") == 0 && node->data.call.arg_count >= 2) {
+            AstNode *a1 = node->data.call.args[1];
+            GrayType *t0 = typetable_get(checker->type_table, node->data.call.args[0]);
+            GrayType *t1 = typetable_get(checker->type_table, a1);
+            if (t0 && t1 && t0->kind == TK_MAP && t1->kind == TK_MAP &&
+                t0->key_type && t0->value_type && t1->key_type && t1->value_type &&
+                (strcmp(t0->key_type, t1->key_type) != 0 ||
+                 strcmp(t0->value_type, t1->value_type) != 0)) {
+                char *msg = typechecker_format(checker,
+                    "type mismatch: cannot merge map[%s:%s] with map[%s:%s]",
+                    t0->key_type, t0->value_type, t1->key_type, t1->value_type);
+                diagnostic_error_message(checker->diag, "E3001", msg,
+                    NODE_FILE(checker, a1), a1->token.line, a1->token.column, 0);
+            }
+        }
         /* maps.is_equal(a, b): both args must be maps with the same
          * key/value types, and key/value types must be primitive or
          * string. Composite element types would require recursive
@@ -2985,8 +3002,8 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                 }
             }
         }
-        /* E3001: arrays.concat element type mismatch */
-        if (strcmp(mfn, "concat") == 0 && node->data.call.arg_count >= 2) {
+        /* E3001: arrays.concat / arrays.pair element type mismatch */
+        if ((strcmp(mfn, "concat") == 0 || strcmp(mfn, "pair") == 0) && node->data.call.arg_count >= 2) {
             AstNode *a0 = node->data.call.args[0];
             AstNode *a1 = node->data.call.args[1];
             GrayType *t0 = typetable_get(checker->type_table, a0);
@@ -2996,8 +3013,8 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                 strcmp(t0->element_type, t1->element_type) != 0) {
                 char *msg = NULL;
                 msg = typechecker_format(checker,
-                    "type mismatch: cannot concat array of %s with array of %s",
-                    t0->element_type, t1->element_type);
+                    "type mismatch: cannot %s array of %s with array of %s",
+                    mfn, t0->element_type, t1->element_type);
                 diagnostic_error_message(checker->diag, "E3001", msg,
                     NODE_FILE(checker, a1), a1->token.line, a1->token.column, 0);
             }
-- 
2.43.0


From 78511841aabd5d5d2724e2303d83eeccb58dfa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 95/96] fix: crypto.random_hex stops when no string can hold
 the result

---
 grayc/src/stdlib/crypto.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grayc/src/stdlib/crypto.c b/grayc/src/stdlib/crypto.c
index e180362..b6d0a24 100644
--- a/grayc/src/stdlib/crypto.c
+++ b/grayc/src/stdlib/crypto.c
@@ -153,6 +153,11 @@ GrayString gray_crypto_random_hex(GrayArena *arena, int64_t length) {
         return (GrayString){empty, 0};
     }
 
+    if (length >= INT32_MAX) {
+        fprintf(stderr, "Grayscale runtime: crypto.random_hex() result exceeds maximum string length\n");
+        exit(1);
+    }
+
     int64_t nbytes = (length + 1) / 2;
     uint8_t *raw = (uint8_t *)gray_arena_alloc(arena, (size_t)nbytes);
 
-- 
2.43.0


From 92b3b4b4fb486e9c91e2ad60cce0cf0014410589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:40 +0000
Subject: [PATCH 96/96] fix: calls of arrays functions are checked for their
 number of arguments

---
 grayc/src/typechecker/typechecker.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 11c2d64..fa6ce58 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -851,6 +851,33 @@ static const StdlibFuncMeta stdlib_func_meta[] = {
     {"arrays", "map",    2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
     {"arrays", "reduce", 3, 3, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
     {"arrays", "remove", 2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "append", 2, 2, false, FT_NONE, 0, {{0}}},
+    {"arrays", "clear", 1, 1, false, FT_NONE, 0, {{0}}},
+    {"arrays", "concat", 2, 2, false, FT_NONE, 0, {{0}}},
+    {"arrays", "contains", 2, 2, false, FT_NONE, 0, {{0}}},
+    {"arrays", "count", 2, 2, false, FT_NONE, 0, {{0}}},
+    {"arrays", "deduplicate", 1, 1, false, FT_NONE, 0, {{0}}},
+    {"arrays", "fill", 3, 3, false, FT_NONE, 0, {{0}}},
+    {"arrays", "flatten", 1, 1, false, FT_NONE, 0, {{0}}},
+    {"arrays", "get_first", 1, 1, false, FT_NONE, 0, {{0}}},
+    {"arrays", "get_last", 1, 1, false, FT_NONE, 0, {{0}}},
+    {"arrays", "get_max", 1, 1, false, FT_NONE, 0, {{0}}},
+    {"arrays", "get_min", 1, 1, false, FT_NONE, 0, {{0}}},
+    {"arrays", "get_sum", 1, 1, false, FT_NONE, 0, {{0}}},
+    {"arrays", "index_of", 2, 2, false, FT_NONE, 0, {{0}}},
+    {"arrays", "insert_at", 3, 3, false, FT_NONE, 0, {{0}}},
+    {"arrays", "is_empty", 1, 1, false, FT_NONE, 0, {{0}}},
+    {"arrays", "is_equal", 2, 2, false, FT_NONE, 0, {{0}}},
+    {"arrays", "pair", 2, 2, false, FT_NONE, 0, {{0}}},
+    {"arrays", "prepend", 2, 2, false, FT_NONE, 0, {{0}}},
+    {"arrays", "remove_at", 2, 2, false, FT_NONE, 0, {{0}}},
+    {"arrays", "remove_first", 1, 1, false, FT_NONE, 0, {{0}}},
+    {"arrays", "remove_last", 1, 1, false, FT_NONE, 0, {{0}}},
+    {"arrays", "reverse", 1, 1, false, FT_NONE, 0, {{0}}},
+    {"arrays", "slice", 3, 3, false, FT_NONE, 0, {{0}}},
+    {"arrays", "sort_asc", 1, 1, false, FT_NONE, 0, {{0}}},
+    {"arrays", "sort_desc", 1, 1, false, FT_NONE, 0, {{0}}},
+    {"arrays", "split_every", 2, 2, false, FT_NONE, 0, {{0}}},
     /* atomic */
     {"atomic", "add",              2, 2, false, FT_NONE, 0, {}},
     {"atomic", "and",              2, 2, false, FT_NONE, 0, {}},
-- 
2.43.0

