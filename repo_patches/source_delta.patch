From 72643d4112e936b308f1c4cc57d7287f839f0812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 01/16] fix: exec3 overwrote the variable its first argument
 referred to

The second argument was evaluated into whatever the first one returned a
reference to, so exec3(x, 5, 1) stored 5 in x.
---
 projectm-eval/TreeFunctions.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index ecf986d..1c6aa44 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -330,6 +330,7 @@ prjm_eval_function_decl(exec3)
     PRJM_EVAL_F* value_ptr = &ctx->value;
 
     invoke_arg(0, &value_ptr);
+    value_ptr = &ctx->value;
     invoke_arg(1, &value_ptr);
     invoke_arg(2, ret_val);
 }
-- 
2.43.0


From 03f71b638062b116ca1e47bd1f059ee4599bb754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 02/16] fix: while overwrote the variable the previous
 iteration referred to

Reset the result slot before each iteration, as loop and the instruction list
already do.
---
 projectm-eval/TreeFunctions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 1c6aa44..4d0528e 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -289,6 +289,8 @@ prjm_eval_function_decl(execute_while)
     int loop_count_int = MAX_LOOP_COUNT;
     do
     {
+        ctx->value = .0;
+        value_ptr = &ctx->value;
         invoke_arg(0, &value_ptr);
     } while (fabs(*value_ptr) > close_factor_low && --loop_count_int);
 
-- 
2.43.0


From 3bcbe4e389dc070c49985f195bdc481b7f753382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 03/16] fix: freembuf freed memory still in use and overwrote
 its argument

The documentation says freembuf() neither frees memory nor resets its contents.
Freeing it made megabuf(0) = freembuf(0) write to freed memory, and
freembuf(x) stored 0 in x.
---
 projectm-eval/TreeFunctions.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 4d0528e..af43a9b 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -376,10 +376,15 @@ prjm_eval_function_decl(freembuf)
     assert_valid_ctx();
     assert(ctx->memory_buffer);
 
-    invoke_arg(0, ret_val);
+    ctx->value = .0;
+    PRJM_EVAL_F* index_ptr = &ctx->value;
 
-    prjm_eval_memory_free(ctx->memory_buffer);
+    invoke_arg(0, &index_ptr);
 
+    /*
+     * Documented as a no-op. Freeing blocks here would also leave references to memory locations
+     * dangling which were taken earlier in the same expression, e.g. "megabuf(0) = freembuf(0);"
+     */
     assign_ret_val(.0);
 }
 
-- 
2.43.0


From afbc97b74c7831940def7fcbe76740874f2391a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 04/16] fix: converting large values to integers was undefined
 behaviour

1e10 % -1 crashed with SIGFPE, loop(3e9, ...) did not run at all and memory
indices outside the int range were undefined. Clamp to the int limits instead.
---
 projectm-eval/CompilerTypes.h | 24 ++++++++++++++++++++++++
 projectm-eval/MemoryBuffer.c  | 10 +++++-----
 projectm-eval/TreeFunctions.c | 21 +++++++++++----------
 3 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/projectm-eval/CompilerTypes.h b/projectm-eval/CompilerTypes.h
index 93e5fdf..c36ca37 100644
--- a/projectm-eval/CompilerTypes.h
+++ b/projectm-eval/CompilerTypes.h
@@ -2,8 +2,32 @@
 
 #include "api/projectm-eval.h"
 
+#include <limits.h>
 #include <stdbool.h>
 
+/**
+ * @brief Converts a floating-point value to an integer, truncating any decimals.
+ * Values which cannot be represented are clamped to the nearest limit, as converting them directly is undefined.
+ * @param value The value to convert.
+ * @return The truncated value, INT_MIN or INT_MAX if the value is too small or large, or 0 if it is not a number.
+ */
+static inline int prjm_eval_float_to_int(double value)
+{
+    if (value != value)
+    {
+        return 0;
+    }
+    if (value >= INT_MAX)
+    {
+        return INT_MAX;
+    }
+    if (value <= INT_MIN)
+    {
+        return INT_MIN;
+    }
+    return (int) value;
+}
+
 struct prjm_eval_exptreenode;
 
 /**
diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 7e21609..b7f742d 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -112,9 +112,9 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
                                    PRJM_EVAL_F* src,
                                    PRJM_EVAL_F* len)
 {
-    int offset_dest = (int) (*dest + 0.0001);
-    int offset_src = (int) (*src + 0.0001);
-    int count = (int) (*len + 0.0001);
+    int offset_dest = prjm_eval_float_to_int(*dest + 0.0001);
+    int offset_src = prjm_eval_float_to_int(*src + 0.0001);
+    int count = prjm_eval_float_to_int(*len + 0.0001);
 
     // Trim to front if an offset is less than zero.
     if (offset_src < 0)
@@ -181,8 +181,8 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
                                   PRJM_EVAL_F* value,
                                   PRJM_EVAL_F* len)
 {
-    int offset_dest = (int) (*dest + 0.0001);
-    int count = (int) (*len + 0.0001);
+    int offset_dest = prjm_eval_float_to_int(*dest + 0.0001);
+    int count = prjm_eval_float_to_int(*len + 0.0001);
 
     // Trim to front
     if (offset_dest < 0)
diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index af43a9b..19249ba 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -263,7 +263,7 @@ prjm_eval_function_decl(execute_loop)
     PRJM_EVAL_F* value_ptr = &ctx->value;
     invoke_arg(0, &value_ptr);
 
-    int loop_count_int = (int) (*value_ptr);
+    int loop_count_int = prjm_eval_float_to_int(*value_ptr);
     /* Limit execution count */
     if (loop_count_int > MAX_LOOP_COUNT)
     {
@@ -361,7 +361,8 @@ prjm_eval_function_decl(mem)
     PRJM_EVAL_F* index_ptr = &ctx->value;
     invoke_arg(0, &index_ptr);
 
-    PRJM_EVAL_F* mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer, (int) (*index_ptr + 0.0001));
+    PRJM_EVAL_F* mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer,
+                                                      prjm_eval_float_to_int(*index_ptr + 0.0001));
     if (mem_addr)
     {
         assign_ret_ref(mem_addr);
@@ -607,13 +608,13 @@ prjm_eval_function_decl(mod)
     invoke_arg(0, &val1_ptr);
     invoke_arg(1, &val2_ptr);
 
-    int divisor = (int) *val2_ptr;
-    if (divisor == 0)
+    int divisor = prjm_eval_float_to_int(*val2_ptr);
+    if (divisor == 0 || divisor == -1) /* The remainder for -1 is always 0, but INT_MIN % -1 overflows. */
     {
         assign_ret_val(0.0);
         return;
     }
-    assign_ret_val((PRJM_EVAL_F) ((int) *val1_ptr % divisor));
+    assign_ret_val((PRJM_EVAL_F) (prjm_eval_float_to_int(*val1_ptr) % divisor));
 }
 
 prjm_eval_function_decl(band_op)
@@ -782,7 +783,7 @@ prjm_eval_function_decl(orop)
     invoke_arg(0, ret_val);
     invoke_arg(1, &val2_ptr);
 
-    assign_ret_val((PRJM_EVAL_F) ((int)(**ret_val) | (int)(*val2_ptr)));
+    assign_ret_val((PRJM_EVAL_F) (prjm_eval_float_to_int(**ret_val) | prjm_eval_float_to_int(*val2_ptr)));
 }
 
 prjm_eval_function_decl(andop)
@@ -795,7 +796,7 @@ prjm_eval_function_decl(andop)
     invoke_arg(0, ret_val);
     invoke_arg(1, &val2_ptr);
 
-    assign_ret_val((PRJM_EVAL_F) ((int)(**ret_val) & (int)(*val2_ptr)));
+    assign_ret_val((PRJM_EVAL_F) (prjm_eval_float_to_int(**ret_val) & prjm_eval_float_to_int(*val2_ptr)));
 }
 
 prjm_eval_function_decl(modop)
@@ -808,13 +809,13 @@ prjm_eval_function_decl(modop)
     invoke_arg(0, ret_val);
     invoke_arg(1, &val2_ptr);
 
-    int divisor = (int) *val2_ptr;
-    if (divisor == 0)
+    int divisor = prjm_eval_float_to_int(*val2_ptr);
+    if (divisor == 0 || divisor == -1) /* The remainder for -1 is always 0, but INT_MIN % -1 overflows. */
     {
         assign_ret_val(0.0);
         return;
     }
-    assign_ret_val((PRJM_EVAL_F) ((int)(**ret_val) % divisor));
+    assign_ret_val((PRJM_EVAL_F) (prjm_eval_float_to_int(**ret_val) % divisor));
 }
 
 prjm_eval_function_decl(powop)
-- 
2.43.0


From 6bf5c9bda966178be559e0c83bd0266032b2647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 05/16] fix: memcpy corrupted overlapping ranges and both
 overflowed on large ranges

Moving values to a higher index across a block boundary copied already
overwritten values. Trimming ranges with extreme offsets or counts overflowed
int, so ranges were dropped or trimmed incorrectly.
---
 projectm-eval/MemoryBuffer.c | 65 +++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index b7f742d..b402e4e 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -1,5 +1,6 @@
 #include "MemoryBuffer.h"
 
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -112,9 +113,11 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
                                    PRJM_EVAL_F* src,
                                    PRJM_EVAL_F* len)
 {
-    int offset_dest = prjm_eval_float_to_int(*dest + 0.0001);
-    int offset_src = prjm_eval_float_to_int(*src + 0.0001);
-    int count = prjm_eval_float_to_int(*len + 0.0001);
+    const int64_t max_count = PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK;
+
+    int64_t offset_dest = prjm_eval_float_to_int(*dest + 0.0001);
+    int64_t offset_src = prjm_eval_float_to_int(*src + 0.0001);
+    int64_t count = prjm_eval_float_to_int(*len + 0.0001);
 
     // Trim to front if an offset is less than zero.
     if (offset_src < 0)
@@ -130,20 +133,38 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
         offset_dest = 0;
     }
 
+    // Trim to back if either range exceeds the buffer.
+    if (count > max_count - offset_src)
+    {
+        count = max_count - offset_src;
+    }
+    if (count > max_count - offset_dest)
+    {
+        count = max_count - offset_dest;
+    }
+
+    // If the ranges overlap, start at the end that will not overwrite values which are still to be copied.
+    bool backwards = offset_dest > offset_src;
+
     PRJM_EVAL_F* src_pointer;
     PRJM_EVAL_F* dst_pointer;
 
     while (count > 0)
     {
-        int copy_length = count;
-
-        int max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
-        int max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        int64_t copy_length = count;
+        int64_t skip = 0;
+        int64_t max_dst_len;
+        int64_t max_src_len;
 
-        if (offset_dest >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK ||
-            offset_src >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK)
+        if (backwards)
         {
-            break;
+            max_dst_len = ((offset_dest + count - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
+            max_src_len = ((offset_src + count - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
+        }
+        else
+        {
+            max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+            max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
         }
 
         if (copy_length > max_dst_len)
@@ -155,21 +176,25 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
             copy_length = max_src_len;
         }
 
-        if (copy_length < 1)
+        if (backwards)
         {
-            break;
+            skip = count - copy_length;
         }
 
-        src_pointer = prjm_eval_memory_allocate(buffer, offset_src);
-        dst_pointer = prjm_eval_memory_allocate(buffer, offset_dest);
+        src_pointer = prjm_eval_memory_allocate(buffer, (int) (offset_src + skip));
+        dst_pointer = prjm_eval_memory_allocate(buffer, (int) (offset_dest + skip));
         if (!src_pointer || !dst_pointer)
         {
             break;
         }
 
         memmove(dst_pointer, src_pointer, sizeof(PRJM_EVAL_F) * copy_length);
-        offset_src += copy_length;
-        offset_dest += copy_length;
+
+        if (!backwards)
+        {
+            offset_src += copy_length;
+            offset_dest += copy_length;
+        }
         count -= copy_length;
     }
 
@@ -181,8 +206,8 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
                                   PRJM_EVAL_F* value,
                                   PRJM_EVAL_F* len)
 {
-    int offset_dest = prjm_eval_float_to_int(*dest + 0.0001);
-    int count = prjm_eval_float_to_int(*len + 0.0001);
+    int64_t offset_dest = prjm_eval_float_to_int(*dest + 0.0001);
+    int64_t count = prjm_eval_float_to_int(*len + 0.0001);
 
     // Trim to front
     if (offset_dest < 0)
@@ -209,13 +234,13 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
     PRJM_EVAL_F val = *value;
     while(count > 0)
     {
-        PRJM_EVAL_F* block_pointer = prjm_eval_memory_allocate(buffer, offset_dest);
+        PRJM_EVAL_F* block_pointer = prjm_eval_memory_allocate(buffer, (int) offset_dest);
         if (!block_pointer)
         {
             break;
         }
 
-        int block_count = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        int64_t block_count = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
         if (block_count > count)
         {
             block_count = count;
-- 
2.43.0


From 7950a606e3759994d1d79cc2b16dcf098acd4d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 06/16] fix: the built-in global memory was used after being
 destroyed

Creating a context after projectm_eval_memory_global_destroy() used the freed
buffer, and destroying it twice freed it twice.
---
 projectm-eval/MemoryBuffer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index b402e4e..ca37e35 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -12,6 +12,7 @@ static projectm_eval_mem_buffer static_global_memory;
 void prjm_eval_memory_destroy_global()
 {
     prjm_eval_memory_destroy_buffer(static_global_memory);
+    static_global_memory = NULL;
 }
 
 projectm_eval_mem_buffer prjm_eval_memory_global()
-- 
2.43.0


From 0c72cbc75830d5ec01b2ec423da8988dea7d77d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 07/16] fix: two threads could create the built-in global
 memory at the same time

One of the buffers was lost and the contexts did not share their memory.
---
 projectm-eval/MemoryBuffer.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index ca37e35..4ef7d39 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -21,7 +21,11 @@ projectm_eval_mem_buffer prjm_eval_memory_global()
     {
         projectm_eval_memory_host_lock_mutex();
 
-        static_global_memory = prjm_eval_memory_create_buffer();
+        /* Another thread may have created the buffer while this one waited for the lock. */
+        if (!static_global_memory)
+        {
+            static_global_memory = prjm_eval_memory_create_buffer();
+        }
 
         projectm_eval_memory_host_unlock_mutex();
     }
-- 
2.43.0


From fe83b9d681e283b981aea161d6d6397b09870af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 08/16] fix: the last compile error was leaked and not cleared
 by the next compilation

---
 projectm-eval/CompileContext.c    | 4 ++++
 projectm-eval/CompilerFunctions.c | 1 +
 2 files changed, 5 insertions(+)

diff --git a/projectm-eval/CompileContext.c b/projectm-eval/CompileContext.c
index 54fbd56..c3f6b85 100644
--- a/projectm-eval/CompileContext.c
+++ b/projectm-eval/CompileContext.c
@@ -88,6 +88,10 @@ prjm_eval_program_t* prjm_eval_compile_code(prjm_eval_compiler_context_t* cctx,
 {
     yyscan_t scanner;
 
+    /* Clear the error of the previous compilation. */
+    free(cctx->error.error);
+    memset(&cctx->error, 0, sizeof(cctx->error));
+
     prjm_eval_lex_init(&scanner);
     YY_BUFFER_STATE bufferState = prjm_eval__scan_string(code, scanner);
 
diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index 41be59e..3e2bde3 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -15,6 +15,7 @@
 /* Called by yyparse on error. */
 void prjm_eval_error(PRJM_EVAL_LTYPE* loc, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner, char const* s)
 {
+    free(cctx->error.error);
     cctx->error.error = strdup(s);
     cctx->error.line = loc->first_line;
     cctx->error.column_start = loc->first_column;
-- 
2.43.0


From 3872043efb54579b36d3c278354bafacb2b5cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 09/16] fix: failed compilations leaked names, arguments and
 nodes

---
 projectm-eval/Compiler.c          | 46 ++++++++++++++++++++++++++-----
 projectm-eval/Compiler.h          |  1 -
 projectm-eval/Compiler.y          |  9 ++++--
 projectm-eval/CompilerFunctions.c |  2 ++
 projectm-eval/CompilerFunctions.h | 10 +++++++
 5 files changed, 58 insertions(+), 10 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index b7ef064..5ae0eda 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -518,11 +518,11 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    77,    77,    78,    88,    92,    93,    97,   101,   102,
-     103,   107,   108,   114,   115,   118,   121,   122,   123,   130,
-     131,   132,   133,   134,   135,   136,   137,   140,   141,   142,
-     143,   144,   145,   148,   149,   152,   155,   158,   161,   162,
-     163,   164,   165,   166,   167,   168,   171,   172,   173,   176
+       0,    82,    82,    83,    93,    97,    98,   102,   106,   107,
+     108,   112,   113,   119,   120,   123,   126,   127,   128,   135,
+     136,   137,   138,   139,   140,   141,   142,   145,   146,   147,
+     148,   149,   150,   153,   154,   157,   160,   163,   166,   167,
+     168,   169,   170,   171,   172,   173,   176,   177,   178,   181
 };
 #endif
 
@@ -1569,7 +1569,39 @@ yydestruct (const char *yymsg,
   YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YY_USE (yykind);
+  switch (yykind)
+    {
+    case YYSYMBOL_VAR: /* VAR  */
+            { free(((*yyvaluep).VAR)); }
+        break;
+
+    case YYSYMBOL_FUNC: /* FUNC  */
+            { free(((*yyvaluep).FUNC)); }
+        break;
+
+    case YYSYMBOL_function: /* function  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).function)); }
+        break;
+
+    case YYSYMBOL_46_function_arglist: /* function-arglist  */
+            { prjm_eval_compiler_destroy_arglist(((*yyvaluep).yykind_46)); }
+        break;
+
+    case YYSYMBOL_parentheses: /* parentheses  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).parentheses)); }
+        break;
+
+    case YYSYMBOL_48_instruction_list: /* instruction-list  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).yykind_48)); }
+        break;
+
+    case YYSYMBOL_expression: /* expression  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).expression)); }
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1894,7 +1926,7 @@ yyreduce:
     break;
 
   case 4: /* function: FUNC '(' function-arglist ')'  */
-                                            { PRJM_EVAL_FUNC((yyval.function), (yyvsp[-3].FUNC), (yyvsp[-1].yykind_46)); free((yyvsp[-3].FUNC)); }
+                                            { PRJM_EVAL_FUNC((yyval.function), (yyvsp[-3].FUNC), (yyvsp[-1].yykind_46)) /* Frees name. */ }
     break;
 
   case 5: /* function-arglist: instruction-list  */
diff --git a/projectm-eval/Compiler.h b/projectm-eval/Compiler.h
index ae5e1c3..82053b8 100644
--- a/projectm-eval/Compiler.h
+++ b/projectm-eval/Compiler.h
@@ -103,7 +103,6 @@ union PRJM_EVAL_STYPE
   char* VAR;                               /* VAR  */
   char* FUNC;                              /* FUNC  */
   prjm_eval_compiler_arg_list_t* yykind_46; /* function-arglist  */
-  prjm_eval_compiler_node_t* program;      /* program  */
   prjm_eval_compiler_node_t* function;     /* function  */
   prjm_eval_compiler_node_t* parentheses;  /* parentheses  */
   prjm_eval_compiler_node_t* yykind_48;    /* instruction-list  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index b035e0b..896af51 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -44,9 +44,14 @@ typedef void* yyscan_t;
 /* Value types */
 %token <PRJM_EVAL_F> NUM
 %token <char*> VAR FUNC
-%nterm <prjm_eval_compiler_node_t*> function program instruction-list expression parentheses
+%nterm <prjm_eval_compiler_node_t*> function instruction-list expression parentheses
 %nterm <prjm_eval_compiler_arg_list_t*> function-arglist
 
+/* Release everything the parser discards on errors. */
+%destructor { free($$); } <char*>
+%destructor { prjm_eval_compiler_destroy_node($$); } <prjm_eval_compiler_node_t*>
+%destructor { prjm_eval_compiler_destroy_arglist($$); } <prjm_eval_compiler_arg_list_t*>
+
 /* Operator precedence, lowest first, highest last. */
 %precedence ','
 %right '='
@@ -85,7 +90,7 @@ program:
 
 /* Functions */
 function:
-  FUNC[name] '(' function-arglist[args] ')' { PRJM_EVAL_FUNC($$, $name, $args); free($name); }
+  FUNC[name] '(' function-arglist[args] ')' { PRJM_EVAL_FUNC($$, $name, $args) /* Frees name. */ }
 ;
 
 function-arglist:
diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index 3e2bde3..0299805 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -127,6 +127,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
     if (!func)
     {
         PRJM_EVAL_FORMAT_ERROR(*error, "Unknown function \"%s\".", name)
+        prjm_eval_compiler_destroy_arglist(arglist);
         return NULL;
     }
 
@@ -134,6 +135,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
     {
         PRJM_EVAL_FORMAT_ERROR(*error, "Invalid argument count for function \"%s\": Expected %d, but %d given.",
                               name, func->arg_count, arglist->count)
+        prjm_eval_compiler_destroy_arglist(arglist);
         return NULL;
     }
 
diff --git a/projectm-eval/CompilerFunctions.h b/projectm-eval/CompilerFunctions.h
index 43c1215..f04da35 100644
--- a/projectm-eval/CompilerFunctions.h
+++ b/projectm-eval/CompilerFunctions.h
@@ -6,6 +6,7 @@
 #define PRJM_EVAL_FUNC(ret, name, args) {\
         char* errval = NULL; \
         ret = prjm_eval_compiler_create_function(cctx, name, args, &errval); \
+        free(name); \
         if(errval) { yyerror(&yyloc, cctx, scanner, errval); free(errval); YYERROR; }\
     }
 
@@ -70,6 +71,15 @@ prjm_eval_function_def_t* prjm_eval_compiler_get_function(prjm_eval_compiler_con
 prjm_eval_compiler_arg_list_t* prjm_eval_compiler_add_argument(prjm_eval_compiler_arg_list_t* arglist,
                                                               prjm_eval_compiler_node_t* arg);
 
+/**
+ * @brief Creates a new compiler node calling the function with the given name.
+ * @note The passed @a arglist is destroyed by this function, even if it fails. Don't use the pointer afterwards.
+ * @param cctx The compiler context.
+ * @param name The name of the function to call.
+ * @param arglist A list of arguments for the function.
+ * @param error Receives a newly allocated error message on failure.
+ * @return A new node with the freshly generated expression, or NULL on failure.
+ */
 prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler_context_t* cctx,
                                                              const char* name,
                                                              prjm_eval_compiler_arg_list_t* arglist,
-- 
2.43.0


From b640eed81da72a5e0478ee5a3f837fb9e43a1a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 10/16] fix: && and || always evaluated their right operand

Use the documented _and and _or functions, which skip it if the left operand
already decides the result and treat every non-zero value as true.
---
 projectm-eval/Compiler.c | 4 ++--
 projectm-eval/Compiler.y | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index 5ae0eda..61b691b 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -2040,11 +2040,11 @@ yyreduce:
     break;
 
   case 33: /* expression: expression BOOLOR expression  */
-                                               { PRJM_EVAL_FUNC2((yyval.expression), "bor", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                               { PRJM_EVAL_FUNC2((yyval.expression), "_or", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 34: /* expression: expression BOOLAND expression  */
-                                               { PRJM_EVAL_FUNC2((yyval.expression), "band", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                               { PRJM_EVAL_FUNC2((yyval.expression), "_and", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 35: /* expression: expression '=' expression  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index 896af51..80be1db 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -150,8 +150,8 @@ expression:
 | expression[left] '>' expression[right]       { PRJM_EVAL_FUNC2($$, "_above", $left, $right) }
 
 /* Boolean operators */
-| expression[left] BOOLOR expression[right]    { PRJM_EVAL_FUNC2($$, "bor", $left, $right) }
-| expression[left] BOOLAND expression[right]   { PRJM_EVAL_FUNC2($$, "band", $left, $right) }
+| expression[left] BOOLOR expression[right]    { PRJM_EVAL_FUNC2($$, "_or", $left, $right) }
+| expression[left] BOOLAND expression[right]   { PRJM_EVAL_FUNC2($$, "_and", $left, $right) }
 
 /* Assignment operator */
 | expression[left] '=' expression[right]           { PRJM_EVAL_FUNC2($$, "_set", $left, $right) }
-- 
2.43.0


From 31759d93a6f0eeac027ee208d0325f0440352c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 11/16] fix: the & and | operators calculated the modulo and
 the power

The scanner returned the tokens of % and ^ for them, and the grammar mapped
them to boolean functions. They are documented as bitwise operators on the
integer values.
---
 projectm-eval/Compiler.c      |  4 ++--
 projectm-eval/Compiler.y      |  4 ++--
 projectm-eval/Scanner.c       |  9 ++++-----
 projectm-eval/Scanner.h       |  5 ++---
 projectm-eval/Scanner.l       |  4 ++--
 projectm-eval/TreeFunctions.c | 32 ++++++++++++++++++++++++++++++++
 projectm-eval/TreeFunctions.h |  2 ++
 7 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index 61b691b..9330311 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -2084,11 +2084,11 @@ yyreduce:
     break;
 
   case 44: /* expression: expression '|' expression  */
-                                         { PRJM_EVAL_FUNC2((yyval.expression), "bor", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                         { PRJM_EVAL_FUNC2((yyval.expression), "/*or*/", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 45: /* expression: expression '&' expression  */
-                                         { PRJM_EVAL_FUNC2((yyval.expression), "band", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                         { PRJM_EVAL_FUNC2((yyval.expression), "/*and*/", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 46: /* expression: '-' expression  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index 80be1db..072e3ad 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -169,8 +169,8 @@ expression:
 | expression[left] '/' expression[right] { PRJM_EVAL_FUNC2($$, "_div", $left, $right) }
 | expression[left] '%' expression[right] { PRJM_EVAL_FUNC2($$, "_mod", $left, $right) }
 | expression[left] '^' expression[right] { PRJM_EVAL_FUNC2($$, "pow", $left, $right) }
-| expression[left] '|' expression[right] { PRJM_EVAL_FUNC2($$, "bor", $left, $right) }
-| expression[left] '&' expression[right] { PRJM_EVAL_FUNC2($$, "band", $left, $right) }
+| expression[left] '|' expression[right] { PRJM_EVAL_FUNC2($$, "/*or*/", $left, $right) }
+| expression[left] '&' expression[right] { PRJM_EVAL_FUNC2($$, "/*and*/", $left, $right) }
 
 /* Unary operators */
 | '-' expression[value] %prec NEG        { PRJM_EVAL_FUNC1($$, "_neg", $value) }
diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index d54c3e8..dd76dc1 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -347,7 +347,6 @@ struct prjm_eval_scanner_state;
 /* First, we deal with  platform-specific or compiler-specific issues. */
 
 /* begin standard C headers. */
-
 #include <stdio.h>
 #include <string.h>
 #include <errno.h>
@@ -364,8 +363,8 @@ struct prjm_eval_scanner_state;
 
 #if defined (__STDC_VERSION__) && __STDC_VERSION__ >= 199901L
 
-/* C++ systems might need __STDC_LIMIT_MACROS defined before including
- * <stdint.h>, if you want the limit (max/min) macros for int types.
+/* C99 says to define __STDC_LIMIT_MACROS before including stdint.h,
+ * if you want the limit (max/min) macros for int types. 
  */
 #ifndef __STDC_LIMIT_MACROS
 #define __STDC_LIMIT_MACROS 1
@@ -1546,11 +1545,11 @@ YY_RULE_SETUP
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-{ return '%'; }
+{ return '&'; }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return '^'; }
+{ return '|'; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
diff --git a/projectm-eval/Scanner.h b/projectm-eval/Scanner.h
index 0ef2aac..f31467a 100644
--- a/projectm-eval/Scanner.h
+++ b/projectm-eval/Scanner.h
@@ -351,7 +351,6 @@ struct prjm_eval_scanner_state;
 /* First, we deal with  platform-specific or compiler-specific issues. */
 
 /* begin standard C headers. */
-
 #include <stdio.h>
 #include <string.h>
 #include <errno.h>
@@ -368,8 +367,8 @@ struct prjm_eval_scanner_state;
 
 #if defined (__STDC_VERSION__) && __STDC_VERSION__ >= 199901L
 
-/* C++ systems might need __STDC_LIMIT_MACROS defined before including
- * <stdint.h>, if you want the limit (max/min) macros for int types.
+/* C99 says to define __STDC_LIMIT_MACROS before including stdint.h,
+ * if you want the limit (max/min) macros for int types. 
  */
 #ifndef __STDC_LIMIT_MACROS
 #define __STDC_LIMIT_MACROS 1
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 883c55b..5dbdf35 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -105,8 +105,8 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 "/"                 { return '/'; }
 "%"                 { return '%'; }
 "^"	                { return '^'; }
-"&"                 { return '%'; }
-"|"	                { return '^'; }
+"&"                 { return '&'; }
+"|"	                { return '|'; }
 "!"	                { return '!'; }
 "="	                { return '='; }
 
diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 19249ba..e3b3cd2 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -21,6 +21,8 @@ static prjm_eval_function_def_t intrinsic_function_table[] = {
     { "/*const*/", prjm_eval_func_const,         0, true,  false },
     { "/*var*/",   prjm_eval_func_var,           0, false, false },
     { "/*list*/",  prjm_eval_func_execute_list,  1, true,  false },
+    { "/*and*/",   prjm_eval_func_bitand,        2, true,  false },
+    { "/*or*/",    prjm_eval_func_bitor,         2, true,  false },
 
     { "if",        prjm_eval_func_if,            3, true,  false },
     { "_if",       prjm_eval_func_if,            3, true,  false },
@@ -703,6 +705,36 @@ prjm_eval_function_decl(bor_func)
     assign_ret_val(fabs(*val1_ptr) > close_factor || fabs(*val2_ptr) > close_factor ? 1.0 : 0.0);
 }
 
+prjm_eval_function_decl(bitand)
+{
+    assert_valid_ctx();
+
+    PRJM_EVAL_F val1 = .0;
+    PRJM_EVAL_F val2 = .0;
+    PRJM_EVAL_F* val1_ptr = &val1;
+    PRJM_EVAL_F* val2_ptr = &val2;
+
+    invoke_arg(0, &val1_ptr);
+    invoke_arg(1, &val2_ptr);
+
+    assign_ret_val((PRJM_EVAL_F) (prjm_eval_float_to_int(*val1_ptr) & prjm_eval_float_to_int(*val2_ptr)));
+}
+
+prjm_eval_function_decl(bitor)
+{
+    assert_valid_ctx();
+
+    PRJM_EVAL_F val1 = .0;
+    PRJM_EVAL_F val2 = .0;
+    PRJM_EVAL_F* val1_ptr = &val1;
+    PRJM_EVAL_F* val2_ptr = &val2;
+
+    invoke_arg(0, &val1_ptr);
+    invoke_arg(1, &val2_ptr);
+
+    assign_ret_val((PRJM_EVAL_F) (prjm_eval_float_to_int(*val1_ptr) | prjm_eval_float_to_int(*val2_ptr)));
+}
+
 prjm_eval_function_decl(neg)
 {
     assert_valid_ctx();
diff --git a/projectm-eval/TreeFunctions.h b/projectm-eval/TreeFunctions.h
index db0dea2..83da163 100644
--- a/projectm-eval/TreeFunctions.h
+++ b/projectm-eval/TreeFunctions.h
@@ -60,6 +60,8 @@ prjm_eval_function_decl(band_op);
 prjm_eval_function_decl(bor_op);
 prjm_eval_function_decl(band_func);
 prjm_eval_function_decl(bor_func);
+prjm_eval_function_decl(bitand);
+prjm_eval_function_decl(bitor);
 prjm_eval_function_decl(neg);
 
 /* Compound assignment operators */
-- 
2.43.0


From f4cc31330b61b179850957aff7bb9940df716033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 12/16] fix: $PI, $E and $PHI were rounded to single precision

---
 projectm-eval/Scanner.c | 6 +++---
 projectm-eval/Scanner.l | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index dd76dc1..bf689c2 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -1421,15 +1421,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-{ yylval->NUM = 3.141592653589793f; return NUM; }
+{ yylval->NUM = 3.141592653589793; return NUM; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-{ yylval->NUM = 2.71828183f; return NUM; }
+{ yylval->NUM = 2.71828183; return NUM; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-{ yylval->NUM = 1.61803399f; return NUM; }
+{ yylval->NUM = 1.61803399; return NUM; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 5dbdf35..93d3bce 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -61,9 +61,9 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
                         return NUM;
                         }
 "$'"."'"            { yylval->NUM = *(char*)(yytext + 2); return NUM; }
-"$"(?i:pi)          { yylval->NUM = 3.141592653589793f; return NUM; }
-"$"[eE]             { yylval->NUM = 2.71828183f; return NUM; }
-"$"(?i:phi)         { yylval->NUM = 1.61803399f; return NUM; }
+"$"(?i:pi)          { yylval->NUM = 3.141592653589793; return NUM; }
+"$"[eE]             { yylval->NUM = 2.71828183; return NUM; }
+"$"(?i:phi)         { yylval->NUM = 1.61803399; return NUM; }
 
 (?i:gmem)           { return GMEM; }
 
-- 
2.43.0


From 293e866d3019ab56bb224c8b2a2a2dd698ce222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 13/16] fix: the text inside block comments was printed to
 stdout

---
 projectm-eval/Scanner.c | 128 +++++++++++++++++++++-------------------
 projectm-eval/Scanner.l |   1 +
 2 files changed, 67 insertions(+), 62 deletions(-)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index bf689c2..52a045a 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -754,8 +754,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -765,14 +765,14 @@ struct yy_trans_info
 	};
 static const flex_int16_t yy_accept[80] =
     {   0,
-        0,    0,    0,    0,    0,    0,   52,   50,   49,   49,
-       39,   50,   35,   37,   41,   42,   33,   31,   47,   32,
-       50,   34,   13,   46,   48,   29,   40,   30,   45,   14,
-       14,   43,   44,   36,   38,   51,    3,   51,    6,    5,
-       26,    0,   10,    0,    0,   17,   28,   19,   21,   15,
-       16,   13,    1,    4,   20,   13,   13,    0,   24,   23,
-       25,   14,   14,   22,   18,   27,    2,    0,    0,    9,
-        7,   13,    0,   13,   14,    8,   11,   12,    0
+        0,    0,    0,    0,    0,    0,   53,   51,   50,   50,
+       40,   51,   36,   38,   42,   43,   34,   32,   48,   33,
+       51,   35,   14,   47,   49,   30,   41,   31,   46,   15,
+       15,   44,   45,   37,   39,    4,    3,    4,    7,    6,
+       27,    0,   11,    0,    0,   18,   29,   20,   22,   16,
+       17,   14,    1,    5,   21,   14,   14,    0,   25,   24,
+       26,   15,   15,   23,   19,   28,    2,    0,    0,   10,
+        8,   14,    0,   14,   15,    9,   12,   13,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -888,11 +888,11 @@ static const flex_int16_t yy_chk[169] =
 
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
+static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
-0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
+0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
     0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -1395,19 +1395,23 @@ YY_RULE_SETUP
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-{ BEGIN(IL_COMMENT); }
+{ }
 	YY_BREAK
 case 5:
-/* rule 5 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); }
+{ BEGIN(IL_COMMENT); }
 	YY_BREAK
 case 6:
+/* rule 6 can match eol */
+YY_RULE_SETUP
+{ BEGIN(INITIAL); }
+	YY_BREAK
+case 7:
 YY_RULE_SETUP
 { }
 	YY_BREAK
 /* Constants */
-case 7:
+case 8:
 YY_RULE_SETUP
 {
                         char* p = yytext + 2;
@@ -1415,34 +1419,34 @@ YY_RULE_SETUP
                         return NUM;
                         }
 	YY_BREAK
-case 8:
+case 9:
 YY_RULE_SETUP
 { yylval->NUM = *(char*)(yytext + 2); return NUM; }
 	YY_BREAK
-case 9:
+case 10:
 YY_RULE_SETUP
 { yylval->NUM = 3.141592653589793; return NUM; }
 	YY_BREAK
-case 10:
+case 11:
 YY_RULE_SETUP
 { yylval->NUM = 2.71828183; return NUM; }
 	YY_BREAK
-case 11:
+case 12:
 YY_RULE_SETUP
 { yylval->NUM = 1.61803399; return NUM; }
 	YY_BREAK
-case 12:
+case 13:
 YY_RULE_SETUP
 { return GMEM; }
 	YY_BREAK
-case 13:
+case 14:
 YY_RULE_SETUP
 {
                         yylval->NUM = atof(yytext);
                         return NUM;
                     }
 	YY_BREAK
-case 14:
+case 15:
 YY_RULE_SETUP
 {
                         if (prjm_eval_compiler_name_is_function(cctx, yytext))
@@ -1455,156 +1459,156 @@ YY_RULE_SETUP
                     }
 	YY_BREAK
 /* Operators */
-case 15:
+case 16:
 YY_RULE_SETUP
 { return ADDOP; }
 	YY_BREAK
-case 16:
+case 17:
 YY_RULE_SETUP
 { return SUBOP; }
 	YY_BREAK
-case 17:
+case 18:
 YY_RULE_SETUP
 { return MODOP; }
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
 { return OROP; }
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
 { return ANDOP; }
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
 { return DIVOP; }
 	YY_BREAK
-case 21:
+case 22:
 YY_RULE_SETUP
 { return MULOP; }
 	YY_BREAK
-case 22:
+case 23:
 YY_RULE_SETUP
 { return POWOP; }
 	YY_BREAK
-case 23:
+case 24:
 YY_RULE_SETUP
 { return EQUAL; }
 	YY_BREAK
-case 24:
+case 25:
 YY_RULE_SETUP
 { return BELEQ; }
 	YY_BREAK
-case 25:
+case 26:
 YY_RULE_SETUP
 { return ABOEQ; }
 	YY_BREAK
-case 26:
+case 27:
 YY_RULE_SETUP
 { return NOTEQ; }
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
 { return BOOLOR; }
 	YY_BREAK
-case 28:
+case 29:
 YY_RULE_SETUP
 { return BOOLAND; }
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
 { return '<'; }
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
 { return '>'; }
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
 { return '+'; }
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
 { return '-'; }
 	YY_BREAK
-case 33:
+case 34:
 YY_RULE_SETUP
 { return '*'; }
 	YY_BREAK
-case 34:
+case 35:
 YY_RULE_SETUP
 { return '/'; }
 	YY_BREAK
-case 35:
+case 36:
 YY_RULE_SETUP
 { return '%'; }
 	YY_BREAK
-case 36:
+case 37:
 YY_RULE_SETUP
 { return '^'; }
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
 { return '&'; }
 	YY_BREAK
-case 38:
+case 39:
 YY_RULE_SETUP
 { return '|'; }
 	YY_BREAK
-case 39:
+case 40:
 YY_RULE_SETUP
 { return '!'; }
 	YY_BREAK
-case 40:
+case 41:
 YY_RULE_SETUP
 { return '='; }
 	YY_BREAK
 /* Syntactic elements */
-case 41:
+case 42:
 YY_RULE_SETUP
 { return '('; }
 	YY_BREAK
-case 42:
+case 43:
 YY_RULE_SETUP
 { return ')'; }
 	YY_BREAK
-case 43:
+case 44:
 YY_RULE_SETUP
 { return '['; }
 	YY_BREAK
-case 44:
+case 45:
 YY_RULE_SETUP
 { return ']'; }
 	YY_BREAK
-case 45:
+case 46:
 YY_RULE_SETUP
 { return '?'; }
 	YY_BREAK
-case 46:
+case 47:
 YY_RULE_SETUP
 { return ':'; }
 	YY_BREAK
-case 47:
+case 48:
 YY_RULE_SETUP
 { return ','; }
 	YY_BREAK
 /* Expression terminator */
-case 48:
+case 49:
 YY_RULE_SETUP
 { return ';'; }
 	YY_BREAK
 /* Ignored whitespace */
-case 49:
-/* rule 49 can match eol */
+case 50:
+/* rule 50 can match eol */
 YY_RULE_SETUP
 { }
 	YY_BREAK
 /* All other tokens are invalid */
-case 50:
+case 51:
 YY_RULE_SETUP
 { return PRJM_EVAL_UNDEF; }
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
 ECHO;
 	YY_BREAK
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 93d3bce..0973e1e 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -49,6 +49,7 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 "/*"                { BEGIN(ML_COMMENT); }
 <ML_COMMENT>"*/"    { BEGIN(INITIAL); }
 <ML_COMMENT>\n      { }
+<ML_COMMENT>.       { }
 
 "//"                { BEGIN(IL_COMMENT); }
 <IL_COMMENT>\n      { BEGIN(INITIAL); }
-- 
2.43.0


From 90c2f1f441c3302de389360842ceeff0ddcce161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 14/16] fix: character constants above 127 were negative

---
 projectm-eval/Scanner.c | 2 +-
 projectm-eval/Scanner.l | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 52a045a..74d507d 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -1421,7 +1421,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-{ yylval->NUM = *(char*)(yytext + 2); return NUM; }
+{ yylval->NUM = *(unsigned char*)(yytext + 2); return NUM; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 0973e1e..a25b08b 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -61,7 +61,7 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
                         yylval->NUM = (PRJM_EVAL_F)strtoul(yytext + 2, &p, 16);
                         return NUM;
                         }
-"$'"."'"            { yylval->NUM = *(char*)(yytext + 2); return NUM; }
+"$'"."'"            { yylval->NUM = *(unsigned char*)(yytext + 2); return NUM; }
 "$"(?i:pi)          { yylval->NUM = 3.141592653589793; return NUM; }
 "$"[eE]             { yylval->NUM = 2.71828183; return NUM; }
 "$"(?i:phi)         { yylval->NUM = 1.61803399; return NUM; }
-- 
2.43.0


From 8aa7cc9abe3e334564e26384719c01606d1ff716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 15/16] fix: memory index -1 addressed the first cell

Adding the rounding tolerance of 0.0001 to a negative index moved the values
between -1.0001 and -0.9999 to cell 0: writing to megabuf(-1), which is outside
the buffer, changed megabuf(0), and memcpy/memset ranges with a negative offset
were shifted by one. The tolerance is now applied away from zero.
---
 projectm-eval/CompilerTypes.h | 12 ++++++++++++
 projectm-eval/MemoryBuffer.c  |  6 +++---
 projectm-eval/TreeFunctions.c |  2 +-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/projectm-eval/CompilerTypes.h b/projectm-eval/CompilerTypes.h
index c36ca37..c321ce9 100644
--- a/projectm-eval/CompilerTypes.h
+++ b/projectm-eval/CompilerTypes.h
@@ -28,6 +28,18 @@ static inline int prjm_eval_float_to_int(double value)
     return (int) value;
 }
 
+/**
+ * @brief Converts a value to a memory index or offset.
+ * The decimals are truncated, with a small tolerance for values which are only just below the next integer (in the
+ * direction away from zero).
+ * @param value The value to convert.
+ * @return The index, which may be outside the valid range.
+ */
+static inline int prjm_eval_memory_index(double value)
+{
+    return prjm_eval_float_to_int(value < 0 ? value - 0.0001 : value + 0.0001);
+}
+
 struct prjm_eval_exptreenode;
 
 /**
diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 4ef7d39..5f66408 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -120,8 +120,8 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
 {
     const int64_t max_count = PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK;
 
-    int64_t offset_dest = prjm_eval_float_to_int(*dest + 0.0001);
-    int64_t offset_src = prjm_eval_float_to_int(*src + 0.0001);
+    int64_t offset_dest = prjm_eval_memory_index(*dest);
+    int64_t offset_src = prjm_eval_memory_index(*src);
     int64_t count = prjm_eval_float_to_int(*len + 0.0001);
 
     // Trim to front if an offset is less than zero.
@@ -211,7 +211,7 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
                                   PRJM_EVAL_F* value,
                                   PRJM_EVAL_F* len)
 {
-    int64_t offset_dest = prjm_eval_float_to_int(*dest + 0.0001);
+    int64_t offset_dest = prjm_eval_memory_index(*dest);
     int64_t count = prjm_eval_float_to_int(*len + 0.0001);
 
     // Trim to front
diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index e3b3cd2..54bd7ad 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -364,7 +364,7 @@ prjm_eval_function_decl(mem)
     invoke_arg(0, &index_ptr);
 
     PRJM_EVAL_F* mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer,
-                                                      prjm_eval_float_to_int(*index_ptr + 0.0001));
+                                                      prjm_eval_memory_index(*index_ptr));
     if (mem_addr)
     {
         assign_ret_ref(mem_addr);
-- 
2.43.0


From c8e8ea9ad4e4e09dafc7b3651bf6c1ce42438920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 16/16] fix: a memory index that is not a number addressed the
 first cell

---
 projectm-eval/CompilerTypes.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/projectm-eval/CompilerTypes.h b/projectm-eval/CompilerTypes.h
index c321ce9..2e55039 100644
--- a/projectm-eval/CompilerTypes.h
+++ b/projectm-eval/CompilerTypes.h
@@ -33,10 +33,14 @@ static inline int prjm_eval_float_to_int(double value)
  * The decimals are truncated, with a small tolerance for values which are only just below the next integer (in the
  * direction away from zero).
  * @param value The value to convert.
- * @return The index, which may be outside the valid range.
+ * @return The index, which may be outside the valid range and always is if the value is not a number.
  */
 static inline int prjm_eval_memory_index(double value)
 {
+    if (value != value)
+    {
+        return INT_MIN;
+    }
     return prjm_eval_float_to_int(value < 0 ? value - 0.0001 : value + 0.0001);
 }
 
-- 
2.43.0

