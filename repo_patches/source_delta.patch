From 6134684a8a662357a64916217c39960323cb2594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 01/47] fix: report failed writes of generated files instead of
 exiting successfully

---
 cocogen/generator/generator.c | 33 +++++++++++++++++++++++++++------
 cocogen/generator/generator.h |  1 +
 cocogen/main.c                |  1 +
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/cocogen/generator/generator.c b/cocogen/generator/generator.c
index a538476..06b8b25 100644
--- a/cocogen/generator/generator.c
+++ b/cocogen/generator/generator.c
@@ -6,10 +6,12 @@
 #include "palm/memory.h"
 #include "palm/str.h"
 #include <assert.h>
+#include <errno.h>
 #include <globals.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 typedef struct GeneratorContext {
     FILE *fp;
@@ -38,12 +40,25 @@ void GNindentDecrease(GeneratorContext *ctx)
     ctx->indent_level--;
 }
 
+static void write_error()
+{
+    fprintf(stderr, "Could not write generated file: %s\n", strerror(errno));
+    exit(1);
+}
+
+void GNcloseFile(GeneratorContext *ctx)
+{
+    FILE *fp = ctx->fp;
+    ctx->fp = NULL;
+    if (fp && fclose(fp) != 0) {
+        write_error();
+    }
+}
+
 void GNopenFile(GeneratorContext *ctx, const char *filename)
 {
     printf("Opening: %s\n", filename);
-    if (ctx->fp) {
-        fclose(ctx->fp);
-    }
+    GNcloseFile(ctx);
     ctx->fp = fopen(filename, "w");
     if (!ctx->fp) {
         fprintf(stderr, "Could not open file: %s\n", filename);
@@ -103,10 +118,14 @@ void GNprint(GeneratorContext *ctx, unsigned int style, const char *fmt, ...)
     va_start(format_args, fmt);
 
     if (!(style & GN_NO_WS) && ctx->indent_level > 0) {
-        fprintf(ctx->fp, "%*c", ctx->indent_level * ctx->indent_size, ' ');
+        if (fprintf(ctx->fp, "%*c", ctx->indent_level * ctx->indent_size, ' ') < 0) {
+            write_error();
+        }
     }
 
-    vfprintf(ctx->fp, fmt, format_args);
+    if (vfprintf(ctx->fp, fmt, format_args) < 0) {
+        write_error();
+    }
     va_end(format_args);
 
     if (style & GN_INCREASE_WS_AFTER) {
@@ -116,5 +135,7 @@ void GNprint(GeneratorContext *ctx, unsigned int style, const char *fmt, ...)
         GNindentDecrease(ctx);
     }
 
-    fflush(ctx->fp);
+    if (fflush(ctx->fp) != 0) {
+        write_error();
+    }
 }
diff --git a/cocogen/generator/generator.h b/cocogen/generator/generator.h
index fa00710..e2ab24a 100644
--- a/cocogen/generator/generator.h
+++ b/cocogen/generator/generator.h
@@ -22,5 +22,6 @@ void GNopenSourceFile(GeneratorContext *ctx, const char *filename);
 void GNopenAGDotFile(GeneratorContext *ctx, const char *filename);
 void GNopenUserFile(GeneratorContext *ctx, const char *filename);
 void GNopenFile(GeneratorContext *ctx, const char *filename);
+void GNcloseFile(GeneratorContext *ctx);
 void GNindentIncrease(GeneratorContext *ctx);
 void GNindentDecrease(GeneratorContext *ctx);
diff --git a/cocogen/main.c b/cocogen/main.c
index 0e6c0b6..a6f2225 100644
--- a/cocogen/main.c
+++ b/cocogen/main.c
@@ -74,6 +74,7 @@ int main(int argc, char *argv[])
 
     printf("--------------- Generating ---------------\n");
     CCNrun(NULL);
+    GNcloseFile(globals.gen_ctx);
     printf("---------------    Done    ---------------\n");
 
     return 0;
-- 
2.43.0


From d8cb01d62d701523521e229204d4acacbeface85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 02/47] fix: report failed writes of the attribute scheduling
 log

---
 .../attribute_scheduler/schedule_attribute_visits.c         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
index 46e859d..7049b2b 100644
--- a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
+++ b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
@@ -643,7 +643,11 @@ node_st *SAVast(node_st *node) {
         fprintf(log_file, "\n\n");
     }
 
-    fclose(log_file);
+    bool log_failed = ferror(log_file) != 0;
+    if (fclose(log_file) != 0 || log_failed) {
+        CTI(CTI_ERROR, false, "Could not write file: ag_schedule.log\n");
+        CTIabortCompilation();
+    }
 
     // fill in visit stubs
     for (node_st *inode = AST_INODES(node); inode != NULL;
-- 
2.43.0


From 5ca9e933dfbadaec09bfa4af57eeaacb7205880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 03/47] fix: abort orderly when a hash table cannot be
 allocated

---
 palm/src/hash_table.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 713d5f4..1b6b2bd 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -43,7 +43,10 @@ struct htable *HTnew(size_t size, hash_key_ft hash_func, is_equal_ft is_equal_fu
     struct htable *table = MEMmalloc(sizeof(struct htable));
     table->size = size;
     table->elements = 0;
-    table->entries = calloc(sizeof(struct htable_entry *), size);
+    table->entries = MEMmalloc(sizeof(struct htable_entry *) * size);
+    for (size_t i = 0; i < size; i++) {
+        table->entries[i] = NULL;
+    }
     table->hash_f = hash_func;
     table->is_equal_f = is_equal_func;
 
-- 
2.43.0


From 8c4bfcbe111ad6fcf2c6ee529eb7a146efeaf6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 04/47] fix: removing an absent key from an empty hash table
 bucket

---
 palm/src/hash_table.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 1b6b2bd..78dd8fb 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -157,6 +157,10 @@ void *HTremove(htable_st *table, void *key)
         return value;
     }
 
+    if (!entry) {
+        return NULL;
+    }
+
     previous = entry;
     entry = entry->next;
 
-- 
2.43.0


From ff349a1c5c465b670337829c6147cbd517cdcdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 05/47] fix: reset the element count when a hash table is
 cleared

---
 palm/src/hash_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 78dd8fb..0242557 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -213,6 +213,7 @@ void HTclear(struct htable *table)
         }
         table->entries[i] = NULL;
     }
+    table->elements = 0;
 }
 
 /**
-- 
2.43.0


From dacfa92c165d7b9022be17789af9c76301593e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 06/47] fix: abort orderly when the parser or lexer runs out of
 memory

---
 cocogen/frontend/scanAndParse/dsl-lexer.l  |  2 +-
 cocogen/frontend/scanAndParse/dsl-parser.y | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index 587c13d..5ddbf90 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -16,7 +16,7 @@
 #define LEX_KEYWORD(k) if (yy_lex_keywords) \
                                 return k;   \
                             else {          \
-                                yylval.string = strdup(yytext); \
+                                yylval.string = STRcpy(yytext); \
                                 return T_ID; \
                             } \
 
diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index a805eca..6751772 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -47,7 +47,7 @@ struct bison_attribute_options {
 
 struct bison_attribute_options *parse_attribute_options(struct bison_attribute_options_temp *start) {
     struct bison_attribute_options_temp *cur, *prev;
-    struct bison_attribute_options *data = malloc(sizeof(struct bison_attribute_options));
+    struct bison_attribute_options *data = MEMmalloc(sizeof(struct bison_attribute_options));
     data->lifetime = NULL;
     data->constructor = false;
     data->inherited = false;
@@ -743,22 +743,22 @@ attribute_optional_keywords:
 
 attribute_optional_keyword: T_CONSTRUCTOR
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_constructor;
     }
     | T_INHERITED
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_inherited;
     }
     | T_SYNTHESIZED
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_synthesized;
     }
     | lifetime
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_lifetime;
         $$->lifetime = $1;
         ILIFETIME_NEXT($$->lifetime) = NULL;
-- 
2.43.0


From 440bd7640c1c3148e15f4f028ce5ed28b8893ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 07/47] fix: evaluate only the referenced set expression, not
 the nodesets after it

---
 cocogen/frontend/unwrap_setexpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index db11363..f97145e 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -61,7 +61,7 @@ node_st *USEsetreference(node_st *node)
     node_st *nodeset = STlookup(ste, SETREFERENCE_REFERENCE(node));
     assert(nodeset && NODE_TYPE(nodeset) == NT_INODESET);
     if (INODESET_EXPR(nodeset) && NODE_TYPE(INODESET_EXPR(nodeset)) != NT_SETLITERAL) {
-        TRAVchildren(nodeset);
+        INODESET_EXPR(nodeset) = TRAVopt(INODESET_EXPR(nodeset));
     }
     if (INODESET_EXPR(nodeset)) {
         assert(NODE_TYPE(INODESET_EXPR(nodeset)) == NT_SETLITERAL);
-- 
2.43.0


From 99c160650a77daf272fccf31bd5c176c30e15086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 08/47] fix: order of NULL-variants of equations must not
 depend on heap addresses

---
 .../dynamic_backend/gen_equation_functions.c    |  8 ++++----
 cocogen/dynamic_backend/gen_user_equations.c    |  8 ++++----
 cocogen/dynamic_backend/gen_visit_source.c      | 17 +++++++++--------
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_equation_functions.c b/cocogen/dynamic_backend/gen_equation_functions.c
index 922b8fe..2a88a62 100644
--- a/cocogen/dynamic_backend/gen_equation_functions.c
+++ b/cocogen/dynamic_backend/gen_equation_functions.c
@@ -147,12 +147,12 @@ node_st *DGEFequation(node_st *node) {
     for (size_t bitmask = 0; bitmask < combinations; ++bitmask) {
         // Set bitmask in htable
         size_t i = 0;
-        for (htable_iter_st *iter = HTiterate(children_null); iter;
-             iter = HTiterateNext(iter)) {
+        for (struct child_list *entry = children; entry;
+             entry = entry->next) {
             if (bitmask & (0x1UL << i)) {
-                HTiterSetValue(iter, (void *)CH_FALSE);
+                HTinsert(children_null, entry->child, (void *)CH_FALSE);
             } else {
-                HTiterSetValue(iter, (void *)CH_TRUE);
+                HTinsert(children_null, entry->child, (void *)CH_TRUE);
             }
             ++i;
         }
diff --git a/cocogen/dynamic_backend/gen_user_equations.c b/cocogen/dynamic_backend/gen_user_equations.c
index dcd5a95..6ca5c5a 100644
--- a/cocogen/dynamic_backend/gen_user_equations.c
+++ b/cocogen/dynamic_backend/gen_user_equations.c
@@ -148,12 +148,12 @@ node_st *DUGEequation(node_st *node) {
     for (size_t bitmask = 0; bitmask < combinations; ++bitmask) {
         // Set bitmask in htable
         size_t i = 0;
-        for (htable_iter_st *iter = HTiterate(children_null); iter;
-             iter = HTiterateNext(iter)) {
+        for (struct child_list *entry = children; entry;
+             entry = entry->next) {
             if (bitmask & (0x1UL << i)) {
-                HTiterSetValue(iter, (void *)CH_FALSE);
+                HTinsert(children_null, entry->child, (void *)CH_FALSE);
             } else {
-                HTiterSetValue(iter, (void *)CH_TRUE);
+                HTinsert(children_null, entry->child, (void *)CH_TRUE);
             }
             ++i;
         }
diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 6b1ef27..0491566 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -309,12 +309,12 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
         for (size_t bitmask = 0; bitmask < combinations; ++bitmask) {
             // Set bitmask in htable
             size_t i = 0;
-            for (htable_iter_st *iter = HTiterate(children_null); iter;
-                 iter = HTiterateNext(iter)) {
+            for (struct child_list *entry = children; entry;
+                 entry = entry->next) {
                 if (bitmask & (0x1UL << i)) {
-                    HTiterSetValue(iter, (void *)CH_TRUE);
+                    HTinsert(children_null, entry->child, (void *)CH_TRUE);
                 } else {
-                    HTiterSetValue(iter, (void *)CH_FALSE);
+                    HTinsert(children_null, entry->child, (void *)CH_FALSE);
                 }
                 ++i;
             }
@@ -322,10 +322,11 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
             if (bitmask != combinations - 1) {
                 OUT_NO_INDENT("if (");
                 bool first = true;
-                for (htable_iter_st *iter = HTiterate(children_null); iter;
-                     iter = HTiterateNext(iter)) {
-                    node_st *child = HTiterKey(iter);
-                    if ((enum child_htable)HTiterValue(iter) == CH_FALSE) {
+                for (struct child_list *entry = children; entry;
+                     entry = entry->next) {
+                    node_st *child = entry->child;
+                    if ((enum child_htable)HTlookup(children_null, child) ==
+                        CH_FALSE) {
                         if (first) {
                             first = false;
                         } else {
-- 
2.43.0


From d376c1b5c916a4762e23b0ba21a25d2747cadd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 09/47] fix: check all attributes of a node or nodeset, not
 only the first

---
 cocogen/frontend/check_attributes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index 13c10aa..d53533c 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -68,6 +68,7 @@ node_st *CHAattribute(node_st *node) {
     // Don't check propagated attributes for the rest to prevent duplicate
     // errors
     if (ATTRIBUTE_IS_PROPAGATED(node)) {
+        TRAVnext(node);
         return node;
     }
 
@@ -94,5 +95,6 @@ node_st *CHAattribute(node_st *node) {
         }
     }
 
+    TRAVnext(node);
     return node;
 }
-- 
2.43.0


From a63900cb6bf35e0f9c7a894193364d42f5f835e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 10/47] fix: resolve every lifetime of a child, attribute or
 node, not only the first

---
 cocogen/frontend/lifetimes/map_id_to_lifetimes.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index ed733b0..285a1e6 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -99,6 +99,7 @@ node_st *MITLilifetime(node_st *node)
     TRAVbegin(node);
     last_action = NULL;
     TRAVend(node);
+    TRAVnext(node);
     return node;
 }
 
-- 
2.43.0


From 63129d39685d2f0e7cb552e39bdd4104da31c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 11/47] fix: reject an attribute that depends on itself

---
 cocogen/frontend/attribute_scheduler/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/attribute_scheduler/graph.c b/cocogen/frontend/attribute_scheduler/graph.c
index 9b79d81..7836a6b 100644
--- a/cocogen/frontend/attribute_scheduler/graph.c
+++ b/cocogen/frontend/attribute_scheduler/graph.c
@@ -222,7 +222,7 @@ static struct GRedge *add_edge_internal(struct GRgraph *graph,
 static inline bool check_cycle(struct GRgraph *graph, struct GRnode *n1,
                                struct GRnode *n2, struct GRerror *error,
                                enum GRedge_type type) {
-    if (HTlookup_edge(graph->internal->edge_map, n2, n1)) {
+    if (n1 == n2 || HTlookup_edge(graph->internal->edge_map, n2, n1)) {
         switch (type) {
         case GRnormal:
             error->type = GR_error_cycle;
-- 
2.43.0


From 488aad38598290b56124c16a6020ae4a3f45c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 12/47] fix: reject actions that are not a phase, pass or
 traversal

---
 cocogen/frontend/check_existance.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 8e53ed2..f40bc20 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -62,6 +62,8 @@ node_st *CEXiactions(node_st *node)
     node_st *ref = STlookup(ste, IACTIONS_REFERENCE(node));
     if (ref == NULL) {
         CTI(CTI_ERROR, true, "Could not find action: %s\n", ID_ORIG(IACTIONS_REFERENCE(node)));
+    } else if (NODE_TYPE(ref) != NT_IPHASE && NODE_TYPE(ref) != NT_IPASS && NODE_TYPE(ref) != NT_ITRAVERSAL) {
+        CTI(CTI_ERROR, true, "Not a phase, pass or traversal: %s\n", ID_ORIG(IACTIONS_REFERENCE(node)));
     }
     return node;
 }
-- 
2.43.0


From 6516995fb5a920c0525684a74ffc8c903c5a3bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 13/47] fix: reject specifications without a root node or start
 phase

---
 cocogen/frontend/check_existance.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index f40bc20..ebd0c6f 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -50,6 +50,12 @@ node_st *CEXast(node_st *node)
     root = node;
     ste = AST_STABLE(node);
     TRAVchildren(node);
+    if (!seen_root_node) {
+        CTI(CTI_ERROR, true, "No root node is defined.");
+    }
+    if (!seen_start_phase) {
+        CTI(CTI_ERROR, true, "No start phase is defined.");
+    }
     CTIabortOnError();
     CCNfree(trav_data_names);
     CCNfree(enum_prefix_ste);
-- 
2.43.0


From 77053e37450c2a4a482db6d5ae737468e9cc4a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 14/47] fix: a nested phase must not reset the cycle it runs in

---
 copra/src/phase_driver.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/copra/src/phase_driver.c b/copra/src/phase_driver.c
index 656eb35..865b67b 100644
--- a/copra/src/phase_driver.c
+++ b/copra/src/phase_driver.c
@@ -17,7 +17,6 @@
 struct phase_driver {
     size_t level;
     size_t action_id;
-    size_t cycle_iter;
     size_t max_cycles;
     size_t breakpoint_id;
     enum pd_verbosity verbosity;
@@ -32,7 +31,6 @@ struct phase_driver {
 static struct phase_driver phase_driver = {
     .level = 0,
     .action_id = 0,
-    .cycle_iter = 0,
     .breakpoint_id = 0,
     .max_cycles = 100,
     .current_phase = NULL,
@@ -48,7 +46,6 @@ static void resetPhaseDriver()
 {
     phase_driver.level = 0;
     phase_driver.action_id = 0;
-    phase_driver.cycle_iter = 0;
     phase_driver.current_phase = NULL;
     phase_driver.fixed_point = false;
     phase_driver.action_error = false;
@@ -190,6 +187,10 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
     phase_driver.level++;
     bool cycle = phase->is_cycle;
     uint64_t curr_action_id = phase_driver.action_id;
+    // Phases nest, so the state of the enclosing cycle must survive this phase.
+    size_t cycle_iter = 0;
+    bool outer_fixed_point = phase_driver.fixed_point;
+    bool changed = false;
 
     do {
         // If we cycle around, reset the action id.
@@ -203,8 +204,11 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
             action_counter++;
             action_id = phase->action_table[action_counter];
         }
-        phase_driver.cycle_iter++;
-    } while(cycle && phase_driver.cycle_iter < phase_driver.max_cycles && !(phase_driver.fixed_point));
+        changed = changed || !phase_driver.fixed_point;
+        cycle_iter++;
+    } while(cycle && cycle_iter < phase_driver.max_cycles && !(phase_driver.fixed_point));
+    // A change in this phase is also a change in the enclosing cycle.
+    phase_driver.fixed_point = outer_fixed_point && !changed;
 
     if (phase_driver.phase_error) {
         if (phase_driver.verbosity > PD_V_QUIET) {
@@ -213,7 +217,6 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
         CTIabortCompilation();
     }
 
-    phase_driver.cycle_iter = 0;
     phase_driver.level--;
 
     phase_driver.current_phase = prev;
-- 
2.43.0


From 731e35f6114d45957d6f6067ac3492cc888896c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 15/47] fix: generated checks of 'allowed' lifetimes call a
 function that does not exist

---
 cocogen/dynamic_backend/gen_check_traversal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 883b5f8..67e8d58 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -394,7 +394,7 @@ static void LifetimeChildAllowed(node_st *lifetime_begin, node_st *lifetime_end)
                  ID_UPR(INODE_NAME(curr_node)),
                  ID_UPR(CHILD_NAME(curr_child)));
     OUT_FIELD(
-        "CTIerror(\"Found disallowed child(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed child(%s) in node(%s).\\n\");",
         ID_ORIG(CHILD_NAME(curr_child)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
@@ -567,7 +567,7 @@ static void LifetimeAttributeAllowed(node_st *lifetime_begin, node_st *lifetime_
 
     OUT_BEGIN_IF("%s != NULL", access);
     OUT_FIELD(
-        "CTIerror(\"Found disallowed attribute(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed attribute(%s) in node(%s).\\n\");",
         ID_ORIG(ATTRIBUTE_NAME(curr_attribute)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
-- 
2.43.0


From d45c19226be1338860029eb26f746ce4a56e5b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 16/47] fix: declare the function a pass with a func option
 calls

---
 cocogen/dynamic_backend/gen_action_header.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_action_header.c b/cocogen/dynamic_backend/gen_action_header.c
index 27a34f6..e5c17ea 100644
--- a/cocogen/dynamic_backend/gen_action_header.c
+++ b/cocogen/dynamic_backend/gen_action_header.c
@@ -5,6 +5,7 @@
 #include "ccn/dynamic_core.h"
 #include "ccngen/trav.h"
 #include "globals.h"
+#include "palm/memory.h"
 #include "dynamic_backend/gen_helpers.h"
 #include "../gen_helpers.h"
 
@@ -37,11 +38,9 @@ node_st *DGAHitraversal(node_st *node)
 node_st *DGAHipass(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    char *prefix = "";
-    if (IPASS_IPREFIX(node)) {
-        prefix = DGH_PASS_PREFIX(node);
-    }
-    OUT_FIELD(DGH_PASS_FUNC_SIG(), prefix, DGH_PASS_NAME(node), "");
+    char *func = DGHpassFuncName(node);
+    OUT_FIELD(DGH_PASS_FUNC_SIG(), "", func, "");
+    MEMfree(func);
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From fb0ed3068468fe4b4429abab82dbb84e600a0ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 17/47] fix: name the duplicate pass function in the error
 message

---
 cocogen/frontend/buildsymboltable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/buildsymboltable.c b/cocogen/frontend/buildsymboltable.c
index 6ef2787..e123382 100644
--- a/cocogen/frontend/buildsymboltable.c
+++ b/cocogen/frontend/buildsymboltable.c
@@ -133,7 +133,7 @@ node_st *BSTipass(node_st *node)
         if (existing_func != NULL) {
             struct ctinfo info;
             id_to_info(IPASS_TARGET_FUNC(node), &info);
-            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", IPASS_TARGET_FUNC(node));
+            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", ID_ORIG(IPASS_TARGET_FUNC(node)));
             id_to_info(IPASS_TARGET_FUNC(existing_func), &info);
             CTIobj(CTI_NOTE, true, info, "Also defined here\n");
         } else {
-- 
2.43.0


From bd4e36e9256e69e78f7b40f44775acb63bc61099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:56 +0000
Subject: [PATCH 18/47] fix: a lifetime that targets a phase covers the phases
 nested in its last action

---
 .../frontend/lifetimes/map_id_to_lifetimes.c  | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index 285a1e6..0930c7c 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -36,6 +36,23 @@ static bool CompareID(node_st *id, node_st *other_id)
 }
 
 
+/**
+ * The last action that is performed as part of an action: the action itself or,
+ * for a phase, the last action of that phase, which can be a phase again.
+ */
+static node_st *LastAction(node_st *action)
+{
+    node_st *reference = STlookup(ste, IACTIONS_REFERENCE(action));
+    while (reference && NODE_TYPE(reference) == NT_IPHASE) {
+        action = IPHASE_IACTIONS(reference);
+        while (IACTIONS_NEXT(action)) {
+            action = IACTIONS_NEXT(action);
+        }
+        reference = STlookup(ste, IACTIONS_REFERENCE(action));
+    }
+    return action;
+}
+
 node_st *MITLast(node_st *node)
 {
     ast = node;
@@ -116,17 +133,7 @@ node_st *MITLlifetime_range(node_st *node)
         CTIobj(CTI_ERROR, true, info, "Lifetime does not target a valid action.");
     } else {
         LIFETIME_RANGE_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action);
-        if (NODE_TYPE(last_node) == NT_IPHASE) {
-            node_st *phase_actions = IPHASE_IACTIONS(last_node);
-            node_st *next = IACTIONS_NEXT(phase_actions);
-            while (next) {
-                phase_actions = next;
-                next = IACTIONS_NEXT(phase_actions);
-            }
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(phase_actions) + 1;
-        } else {
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action) + 1;
-        }
+        LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(LastAction(last_action)) + 1;
     }
     in_lifetime = false;
     curr_target = NULL;
-- 
2.43.0


From 79012a22cfc8d6fa4a345505d3aa30a651d5e685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:42 +0000
Subject: [PATCH 19/47] fix: accept grammars where the first member of a
 nodeset child needs no visit

---
 .../attribute_scheduler/generate_visits.c     | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/attribute_scheduler/generate_visits.c b/cocogen/frontend/attribute_scheduler/generate_visits.c
index b407020..41adb3a 100644
--- a/cocogen/frontend/attribute_scheduler/generate_visits.c
+++ b/cocogen/frontend/attribute_scheduler/generate_visits.c
@@ -376,6 +376,29 @@ add_visit_sequence_visit_nodeset(node_st *st, htable_st *visits_htable,
                                                 original_visit);
 }
 
+/* The first alternative of a nodeset visit is itself an element of the visit
+   sequence, which a dummy can not be, so put the first actual visit in front. */
+static node_st *move_visit_to_front(node_st *sequence) {
+    node_st *last_dummy = NULL;
+    node_st *visit = sequence;
+    while (visit && NODE_TYPE(visit) == NT_VISIT_SEQUENCE_DUMMY) {
+        last_dummy = visit;
+        visit = VISIT_SEQUENCE_DUMMY_ALT(visit);
+    }
+
+    if (last_dummy == NULL) {
+        return sequence;
+    }
+    if (visit == NULL) { // None of the members needs this visit
+        CCNfree(sequence);
+        return NULL;
+    }
+
+    VISIT_SEQUENCE_DUMMY_ALT(last_dummy) = VISIT_SEQUENCE_VISIT_ALT(visit);
+    VISIT_SEQUENCE_VISIT_ALT(visit) = sequence;
+    return visit;
+}
+
 static void add_visit_sequence(node_st **visit_head, node_st **visit_tail,
                                node_st *st, node_st *node,
                                htable_st *visits_htable,
@@ -390,9 +413,9 @@ static void add_visit_sequence(node_st **visit_head, node_st **visit_tail,
         node_st *child = item->visit->child;
         if (CHILD_TYPE(child) == CT_inodeset) {
             node_st *nodeset = get_node_type(child, st);
-            sequence = add_visit_sequence_visit_nodeset(
+            sequence = move_visit_to_front(add_visit_sequence_visit_nodeset(
                 st, visits_htable, visit_stubs_htable, INODESET_EXPR(nodeset),
-                child, item->visit->visit);
+                child, item->visit->visit));
         } else {
             sequence = ASTvisit_sequence_visit(child, NULL);
             add_visit_stub(visit_stubs_htable, item->visit->visit, sequence);
-- 
2.43.0


From d1e7e7795f720ba723dbd40eda5a56563f06d540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:54 +0000
Subject: [PATCH 20/47] fix: do not accept a C keyword when matching it runs
 out of memory

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index 5ddbf90..4a8a0dd 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -224,6 +224,9 @@ static inline void check_c_keyword(const char *str) {
         CTIobj(CTI_ERROR, true, info, "Found C-keyword as identifier, "
                 "which would generate invalid C code.");
         CTIabortOnError();
+    } else if (reti != REG_NOMATCH) {
+        CTI(CTI_ERROR, true, "Could not check identifier for being a C keyword.");
+        CTIabortOnError();
     }
 }
 
-- 
2.43.0


From 1eb81eeb998269815dda28024342b6fdd709d6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 21/47] fix: name constructor parameters of user-typed
 attributes as the constructor body does

---
 cocogen/dynamic_backend/gen_node_init_funcs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_node_init_funcs.c b/cocogen/dynamic_backend/gen_node_init_funcs.c
index 46ef2c2..5a6fb11 100644
--- a/cocogen/dynamic_backend/gen_node_init_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_init_funcs.c
@@ -73,7 +73,7 @@ node_st *DGIFattribute(node_st *node)
         } else if (ATTRIBUTE_TYPE(node) == AT_link_or_enum) {
             OUT("enum %s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_user) {
-            OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), ID_LWR(ATTRIBUTE_NAME(node)));
+            OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else {
             OUT("%s %s", FMTattributeTypeToString(ATTRIBUTE_TYPE(node)), DGHattributeField(node));
         }
-- 
2.43.0


From f72c8740d400e4bdda67fd7f1d4427c02ca6dd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 22/47] fix: generate checks for every lifetime of an entity,
 not only the first

---
 cocogen/dynamic_backend/gen_check_traversal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 67e8d58..6578ca4 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -687,6 +687,7 @@ node_st *DGCHTilifetime(node_st *node)
         LifetimeAttributeGen(node);
     }
 
+    TRAVnext(node);
     return node;
 }
 
-- 
2.43.0


From 701d08955facea0bfa130e2c256c4392ebf7bb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 23/47] fix: number the actions of the start phase only, not of
 the phases defined after it

---
 cocogen/frontend/lifetimes/assign_id_to_actions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/lifetimes/assign_id_to_actions.c b/cocogen/frontend/lifetimes/assign_id_to_actions.c
index 3c7814f..f01eb84 100644
--- a/cocogen/frontend/lifetimes/assign_id_to_actions.c
+++ b/cocogen/frontend/lifetimes/assign_id_to_actions.c
@@ -20,7 +20,7 @@ node_st *AITAast(node_st *node)
 {
     ste = AST_STABLE(node);
     assert(AST_START_PHASE(node) != NULL);
-    TRAVdo(AST_START_PHASE(node));
+    TRAViactions(AST_START_PHASE(node));
     return node;
 }
 
-- 
2.43.0


From 07e64da2791394c894602fb6c309cda12e9e99b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:41 +0000
Subject: [PATCH 24/47] fix: reject nodeset children whose members have
 inherited attributes the nodeset lacks

No equation can give such an attribute a value; the generated visits used an
undeclared variable.
---
 cocogen/frontend/check_product_rules.c | 32 ++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index cbd9a20..e614533 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -273,6 +273,37 @@ node_st *CPRattribute(node_st *node) {
     return node;
 }
 
+/* A nodeset child only receives the inherited attributes of the nodeset, so its
+   member nodes can not have additional inherited attributes. */
+static void check_nodeset_members(node_st *nodeset, node_st *expr) {
+    if (expr == NULL) {
+        return;
+    }
+
+    node_st *member = STlookup(DATA_CPR_GET()->symboltable,
+                               SETLITERAL_REFERENCE(expr));
+    assert(member != NULL && NODE_TYPE(member) == NT_INODE);
+    for (node_st *attribute = INODE_IATTRIBUTES(member); attribute != NULL;
+         attribute = ATTRIBUTE_NEXT(attribute)) {
+        if (ATTRIBUTE_IS_INHERITED(attribute) &&
+            find_attribute(nodeset, INODESET_IATTRIBUTES(nodeset),
+                           ATTRIBUTE_NAME(attribute)) == NULL) {
+            struct ctinfo info;
+            id_to_info(ATTRIBUTE_NAME(attribute), &info);
+            CTIobj(CTI_ERROR, true, info,
+                   "Inherited attribute '%s' of node '%s' is not an attribute "
+                   "of nodeset '%s', which is used as the type of a child\n",
+                   ID_ORIG(ATTRIBUTE_NAME(attribute)),
+                   ID_ORIG(INODE_NAME(member)),
+                   ID_ORIG(INODESET_NAME(nodeset)));
+            CCNerrorAction();
+        }
+    }
+
+    check_nodeset_members(nodeset, SETLITERAL_LEFT(expr));
+    check_nodeset_members(nodeset, SETLITERAL_RIGHT(expr));
+}
+
 /**
  * @fn CPRchild
  */
@@ -286,6 +317,7 @@ node_st *CPRchild(node_st *node) {
     } else {
         assert(NODE_TYPE(ref_node) == NT_INODESET);
         attributes = INODESET_IATTRIBUTES(ref_node);
+        check_nodeset_members(ref_node, INODESET_EXPR(ref_node));
     }
 
     for (node_st *attribute = attributes; attribute != NULL;
-- 
2.43.0


From 9aa7ac4c3c9f5cb1da427b528867027d56e707dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:41 +0000
Subject: [PATCH 25/47] fix: free string attributes of attribute grammars
 through their value field

The generated free traversal named a field that does not exist. Only free a
value that has been set: the constructor leaves it uninitialized.
---
 cocogen/dynamic_backend/gen_free_traversal.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_free_traversal.c b/cocogen/dynamic_backend/gen_free_traversal.c
index ae3b5d8..31f6357 100644
--- a/cocogen/dynamic_backend/gen_free_traversal.c
+++ b/cocogen/dynamic_backend/gen_free_traversal.c
@@ -91,7 +91,13 @@ node_st *DGFTattribute(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (ATTRIBUTE_TYPE(node) == AT_string) {
-        OUT_FIELD("MEMfree(arg_node->data.N_%s->%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)));
+        if (ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node)) {
+            OUT_BEGIN_IF("arg_node->data.N_%s->_%s.ccn_val_set", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)));
+            OUT_FIELD("MEMfree(arg_node->data.N_%s->_%s.%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)), ID_LWR(ATTRIBUTE_NAME(node)));
+            OUT_END_IF();
+        } else {
+            OUT_FIELD("MEMfree(arg_node->data.N_%s->%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)));
+        }
     }
     TRAVnext(node);
     return node;
-- 
2.43.0


From ba5d1a4e1ceee6220fe33dc1397c8c73cbf71c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:42 +0000
Subject: [PATCH 26/47] fix: equation headers use node_st without including its
 declaration

---
 cocogen/dynamic_backend/gen_equation_functions.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/dynamic_backend/gen_equation_functions.c b/cocogen/dynamic_backend/gen_equation_functions.c
index 2a88a62..42efa30 100644
--- a/cocogen/dynamic_backend/gen_equation_functions.c
+++ b/cocogen/dynamic_backend/gen_equation_functions.c
@@ -72,6 +72,7 @@ node_st *DGEFinode(node_st *node) {
         OUT("#include \"ccngen/ccn_defs.h\"\n");
         OUT("#include \"ccn/ccn_types.h\"\n");
         OUT("#include \"ccngen/enum.h\"\n");
+        OUT("#include \"ccngen/ast.h\"\n");
         OUT("#ifdef CCN_USES_UNSAFE\n");
         OUT("#include \"user_types.h\"\n");
         OUT("#endif\n");
-- 
2.43.0


From b8adff6da04ace32250269fc3baa979f1b5f4adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:42 +0000
Subject: [PATCH 27/47] fix: store inherited attributes of a child where they
 are evaluated

They were kept in a local variable until the child is visited, which can be in a
later visit of the parent, where the variable is not declared, and equations
that depend on them read the value from the child before it was stored.
---
 cocogen/dynamic_backend/gen_visit_source.c | 68 ++++++++++++++++++++--
 1 file changed, 64 insertions(+), 4 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 0491566..187dbf0 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -28,6 +28,7 @@ static const int htable_size = 100;
 static char *basic_node_type = "node_st";
 static node_st *ste = NULL;
 static node_st *curr_node = NULL;
+static node_st *all_nodes = NULL;
 
 static inline void print_set_value(node_st *attribute, char *value) {
     GeneratorContext *ctx = globals.gen_ctx;
@@ -39,6 +40,53 @@ static inline void print_set_value(node_st *attribute, char *value) {
         value);
 }
 
+static inline bool is_nodeset_member(node_st *expr, node_st *inode) {
+    if (expr == NULL) {
+        return false;
+    }
+    return STReq(ID_LWR(SETLITERAL_REFERENCE(expr)),
+                 ID_LWR(INODE_NAME(inode))) ||
+           is_nodeset_member(SETLITERAL_LEFT(expr), inode) ||
+           is_nodeset_member(SETLITERAL_RIGHT(expr), inode);
+}
+
+/* The visit of the child might come later, possibly in another visit of the
+   current node, so store the value in the child right away. */
+static void print_set_child_value(node_st *attribute, node_st *child,
+                                  char *value) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    assert(curr_node != NULL);
+    char *child_access = STRfmt("%s_%s(node)", ID_UPR(INODE_NAME(curr_node)),
+                                ID_UPR(CHILD_NAME(child)));
+    char *attr_name = ID_LWR(ATTRIBUTE_NAME(attribute));
+    node_st *type = STlookup(ste, CHILD_TYPE_REFERENCE(child));
+    assert(type != NULL);
+
+    OUT_BEGIN_IF("%s != NULL", child_access);
+    OUT_BEGIN_SWITCH("NODE_TYPE(%s)", child_access);
+    for (node_st *inode = all_nodes; inode; inode = INODE_NEXT(inode)) {
+        if (NODE_TYPE(type) == NT_INODE
+                ? inode != type
+                : !is_nodeset_member(INODESET_EXPR(type), inode)) {
+            continue;
+        }
+        char *type_name = ID_LWR(INODE_NAME(inode));
+        OUT_BEGIN_CASE("NT_%s", ID_UPR(INODE_NAME(inode)));
+        OUT("%s->data.N_%s->_%s.ccn_val_set = true;\n", child_access,
+            type_name, attr_name);
+        OUT("%s->data.N_%s->_%s.%s = %s;\n", child_access, type_name,
+            attr_name, attr_name, value);
+        OUT_END_CASE();
+    }
+    OUT_BEGIN_DEFAULT_CASE();
+    OUT("DBUG_ASSERT(false, \"Problem in visit\");\n");
+    OUT_END_CASE();
+    OUT_END_SWITCH();
+    OUT_END_IF();
+    OUT_NO_INDENT("\n");
+    MEMfree(child_access);
+}
+
 static inline void print_unused() {
     GeneratorContext *ctx = globals.gen_ctx;
     OUT_NO_INDENT(" MAYBE_UNUSED");
@@ -104,7 +152,9 @@ node_st *DGVSast(node_st *node) {
     OUT_NO_INDENT("#endif\n\n");
 
     ste = AST_STABLE(node);
+    all_nodes = AST_INODES(node);
     TRAVchildren(node);
+    all_nodes = NULL;
 
     OUT_NO_INDENT("#if defined(__clang__)\n");
     OUT_NO_INDENT("#pragma clang diagnostic pop\n");
@@ -379,6 +429,16 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
 
         print_set_value(ATTRIBUTE_REFERENCE_REFERENCE(attribute), arg_str);
         MEMfree(arg_str);
+    } else { // attribute of child
+        node_st *child = get_child(ATTRIBUTE_REFERENCE_INODE(attribute));
+        assert(child != NULL);
+        char *arg_str =
+            STRfmt("%s_%s", get_node_name_this(attribute),
+                   ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
+
+        print_set_child_value(ATTRIBUTE_REFERENCE_REFERENCE(attribute), child,
+                              arg_str);
+        MEMfree(arg_str);
     }
 
     HTdelete(children_null);
@@ -458,9 +518,9 @@ static void print_visit_call(node_st *node, node_st *outputs,
     for (node_st *in_arg = VISIT_INPUTS(visit); in_arg;
          in_arg = VISIT_ARG_LIST_NEXT(in_arg)) {
         node_st *attribute = VISIT_ARG_LIST_ATTRIBUTE(in_arg);
-        OUT_NO_INDENT(", %s_%s",
-                      ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
-                      ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
+        OUT_NO_INDENT(", %s_%s(%s)", ID_UPR(INODE_NAME(VISIT_INODE(visit))),
+                      ID_UPR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
+                      child_access);
     }
 
     OUT_NO_INDENT(");\n");
@@ -477,7 +537,7 @@ static void print_visit_call(node_st *node, node_st *outputs,
                 print_type(ATTRIBUTE_REFERENCE_REFERENCE(attribute));
                 OUT_NO_INDENT(" ");
             }
-            OUT_NO_INDENT("%s_%s = %s_output.%s_%s;\n",
+            OUT_NO_INDENT("%s_%s = %s_%s_output.%s_%s;\n",
                           ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
                           visit_name, get_node_name_this(attribute),
-- 
2.43.0


From beb50f4a7a9c7ed36c2178fcc59ecabd58a2a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:42 +0000
Subject: [PATCH 28/47] fix: name the outputs of a visit after the child as
 well

Two mandatory children of the same type declared the same variable twice.
---
 cocogen/dynamic_backend/gen_visit_source.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 187dbf0..004c071 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -505,7 +505,8 @@ static void print_visit_call(node_st *node, node_st *outputs,
             }
         } else { // multiple output
             multiple_outputs = true;
-            OUT("struct %s_out %s_output", visit_name, visit_name);
+            OUT("struct %s_out %s_%s_output", visit_name,
+                ID_LWR(CHILD_NAME(child)), visit_name);
             print_unused();
             OUT_NO_INDENT(" = ");
         }
@@ -540,7 +541,7 @@ static void print_visit_call(node_st *node, node_st *outputs,
             OUT_NO_INDENT("%s_%s = %s_%s_output.%s_%s;\n",
                           ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
-                          visit_name, get_node_name_this(attribute),
+                          ID_LWR(CHILD_NAME(child)), visit_name, get_node_name_this(attribute),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
         }
     }
-- 
2.43.0


From 025dbf25786f8ee0e6232c57d2591a247e32df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:38 +0000
Subject: [PATCH 29/47] fix: diagnostics must not drop '@' characters of the
 message

---
 palm/src/ctinfo.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/palm/src/ctinfo.c b/palm/src/ctinfo.c
index 6812dff..54d0349 100644
--- a/palm/src/ctinfo.c
+++ b/palm/src/ctinfo.c
@@ -32,8 +32,7 @@ static int warnings = 0;
  *
  *   @brief  formats message according to line length
  *
- *           '@' characters are inserted into the buffer to represent line
- *           breaks.
+ *           Newlines are inserted into the buffer to represent line breaks.
  *
  *   @param buffer  message buffer
  *   @param line_length maximum line length
@@ -57,12 +56,11 @@ static void ProcessMessage(char *buffer, int line_length)
         }
 
         if (buffer[index] == '\n') {
-            buffer[index] = '@';
             column = 0;
         } else {
             if (column == line_length) {
                 if (buffer[last_space] == ' ') {
-                    buffer[last_space] = '@';
+                    buffer[last_space] = '\n';
                     column = index - last_space;
                 } else {
                     break;
@@ -152,7 +150,7 @@ char *CTIgetErrorMessageVA(int line, const char *format, va_list arg_p)
     ProcessMessage(message_buffer,
         message_line_length - strlen(error_message_header));
 
-    first_line = STRfmt("line %d @", line);
+    first_line = STRfmt("line %d \n", line);
     res = STRcat(first_line, message_buffer);
     first_line = MEMfree(first_line);
 
@@ -248,12 +246,12 @@ static void PrintMessage(char *header, const char *format, va_list arg_p, bool n
 
     ProcessMessage(message_buffer, message_line_length - strlen(header));
 
-    line = strtok(message_buffer, "@");
+    line = strtok(message_buffer, "\n");
 
     while (line != NULL) {
         fprintf(stderr, "%s%s\n", header, line);
         header = "";
-        line = strtok(NULL, "@");
+        line = strtok(NULL, "\n");
     }
 
     PrintInfo(info);
-- 
2.43.0


From f5951ca98c465f8b0b347a3dddb4a8ca795e6ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:16 +0000
Subject: [PATCH 30/47] fix: an empty --gen-dir must not generate into the root
 directory

---
 cocogen/filesystem/utils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cocogen/filesystem/utils.c b/cocogen/filesystem/utils.c
index 1202a1f..c03df7d 100644
--- a/cocogen/filesystem/utils.c
+++ b/cocogen/filesystem/utils.c
@@ -3,5 +3,9 @@
 
 char *FSdirifyString(char *path)
 {
+    if (path[0] == '\0') {
+        // An empty path is the current directory, not the root.
+        return STRcpy("./");
+    }
     return path[STRlen(path) - 1] != '/' ? STRcat(path, "/") : STRcpy(path);
 }
-- 
2.43.0


From 1258f8c17f1c58694cc5755394c0e102334e70cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:44 +0000
Subject: [PATCH 31/47] fix: report phases that contain themselves instead of
 overflowing the stack

---
 cocogen/frontend/check_existance.c | 35 ++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index ebd0c6f..cbbf0e5 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -6,6 +6,7 @@
 #include <stddef.h>
 #include "globals.h"
 #include "palm/ctinfo.h"
+#include "palm/hash_table.h"
 #include "palm/str.h"
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
@@ -20,7 +21,13 @@ static node_st *node_ste = NULL;
 static node_st *root = NULL;
 static node_st *enum_prefix_ste = NULL;
 static node_st *trav_data_names = NULL;
+static htable_st *phase_states = NULL;
 
+enum phase_state {
+    ps_null = 0,
+    ps_working = 1,
+    ps_finished = 2
+};
 
 static char *uid_reserved[] = {
     "TRAV",
@@ -45,11 +52,36 @@ void checkUID(node_st *id)
     }
 }
 
+/**
+ * A phase can not perform itself, directly or through the phases it contains.
+ */
+static void checkPhaseRecursion(node_st *phase)
+{
+    HTinsert(phase_states, phase, (void *) ps_working);
+    for (node_st *action = IPHASE_IACTIONS(phase); action; action = IACTIONS_NEXT(action)) {
+        node_st *ref = STlookup(ste, IACTIONS_REFERENCE(action));
+        if (ref == NULL || NODE_TYPE(ref) != NT_IPHASE) {
+            continue;
+        }
+        enum phase_state state = (enum phase_state) HTlookup(phase_states, ref);
+        if (state == ps_working) {
+            struct ctinfo info;
+            id_to_info(IACTIONS_REFERENCE(action), &info);
+            CTIobj(CTI_ERROR, true, info, "Recursion in phase: %s\n", ID_ORIG(IPHASE_NAME(ref)));
+        } else if (state == ps_null) {
+            checkPhaseRecursion(ref);
+        }
+    }
+    HTinsert(phase_states, phase, (void *) ps_finished);
+}
+
 node_st *CEXast(node_st *node)
 {
     root = node;
     ste = AST_STABLE(node);
+    phase_states = HTnew_Ptr(100);
     TRAVchildren(node);
+    HTdelete(phase_states);
     if (!seen_root_node) {
         CTI(CTI_ERROR, true, "No root node is defined.");
     }
@@ -77,6 +109,9 @@ node_st *CEXiactions(node_st *node)
 node_st *CEXiphase(node_st *node)
 {
     checkUID(IPHASE_IPREFIX(node));
+    if (HTlookup(phase_states, node) == NULL) {
+        checkPhaseRecursion(node);
+    }
     if (IPHASE_IS_START(node)) {
         if (seen_start_phase) {
             CTI(CTI_ERROR, true, "Double definition of a starting phase.");
-- 
2.43.0


From 27261ff8b846c381084a944bf48cb8c710cd44d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:50 +0000
Subject: [PATCH 32/47] fix: reject enums that declare a value twice

---
 cocogen/frontend/check_existance.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index cbbf0e5..343a911 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -359,6 +359,16 @@ node_st *CEXienum(node_st *node)
     } else {
         enum_prefix_ste = STadd(enum_prefix_ste, IENUM_IPREFIX(node), node);
     }
+    for (node_st *value = IENUM_VALS(node); value; value = ID_NEXT(value)) {
+        for (node_st *prev = IENUM_VALS(node); prev != value; prev = ID_NEXT(prev)) {
+            if (STReq(ID_LWR(prev), ID_LWR(value))) {
+                struct ctinfo info;
+                id_to_info(value, &info);
+                CTIobj(CTI_ERROR, true, info, "Double declaration of enum value: %s\n", ID_ORIG(value));
+                break;
+            }
+        }
+    }
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From da8985749ef81f780f221aa11cb157b1bd89cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:22 +0000
Subject: [PATCH 33/47] fix: STRtok must release its copy with the last token

---
 palm/src/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/palm/src/str.c b/palm/src/str.c
index 2dc5cc3..816283c 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -463,6 +463,7 @@ char *STRtok(const char *first, const char *sep)
         if (current[i] == '\0') {
             ret = STRcpy(current);
             current = NULL;
+            keep_string = MEMfree(keep_string);
         } else {
             current[i] = '\0';
             ret = STRcpy(current);
-- 
2.43.0


From 6c00cee47c78e1a5a38bb09b79d64716a388c7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:22 +0000
Subject: [PATCH 34/47] fix: STRsubstToken on NULL yields NULL, as documented

---
 palm/src/str.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palm/src/str.c b/palm/src/str.c
index 816283c..0f501b2 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -563,6 +563,10 @@ char *STRsubstToken(const char *str, const char *token, const char *subst)
     char *pos;
     char *result;
 
+    if (str == NULL) {
+        return NULL;
+    }
+
     /* Find number of occurrences of token in str */
     occurrences = 0;
     tlen = STRlen(token);
-- 
2.43.0


From 5f0ab45aeb7e0ee8c88813db84d9c357b6e46970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 35/47] fix: reject duplicate product rules and duplicate
 arguments of a product rule

---
 cocogen/frontend/check_product_rules.c | 48 ++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index e614533..3a79502 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -3,8 +3,6 @@
  *
  * Traversal: checkProductRules
  * UID      : CPR
- *
- * TODO: prevent duplicate production rules / args
  */
 
 #include <assert.h>
@@ -220,6 +218,51 @@ static void check_product_rule(node_st *equations, node_st *node_name,
     }
 }
 
+static bool is_same_reference(node_st *left, node_st *right) {
+    node_st *left_node = ATTRIBUTE_REFERENCE_INODE(left);
+    node_st *right_node = ATTRIBUTE_REFERENCE_INODE(right);
+    // NULL == this
+    if ((left_node == NULL) != (right_node == NULL) ||
+        (left_node != NULL && !STReq(ID_LWR(left_node), ID_LWR(right_node)))) {
+        return false;
+    }
+    return STReq(ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(left)),
+                 ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(right)));
+}
+
+static void report_duplicate(node_st *reference, const char *what) {
+    struct ctinfo info;
+    id_to_info(ATTRIBUTE_REFERENCE_IATTRIBUTE(reference), &info);
+    char *node_id = ATTRIBUTE_REFERENCE_INODE(reference) == NULL
+                        ? "this"
+                        : ID_ORIG(ATTRIBUTE_REFERENCE_INODE(reference));
+    CTIobj(CTI_ERROR, true, info, "Duplicate %s: '%s.%s'\n", what, node_id,
+           ID_ORIG(ATTRIBUTE_REFERENCE_IATTRIBUTE(reference)));
+    CCNerrorAction();
+}
+
+static void check_duplicates(node_st *equation) {
+    for (node_st *eq = EQUATION_NEXT(equation); eq != NULL;
+         eq = EQUATION_NEXT(eq)) {
+        if (is_same_reference(EQUATION_RULE(equation), EQUATION_RULE(eq))) {
+            report_duplicate(EQUATION_RULE(eq), "product rule");
+            break;
+        }
+    }
+    for (node_st *arg = EQUATION_IARGS(equation); arg != NULL;
+         arg = EQUATION_DEPENDENCY_NEXT(arg)) {
+        for (node_st *other = EQUATION_DEPENDENCY_NEXT(arg); other != NULL;
+             other = EQUATION_DEPENDENCY_NEXT(other)) {
+            if (is_same_reference(EQUATION_DEPENDENCY_IATTRIBUTE(arg),
+                                  EQUATION_DEPENDENCY_IATTRIBUTE(other))) {
+                report_duplicate(EQUATION_DEPENDENCY_IATTRIBUTE(other),
+                                 "product rule argument");
+                break;
+            }
+        }
+    }
+}
+
 /**
  * @fn CPRast
  */
@@ -246,6 +289,7 @@ node_st *CPRinode(node_st *node) {
  */
 node_st *CPRequation(node_st *node) {
     check_attribute_reference(EQUATION_RULE(node), true);
+    check_duplicates(node);
     TRAViargs(node);
     TRAVnext(node);
     return node;
-- 
2.43.0


From df235c9fec47345d8415f49701508d3b42e5443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:07 +0000
Subject: [PATCH 36/47] fix: declare enum constructor parameters by the name of
 the enum, not of the reference

---
 cocogen/dynamic_backend/gen_node_init_funcs.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_node_init_funcs.c b/cocogen/dynamic_backend/gen_node_init_funcs.c
index 5a6fb11..b32b8b9 100644
--- a/cocogen/dynamic_backend/gen_node_init_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_init_funcs.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include "assert.h"
 
+#include "frontend/symboltable.h"
 #include "globals.h"
 #include "gen_helpers/out_macros.h"
 #include "palm/ctinfo.h"
@@ -11,6 +12,7 @@
 #include "dynamic_backend/gen_helpers.h"
 
 bool dgif_print_semicolon = false;
+static node_st *ste = NULL;
 static char *basic_node_type = "node_st";
 static char *curr_node_name = NULL;
 static char *curr_node_name_upr = NULL;
@@ -18,6 +20,7 @@ static int arg_num = 0;
 
 node_st *DGIFast(node_st *node)
 {
+    ste = AST_STABLE(node);
     dgif_print_semicolon = true;
     TRAVinodes(node);
     return node;
@@ -71,7 +74,11 @@ node_st *DGIFattribute(node_st *node)
         if (ATTRIBUTE_TYPE(node) == AT_link) {
             OUT("%s *%s", basic_node_type, DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_link_or_enum) {
-            OUT("enum %s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
+            node_st *ref = STlookup(ste, ATTRIBUTE_TYPE_REFERENCE(node));
+            // Should be handled by check_existence.
+            assert(ref);
+            assert(NODE_TYPE(ref) == NT_IENUM);
+            OUT("enum %s %s", ID_ORIG(IENUM_NAME(ref)), DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_user) {
             OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else {
-- 
2.43.0


From 78132447f6b1a26bcf55487a40584443e686d783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:07 +0000
Subject: [PATCH 37/47] fix: compare the types of redeclared attributes
 case-insensitively

---
 cocogen/frontend/nodesets/propagate_attributes.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/nodesets/propagate_attributes.c b/cocogen/frontend/nodesets/propagate_attributes.c
index 959724c..4a8ff6f 100644
--- a/cocogen/frontend/nodesets/propagate_attributes.c
+++ b/cocogen/frontend/nodesets/propagate_attributes.c
@@ -26,8 +26,12 @@ static inline bool compare_attribute_types(node_st *a, node_st *b) {
         return false;
     }
 
-    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum ||
-        ATTRIBUTE_TYPE(a) == AT_user) {
+    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum) {
+        return STReq(ID_LWR(ATTRIBUTE_TYPE_REFERENCE(a)),
+                     ID_LWR(ATTRIBUTE_TYPE_REFERENCE(b)));
+    }
+
+    if (ATTRIBUTE_TYPE(a) == AT_user) {
         return STReq(ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(a)),
                      ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(b)));
     }
-- 
2.43.0


From 63bb59c2400f232b5e5f365755eef7508f2c1f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:07 +0000
Subject: [PATCH 38/47] fix: name the traversal functions of children in lower
 case, as documented

---
 cocogen/dynamic_backend/gen_traversal_functions.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_traversal_functions.c b/cocogen/dynamic_backend/gen_traversal_functions.c
index 0dae9be..8d47d5f 100644
--- a/cocogen/dynamic_backend/gen_traversal_functions.c
+++ b/cocogen/dynamic_backend/gen_traversal_functions.c
@@ -94,13 +94,13 @@ node_st *DGT_Finode(node_st *node)
 node_st *DGT_Fchild(node_st *node)
 {
     struct data_dgt_f *data = DATA_DGT_F_GET();
-    node_st *entry = HTlookup(lookup, ID_ORIG(CHILD_NAME(node)));
+    node_st *entry = HTlookup(lookup, ID_LWR(CHILD_NAME(node)));
     node_st *node_name = CCNcopy(INODE_NAME(data->curr_node));
     if (entry == NULL) {
-        HTinsert(lookup, ID_ORIG(CHILD_NAME(node)), node_name);
+        HTinsert(lookup, ID_LWR(CHILD_NAME(node)), node_name);
     } else {
         ID_NEXT(node_name) = entry;
-        HTinsert(lookup, ID_ORIG(CHILD_NAME(node)), node_name);
+        HTinsert(lookup, ID_LWR(CHILD_NAME(node)), node_name);
     }
 
     TRAVnext(node);
-- 
2.43.0


From 08a1fe27ee5268584d2b29b53517a42e570fb84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:39 +0000
Subject: [PATCH 39/47] fix: quote the names in the diagram of the tree and
 write references as declared

A node called graph or Edge, words of the DOT language, made ast.dot unreadable, and a reference in another spelling than the declaration made a second vertex.
---
 cocogen/dot/gen_dot.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/cocogen/dot/gen_dot.c b/cocogen/dot/gen_dot.c
index 72897d6..d13f8aa 100644
--- a/cocogen/dot/gen_dot.c
+++ b/cocogen/dot/gen_dot.c
@@ -6,6 +6,7 @@
 #include "ccn/dynamic_core.h"
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
+#include "frontend/symboltable.h"
 #include "palm/hash_table.h"
 #include <gen_helpers/out_macros.h>
 #include <globals.h>
@@ -13,12 +14,30 @@
 
 static node_st *curr_node;
 static node_st *curr_nodeset;
+static node_st *symboltable;
 static htable_st *seen;
 
+/**
+ * The name under which a node or nodeset is declared. Names in DOT are case
+ * sensitive, so references have to be written as their declaration is.
+ */
+static char *DeclaredName(node_st *reference)
+{
+    node_st *decl = STlookup(symboltable, reference);
+    if (decl && NODE_TYPE(decl) == NT_INODE) {
+        return ID_ORIG(INODE_NAME(decl));
+    }
+    if (decl && NODE_TYPE(decl) == NT_INODESET) {
+        return ID_ORIG(INODESET_NAME(decl));
+    }
+    return ID_ORIG(reference);
+}
+
 node_st *GDast(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     seen = HTnew_String(10);
+    symboltable = AST_STABLE(node);
     GNopenSourceFile(ctx, "ast.dot");
     OUT("digraph Ast {\n");
     TRAVinodes(node);
@@ -33,7 +52,7 @@ node_st *GDinode(node_st *node)
     GeneratorContext *ctx = globals.gen_ctx;
     HTclear(seen);
     curr_node = node;
-    OUT("%s;\n", ID_ORIG(INODE_NAME(node)));
+    OUT("\"%s\";\n", ID_ORIG(INODE_NAME(node)));
     TRAVichildren(node);
     TRAViattributes(node);
     TRAVnext(node);
@@ -43,7 +62,7 @@ node_st *GDinode(node_st *node)
 node_st *GDinodeset(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    OUT("%s;\n", ID_ORIG(INODESET_NAME(node)));
+    OUT("\"%s\";\n", ID_ORIG(INODESET_NAME(node)));
     curr_nodeset = node;
     TRAVexpr(node);
     TRAVnext(node);
@@ -54,7 +73,7 @@ node_st *GDsetliteral(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (node && SETLITERAL_REFERENCE(node)) {
-        OUT("%s -> %s [color=blue]\n", ID_ORIG(INODESET_NAME(curr_nodeset)), ID_ORIG(SETLITERAL_REFERENCE(node)));
+        OUT("\"%s\" -> \"%s\" [color=blue]\n", ID_ORIG(INODESET_NAME(curr_nodeset)), DeclaredName(SETLITERAL_REFERENCE(node)));
     }
     TRAVright(node);
     TRAVleft(node);
@@ -65,8 +84,8 @@ node_st *GDattribute(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (ATTRIBUTE_TYPE(node) == AT_link) {
-        OUT("%s -> %s[color=red, label=\"%s\"]\n",
-            ID_ORIG(INODE_NAME(curr_node)), ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)),
+        OUT("\"%s\" -> \"%s\"[color=red, label=\"%s\"]\n",
+            ID_ORIG(INODE_NAME(curr_node)), DeclaredName(ATTRIBUTE_TYPE_REFERENCE(node)),
             ID_ORIG(ATTRIBUTE_NAME(node)));
     }
 
@@ -78,7 +97,7 @@ node_st *GDchild(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (!HTlookup(seen, ID_LWR(CHILD_TYPE_REFERENCE(node)))) {
-        OUT("%s -> %s[label=\"%s\"]\n", ID_ORIG(INODE_NAME(curr_node)), ID_ORIG(CHILD_TYPE_REFERENCE(node)), ID_ORIG(CHILD_NAME(node)));
+        OUT("\"%s\" -> \"%s\"[label=\"%s\"]\n", ID_ORIG(INODE_NAME(curr_node)), DeclaredName(CHILD_TYPE_REFERENCE(node)), ID_ORIG(CHILD_NAME(node)));
         //HTinsert(seen, ID_LWR(CHILD_TYPE_REFERENCE(node)), node);
     }
 
-- 
2.43.0


From 92f62a298ba456af43be4bf89487a60fcd3f4df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:39 +0000
Subject: [PATCH 40/47] fix: keep a child apart from its node in the attribute
 graphs

A child with the name of the node it belongs to was left out of the graph and its attributes were shown as those of the node.
---
 cocogen/dot/gen_dot_ag.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/cocogen/dot/gen_dot_ag.c b/cocogen/dot/gen_dot_ag.c
index 8f7a438..285699b 100644
--- a/cocogen/dot/gen_dot_ag.c
+++ b/cocogen/dot/gen_dot_ag.c
@@ -24,6 +24,12 @@ static inline node_st *get_node_name(node_st *node) {
     }
 }
 
+// A child may have the name of the node it belongs to. Names do not start with
+// a digit, so this keeps their vertices apart.
+static inline char *child_mark(node_st *node) {
+    return NODE_TYPE(node) == NT_CHILD ? "0" : "";
+}
+
 GDag_st *GDag_dot_init(char *filename) {
     GDag_st *dot = MEMmalloc(sizeof(struct GDag));
     GeneratorContext *ctx = globals.gen_ctx;
@@ -66,7 +72,7 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
                         htable_st *partition_table) {
     (void)dot;
     GeneratorContext *ctx = globals.gen_ctx;
-    htable_st *seen = HTnew_String(10);
+    htable_st *seen = HTnew_Ptr(10);
     OUT("subgraph cluster_%s {\n", name);
     OUT("style=\"filled\";\n");
     OUT("color=\"lightgrey\";\n");
@@ -74,9 +80,10 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
     for (struct GRnode *node = graph->nodes; node != NULL; node = node->next) {
         bool child = NODE_TYPE(node->node) == NT_CHILD;
         node_st *node_name = get_node_name(node->node);
-        if (HTlookup(seen, ID_LWR(node_name)) == NULL) {
-            HTinsert(seen, ID_LWR(node_name), node_name);
-            OUT("subgraph cluster_%s__%s {\n", name, ID_LWR(node_name));
+        if (HTlookup(seen, node->node) == NULL) {
+            HTinsert(seen, node->node, node_name);
+            OUT("subgraph cluster_%s__%s%s {\n", name, child_mark(node->node),
+                ID_LWR(node_name));
             OUT("style=\"filled\";\n");
             OUT("color=\"ivory\";\n");
             if (child) {
@@ -92,7 +99,8 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
                 if (attr->node != node->node) {
                     continue;
                 }
-                OUT("attr_%s__%s__%s [label=<%s", name, ID_LWR(node_name),
+                OUT("attr_%s__%s%s__%s [label=<%s", name,
+                    child_mark(node->node), ID_LWR(node_name),
                     ID_LWR(ATTRIBUTE_NAME(attr->attribute)),
                     ID_ORIG(ATTRIBUTE_NAME(attr->attribute)));
 
@@ -124,10 +132,10 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
             continue;
         }
 
-        OUT("attr_%s__%s__%s -> attr_%s__%s__%s", name,
-            ID_LWR(get_node_name(n1->node)),
+        OUT("attr_%s__%s%s__%s -> attr_%s__%s%s__%s", name,
+            child_mark(n1->node), ID_LWR(get_node_name(n1->node)),
             ID_LWR(ATTRIBUTE_NAME(n1->attribute)), name,
-            ID_LWR(get_node_name(n2->node)),
+            child_mark(n2->node), ID_LWR(get_node_name(n2->node)),
             ID_LWR(ATTRIBUTE_NAME(n2->attribute)));
         if (edge->type == GRinduced) {
             OUT(" [style=\"dotted\"]");
-- 
2.43.0


From 84db6a57568d8880288d7e7347d9a65d00696068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:39 +0000
Subject: [PATCH 41/47] fix: list every pass with --show-ast

Only the first pass of the specification was listed.
---
 cocogen/print/print.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/print/print.c b/cocogen/print/print.c
index 8c77378..2737e19 100644
--- a/cocogen/print/print.c
+++ b/cocogen/print/print.c
@@ -98,6 +98,7 @@ node_st *PRTitravdata(node_st *node)
 node_st *PRTipass(node_st *node)
 {
     printf("Pass: %s\n", ID_ORIG(IPASS_NAME(node)));
+    TRAVnext(node);
     return node;
 }
 
-- 
2.43.0


From bd704ed4cc5b16925aa507b43765c79ff324db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:39 +0000
Subject: [PATCH 42/47] fix: do not show the attributes of a nodeset a second
 time in its attribute graphs

The attributes of the set were added under each of its members besides the member's own attributes, so that a vertex appeared twice, with and without a partition.
---
 cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
index 7049b2b..292de95 100644
--- a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
+++ b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
@@ -286,7 +286,6 @@ static struct graph_list *generate_graph_nodeset(node_st *nodeset,
     for (struct node_list *entry = nodes; entry != NULL; entry = entry->next) {
         graph_st *graph = GRnew();
         add_attributes(graph, nodeset, INODESET_IATTRIBUTES(nodeset));
-        add_attributes(graph, entry->node, INODESET_IATTRIBUTES(nodeset));
 
         for (node_st *attr = INODESET_IATTRIBUTES(nodeset); attr != NULL;
              attr = ATTRIBUTE_NEXT(attr)) {
-- 
2.43.0


From c6b5d752890bb902f7392a8cc3963cc0c8226411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:43 +0000
Subject: [PATCH 43/47] fix: accept -b and let --verbose enable verbose mode,
 as the usage message says

-b was refused as unknown and --verbose had no effect, only -v had.
---
 cocogen/commandline.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cocogen/commandline.c b/cocogen/commandline.c
index 3242992..f57e1fc 100644
--- a/cocogen/commandline.c
+++ b/cocogen/commandline.c
@@ -71,7 +71,7 @@ void CLprocessArgs(int argc, char *argv[]) {
 
     // TODO: remove the hardcoded identifiers.
     static struct option long_options[] = {
-        {"verbose", no_argument, &global_command_line.verbose, 1},
+        {"verbose", no_argument, 0, 'v'},
         {"help", no_argument, 0, 'h'},
         {"dot", required_argument, 0, 23},
         {"version", no_argument, 0, 20},
@@ -94,7 +94,7 @@ void CLprocessArgs(int argc, char *argv[]) {
     char *endptr;
 
     while (1) {
-        c = getopt_long(argc, argv, "v", long_options, &option_index);
+        c = getopt_long(argc, argv, "vb:", long_options, &option_index);
 
         // End of options
         if (c == -1)
@@ -136,6 +136,7 @@ void CLprocessArgs(int argc, char *argv[]) {
             global_command_line.show_ast = true;
             break;
         case 33:
+        case 'b':
             CCNsetBreakpoint(optarg);
             break;
         case 34:
-- 
2.43.0


From 7616c9b57fd19d167388dc0ff61df13a70d621fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:43 +0000
Subject: [PATCH 44/47] fix: refuse unknown backends

With a misspelled --backend the generator succeeded without generating the sources of the compiler.
---
 cocogen/commandline.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocogen/commandline.c b/cocogen/commandline.c
index f57e1fc..a089d8f 100644
--- a/cocogen/commandline.c
+++ b/cocogen/commandline.c
@@ -7,6 +7,7 @@
 #include <string.h>
 #include "filesystem/utils.h"
 #include "ccn/ccn.h"
+#include "palm/str.h"
 
 extern char *yy_filename;
 
@@ -127,6 +128,11 @@ void CLprocessArgs(int argc, char *argv[]) {
             global_command_line.gen_user_files = true;
             break;
         case 30:
+            if (!STReqci("dynamic", optarg) && !STReq("static", optarg) &&
+                !STReq("typed", optarg)) {
+                printf("CLI: Unknown backend '%s'. Exiting.\n", optarg);
+                exit(EXIT_FAILURE);
+            }
             global_command_line.backend = optarg;
             break;
         case 31:
-- 
2.43.0


From 8a740432629695de3bd30a0454ca47d207a4a830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:16 +0000
Subject: [PATCH 45/47] fix: print the attribute an evaluation in a visit is
 about, instead of looking for a child the evaluation does not have

---
 cocogen/print/print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/print/print.c b/cocogen/print/print.c
index 2737e19..ed141d3 100644
--- a/cocogen/print/print.c
+++ b/cocogen/print/print.c
@@ -479,7 +479,7 @@ node_st *PRTvisit_sequence_eval(node_st *node)
 {
     PrintIndent();
     printf("eval ");
-    TRAVattribute(node);
+    TRAVopt(VISIT_SEQUENCE_EVAL_ATTRIBUTE(node));
     printf("\n");
     TRAVnext(node);
     return node;
-- 
2.43.0


From 2b18abe45622c487c1c9facc397c560ecaf11a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:16 +0000
Subject: [PATCH 46/47] fix: take the name of a node from the node in the
 messages about redeclared attributes

---
 cocogen/frontend/nodesets/propagate_attributes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/nodesets/propagate_attributes.c b/cocogen/frontend/nodesets/propagate_attributes.c
index 4a8ff6f..43a4900 100644
--- a/cocogen/frontend/nodesets/propagate_attributes.c
+++ b/cocogen/frontend/nodesets/propagate_attributes.c
@@ -58,7 +58,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "redeclared in node '%s' without the constructor keyword\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)),
-               ID_ORIG(INODESET_NAME(node)));
+               ID_ORIG(INODE_NAME(node)));
         CCNerrorAction();
     } else if (ATTRIBUTE_IS_INHERITED(child_attr) ||
                ATTRIBUTE_IS_SYNTHESIZED(child_attr) ||
@@ -67,7 +67,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "Redeclaration of attribute '%s' in node '%s' has a different "
                "signature than the attribute in parent nodeset '%s'\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
-               ID_ORIG(INODESET_NAME(node)),
+               ID_ORIG(INODE_NAME(node)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)));
         CCNerrorAction();
     }
-- 
2.43.0


From beb5619ae386595d9db2fffe28b1fb4922f2b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:16 +0000
Subject: [PATCH 47/47] fix: let the assertion on desired outputs of a visit
 accept that there are none

---
 cocogen/dynamic_backend/gen_visit_source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 004c071..13b3602 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -450,7 +450,7 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
 
 static inline bool is_desired(node_st *output, node_st *outputs) {
     assert(NODE_TYPE(output) == NT_VISIT_ARG_LIST);
-    assert(NODE_TYPE(outputs) == NT_VISIT_ARG_LIST);
+    assert(outputs == NULL || NODE_TYPE(outputs) == NT_VISIT_ARG_LIST);
     for (node_st *candidate = outputs; candidate;
          candidate = VISIT_ARG_LIST_NEXT(candidate)) {
         node_st *attr = VISIT_ARG_LIST_ATTRIBUTE(output);
-- 
2.43.0

