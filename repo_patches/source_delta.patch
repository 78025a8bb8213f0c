From 75d414f7f17a976d58c01902aeebb8c660c53b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 01/63] hook: table and buffer size knobs for the simulator
 (guard LACC_SIM)

---
 include/lacc/array.h      |  6 +++++-
 include/lacc/sim.h        | 16 ++++++++++++++++
 src/preprocessor/input.c  |  2 +-
 src/preprocessor/strtab.c |  2 +-
 src/util/hash.c           |  3 ++-
 5 files changed, 25 insertions(+), 4 deletions(-)
 create mode 100644 include/lacc/sim.h

diff --git a/include/lacc/array.h b/include/lacc/array.h
index 39cee62..d9582e9 100644
--- a/include/lacc/array.h
+++ b/include/lacc/array.h
@@ -1,6 +1,8 @@
 #ifndef ARRAY_H
 #define ARRAY_H
 
+#include "sim.h"
+
 /* Declare an object representing an array of given type. */
 #define array_of(T) \
     struct {                                                                   \
@@ -13,7 +15,9 @@
 #define array_push_back(arr, elem) \
     do {                                                                       \
         if ((arr)->length == (arr)->capacity) {                                \
-            (arr)->capacity = (arr)->capacity ? (arr)->capacity * 2 : 16;      \
+            (arr)->capacity = (arr)->capacity                                  \
+                ? (arr)->capacity * 2                                          \
+                : SIM_KNOB("array", 16);                                       \
             (arr)->data =                                                      \
                 realloc(                                                       \
                     (arr)->data,                                               \
diff --git a/include/lacc/sim.h b/include/lacc/sim.h
new file mode 100644
index 0000000..0fdf5ca
--- /dev/null
+++ b/include/lacc/sim.h
@@ -0,0 +1,16 @@
+#ifndef SIM_H
+#define SIM_H
+
+/*
+ * Hooks for deterministic simulation, off by default. When LACC_SIM is
+ * defined, initial capacities of buffers and tables are chosen by the
+ * simulator, which must provide this function.
+ */
+#ifdef LACC_SIM
+extern int lacc_sim_knob(const char *name, int value);
+# define SIM_KNOB(name, value) lacc_sim_knob(name, value)
+#else
+# define SIM_KNOB(name, value) (value)
+#endif
+
+#endif
diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 2bda83e..14addc7 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -15,7 +15,7 @@
 #include <string.h>
 #include <unistd.h>
 
-#define FILE_BUFFER_SIZE 4096
+#define FILE_BUFFER_SIZE SIM_KNOB("file_buffer", 4096)
 
 struct source {
     FILE *file;
diff --git a/src/preprocessor/strtab.c b/src/preprocessor/strtab.c
index 23d0e03..cf3b2a9 100644
--- a/src/preprocessor/strtab.c
+++ b/src/preprocessor/strtab.c
@@ -13,7 +13,7 @@
 #include <string.h>
 #include <limits.h>
 
-#define STRTAB_CAPACITY_INITIAL 2048
+#define STRTAB_CAPACITY_INITIAL SIM_KNOB("strtab", 2048)
 #define STRTAB_CAPACITY_MAX INT_MAX
 
 /*
diff --git a/src/util/hash.c b/src/util/hash.c
index 707b57e..a81ede1 100644
--- a/src/util/hash.c
+++ b/src/util/hash.c
@@ -4,13 +4,14 @@
 #endif
 #include <lacc/context.h>
 #include <lacc/hash.h>
+#include <lacc/sim.h>
 
 #include <assert.h>
 #include <stdlib.h>
 #include <string.h>
 #include <limits.h>
 
-#define HASH_CAPACITY_INITIAL 16
+#define HASH_CAPACITY_INITIAL SIM_KNOB("hash", 16)
 #define HASH_CAPACITY_MAX INT_MAX
 
 struct hash_entry {
-- 
2.43.0


From bafdd59fc676386e67f4431745427e41e1f075f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 02/63] fix: report read errors instead of taking them for end
 of file

---
 src/preprocessor/input.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 14addc7..b1d4ead 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -570,6 +570,10 @@ static char *initial_preprocess_line(struct source *fn)
                     fn->size - 1,
                     fn->file);
             }
+            if (ferror(fn->file)) {
+                error("Unable to read from file %s.", str_raw(fn->path));
+                exit(1);
+            }
             fn->processed = 0;
             fn->buffer[fn->read] = '\0';
             if (feof(fn->file)) {
-- 
2.43.0


From 73aa1156cfa2b806b69ce4d299f3f26ba7a446f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 03/63] fix: count the newline added at the end of a file

---
 src/preprocessor/input.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index b1d4ead..a536c89 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -582,7 +582,8 @@ static char *initial_preprocess_line(struct source *fn)
                 }
                 if (fn->buffer[fn->read - 1] != '\n') {
                     error("Missing newline at end of file.");
-                    fn->buffer[fn->read] = '\n';
+                    fn->buffer[fn->read++] = '\n';
+                    fn->buffer[fn->read] = '\0';
                 }
             }
         }
-- 
2.43.0


From 3ce71177d2df70663acd76470afacd059b133278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 04/63] fix: do not skip headers that exist but cannot be
 opened

---
 src/preprocessor/input.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index a536c89..e76c397 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -10,6 +10,7 @@
 
 #include <assert.h>
 #include <ctype.h>
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
@@ -140,6 +141,24 @@ static char *create_path(const char *path, size_t dirlen, const char *name)
     return path_buffer;
 }
 
+/*
+ * Try opening a header. Only a header that does not exist can be looked
+ * for in the next directory, other problems must not be ignored.
+ */
+static FILE *open_include_file(const char *path)
+{
+    FILE *file;
+
+    errno = 0;
+    file = fopen(path, "r");
+    if (!file && errno != ENOENT && errno != ENOTDIR) {
+        error("Unable to open include file '%s'.", path);
+        exit(1);
+    }
+
+    return file;
+}
+
 INTERNAL void include_file(const char *name)
 {
     const char *path;
@@ -159,7 +178,7 @@ INTERNAL void include_file(const char *name)
         path = name;
     }
 
-    source.file = fopen(path, "r");
+    source.file = open_include_file(path);
     if (source.file) {
         source.path = str_c(path);
         source.dirlen = path_dirlen(path);
@@ -184,7 +203,7 @@ INTERNAL void include_system_file(const char *name)
             assert(dirlen);
         }
         path = create_path(path, dirlen, name);
-        source.file = fopen(path, "r");
+        source.file = open_include_file(path);
         if (source.file) {
             source.path = str_c(path);
             source.dirlen = path_dirlen(path);
@@ -225,7 +244,7 @@ static void inject_include_files(void)
 
     for (i = array_len(&include_files) - 1; i >= 0; --i) {
         path = array_get(&include_files, i);
-        source.file = fopen(path, "r");
+        source.file = open_include_file(path);
         if (source.file) {
             source.path = str_c(path);
             source.dirlen = path_dirlen(path);
-- 
2.43.0


From 2ea018ea9734d7363179b111a06f284d3a934f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 05/63] fix: reject files that end inside a conditional group

---
 src/preprocessor/directive.c | 5 +++++
 src/preprocessor/directive.h | 3 +++
 src/preprocessor/input.c     | 8 ++++++++
 3 files changed, 16 insertions(+)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index e251c1e..6ddbafc 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -83,6 +83,11 @@ static enum state pop_state(void)
     return val;
 }
 
+INTERNAL int conditional_depth(void)
+{
+    return array_len(&branch_stack);
+}
+
 INTERNAL int in_active_block(void)
 {
     enum state s = BRANCH_LIVE;
diff --git a/src/preprocessor/directive.h b/src/preprocessor/directive.h
index 3345b18..2fca4b3 100644
--- a/src/preprocessor/directive.h
+++ b/src/preprocessor/directive.h
@@ -23,6 +23,9 @@ EXTERNAL struct token
  */
 INTERNAL void preprocess_directive(TokenArray *line);
 
+/* Number of conditional groups currently open. */
+INTERNAL int conditional_depth(void);
+
 /* Non-zero iff currently not inside a false #if directive. */
 INTERNAL int in_active_block(void);
 
diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index e76c397..1fe4634 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -44,6 +44,9 @@ struct source {
 
     /* Current line. */
     int line;
+
+    /* Number of conditional groups open when starting on this file. */
+    int depth;
 };
 
 /* Temporary buffer used to construct search paths. */
@@ -81,6 +84,7 @@ static void push_file(struct source source)
     current_file_path = source.path;
     source.buffer = malloc(FILE_BUFFER_SIZE);
     source.size = FILE_BUFFER_SIZE;
+    source.depth = conditional_depth();
     array_push_back(&source_stack, source);
 }
 
@@ -669,6 +673,10 @@ INTERNAL char *getprepline(void)
         line = initial_preprocess_line(source);
         current_file_line += source->line - loc;
         if (!line) {
+            if (conditional_depth() > source->depth) {
+                error("Unterminated conditional directive.");
+                exit(1);
+            }
             stale = 1;
             if (pop_file() == EOF) {
                 return NULL;
-- 
2.43.0


From 3d88b1f5e3ac668b6211838761429973561e8de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 06/63] fix: do not look for a directive past the end of an
 included file

---
 src/preprocessor/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 1fe4634..591ce22 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -682,7 +682,7 @@ INTERNAL char *getprepline(void)
                 return NULL;
             }
         }
-        if (!in_active_block() && !is_directive(line)) {
+        if (line && !in_active_block() && !is_directive(line)) {
             line = NULL;
         }
     } while (!line);
-- 
2.43.0


From 9cee666d109c3154a7860bf891ab35931969f080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 07/63] fix: end of input inside a macro call is an error, not
 an abort

---
 src/preprocessor/preprocess.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/preprocessor/preprocess.c b/src/preprocessor/preprocess.c
index 0478761..29ebc74 100644
--- a/src/preprocessor/preprocess.c
+++ b/src/preprocessor/preprocess.c
@@ -151,7 +151,9 @@ static void read_macro_invocation(TokenArray *line, const struct macro *macro)
              */
             continue;
         }
-        assert(t.token != END);
+        if (t.token == END) {
+            break;
+        }
         array_push_back(line, t);
     }
 
@@ -213,8 +215,9 @@ static struct token skip_or_get_token(TokenArray *line, int i)
         do {
             t = get_token();
         } while (t.token == NEWLINE);
-        assert(t.token != END);
-        array_push_back(line, t);
+        if (t.token != END) {
+            array_push_back(line, t);
+        }
     } else {
         assert(i >= 0);
         assert(i < array_len(line));
@@ -242,6 +245,10 @@ static int skip_or_read_expansion(TokenArray *line, int i)
     nest = 1;
     while (nest) {
         t = skip_or_get_token(line, i++);
+        if (t.token == END) {
+            error("Unbalanced invocation of macro.");
+            exit(1);
+        }
         if (t.token == '(') nest++;
         if (t.token == ')') nest--;
     }
@@ -269,8 +276,7 @@ static int read_complete_line(TokenArray *line, struct token t, int directive)
         t = get_token();
     }
 
-    while (t.token != NEWLINE) {
-        assert(t.token != END);
+    while (t.token != NEWLINE && t.token != END) {
         if (expandable && t.is_expandable) {
             if (directive && !tok_cmp(t, ident__defined)) {
                 read_defined_operator(line);
@@ -297,7 +303,14 @@ static int read_complete_line(TokenArray *line, struct token t, int directive)
         t = get_token();
     }
 
-    assert(t.token == NEWLINE);
+    /* Input can end right after the name of a function-like macro. */
+    if (t.token == END) {
+        t = basic_token[NEWLINE];
+        if (array_len(line) && array_back(line).token == NEWLINE) {
+            return macros;
+        }
+    }
+
     array_push_back(line, t);
     return macros;
 }
-- 
2.43.0


From 303f6d9362ff38f721cd836348bb3979a86b0fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 08/63] fix: fail when output cannot be written

---
 src/lacc.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/lacc.c b/src/lacc.c
index 5699937..3c8a8b8 100644
--- a/src/lacc.c
+++ b/src/lacc.c
@@ -611,6 +611,7 @@ static void add_include_search_paths(void)
 
 static int process_file(struct input_file file)
 {
+    int failed;
     FILE *output;
     struct definition *def;
     const struct symbol *sym;
@@ -667,7 +668,12 @@ static int process_file(struct input_file file)
     }
 
     if (output != stdout) {
-        fclose(output);
+        failed = ferror(output);
+        if (fclose(output) || failed) {
+            fprintf(stderr, "Could not write output file '%s'.\n",
+                file.output_name);
+            return 1;
+        }
     }
 
     return context.errors;
@@ -701,5 +707,14 @@ end:
     clear_predefined_macros();
     clear_input_files();
     clear_linker_args();
-    return ret < 0 ? 0 : ret;
+    if (ret < 0) {
+        ret = 0;
+    }
+
+    if (!ret && (fflush(stdout) || ferror(stdout))) {
+        fprintf(stderr, "%s\n", "Could not write to standard output.");
+        ret = 1;
+    }
+
+    return ret;
 }
-- 
2.43.0


From ae4c3baf858d6b4b6ea7e57316dfb930e5087606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 09/63] fix: do not let the number of errors wrap to exit
 status 0

---
 src/lacc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lacc.c b/src/lacc.c
index 3c8a8b8..bfd1d18 100644
--- a/src/lacc.c
+++ b/src/lacc.c
@@ -676,7 +676,7 @@ static int process_file(struct input_file file)
         }
     }
 
-    return context.errors;
+    return context.errors != 0;
 }
 
 int main(int argc, char *argv[])
-- 
2.43.0


From 071b6224edce5d0428c3ffe82cd1aa100f69eb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 10/63] fix: fail when the linker cannot be run or is
 terminated

---
 src/backend/linker.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/backend/linker.c b/src/backend/linker.c
index 6f6c732..efcdde2 100644
--- a/src/backend/linker.c
+++ b/src/backend/linker.c
@@ -8,6 +8,7 @@
 
 #include <sys/types.h>
 #include <sys/wait.h>
+#include <errno.h>
 #include <stdlib.h>
 #include <limits.h>
 #include <string.h>
@@ -126,7 +127,7 @@ INTERNAL int invoke_linker(void)
 {
     char **argv;
     int status, ret;
-    pid_t pid;
+    pid_t pid, wpid;
 
     init_linker();
     array_concat(&ld_args, &ld_user_args);
@@ -149,14 +150,26 @@ INTERNAL int invoke_linker(void)
     switch ((pid = fork())) {
     case 0:
         execvp(argv[0], argv);
-        _exit(0);
+        _exit(127);
     case -1:
         fprintf(stderr, "%s\n", "Failed to start linker process.");
         ret = 1;
         break;
     default:
-        waitpid(pid, &status, 0);
-        ret = WEXITSTATUS(status);
+        while ((wpid = waitpid(pid, &status, 0)) == -1 && errno == EINTR)
+            ;
+        if (wpid != pid) {
+            fprintf(stderr, "%s\n", "Failed to wait for linker process.");
+            ret = 1;
+        } else if (!WIFEXITED(status)) {
+            fprintf(stderr, "%s\n", "Linker process was terminated.");
+            ret = 1;
+        } else {
+            ret = WEXITSTATUS(status);
+            if (ret == 127) {
+                fprintf(stderr, "%s\n", "Failed to start linker process.");
+            }
+        }
         break;
     }
 
-- 
2.43.0


From b2e0a284405bfc1d9c522c47f0a820dba63b18d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 11/63] fix: pass -Wl options on to the linker

---
 src/lacc.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/lacc.c b/src/lacc.c
index bfd1d18..09ba741 100644
--- a/src/lacc.c
+++ b/src/lacc.c
@@ -395,24 +395,24 @@ static void clear_predefined_macros(void)
 }
 
 static int add_linker_flag(const char *arg)
+{
+    assert(!strcmp("-rdynamic", arg));
+    return add_linker_arg("-export-dynamic");
+}
+
+/* Pass each of a comma separated list of options on to the linker. */
+static int add_linker_flags(const char *arg)
 {
     char *end;
 
-    if (!strcmp("-rdynamic", arg)) {
-        add_linker_arg("-export-dynamic");
-    } else {
-        assert(!strncmp("-Wl,", arg, 4));
+    do {
         end = strchr(arg, ',');
-        do {
-            arg = end + 1;
-            end = strchr(arg, ',');
-            if (end) {
-                *end = '\0';
-            }
+        if (end) {
+            *end++ = '\0';
+        }
 
-            add_linker_arg(arg);
-        } while (end);
-    }
+        add_linker_arg(arg);
+    } while ((arg = end) != NULL);
 
     return 0;
 }
@@ -480,6 +480,7 @@ static int parse_program_arguments(int argc, char *argv[])
         {"-w", &flag},
         {"-g", &flag},
         {"-W", &warn},
+        {"-Wl,<", &add_linker_flags},
         {"-W<", &warn},
         {"-x:", &language},
         {"-f[no-]PIC", &option},
@@ -510,7 +511,6 @@ static int parse_program_arguments(int argc, char *argv[])
         {"-pedantic", &option},
         {"-MD", &option},
         {"-MP", &option},
-        {"-Wl,", &add_linker_flag},
         {"-rdynamic", &add_linker_flag},
         {"-shared", &add_linker_arg},
         {"-static", &add_linker_arg},
-- 
2.43.0


From 22cc30def1cc0e95967854defba82c68bc079bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 12/63] fix: allow the first write to a section of a later file
 to grow it

---
 src/backend/x86_64/elf.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/backend/x86_64/elf.c b/src/backend/x86_64/elf.c
index b105867..a1fca99 100644
--- a/src/backend/x86_64/elf.c
+++ b/src/backend/x86_64/elf.c
@@ -126,7 +126,6 @@ INTERNAL size_t elf_section_write(int shid, const void *data, size_t n)
                 scap[shid] = 10 * n;
                 sbuf[shid].data = malloc(scap[shid]);
             } else {
-                assert(offset);
                 assert(sbuf[shid].data);
                 scap[shid] = 2 * scap[shid] + n;
                 sbuf[shid].data = realloc(sbuf[shid].data, scap[shid]);
-- 
2.43.0


From e3224b63781ee27f33ad6bf6699ed55bf7bda157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 13/63] fix: do not reuse negation constants of an earlier file

---
 src/backend/x86_64/compile.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index eab39e3..d53bc70 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -2515,29 +2515,33 @@ static enum reg compile_not(
     return ax;
 }
 
+/*
+ * Constants used for negating floating point numbers. Symbols belong to
+ * the translation unit, and must be created again for each file.
+ */
+static struct symbol *neg_mask_float, *neg_mask_double;
+
 static enum reg compile_neg(
     struct var target,
     struct var l)
 {
-    static struct symbol *c32, *c64;
-
     enum reg xmm0, xmm1;
     struct var val;
     union value num = {0};
 
     if (is_float(l.type)) {
-        if (!c32) {
+        if (!neg_mask_float) {
             num.u = 1u << 31;
-            c32 = sym_create_constant(basic_type__float, num);
+            neg_mask_float = sym_create_constant(basic_type__float, num);
         }
-        val = var_direct(c32);
+        val = var_direct(neg_mask_float);
     } else {
         assert(is_double(l.type));
-        if (!c64) {
+        if (!neg_mask_double) {
             num.u = 1ul << 63;
-            c64 = sym_create_constant(basic_type__double, num);
+            neg_mask_double = sym_create_constant(basic_type__double, num);
         }
-        val = var_direct(c64);
+        val = var_direct(neg_mask_double);
     }
 
     assert(size_of(l.type) == size_of(val.type));
@@ -3369,6 +3373,8 @@ static void compile_function(struct definition *def)
 
 INTERNAL void set_compile_target(FILE *stream, const char *file)
 {
+    neg_mask_float = NULL;
+    neg_mask_double = NULL;
     switch (context.target) {
     default: assert(0);
     case TARGET_ASM:
-- 
2.43.0


From e7a56d0501c861669cdd1b99844698818b507eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 14/63] fix: reject function definitions inside functions

---
 src/parser/declaration.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 5ff916f..3c67a40 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1123,6 +1123,11 @@ static struct block *init_declarator(
             exit(1);
         }
         if (is_function(sym->type)) {
+            if (current_scope_depth(&ns_ident)) {
+                error("Cannot define function '%s' inside a function.",
+                    str_raw(sym->name));
+                exit(1);
+            }
             sym->symtype = SYM_DEFINITION;
             cfg_define(def, sym);
             push_scope(&ns_label);
-- 
2.43.0


From 4314e5de100518d91fde74c4d503b1627caa942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 15/63] fix: optimizer does not end on empty infinite loops

---
 src/optimizer/optimize.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/optimizer/optimize.c b/src/optimizer/optimize.c
index 4827ae0..e5cebb6 100644
--- a/src/optimizer/optimize.c
+++ b/src/optimizer/optimize.c
@@ -153,19 +153,22 @@ static int color_white(struct definition *def, struct block *block)
     return 0;
 }
 
-/* Forward jumps through blocks with no instructions. */
+/*
+ * Forward jumps through blocks with no instructions. Empty blocks can
+ * form a cycle, so never take more steps than there are blocks.
+ */
 static int skip_empty_blocks(struct definition *def, struct block *block)
 {
-    int i;
+    int i, n;
     struct block *next;
 
     for (i = 0; i < 2 && block->jump[i]; ++i) {
-        do {
+        for (n = array_len(&blocklist); n > 0; --n) {
             next = block->jump[i];
             if (!next->count && next->jump[0] && !next->jump[1]) {
                 block->jump[i] = next->jump[0];
             } else break;
-        } while (1);
+        }
     }
 
     return 0;
-- 
2.43.0


From 8bcb8493110b25a947cd5f562f99162cb896e304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 16/63] fix: reject members with function type

---
 src/parser/declaration.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 3c67a40..aa096ae 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -456,6 +456,10 @@ static void member_declaration_list(Type type)
                     exit(1);
                 }
             } else {
+                if (is_function(decl_type)) {
+                    error("Member '%s' has function type.", str_raw(name));
+                    exit(1);
+                }
                 type_add_member(type, name, decl_type);
             }
 
-- 
2.43.0


From eff0aabcca5aeea94c2fb5a2ce6e24c2e511345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 17/63] fix: reject members with incomplete type

---
 src/parser/declaration.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index aa096ae..7cf5e2e 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -460,6 +460,12 @@ static void member_declaration_list(Type type)
                     error("Member '%s' has function type.", str_raw(name));
                     exit(1);
                 }
+                if (is_void(decl_type)
+                    || (is_struct_or_union(decl_type) && !size_of(decl_type)))
+                {
+                    error("Member '%s' has incomplete type.", str_raw(name));
+                    exit(1);
+                }
                 type_add_member(type, name, decl_type);
             }
 
-- 
2.43.0


From ac0081678b27e8649363d9922ecba2d0062f6695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 18/63] fix: reject objects left with incomplete type

---
 src/parser/symtab.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index b81334e..5ca5b85 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -573,6 +573,10 @@ INTERNAL const struct symbol *yield_declaration(struct namespace *ns)
                 return sym;
             break;
         case SYM_TENTATIVE:
+            if (is_struct_or_union(sym->type) && !size_of(sym->type)) {
+                error("Object '%s' has incomplete type.", sym_name(sym));
+                exit(1);
+            }
             return sym;
         default:
             break;
-- 
2.43.0


From 1c26ea238e8611f2d0a85d3d5b5be5996d7a6088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 19/63] fix: let -dot produce its output

---
 src/backend/x86_64/compile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index d53bc70..7c6a97e 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -3377,6 +3377,8 @@ INTERNAL void set_compile_target(FILE *stream, const char *file)
     neg_mask_double = NULL;
     switch (context.target) {
     default: assert(0);
+    case TARGET_IR_DOT:
+        break;
     case TARGET_ASM:
         asm_init(stream, file);
         enter_context = asm_symbol;
@@ -3405,6 +3407,8 @@ INTERNAL int compile(struct definition *def)
     definition = def;
     switch (context.target) {
     default: assert(0);
+    case TARGET_IR_DOT:
+        break;
     case TARGET_ASM:
     case TARGET_OBJ:
     case TARGET_EXE:
-- 
2.43.0


From 8ba0767a4c48bd514e21ccd0b5837bee4c9fcf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 20/63] fix: do not drop the target of an unused call returning
 a struct

---
 src/optimizer/transform.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimizer/transform.c b/src/optimizer/transform.c
index d937a14..cfa25a7 100644
--- a/src/optimizer/transform.c
+++ b/src/optimizer/transform.c
@@ -114,10 +114,15 @@ INTERNAL int dead_store_elimination(
             && !is_live_after(st->t.value.symbol, st)
             && st->t.value.symbol->linkage == LINK_NONE)
         {
-            c += 1;
             if (has_side_effects(st->expr)) {
+                /* Objects returned in memory need somewhere to go. */
+                if (is_struct_or_union(st->expr.type))
+                    continue;
+
+                c += 1;
                 st->st = IR_EXPR;
             } else {
+                c += 1;
                 statement_array_erase(def, block->head + i);
                 i -= 1;
             }
-- 
2.43.0


From 9bca6df07c4c3db4739e0bb516ca661cfbc56017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 21/63] fix: pop the unused result of a call returning long
 double

---
 src/backend/x86_64/compile.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 7c6a97e..5295014 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -75,7 +75,7 @@ INTERNAL int x87_stack_pos(enum reg r)
 {
     assert(r >= ST0);
     assert(r <= ST7);
-    assert(x87_stack > 1);
+    assert(x87_stack > 0);
 
     return (x87_stack - 1) - (r - ST0);
 }
@@ -3052,6 +3052,13 @@ static void compile_statement(struct statement stmt)
         stmt.t.type = basic_type__void;
     case IR_ASSIGN:
         compile_assign(stmt.t, stmt.expr);
+        if (x87_stack) {
+            /* Result is not used, the register must still be popped. */
+            assert(is_void(stmt.t.type));
+            assert(x87_stack == 1);
+            emit_r_(INSTR_FSTP, reg(ST0, 16));
+            x87_stack = 0;
+        }
         break;
     case IR_VLA_ALLOC:
         assert(stmt.t.kind == DIRECT);
-- 
2.43.0


From 2357e0b89f25fc181a9d4a0b3da1737514da842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 22/63] fix: pop the right x87 register after comparing long
 double values

---
 src/backend/x86_64/compile.c  | 7 ++++---
 src/backend/x86_64/encoding.c | 2 ++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 5295014..c4487f9 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -3265,9 +3265,10 @@ static void compile_block(
                     assert(x87_stack == 1);
                     emit_(INSTR_FLDZ);
                     x87_stack++;
-                    emit_r_(INSTR_FUCOMIP, reg(ax, 16));
-                    emit_r_(INSTR_FSTP, reg(ax, 16));
-                    x87_stack = 0;
+                    emit_r_(INSTR_FUCOMIP, reg(ST0, 16));
+                    x87_stack--;
+                    emit_r_(INSTR_FSTP, reg(ST0, 16));
+                    x87_stack--;
                 } else {
                     assert(w == 4 || w == 8);
                     xmm0 = ax;
diff --git a/src/backend/x86_64/encoding.c b/src/backend/x86_64/encoding.c
index c5047cd..d76cba3 100644
--- a/src/backend/x86_64/encoding.c
+++ b/src/backend/x86_64/encoding.c
@@ -713,6 +713,8 @@ static void encode_reg(
     if ((enc.opextra & OPX_REG) == OPX_REG) {
         assert(!enc.modrm);
         c->val[c->len - 1] |= reg3(r);
+    } else if (r >= ST0) {
+        c->val[c->len++] = 0xC0 | enc.modrm | x87_stack_pos(r);
     } else {
         c->val[c->len++] = 0xC0 | enc.modrm | reg3(r);
     }
-- 
2.43.0


From 0e5ca3cc7d427e9050901a30f8aaa5805f021033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 23/63] fix: restore the stack pointer after loading an integer
 as long double

---
 src/backend/x86_64/compile.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index c4487f9..04b47c0 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -939,12 +939,15 @@ static enum reg load_x87(struct var v)
     } else {
         assert(is_signed(v.type));
         assert(w != 1);
-        if (v.kind == DIRECT && !is_global_offset(v.value.symbol)) {
+        if (v.kind == DIRECT
+            && !is_register_allocated(v)
+            && !is_global_offset(v.value.symbol))
+        {
             emit_m_(INSTR_FILD, location_of(v, w));
         } else {
             push(v);
             emit_m_(INSTR_FILD, location(address(0, SP, 0, 0), w));
-            emit_ir(INSTR_ADD, constant(w, 8), reg(SP, 8));
+            emit_ir(INSTR_ADD, constant(EIGHTBYTES(v.type) * 8, 8), reg(SP, 8));
         }
     }
 
-- 
2.43.0


From 95fff336eb01be1c223fd0b69260f9805c583aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 24/63] fix: keep the register save area of variadic functions
 clear of saved registers

---
 src/backend/x86_64/compile.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 04b47c0..8d7cda4 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1762,7 +1762,7 @@ static void enter(struct definition *def)
         next_integer_reg = 1;
         return_address_offset = -8 - reg_offset;
         if (is_vararg(type)) {
-            return_address_offset = -176 - reg_offset;
+            return_address_offset = -176 - reg_offset - reg_offset % 16;
         }
     }
 
@@ -1772,10 +1772,11 @@ static void enter(struct definition *def)
      * there are 8 bytes for each of the 6 integer registers, and 16
      * bytes for each of the 8 SSE registers, for a total of 176 bytes.
      * If return type is MEMORY, the return address is automatically
-     * included in register spill area.
+     * included in register spill area. The area is placed below saved
+     * registers, and aligned to 16 bytes.
      */
     if (is_vararg(type)) {
-        stack_offset = -176;
+        stack_offset = -176 - reg_offset % 16;
     }
 
     /*
@@ -1842,7 +1843,7 @@ static void enter(struct definition *def)
         vararg.gp_offset = 8*next_integer_reg;
         vararg.fp_offset = 8*MAX_INTEGER_ARGS + 16*next_sse_reg;
         vararg.overflow_arg_area_offset = mem_offset;
-        vararg.reg_save_area_offset = 0;
+        vararg.reg_save_area_offset = -reg_offset - reg_offset % 16;
         emit_rr(INSTR_TEST, reg(AX, 1), reg(AX, 1));
         emit_jcc(CC_E, addr(sym));
         for (i = 0; i < MAX_SSE_ARGS; ++i) {
-- 
2.43.0


From 126e90ea717382d332df2f5a78fc8dbc8aed392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 25/63] fix: push floating point temporaries that are kept in
 registers

---
 src/backend/x86_64/compile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 8d7cda4..7010309 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -865,6 +865,11 @@ static void push(struct var v)
     } else if (is_scalar(v.type)) {
         if (v.kind == IMMEDIATE && is_int_constant(v)) {
             emit_i_(INSTR_PUSH, value_of(v, 8));
+        } else if (is_real(v.type) && is_register_allocated(v)) {
+            emit_ir(INSTR_SUB, constant(8, 8), reg(SP, 8));
+            emit_rm(INSTR_MOVS,
+                reg(allocated_register(v), size_of(v.type)),
+                location(address(0, SP, 0, 0), size_of(v.type)));
         } else {
             /*
              * Not possible to push SSE registers, so load as if normal
-- 
2.43.0


From 2b6b1fd8472011293dfd23ab296b2aedc11b7edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 26/63] fix: evaluate the chosen operand of a constant
 conditional only once

---
 src/parser/expression.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index e64d32f..fdfff3e 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -875,8 +875,7 @@ INTERNAL struct block *conditional_expression(
         if (is_void(type)) {
             block->expr = as_expr(var_void());
         } else {
-            block->expr = eval_cast(def, block,
-                eval(def, block, block->expr), type);
+            block->expr = eval_cast(def, block, b ? lval : rval, type);
         }
     } else {
         left = cfg_block_init(def);
-- 
2.43.0


From ceabb2f4136330229c2de277dff6c93191d63d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 27/63] fix: do not write past the end of structs of 3, 5, 6 or
 7 bytes

---
 src/backend/x86_64/compile.c | 60 ++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 10 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 7010309..905e529 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1369,6 +1369,35 @@ static int alloc_register_params(
     return 0;
 }
 
+/*
+ * Store the lower 3, 5, 6 or 7 bytes of an integer register, which are
+ * the last part of an object. No store instruction has this width, and
+ * rounding up would overwrite whatever follows the object in memory.
+ * The register is clobbered.
+ */
+static void store_tail(enum reg r, struct var v, size_t bytes)
+{
+    assert(bytes < 8);
+    v.field_width = 0;
+    v.field_offset = 0;
+    if (bytes & 4) {
+        v.type = basic_type__unsigned_int;
+        store(r, v);
+        v.offset += 4;
+        emit_ir(INSTR_SHR, constant(32, 1), reg(r, 8));
+    }
+    if (bytes & 2) {
+        v.type = basic_type__unsigned_short;
+        store(r, v);
+        v.offset += 2;
+        emit_ir(INSTR_SHR, constant(16, 1), reg(r, 8));
+    }
+    if (bytes & 1) {
+        v.type = basic_type__unsigned_char;
+        store(r, v);
+    }
+}
+
 static void move_to_from_registers(
     struct var var,
     struct param_class pc,
@@ -1379,6 +1408,7 @@ static void move_to_from_registers(
     int i, n;
     enum reg r;
     Type type;
+    size_t w;
 
     if (pc.eightbyte[0] == PC_X87) {
         assert(pc.eightbyte[1] == PC_X87UP);
@@ -1395,9 +1425,13 @@ static void move_to_from_registers(
             } else {
                 r = *sseregs++;
             }
+            w = size_of(type) - 8 * i;
             var.type = slice_type(type, pc, i);
             if (toggle_load) {
                 load(var, r);
+            } else if (w < size_of(var.type)) {
+                assert(pc.eightbyte[i] == PC_INTEGER);
+                store_tail(r, var, w);
             } else {
                 store(r, var);
             }
@@ -1973,7 +2007,7 @@ static void compile__builtin_va_arg(struct var res, struct var args)
         overflow_arg_area,
         reg_save_area;
     struct param_class pc;
-    int i, n, w,
+    int i, n, w, left,
         num_gp = 0,
         num_fp = 0,
         integer_regs_loaded = 0,
@@ -2047,9 +2081,11 @@ static void compile__builtin_va_arg(struct var res, struct var args)
          * register is at offset %rcx, and i counts number of registers
          * done. In GNU assembly it is {i*8}(%rsi, %rcx, 1).
          *
-         * Floating arguments to vararg is always double.
+         * Floating arguments to vararg is always double, but the last
+         * part of an aggregate can be a single float.
          */
         while ((i = integer_regs_loaded + sse_regs_loaded) < n) {
+            left = size_of(res.type) - 8 * i;
             switch (pc.eightbyte[i]) {
             case PC_INTEGER:
                 slice.type = slice_type(res.type, pc, i);
@@ -2057,13 +2093,18 @@ static void compile__builtin_va_arg(struct var res, struct var args)
                 w = size_of(slice.type);
                 emit_mr(INSTR_MOV,
                     location(address(i*8, SI, CX, 1), w), reg(AX, w));
-                store(AX, slice);
+                if (left < w) {
+                    store_tail(AX, slice, left);
+                } else {
+                    store(AX, slice);
+                }
                 break;
             case PC_SSE:
+                slice.type = slice_type(res.type, pc, i);
                 i = sse_regs_loaded++;
-                slice.type = basic_type__double;
+                w = size_of(slice.type);
                 emit_mr(INSTR_MOVS,
-                    location(address(i*16, SI, DX, 1), 8), reg(XMM0, 8));
+                    location(address(i*16, SI, DX, 1), w), reg(XMM0, w));
                 store(XMM0, slice);
                 break;
             default: assert(0);
@@ -2846,6 +2887,10 @@ static enum reg compile_cast(
 
     w = size_of(type);
     if (!is_standard_register_width(w) && w < 8) {
+        if (!is_void(target.type)) {
+            store_copy_object(l, target);
+            return AX;
+        }
         /* Do not bother masking adjacent bits read. */
         switch (w) {
         default: assert(0);
@@ -2860,11 +2905,6 @@ static enum reg compile_cast(
             ax = load_cast(l, l.type);
             break;
         }
-        if (!is_void(target.type)) {
-            /* All variables have at least 8 byte slots. */
-            target.type = l.type;
-            store(ax, target);
-        }
         return ax;
     }
 
-- 
2.43.0


From cc62680ec777ee6d8546ee1639113fe3f93aa821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 28/63] fix: accept initializers of qualified _Bool objects

---
 src/parser/eval.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 677bf08..3e0e057 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1687,6 +1687,9 @@ static struct expression eval_prepare_assign(
 
     if (is_bool(target)) {
         expr = eval_prepare_assign_bool(def, block, expr);
+        if (is_identity(expr) && expr.l.kind == IMMEDIATE) {
+            expr.type = expr.l.type = target;
+        }
     } else if (is_pointer(target)) {
         expr = eval_prepare_assign_pointer(expr, target);
     } else if (is_arithmetic(target) && is_arithmetic(expr.type)) {
-- 
2.43.0


From f62c00fc29a541d933590532fb0ec54ff3d886b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 29/63] fix: do not optimize away accesses to volatile objects

---
 src/optimizer/transform.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/optimizer/transform.c b/src/optimizer/transform.c
index cfa25a7..e01c5aa 100644
--- a/src/optimizer/transform.c
+++ b/src/optimizer/transform.c
@@ -19,6 +19,25 @@ static int var_equal(struct var a, struct var b)
         && a.offset == b.offset;
 }
 
+/*
+ * Determine if evaluating expression reads a volatile object, which
+ * must happen even if the value is not used.
+ */
+static int reads_volatile(struct expression expr)
+{
+    switch (expr.op) {
+    default:
+        if (is_volatile(expr.r.type))
+            return 1;
+    case IR_OP_CAST:
+    case IR_OP_NOT:
+    case IR_OP_NEG:
+    case IR_OP_CALL:
+    case IR_OP_VA_ARG:
+        return is_volatile(expr.l.type);
+    }
+}
+
 /*
  * Look at a pair of IR operations, and determine if they can be merged
  * to a single assignment:
@@ -44,6 +63,7 @@ static int can_merge(
         && s1.t.kind == DIRECT
         && s1.t.value.symbol->linkage == LINK_NONE
         && !is_field(s1.t)
+        && !is_volatile(s1.t.type)
         && !is_live_after(s1.t.value.symbol, &s2);
 }
 
@@ -112,7 +132,9 @@ INTERNAL int dead_store_elimination(
         if (st->st == IR_ASSIGN
             && st->t.kind == DIRECT
             && !is_live_after(st->t.value.symbol, st)
-            && st->t.value.symbol->linkage == LINK_NONE)
+            && st->t.value.symbol->linkage == LINK_NONE
+            && !is_volatile(st->t.type)
+            && !reads_volatile(st->expr))
         {
             if (has_side_effects(st->expr)) {
                 /* Objects returned in memory need somewhere to go. */
-- 
2.43.0


From add5a6f7c3c806299d916251035a3ab7a7598042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 30/63] fix: read volatile objects once, in order and in full
 width

---
 src/parser/eval.c       | 65 ++++++++++++++++++++++++++++++++++++++---
 src/parser/eval.h       |  5 +++-
 src/parser/expression.c | 21 +++++++------
 src/parser/statement.c  |  5 +++-
 4 files changed, 81 insertions(+), 15 deletions(-)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 3e0e057..6596c4f 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -290,6 +290,34 @@ INTERNAL void ir_asm(
     append_statement(def, block, stmt);
 }
 
+/*
+ * Read volatile object to a temporary. Other objects are not read until
+ * the value is needed, and can be read any number of times. Access to
+ * volatile objects must happen exactly once, in order, and always with
+ * the full width of the object.
+ */
+static struct var load_volatile(
+    struct definition *def,
+    struct block *block,
+    struct var var)
+{
+    struct var tmp;
+
+    if (def
+        && var.lvalue
+        && (var.kind == DIRECT || var.kind == DEREF)
+        && is_scalar(var.type)
+        && is_volatile(var.type))
+    {
+        tmp = create_var(def, type_unqualified(var.type));
+        ir_assign(def, block, tmp, as_expr(var));
+        tmp.lvalue = 0;
+        var = tmp;
+    }
+
+    return var;
+}
+
 /*
  * Evaluate standalone expressions which are not assigned to a variable.
  *
@@ -313,6 +341,8 @@ INTERNAL struct expression eval_expression_statement(
             res = create_var(def, expr.type);
             ir_assign(def, block, res, expr);
         }
+    } else if (is_identity(expr)) {
+        load_volatile(def, block, expr.l);
     }
 
     return as_expr(var_void());
@@ -420,6 +450,7 @@ static struct var cast_operand(
     struct var var,
     Type type)
 {
+    var = load_volatile(def, block, var);
     if (type_equal(var.type, type)) {
         return var;
     }
@@ -446,6 +477,7 @@ INTERNAL struct expression eval_cast(
     Type type)
 {
     if (is_void(type)) {
+        load_volatile(def, block, var);
         return as_expr(var_void());
     }
 
@@ -1077,6 +1109,8 @@ INTERNAL struct expression eval_lshift(
         exit(1);
     }
 
+    l = load_volatile(def, block, l);
+    r = load_volatile(def, block, r);
     type = promote_integer(l.type);
     l = cast_operand(def, block, l, type);
     if (l.kind == IMMEDIATE && r.kind == IMMEDIATE) {
@@ -1106,6 +1140,8 @@ INTERNAL struct expression eval_rshift(
         exit(1);
     }
 
+    l = load_volatile(def, block, l);
+    r = load_volatile(def, block, r);
     type = promote_integer(l.type);
     l = cast_operand(def, block, l, type);
     if (l.kind == IMMEDIATE && r.kind == IMMEDIATE) {
@@ -1134,6 +1170,7 @@ INTERNAL struct expression eval_not(
         exit(1);
     }
 
+    var = load_volatile(def, block, var);
     type = promote_integer(var.type);
     var = cast_operand(def, block, var, type);
     if (var.kind == IMMEDIATE) {
@@ -1160,6 +1197,8 @@ INTERNAL struct expression eval_neg(
         exit(1);
     }
 
+    var = load_volatile(def, block, var);
+
     if (is_float(var.type)) {
         if (var.kind == IMMEDIATE) {
             var.value.imm.f = -var.value.imm.f;
@@ -1208,12 +1247,16 @@ INTERNAL struct expression eval_call(
  *
  * Fields of unsigned type are promoted to signed int if the signed
  * type can represent all values of the unsigned type.
+ *
+ * Volatile objects are read here.
  */
 INTERNAL struct var rvalue(
     struct definition *def,
     struct block *block,
     struct var var)
 {
+    Type type;
+
     if (is_function(var.type)) {
         var = eval_addr(def, block, var);
     } else if (is_array(var.type)) {
@@ -1228,7 +1271,12 @@ INTERNAL struct var rvalue(
                 var.type = type_create_pointer(type_next(var.type));
             }
         } else {
-            var.type = type_next(var.type);
+            type = type_next(var.type);
+            if (is_volatile(var.type)) {
+                type = type_set_volatile(type);
+            }
+
+            var.type = type;
             var = eval_addr(def, block, var);
         }
     } else if (is_field(var) && is_unsigned(var.type)) {
@@ -1239,7 +1287,7 @@ INTERNAL struct var rvalue(
         }
     }
 
-    return var;
+    return load_volatile(def, block, var);
 }
 
 static struct expression eval_rvalue(
@@ -1255,7 +1303,9 @@ static struct expression eval_rvalue(
         return as_expr(var);
     }
 
-    if (is_identity(expr) && is_field(expr.l)) {
+    if (is_identity(expr)
+        && (is_field(expr.l) || is_volatile(expr.l.type)))
+    {
         var = rvalue(def, block, expr.l);
         return as_expr(var);
     }
@@ -1290,6 +1340,9 @@ INTERNAL struct block *scalar(
         tmp = create_var(def, block->expr.type);
         tmp = eval_assign(def, block, tmp, block->expr);
         block->expr = as_expr(tmp);
+    } else if (is_identity(block->expr)) {
+        tmp = load_volatile(def, block, block->expr.l);
+        block->expr = as_expr(tmp);
     }
 
     return block;
@@ -1310,7 +1363,10 @@ INTERNAL struct expression eval_va_arg(
     return create_expression(IR_OP_VA_ARG, type, l);
 }
 
-INTERNAL struct expression eval_unary_plus(struct var val)
+INTERNAL struct expression eval_unary_plus(
+    struct definition *def,
+    struct block *block,
+    struct var val)
 {
     Type type;
 
@@ -1319,6 +1375,7 @@ INTERNAL struct expression eval_unary_plus(struct var val)
         exit(1);
     }
 
+    val = load_volatile(def, block, val);
     val.lvalue = 0;
     if (!is_integer(val.type)) {
         return as_expr(val);
diff --git a/src/parser/eval.h b/src/parser/eval.h
index fe024e9..595f40b 100644
--- a/src/parser/eval.h
+++ b/src/parser/eval.h
@@ -182,7 +182,10 @@ INTERNAL struct var eval_copy(
  * Evaluate (+val). Perform integer promotion, and results in an
  * r-value.
  */
-INTERNAL struct expression eval_unary_plus(struct var val);
+INTERNAL struct expression eval_unary_plus(
+    struct definition *def,
+    struct block *block,
+    struct var val);
 
 /* Evaluate result type of (a) ? b : c. */
 INTERNAL Type eval_conditional_type(
diff --git a/src/parser/expression.c b/src/parser/expression.c
index fdfff3e..adb0dc0 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -220,7 +220,9 @@ static struct block *postfix(
                 exit(1);
             }
             value = eval(def, block, root);
-            value.type = mbr->type;
+            value.type = is_volatile(value.type)
+                ? type_set_volatile(mbr->type)
+                : mbr->type;
             value.field_width = mbr->field_width;
             value.field_offset = mbr->field_offset;
             value.offset += mbr->offset;
@@ -239,7 +241,9 @@ static struct block *postfix(
                         value.type, str_raw(str));
                     exit(1);
                 }
-                value.type = mbr->type;
+                value.type = is_volatile(value.type)
+                    ? type_set_volatile(mbr->type)
+                    : mbr->type;
                 value.field_width = mbr->field_width;
                 value.field_offset = mbr->field_offset;
                 value.offset += mbr->offset;
@@ -254,7 +258,8 @@ static struct block *postfix(
             next();
             value = eval(def, block, root);
             copy = eval_copy(def, block, value);
-            root = eval_add(def, block, value, var_int(1));
+            root = eval_add(def, block,
+                is_volatile(value.type) ? copy : value, var_int(1));
             eval_assign(def, block, value, root);
             block->expr = as_expr(copy);
             root = block->expr;
@@ -263,7 +268,8 @@ static struct block *postfix(
             next();
             value = eval(def, block, root);
             copy = eval_copy(def, block, value);
-            root = eval_sub(def, block, value, var_int(1));
+            root = eval_sub(def, block,
+                is_volatile(value.type) ? copy : value, var_int(1));
             eval_assign(def, block, value, root);
             block->expr = as_expr(copy);
             root = block->expr;
@@ -364,7 +370,7 @@ static struct block *unary_expression(
         next();
         block = cast_expression(def, block);
         value = eval(def, block, block->expr);
-        block->expr = eval_unary_plus(value);
+        block->expr = eval_unary_plus(def, block, value);
         break;
     case '-':
         next();
@@ -1001,10 +1007,7 @@ INTERNAL struct block *expression(struct definition *def, struct block *block)
 {
     block = assignment_expression(def, block);
     while (try_consume(',')) {
-        if (has_side_effects(block->expr)) {
-            eval(def, block, block->expr);
-        }
-
+        eval_expression_statement(def, block, block->expr);
         block = assignment_expression(def, block);
     }
 
diff --git a/src/parser/statement.c b/src/parser/statement.c
index 4a26762..6d40d67 100644
--- a/src/parser/statement.c
+++ b/src/parser/statement.c
@@ -324,6 +324,9 @@ static struct block *switch_statement(
     consume('(');
     parent = expression(def, parent);
     value = eval(def, parent, parent->expr);
+    if (is_volatile(value.type)) {
+        value = rvalue(def, parent, value);
+    }
     parent->expr = as_expr(value);
     if (!is_integer(value.type)) {
         error("Switch expression must have integer type, was %t.", value.type);
@@ -409,7 +412,7 @@ static struct asm_operand asm_operand(
     } else if (is_output) {
         error("Output operand constraint must begin with '=' or '+'.");
         exit(1);
-    } else {
+    } else if (!is_volatile(var.type) || !strchr(str, 'm')) {
         var = rvalue(def, *block, var);
     }
 
-- 
2.43.0


From 8cb3117299d375ce13f43d70a3e1859f2566a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 31/63] fix: reject initializer of a typedef instead of
 crashing

---
 src/parser/declaration.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 7cf5e2e..378b371 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1102,6 +1102,11 @@ static struct block *init_declarator(
 
     switch (peek()) {
     case '=':
+        if (sym->symtype == SYM_TYPEDEF) {
+            error("Type name '%s' cannot be initialized.",
+                str_raw(sym->name));
+            exit(1);
+        }
         if (sym->symtype == SYM_DECLARATION) {
             error("Extern symbol '%s' cannot be initialized.",
                 str_raw(sym->name));
-- 
2.43.0


From 72a867422e834b509ab6170edb90b4ef16de9b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 32/63] fix: report objects, parameters and results of
 incomplete type instead of aborting

---
 src/parser/declaration.c | 24 +++++++++++++++++++++++-
 src/parser/initializer.c |  5 ++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 378b371..ee84568 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -984,6 +984,11 @@ static struct block *make_parameters_visible(
         assert(param->sym->depth == 1);
         assert(!is_type_placeholder(param->type));
         assert(!is_array(param->type));
+        if (is_struct_or_union(param->type) && size_of(param->type) == 0) {
+            error("Parameter '%s' has incomplete type.", str_raw(param->name));
+            exit(1);
+        }
+
         sym_make_visible(&ns_ident, param->sym);
         array_push_back(&def->params, param->sym);
     }
@@ -1092,6 +1097,12 @@ static struct block *init_declarator(
     default:
         if (symtype == SYM_DEFINITION) {
             assert(linkage == LINK_NONE);
+            for (base = type; is_array(base); base = type_next(base))
+                ;
+            if (is_struct_or_union(base) && size_of(base) == 0) {
+                error("Object '%s' has incomplete type.", str_raw(name));
+                exit(1);
+            }
             array_push_back(&def->locals, sym);
             if (is_vla(type)) {
                 parent = declare_vla(def, parent, sym);
@@ -1123,7 +1134,11 @@ static struct block *init_declarator(
         next();
         sym->symtype = SYM_DEFINITION;
         parent = initializer(def, parent, sym);
-        assert(size_of(sym->type) > 0);
+        if (size_of(sym->type) == 0) {
+            error("Cannot initialize '%s' of incomplete type.",
+                str_raw(name));
+            exit(1);
+        }
         if (sym->linkage != LINK_NONE) {
             cfg_define(def, sym);
         }
@@ -1143,6 +1158,13 @@ static struct block *init_declarator(
                     str_raw(sym->name));
                 exit(1);
             }
+            if (is_struct_or_union(type_next(sym->type))
+                && size_of(type_next(sym->type)) == 0)
+            {
+                error("Function '%s' returns incomplete type.",
+                    str_raw(name));
+                exit(1);
+            }
             sym->symtype = SYM_DEFINITION;
             cfg_define(def, sym);
             push_scope(&ns_label);
diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index 800885e..ed9d23f 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -345,7 +345,10 @@ static struct block *initialize_struct_or_union(
     enum current_object_state state)
 {
     assert(is_struct_or_union(target.type));
-    assert(nmembers(target.type) > 0);
+    if (nmembers(target.type) == 0) {
+        error("Cannot initialize object of incomplete type.");
+        exit(1);
+    }
 
     if (!block->has_init_value) switch (peek()) {
     case '.':
-- 
2.43.0


From ddaf7c2c69169330cb4107d1652e308ee30e0e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 33/63] configure: let the host compiler accept // comments
 (gnu89)

The sources stay C89 and -pedantic still reports deviations, but a //
comment in them is now a warning and no longer ends the build.
---
 configure | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/configure b/configure
index 0ebf56c..8c84d38 100755
--- a/configure
+++ b/configure
@@ -3,7 +3,7 @@
 prefix="/usr/local"
 
 cc=cc
-cflags="-std=c89 -g -Wall -pedantic -Wno-missing-braces"
+cflags="-std=gnu89 -g -Wall -pedantic -Wno-missing-braces"
 cppflags=""
 
 if [ ! -z "$CC" ] ; then
-- 
2.43.0


From ce057f4378b54ee2576654481b5ed8267c336e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 34/63] fix: do not read past the end of an expansion that ends
 inside a macro invocation

---
 src/preprocessor/macro.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/macro.c b/src/preprocessor/macro.c
index 254a76f..9247bbb 100644
--- a/src/preprocessor/macro.c
+++ b/src/preprocessor/macro.c
@@ -564,6 +564,36 @@ static TokenArray *read_args(
     return args;
 }
 
+/*
+ * Determine whether the list holds all arguments of the macro invocation
+ * with opening parenthesis at position i. An expansion can end in the
+ * middle of an invocation, which is completed by tokens following it.
+ * Leave it to read_args to report invocations cut short by a newline.
+ */
+static int has_all_args(const TokenArray *list, int i)
+{
+    int nesting = 0;
+
+    for (; i < array_len(list); ++i) {
+        switch (array_get(list, i).token) {
+        case NEWLINE:
+            return 1;
+        case '(':
+            nesting++;
+            break;
+        case ')':
+            nesting--;
+            if (!nesting) {
+                return 1;
+            }
+        default:
+            break;
+        }
+    }
+
+    return 0;
+}
+
 static int expand_line(ExpandStack *scope, TokenArray *list)
 {
     int size, i, n;
@@ -590,7 +620,8 @@ static int expand_line(ExpandStack *scope, TokenArray *list)
         /* Only expand if next token is '(' */
         if (def->type == FUNCTION_LIKE
             && (i == array_len(list) - 1
-                || array_get(list, i + 1).token != '('))
+                || array_get(list, i + 1).token != '('
+                || !has_all_args(list, i + 1)))
         {
             continue;
         }
-- 
2.43.0


From 21d9c7842a6709f03f87db86a16363c6a5b80f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 35/63] fix: evaluate names of macros that are not replaced as
 zero in directives instead of aborting

---
 src/preprocessor/directive.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/preprocessor/directive.c b/src/preprocessor/directive.c
index 6ddbafc..2a6f3af 100644
--- a/src/preprocessor/directive.c
+++ b/src/preprocessor/directive.c
@@ -115,7 +115,8 @@ static struct number preprocess_expression(
 
 /*
  * Macro expansions should already have been done. Stray identifiers are
- * interpreted as zero constants.
+ * interpreted as zero constants, including names of macros that are not
+ * replaced, like a function-like macro not followed by arguments.
  *
  * Normalize all values to be of type long or unsigned long. Floating
  * point numbers are not permitted by the standard.
@@ -152,7 +153,6 @@ static struct number preprocess_primary(
             exit(1);
         }
     case IDENTIFIER:
-        assert(!macro_definition(list->d.string));
         num.type = basic_type__long;
         num.val.i = 0;
         break;
-- 
2.43.0


From df0bf545ca2eba3ac54dd18b601e71a6dd152742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 36/63] fix: keep a line ending in the name of a function-like
 macro apart from the next

---
 src/preprocessor/preprocess.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/preprocessor/preprocess.c b/src/preprocessor/preprocess.c
index 29ebc74..51e360e 100644
--- a/src/preprocessor/preprocess.c
+++ b/src/preprocessor/preprocess.c
@@ -290,6 +290,10 @@ static int read_complete_line(TokenArray *line, struct token t, int directive)
                     if (def->type == FUNCTION_LIKE) {
                         array_push_back(line, t);
                         read_macro_invocation(line, def);
+                        if (array_back(line).token == NEWLINE) {
+                            /* Do not mix in the line after this. */
+                            return macros;
+                        }
                     } else {
                         array_push_back(line, t);
                     }
-- 
2.43.0


From 29ca40840b62377c7c3253627edfbaeb0ad3a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 37/63] fix: reject members of the type being defined instead
 of recursing without end

---
 src/parser/declaration.c | 11 +++++++++--
 src/parser/typetree.c    | 13 +++++++++++++
 src/parser/typetree.h    |  6 ++++++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index ee84568..83da79e 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -427,13 +427,20 @@ static void member_declaration_list(Type type)
 {
     String name;
     struct var expr;
-    Type decl_base, decl_type;
+    Type decl_base, decl_type, elem;
 
+    type_open(type);
     do {
         decl_base = declaration_specifiers(NULL);
         while (1) {
             name = str_empty();
             declarator(NULL, NULL, decl_base, &decl_type, &name);
+            for (elem = decl_type; is_array(elem); elem = type_next(elem))
+                ;
+            if (is_struct_or_union(elem) && !is_complete(elem)) {
+                error("Member '%s' has incomplete type.", str_raw(name));
+                exit(1);
+            }
             if (is_struct_or_union(type) && peek() == ':') {
                 if (!is_integer(decl_type)) {
                     error("Unsupported type '%t' for bit-field.", decl_type);
@@ -512,7 +519,7 @@ static Type struct_or_union_declaration(enum token_type t)
         }
 
         type = sym->type;
-        if (peek() == '{' && size_of(type)) {
+        if (peek() == '{' && (size_of(type) || !is_complete(type))) {
             error("Redefiniton of '%s'.", str_raw(sym->name));
             exit(1);
         }
diff --git a/src/parser/typetree.c b/src/parser/typetree.c
index e150e97..b123c9d 100644
--- a/src/parser/typetree.c
+++ b/src/parser/typetree.c
@@ -793,6 +793,15 @@ static size_t remove_anonymous_fields(struct typetree *t)
     return maxalign;
 }
 
+INTERNAL void type_open(Type type)
+{
+    struct typetree *t;
+
+    assert(is_struct_or_union(type));
+    t = get_typetree_handle(type.ref);
+    t->is_incomplete = 1;
+}
+
 /*
  * Adjust aggregate type size to be a multiple of strongest member
  * alignment.
@@ -820,6 +829,8 @@ INTERNAL void type_seal(Type type)
         if (t->size % align) {
             t->size += align - (t->size % align);
         }
+
+        t->is_incomplete = 0;
     }
 }
 
@@ -874,6 +885,8 @@ INTERNAL int is_complete(Type type)
     switch (type_of(type)) {
     case T_ARRAY:
     case T_FUNCTION:
+    case T_STRUCT:
+    case T_UNION:
         t = get_typetree_handle(type.ref);
         return !t->is_incomplete;
     default:
diff --git a/src/parser/typetree.h b/src/parser/typetree.h
index 3f45314..8b5b326 100644
--- a/src/parser/typetree.h
+++ b/src/parser/typetree.h
@@ -66,6 +66,12 @@ INTERNAL void type_add_anonymous_member(Type parent, Type type);
  */
 INTERNAL void type_add_field(Type parent, String name, Type type, size_t width);
 
+/*
+ * Mark struct or union as being defined. The type is not complete until
+ * it has been sealed.
+ */
+INTERNAL void type_open(Type type);
+
 /*
  * Commit type members and calculate final trailing padding. Must be
  * called after adding struct or union members of a new type.
-- 
2.43.0


From 0d8f650f0548ba21daa5ae46e12e74d6cddc7d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 38/63] fix: reject old-style definition of a function inside a
 function instead of aborting

---
 src/parser/declaration.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 83da79e..2a03fd9 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1074,7 +1074,14 @@ static struct block *init_declarator(
         consume(STRING);
         asm_name = access_token(0)->d.string;
         consume(')');
-    } else if (is_function(type) && !is_complete(type) && peek() != ';') {
+    } else if (is_function(type) && !is_complete(type)
+        && peek() != ';' && peek() != ',')
+    {
+        if (current_scope_depth(&ns_ident)) {
+            error("Cannot define function '%s' inside a function.",
+                str_raw(name));
+            exit(1);
+        }
         push_scope(&ns_ident);
         parent = parameter_declaration_list(def, parent, type);
         pop_scope(&ns_ident);
-- 
2.43.0


From 37259108dc48f743efa083d8355fdb09276a9d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 39/63] fix: adjust old-style parameters of function type and
 reject ones with storage class

---
 src/parser/declaration.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 2a03fd9..38972a0 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1047,8 +1047,16 @@ static struct block *init_declarator(
         return parent;
     }
 
+    if (current_scope_depth(&ns_ident) == 1 && symtype != SYM_DEFINITION) {
+        error("Invalid storage class of parameter '%s'.", str_raw(name));
+        exit(1);
+    }
+
     if (symtype == SYM_TYPEDEF) {
         /* */
+    } else if (is_function(type) && current_scope_depth(&ns_ident) == 1) {
+        /* Parameter of function type is adjusted to pointer. */
+        type = type_create_pointer(type);
     } else if (is_function(type)) {
         symtype = SYM_DECLARATION;
         linkage = (linkage == LINK_NONE) ? LINK_EXTERN : linkage;
-- 
2.43.0


From 2a810e78bfb0662c8f11decafcdfca30ae659e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 40/63] fix: reject typedef in the form of an old-style
 function definition instead of crashing

---
 src/parser/declaration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 38972a0..bebafb5 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1083,6 +1083,7 @@ static struct block *init_declarator(
         asm_name = access_token(0)->d.string;
         consume(')');
     } else if (is_function(type) && !is_complete(type)
+        && symtype != SYM_TYPEDEF
         && peek() != ';' && peek() != ',')
     {
         if (current_scope_depth(&ns_ident)) {
-- 
2.43.0


From 4d4b2b54639be0a59a7197813fdb56284d37585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 41/63] fix: report member access to something that is not a
 structure instead of aborting

---
 src/parser/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index adb0dc0..026220b 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -214,6 +214,10 @@ static struct block *postfix(
             next();
             consume(IDENTIFIER);
             str = access_token(0)->d.string;
+            if (!is_struct_or_union(root.type)) {
+                error("Invalid member access to type %t.", root.type);
+                exit(1);
+            }
             mbr = find_type_member(root.type, str, NULL);
             if (!mbr) {
                 error("Invalid access, no member named '%s'.", str_raw(str));
-- 
2.43.0


From 6a6b884ca8b494be16a11bd57f0cb41c0fb0592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 42/63] fix: skip arguments fetched with va_arg and not used
 instead of crashing

---
 src/backend/x86_64/compile.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 905e529..150e4c4 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1995,8 +1995,13 @@ static void compile__builtin_va_start(struct var args)
 /*
  * Generate code for fetching a parameter calling res = va_arg(args, T).
  * Approach is described in section 3.5.7 of the System V ABI.
+ *
+ * The target has type void if the result is not used.
  */
-static void compile__builtin_va_arg(struct var res, struct var args)
+static void compile__builtin_va_arg(
+    struct var res,
+    Type type,
+    struct var args)
 {
     const struct symbol *stack, *done = NULL;
     enum reg ax;
@@ -2008,6 +2013,7 @@ static void compile__builtin_va_arg(struct var res, struct var args)
         reg_save_area;
     struct param_class pc;
     int i, n, w, left,
+        unused = is_void(res.type),
         num_gp = 0,
         num_fp = 0,
         integer_regs_loaded = 0,
@@ -2033,12 +2039,12 @@ static void compile__builtin_va_arg(struct var res, struct var args)
      * Integer or SSE parameters are read from registers, if there are
      * enough of them left. Otherwise read from overflow area.
      */
-    pc = classify(res.type);
+    pc = classify(type);
     if (pc.eightbyte[0] == PC_INTEGER || pc.eightbyte[0] == PC_SSE) {
         stack = create_label(definition);
         done = create_label(definition);
         slice = res;
-        n = EIGHTBYTES(res.type);
+        n = EIGHTBYTES(type);
         count_register_classifications(pc, &num_gp, &num_fp);
 
         /*
@@ -2084,11 +2090,11 @@ static void compile__builtin_va_arg(struct var res, struct var args)
          * Floating arguments to vararg is always double, but the last
          * part of an aggregate can be a single float.
          */
-        while ((i = integer_regs_loaded + sse_regs_loaded) < n) {
-            left = size_of(res.type) - 8 * i;
+        while (!unused && (i = integer_regs_loaded + sse_regs_loaded) < n) {
+            left = size_of(type) - 8 * i;
             switch (pc.eightbyte[i]) {
             case PC_INTEGER:
-                slice.type = slice_type(res.type, pc, i);
+                slice.type = slice_type(type, pc, i);
                 i = integer_regs_loaded++;
                 w = size_of(slice.type);
                 emit_mr(INSTR_MOV,
@@ -2100,7 +2106,7 @@ static void compile__builtin_va_arg(struct var res, struct var args)
                 }
                 break;
             case PC_SSE:
-                slice.type = slice_type(res.type, pc, i);
+                slice.type = slice_type(type, pc, i);
                 i = sse_regs_loaded++;
                 w = size_of(slice.type);
                 emit_mr(INSTR_MOVS,
@@ -2148,8 +2154,10 @@ static void compile__builtin_va_arg(struct var res, struct var args)
      * do not fit in remaining registers.
      */
     load(overflow_arg_area, SI);
-    w = size_of(res.type);
-    if (is_standard_register_width(w) && res.kind == DIRECT) {
+    w = size_of(type);
+    if (unused) {
+        /* Only move past the argument. */
+    } else if (is_standard_register_width(w) && res.kind == DIRECT) {
         if ((ax = allocated_register(res)) != 0) {
             emit_mr(INSTR_MOV, location(address(0, SI, 0, 0), w), reg(ax, w));
         } else {
@@ -2165,7 +2173,7 @@ static void compile__builtin_va_arg(struct var res, struct var args)
      * Move overflow_arg_area pointer to position of next memory
      * argument, aligning to 8 byte.
      */
-    w = EIGHTBYTES(res.type);
+    w = EIGHTBYTES(type);
     if (overflow_arg_area.kind == DIRECT) {
         emit_im(INSTR_ADD, constant(w*8, 8), location_of(overflow_arg_area, 8));
     } else {
@@ -2974,7 +2982,7 @@ static enum reg compile_assign(struct var target, struct expression expr)
         ax = compile_call(target, expr.l);
         break;
     case IR_OP_VA_ARG:
-        compile__builtin_va_arg(target, expr.l);
+        compile__builtin_va_arg(target, expr.type, expr.l);
         ax = AX;
         break;
     case IR_OP_NOT:
-- 
2.43.0


From 5a1a82f0c43f1ec8fa08b54f7e000726488faa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 43/63] fix: reject assignment to an address and second
 definitions instead of aborting

---
 src/parser/declaration.c | 4 ++++
 src/parser/eval.c        | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index bebafb5..3ec9063 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1188,6 +1188,10 @@ static struct block *init_declarator(
                     str_raw(name));
                 exit(1);
             }
+            if (sym->symtype == SYM_DEFINITION) {
+                error("Function '%s' was already defined.", str_raw(name));
+                exit(1);
+            }
             sym->symtype = SYM_DEFINITION;
             cfg_define(def, sym);
             push_scope(&ns_label);
diff --git a/src/parser/eval.c b/src/parser/eval.c
index 6596c4f..23418e0 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1436,6 +1436,7 @@ INTERNAL struct var eval_addr(
         if (var.lvalue) {
             var.kind = ADDRESS;
             var.type = type_create_pointer(var.type);
+            var.lvalue = 0;
             break;
         }
     case ADDRESS:
-- 
2.43.0


From d05098275c2687f5d7f27751763e91b888f84113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 44/63] fix: accept redeclaration of a function given with
 names only instead of aborting

---
 src/parser/symtab.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index 5ca5b85..4c72104 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -252,7 +252,6 @@ static void sym_apply_type(struct symbol *sym, Type type)
         }
 
         if (!is_complete(sym->type)) {
-            assert(nmembers(sym->type) == 0);
             if (is_complete(type)) {
                 sym->type = type;
             }
-- 
2.43.0


From 05bfad0d9686792d4b08a9232547b053e7ff9356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 45/63] fix: reject initialization of arrays of length zero
 instead of aborting

---
 src/parser/initializer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index ed9d23f..0aae303 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -955,9 +955,17 @@ INTERNAL struct block *initializer(
     struct block *block,
     const struct symbol *sym)
 {
+    Type type;
     InitializerList values;
     struct var target = var_direct(sym);
 
+    for (type = sym->type; is_array(type); type = type_next(type)) {
+        if (is_complete(type) && type_array_len(type) == 0) {
+            error("Array of length zero cannot be initialized.");
+            exit(1);
+        }
+    }
+
     if (peek() == '{' || is_array(sym->type)) {
         values = get_initializer_list();
         block = initialize_object(def, block, &values, target);
-- 
2.43.0


From 260e635ed3b971f660cce57bbbc58398381ff406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 46/63] fix: do not mix text of earlier _Pragma operators into
 a shorter one

---
 src/preprocessor/preprocess.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/preprocess.c b/src/preprocessor/preprocess.c
index 51e360e..0586667 100644
--- a/src/preprocessor/preprocess.c
+++ b/src/preprocessor/preprocess.c
@@ -528,6 +528,7 @@ static const char *destringize(String str)
         }
     }
 
+    *ptr = '\0';
     return dstr_buffer;
 }
 
@@ -558,7 +559,9 @@ static int preprocess_Pragma(TokenArray *line, int i, TokenArray *pragma)
         destr = endptr;
     }
 
-    array_get(pragma, 1).leading_whitespace = 1;
+    if (array_len(pragma) > 1) {
+        array_get(pragma, 1).leading_whitespace = 1;
+    }
     return i + 3;
 }
 
-- 
2.43.0


From d57f3cd2d02e1285e8b74c91557c8064fcc29678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 47/63] fix: report unterminated literals in _Pragma and on the
 command line instead of reading past them

---
 src/preprocessor/tokenize.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenize.c b/src/preprocessor/tokenize.c
index c65bc2b..948db4b 100644
--- a/src/preprocessor/tokenize.c
+++ b/src/preprocessor/tokenize.c
@@ -425,6 +425,9 @@ static void parse_escape_sequence(const char *in, const char **endptr)
             }
         }
         break;
+    case '\0':
+        in--;
+        break;
     default:
         break;
     }
@@ -446,6 +449,9 @@ static struct token strtochar(const char *in, const char **endptr)
     start = ++in;
     if (*in == '\\') {
         parse_escape_sequence(in + 1, &in);
+    } else if (*in == '\0') {
+        error("Unterminated character constant.");
+        exit(1);
     } else if (*in != '\'') {
         in++;
     } else {
@@ -474,7 +480,10 @@ static struct token strtostr(const char *in, const char **endptr)
     *endptr = in;
 
     while (*in != '"') {
-        if (*in == '\\') {
+        if (*in == '\0') {
+            error("Unterminated string literal.");
+            exit(1);
+        } else if (*in == '\\') {
             parse_escape_sequence(in + 1, &in);
         } else {
             in++;
-- 
2.43.0


From 989c554401c1675c681b38ed043a54f542194c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 48/63] fix: do not step past the last member of a structure
 being initialized

---
 src/parser/declaration.c |  5 ++++-
 src/parser/initializer.c | 22 ++++++++++++----------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 3ec9063..6ab516c 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -456,7 +456,10 @@ static void member_declaration_list(Type type)
 
                 type_add_field(type, name, decl_type, expr.value.imm.u);
             } else if (str_is_empty(name)) {
-                if (is_struct_or_union(decl_type)) {
+                if (is_struct_or_union(decl_type) && !size_of(decl_type)) {
+                    error("Member has incomplete type.");
+                    exit(1);
+                } else if (is_struct_or_union(decl_type)) {
                     type_add_anonymous_member(type, decl_type);
                 } else {
                     error("Missing name in member declarator.");
diff --git a/src/parser/initializer.c b/src/parser/initializer.c
index 0aae303..cb8da33 100644
--- a/src/parser/initializer.c
+++ b/src/parser/initializer.c
@@ -260,7 +260,6 @@ static struct block *initialize_struct(
     String name;
     const struct member *member, *prev;
 
-    prev = NULL;
     target.lvalue = 1;
     filled = target.offset;
     type = target.type;
@@ -283,20 +282,23 @@ static struct block *initialize_struct(
             prev = member;
             i += 1;
         } else {
-            while (1) {
-                member = get_member(type, i);
-                i += 1;
-                if (!prev
-                    || prev->offset != member->offset
-                    || prev->field_offset != member->field_offset)
-                    break;
-            }
+            member = get_member(type, i);
             prev = member;
+            i += 1;
             target = access_member(target, member, filled);
             block = initialize_member(def, block, values, target);
-            if (i >= m)
+        }
+
+        while (i < m) {
+            member = get_member(type, i);
+            if (prev->offset != member->offset
+                || prev->field_offset != member->field_offset)
                 break;
+            i += 1;
         }
+
+        if (i >= m && (peek() != ',' || peekn(2) != '.'))
+            break;
     } while (next_element(state));
 
     return block;
-- 
2.43.0


From dfcc69ea6106d2f378a20e165b41ead201f6a136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 49/63] fix: report structures that only have members without
 size instead of aborting

---
 src/parser/declaration.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 6ab516c..fce88a2 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -534,7 +534,10 @@ static Type struct_or_union_declaration(enum token_type t)
         }
 
         member_declaration_list(type);
-        assert(size_of(type));
+        if (!size_of(type)) {
+            error("Type '%t' has no member of known size.", type);
+            exit(1);
+        }
         consume('}');
     } else if (!sym) {
         error("Invalid declaration.");
-- 
2.43.0


From e2d9a2b92166172a823713a22b6521a8c4210abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 50/63] fix: keep floating point temporaries across calls to
 memcpy

---
 src/backend/x86_64/compile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 150e4c4..0035c18 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -795,6 +795,9 @@ static struct var get_x87_unsigned_adjust_constant(void)
     return var_direct(x87_unsigned_adjust_constant);
 }
 
+static void store_caller_saved_registers(void);
+static void load_caller_saved_registers(void);
+
 /*
  * Emit code for copying given nymber of bytes between %rsi and %rdi.
  *
@@ -835,8 +838,10 @@ static void emit_memcpy(size_t bytes)
             emit_rm(INSTR_MOV, reg(AX, w), location(dest, w));
         }
     } else {
+        store_caller_saved_registers();
         emit_ir(INSTR_MOV, constant(bytes, 8), reg(DX, 8));
         emit_i_(INSTR_CALL, addr(decl_memcpy));
+        load_caller_saved_registers();
     }
 }
 
-- 
2.43.0


From 0d78e0c30a75065eb3a3551c67536f0a2572bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 51/63] fix: load floating point arguments passed on stack to
 the right register

---
 src/backend/x86_64/compile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 0035c18..c4797aa 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -2164,7 +2164,8 @@ static void compile__builtin_va_arg(
         /* Only move past the argument. */
     } else if (is_standard_register_width(w) && res.kind == DIRECT) {
         if ((ax = allocated_register(res)) != 0) {
-            emit_mr(INSTR_MOV, location(address(0, SI, 0, 0), w), reg(ax, w));
+            emit_mr(is_real(res.type) ? INSTR_MOVS : INSTR_MOV,
+                location(address(0, SI, 0, 0), w), reg(ax, w));
         } else {
             emit_mr(INSTR_MOV, location(address(0, SI, 0, 0), w), reg(AX, w));
             emit_rm(INSTR_MOV, reg(AX, w), location_of(res, w));
-- 
2.43.0


From f01164ae6cdfcd4fc2ca66eba51a1ed0634f0231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 52/63] fix: return the address of a structure also when it was
 not copied

---
 src/backend/x86_64/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index c4797aa..4453c29 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -3203,9 +3203,9 @@ static void compile_return(Type func, struct expression expr)
         emit_rr(INSTR_CMP, reg(DI, 8), reg(SI, 8));
         emit_jcc(CC_E, addr(label));
         emit_memcpy(w);
+        enter_context(label);
         emit_mr(INSTR_MOV,
             location(address(return_address_offset, BP, 0, 0), 8), reg(AX, 8));
-        enter_context(label);
         break;
     }
 
-- 
2.43.0


From 46cab23f7eef4b01a323cc2d1e33944d0da107bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 53/63] fix: preserve callee-saved registers named as clobbered
 by an __asm__ statement

---
 src/backend/x86_64/compile.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 4453c29..2b9a077 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -1629,7 +1629,7 @@ static void allocate_asmblock_registers(
     int *int_regs,
     int *sse_regs)
 {
-    int i;
+    int i, j, saved = 0;
     String str;
     enum reg r;
     struct symbol *sym;
@@ -1650,6 +1650,11 @@ static void allocate_asmblock_registers(
 
         r = get_clobbered_register(str);
         clobbered[r - AX] = 1;
+        for (j = saved; j < TEMP_INT_REGS; ++j) {
+            if (temp_int_reg[j] == r) {
+                saved = j + 1;
+            }
+        }
     }
 
     /* Do not allocate BX if used in constraint. */
@@ -1699,6 +1704,11 @@ static void allocate_asmblock_registers(
             sym->memory = 1;
         }
     }
+
+    /* Callee-saved registers that are clobbered must be preserved. */
+    if (*int_regs < saved) {
+        *int_regs = saved;
+    }
 }
 
 /*
-- 
2.43.0


From c34c0710048456c4bfb3214f629d37c3eee17047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 54/63] fix: do not take lines starting with ## in skipped
 groups for directives

---
 src/preprocessor/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 591ce22..2454a50 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -648,7 +648,7 @@ static int is_directive(const char *line)
         line++;
     }
 
-    return *line == '#';
+    return line[0] == '#' && line[1] != '#';
 }
 
 INTERNAL char *getprepline(void)
-- 
2.43.0


From b6a9f116057e63541c78e790fa74cd9d396f3db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 55/63] fix: pass structs with _Bool members instead of
 aborting

---
 src/backend/x86_64/abi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/x86_64/abi.c b/src/backend/x86_64/abi.c
index cf1e57c..d87b27a 100644
--- a/src/backend/x86_64/abi.c
+++ b/src/backend/x86_64/abi.c
@@ -58,6 +58,7 @@ static struct param_class flatten(
             pc.eightbyte[i + 1] = combine(pc.eightbyte[i + 1], PC_X87UP);
         }
         break;
+    case T_BOOL:
     case T_CHAR:
     case T_INT:
     case T_SHORT:
-- 
2.43.0


From 925e5557003cd5100e0a6552ecea506c5831d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 56/63] fix: pass structs with arrays not aligned to their size
 in registers

---
 src/backend/x86_64/abi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/abi.c b/src/backend/x86_64/abi.c
index d87b27a..3815ed7 100644
--- a/src/backend/x86_64/abi.c
+++ b/src/backend/x86_64/abi.c
@@ -17,7 +17,7 @@ static int has_unaligned_fields(Type type)
     for (i = 0; i < nmembers(type); ++i) {
         mem = get_member(type, i);
         assert(size_of(mem->type));
-        if (mem->offset % size_of(mem->type)) {
+        if (mem->offset % type_alignment(mem->type)) {
             return 1;
         }
     }
-- 
2.43.0


From 6c7e4e7f10f68f4c04e95d77ccfe9289f9e72700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 57/63] fix: access exactly the bytes of structs and bit-fields

Loading structs of odd size read past the end of the object. Bit-fields were
accessed in the width of their type, which missed fields placed in the unit
of a larger type, and could touch memory outside of the object. Conversion
of wide fields to floating point lost bits.
---
 src/backend/x86_64/compile.c | 272 +++++++++++++++++++++++------------
 1 file changed, 182 insertions(+), 90 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 2b9a077..21f8fc9 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -645,23 +645,86 @@ static void load_sse(struct var val, enum reg r, int w)
     }
 }
 
+static enum reg load(struct var v, enum reg r);
+
+/*
+ * Load object of 1 to 8 bytes to integer register, zero extended. There
+ * is no instruction for loading 3, 5, 6 or 7 bytes, and rounding up
+ * would access whatever follows the object in memory.
+ */
+static void load_bytes(struct var v, enum reg r, size_t bytes)
+{
+    size_t i, w, offset;
+
+    assert(bytes > 0 && bytes <= 8);
+    offset = v.offset;
+    v.field_width = 0;
+    v.field_offset = 0;
+    i = bytes;
+    do {
+        if (i & 1) {
+            w = 1;
+            v.type = basic_type__unsigned_char;
+        } else if (i & 2) {
+            w = 2;
+            v.type = basic_type__unsigned_short;
+        } else if (i & 4) {
+            w = 4;
+            v.type = basic_type__unsigned_int;
+        } else {
+            w = 8;
+            v.type = basic_type__unsigned_long;
+        }
+
+        v.offset = offset + i - w;
+        if (i == bytes) {
+            load(v, r);
+        } else {
+            emit_ir(INSTR_SHL, constant(w * 8, 1), reg(r, 8));
+            load(v, R10);
+            emit_rr(INSTR_OR, reg(R10, 8), reg(r, 8));
+        }
+
+        i -= w;
+    } while (i);
+}
+
+/*
+ * Find the bytes occupied by a field. Return the number of bytes, and
+ * adjust offsets to make the field start in the first of them.
+ *
+ * The type of a field does not determine which bytes to access. There
+ * can be other members in the same unit, and a field can be placed
+ * outside of the first unit of its type. Only volatile fields keep the
+ * declared width, whenever possible.
+ */
+static int field_bytes(struct var *v)
+{
+    int bits;
+
+    bits = v->field_offset + v->field_width;
+    if (is_volatile(v->type) && bits <= size_of(v->type) * 8) {
+        return size_of(v->type);
+    }
+
+    v->offset += v->field_offset / 8;
+    v->field_offset = v->field_offset % 8;
+    return (v->field_offset + v->field_width + 7) / 8;
+}
+
 /* Load field value to register, either 4 or 8 bytes. */
 static void load_field(struct var v, enum reg r, int w)
 {
-    int bits;
+    int bits, bytes;
     struct registr ax;
 
     assert(is_field(v));
     assert(v.field_width > 0 && v.field_width < 64);
     assert(v.field_offset + v.field_width <= 64);
 
-    if (size_of(v.type) <= 4) {
-        ax = reg(r, 4);
-    } else {
-        ax = reg(r, 8);
-    }
-
-    emit_load(INSTR_MOV, v, ax);
+    bytes = field_bytes(&v);
+    ax = reg(r, bytes > 4 ? 8 : 4);
+    load_bytes(v, r, bytes);
     bits = (ax.width * 8) - (v.field_offset + v.field_width);
     if (bits > 0) {
         emit_ir(INSTR_SHL, constant(bits, 1), ax);
@@ -848,7 +911,7 @@ static void emit_memcpy(size_t bytes)
 /* Push value to stack, rounded up to always be 8 byte aligned. */
 static void push(struct var v)
 {
-    int eb;
+    int eb, tail;
 
     if (is_long_double(v.type)) {
         if (v.kind == IMMEDIATE) {
@@ -890,11 +953,20 @@ static void push(struct var v)
         }
     } else {
         eb = EIGHTBYTES(v.type);
+        tail = size_of(v.type) % 8;
         emit_ir(INSTR_SUB, constant(eb * 8, 8), reg(SP, 8));
-        emit_ir(INSTR_MOV, constant(eb, 4), reg(CX, 4));
-        emit_rr(INSTR_MOV, reg(SP, 8), reg(DI, 8));
-        load_address(v, SI);
-        emit_rep_movs(8);
+        if (size_of(v.type) >= 8) {
+            emit_ir(INSTR_MOV, constant(size_of(v.type) / 8, 4), reg(CX, 4));
+            emit_rr(INSTR_MOV, reg(SP, 8), reg(DI, 8));
+            load_address(v, SI);
+            emit_rep_movs(8);
+        }
+        if (tail) {
+            v.offset += size_of(v.type) - tail;
+            load_bytes(v, AX, tail);
+            emit_rm(INSTR_MOV,
+                reg(AX, 8), location(address((eb - 1) * 8, SP, 0, 0), 8));
+        }
     }
 }
 
@@ -950,6 +1022,7 @@ static enum reg load_x87(struct var v)
         assert(is_signed(v.type));
         assert(w != 1);
         if (v.kind == DIRECT
+            && !is_field(v)
             && !is_register_allocated(v)
             && !is_global_offset(v.value.symbol))
         {
@@ -1033,8 +1106,8 @@ static enum reg load_integer_as_float(struct var val, Type type)
     if (is_signed(val.type)) {
         if (size_of(val.type) < 4 || is_field(val)) {
             ax = get_int_reg();
-            load_int(val, ax, 4);
-            emit_rr(INSTR_CVTSI2S, reg(ax, 4), reg(xmm, w));
+            load_int(val, ax, 8);
+            emit_rr(INSTR_CVTSI2S, reg(ax, 8), reg(xmm, w));
         } else {
             emit_load(INSTR_CVTSI2S, val, reg(xmm, w));
         }
@@ -1230,6 +1303,87 @@ static void bitwise_imm_reg(
     }
 }
 
+static void store(enum reg r, struct var v);
+
+/*
+ * Store the lower 1 to 8 bytes of an integer register. No instruction
+ * can store 3, 5, 6 or 7 bytes, and rounding up would overwrite whatever
+ * follows the object in memory. The register is clobbered.
+ */
+static void store_bytes(enum reg r, struct var v, size_t bytes)
+{
+    assert(bytes > 0 && bytes <= 8);
+    v.field_width = 0;
+    v.field_offset = 0;
+    if (bytes & 8) {
+        v.type = basic_type__unsigned_long;
+        store(r, v);
+    }
+    if (bytes & 4) {
+        v.type = basic_type__unsigned_int;
+        store(r, v);
+        v.offset += 4;
+        if (bytes & 3) {
+            emit_ir(INSTR_SHR, constant(32, 1), reg(r, 8));
+        }
+    }
+    if (bytes & 2) {
+        v.type = basic_type__unsigned_short;
+        store(r, v);
+        v.offset += 2;
+        if (bytes & 1) {
+            emit_ir(INSTR_SHR, constant(16, 1), reg(r, 8));
+        }
+    }
+    if (bytes & 1) {
+        v.type = basic_type__unsigned_char;
+        store(r, v);
+    }
+}
+
+/*
+ * Store register or immediate operand to field, keeping adjacent bits of
+ * the bytes it is part of.
+ */
+static void store_field(
+    enum instr_optype optype,
+    union operand op,
+    struct var v)
+{
+    int bytes, w;
+    long mask;
+
+    assert(is_field(v));
+    assert(v.field_width > 0 && v.field_width < 64);
+    assert(v.field_offset + v.field_width <= 64);
+
+    bytes = field_bytes(&v);
+    w = bytes > 4 ? 8 : 4;
+    load_bytes(v, CX, bytes);
+    mask = ((1L << v.field_width) - 1) << v.field_offset;
+    bitwise_imm_reg(INSTR_AND, constant(~mask, w), reg(CX, w));
+    if (optype == OPT_IMM) {
+        assert(op.imm.type == IMM_INT);
+        mask = (op.imm.d.qword << v.field_offset) & mask;
+        if (mask != 0) {
+            bitwise_imm_reg(INSTR_OR, constant(mask, w), reg(CX, w));
+        }
+
+        store_bytes(CX, v, bytes);
+    } else {
+        if (op.reg.r != AX) {
+            emit_rr(INSTR_MOV, reg(op.reg.r, 8), reg(AX, 8));
+        }
+        if (v.field_offset) {
+            emit_ir(INSTR_SHL, constant(v.field_offset, 1), reg(AX, w));
+        }
+
+        bitwise_imm_reg(INSTR_AND, constant(mask, w), reg(AX, w));
+        emit_rr(INSTR_OR, reg(CX, w), reg(AX, w));
+        store_bytes(AX, v, bytes);
+    }
+}
+
 /*
  * Emit store of either register or immediate operand.
  *
@@ -1242,10 +1396,8 @@ static void store_op(
     struct var target)
 {
     size_t w;
-    long mask;
     enum reg ax;
     enum opcode opc;
-    struct var field;
     struct memory mem;
 
     assert(optype == OPT_IMM || optype == OPT_REG);
@@ -1261,30 +1413,8 @@ static void store_op(
         opc = INSTR_MOVS;
         assert(optype == OPT_REG);
     } else if (is_field(target)) {
-        assert(target.field_width > 0 && target.field_width < 64);
-        field = target;
-        field.field_width = 0;
-        field.field_offset = 0;
-        load(field, CX);
-        mask = ((1L << target.field_width) - 1) << target.field_offset;
-        bitwise_imm_reg(INSTR_AND, constant(~mask, w), reg(CX, w));
-        if (optype == OPT_IMM) {
-            assert(op.imm.type == IMM_INT);
-            mask = (op.imm.d.qword << target.field_offset) & mask;
-            if (mask != 0) {
-                bitwise_imm_reg(INSTR_OR, constant(mask, w), reg(CX, w));
-            }
-            optype = OPT_REG;
-            op.reg = reg(CX, w);
-        } else {
-            if (target.field_offset) {
-                emit_ir(INSTR_SHL,
-                    constant(target.field_offset, 1), op.reg);
-            }
-            assert(op.width == w);
-            bitwise_imm_reg(INSTR_AND, constant(mask, w), op.reg);
-            emit_rr(INSTR_OR, reg(CX, w), op.reg);
-        }
+        store_field(optype, op, target);
+        return;
     }
 
     switch (target.kind) {
@@ -1374,35 +1504,6 @@ static int alloc_register_params(
     return 0;
 }
 
-/*
- * Store the lower 3, 5, 6 or 7 bytes of an integer register, which are
- * the last part of an object. No store instruction has this width, and
- * rounding up would overwrite whatever follows the object in memory.
- * The register is clobbered.
- */
-static void store_tail(enum reg r, struct var v, size_t bytes)
-{
-    assert(bytes < 8);
-    v.field_width = 0;
-    v.field_offset = 0;
-    if (bytes & 4) {
-        v.type = basic_type__unsigned_int;
-        store(r, v);
-        v.offset += 4;
-        emit_ir(INSTR_SHR, constant(32, 1), reg(r, 8));
-    }
-    if (bytes & 2) {
-        v.type = basic_type__unsigned_short;
-        store(r, v);
-        v.offset += 2;
-        emit_ir(INSTR_SHR, constant(16, 1), reg(r, 8));
-    }
-    if (bytes & 1) {
-        v.type = basic_type__unsigned_char;
-        store(r, v);
-    }
-}
-
 static void move_to_from_registers(
     struct var var,
     struct param_class pc,
@@ -1432,11 +1533,15 @@ static void move_to_from_registers(
             }
             w = size_of(type) - 8 * i;
             var.type = slice_type(type, pc, i);
-            if (toggle_load) {
-                load(var, r);
-            } else if (w < size_of(var.type)) {
+            if (w < size_of(var.type)) {
                 assert(pc.eightbyte[i] == PC_INTEGER);
-                store_tail(r, var, w);
+                if (toggle_load) {
+                    load_bytes(var, r, w);
+                } else {
+                    store_bytes(r, var, w);
+                }
+            } else if (toggle_load) {
+                load(var, r);
             } else {
                 store(r, var);
             }
@@ -2115,7 +2220,7 @@ static void compile__builtin_va_arg(
                 emit_mr(INSTR_MOV,
                     location(address(i*8, SI, CX, 1), w), reg(AX, w));
                 if (left < w) {
-                    store_tail(AX, slice, left);
+                    store_bytes(AX, slice, left);
                 } else {
                     store(AX, slice);
                 }
@@ -2915,21 +3020,8 @@ static enum reg compile_cast(
             store_copy_object(l, target);
             return AX;
         }
-        /* Do not bother masking adjacent bits read. */
-        switch (w) {
-        default: assert(0);
-        case 3:
-            l.type = basic_type__unsigned_int;
-            ax = load_cast(l, l.type);
-            break;
-        case 5:
-        case 6:
-        case 7:
-            l.type = basic_type__unsigned_long;
-            ax = load_cast(l, l.type);
-            break;
-        }
-        return ax;
+        load_bytes(l, AX, w);
+        return AX;
     }
 
     pc = classify(type);
-- 
2.43.0


From f852519644d62fe094b2eaf54105f9f7693f130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:52 +0000
Subject: [PATCH 58/63] fix: release symbols of compound literals

---
 src/parser/symtab.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/symtab.c b/src/parser/symtab.c
index 4c72104..66d5f8d 100644
--- a/src/parser/symtab.c
+++ b/src/parser/symtab.c
@@ -480,6 +480,7 @@ INTERNAL struct symbol *sym_create_unnamed(Type type)
     sym->name = prefix_unnamed;
     sym->type = type;
     sym->n = ++n;
+    array_push_back(&ns_ident.symbols, sym);
     return sym;
 }
 
-- 
2.43.0


From c7a1228f0ac8bbaa8701ca8f818d52d71abb2cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:27 +0000
Subject: [PATCH 59/63] fix: accept cast from address of an object to a
 narrower integer

---
 src/backend/x86_64/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 21f8fc9..6452f06 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -761,7 +761,7 @@ static void load_int(struct var v, enum reg r, int w)
     opcode = INSTR_MOV;
     if (v.kind == ADDRESS) {
         opcode = INSTR_LEA;
-        assert(w == 8);
+        w = 8;
         assert(size_of(v.type) == w);
     } else if (v.kind == IMMEDIATE) {
         opcode = INSTR_MOV;
-- 
2.43.0


From 3a03bc3d477e296a3a1b50719598a1f60baa6a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:27 +0000
Subject: [PATCH 60/63] fix: convert pointer to _Bool by comparing the whole
 address

---
 src/parser/eval.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 23418e0..8e24bcb 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -476,6 +476,8 @@ INTERNAL struct expression eval_cast(
     struct var var,
     Type type)
 {
+    struct expression expr;
+
     if (is_void(type)) {
         load_volatile(def, block, var);
         return as_expr(var_void());
@@ -503,6 +505,15 @@ INTERNAL struct expression eval_cast(
         return as_expr(var);
     }
 
+    if (is_bool(type)) {
+        expr = eval_cmp_ne(def, block, var_int(0), var);
+        if (!is_identity(expr)) {
+            expr.type = type;
+            return expr;
+        }
+        var = expr.l;
+    }
+
     if (size_of(var.type) == size_of(type)
         && (is_pointer(var.type) || is_pointer(type)))
     {
-- 
2.43.0


From 3a9dfb84936f77abab561faeeb2aaf6460ca10ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:27 +0000
Subject: [PATCH 61/63] fix: never refer directly to external objects in
 position independent code

---
 src/backend/x86_64/compile.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 6452f06..11b5b61 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -920,7 +920,7 @@ static void push(struct var v)
             v.is_symbol = 1;
             v.kind = DIRECT;
         }
-        if (v.kind == DIRECT) {
+        if (v.kind == DIRECT && !is_global_offset(v.value.symbol)) {
             v.offset += 8;
             emit_m_(INSTR_PUSH, location_of(v, 8));
             v.offset -= 8;
@@ -1269,7 +1269,7 @@ static void store_x87(struct var v)
     x87_stack--;
 
     assert(size_of(v.type) == 16);
-    if (v.kind == DEREF) {
+    if (v.kind == DEREF || is_global_offset(v.value.symbol)) {
         r1 = get_int_reg();
         r2 = get_int_reg();
         load_address(v, r2);
@@ -2086,7 +2086,7 @@ static void compile__builtin_va_start(struct var args)
     deconstruct_va_arg(
         args, &gp_offset, &fp_offset, &overflow_arg_area, &reg_save_area);
 
-    if (args.kind == DEREF) {
+    if (args.kind == DEREF || is_global_offset(args.value.symbol)) {
         emit_ir(INSTR_MOV, constant(vararg.gp_offset, 4), reg(AX, 4));
         store(AX, gp_offset);
         emit_ir(INSTR_MOV, constant(vararg.fp_offset, 4), reg(AX, 4));
@@ -2244,7 +2244,9 @@ static void compile__builtin_va_arg(
          * register.
          */
         if (num_gp) {
-            if (gp_offset.kind == DIRECT) {
+            if (gp_offset.kind == DIRECT
+                && !is_global_offset(gp_offset.value.symbol))
+            {
                 emit_im(INSTR_ADD,
                     constant(8*num_gp, 4), location_of(gp_offset, 4));
             } else {
@@ -2254,7 +2256,9 @@ static void compile__builtin_va_arg(
             }
         }
         if (num_fp) {
-            if (fp_offset.kind == DIRECT) {
+            if (fp_offset.kind == DIRECT
+                && !is_global_offset(fp_offset.value.symbol))
+            {
                 emit_im(INSTR_ADD,
                     constant(16*num_fp, 4), location_of(fp_offset, 4));
             } else {
@@ -2277,7 +2281,10 @@ static void compile__builtin_va_arg(
     w = size_of(type);
     if (unused) {
         /* Only move past the argument. */
-    } else if (is_standard_register_width(w) && res.kind == DIRECT) {
+    } else if (is_standard_register_width(w)
+        && res.kind == DIRECT
+        && !is_global_offset(res.value.symbol))
+    {
         if ((ax = allocated_register(res)) != 0) {
             emit_mr(is_real(res.type) ? INSTR_MOVS : INSTR_MOV,
                 location(address(0, SI, 0, 0), w), reg(ax, w));
@@ -2295,7 +2302,9 @@ static void compile__builtin_va_arg(
      * argument, aligning to 8 byte.
      */
     w = EIGHTBYTES(type);
-    if (overflow_arg_area.kind == DIRECT) {
+    if (overflow_arg_area.kind == DIRECT
+        && !is_global_offset(overflow_arg_area.value.symbol))
+    {
         emit_im(INSTR_ADD, constant(w*8, 8), location_of(overflow_arg_area, 8));
     } else {
         load(overflow_arg_area, AX);
-- 
2.43.0


From 2cde84492608e269e22754a9d1987a259816f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:27 +0000
Subject: [PATCH 62/63] fix: accept structs in conditional expressions with
 constant condition

---
 src/parser/eval.c       | 4 ++--
 src/parser/expression.c | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/eval.c b/src/parser/eval.c
index 8e24bcb..1d04de8 100644
--- a/src/parser/eval.c
+++ b/src/parser/eval.c
@@ -1928,8 +1928,8 @@ INTERNAL Type eval_conditional_type(
         type = t2;
     } else if (is_void(t1) && is_void(t2)) {
         type = t1;
-    } else if (is_struct_or_union(t1) && type_equal(t1, t2)) {
-        type = t1;
+    } else if (is_struct_or_union(t1) && is_compatible_unqualified(t1, t2)) {
+        type = type_unqualified(t1);
     } else {
         error("Incompatible types (%t, %t) in conditional operator.", t1, t2);
         exit(1);
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 026220b..4192243 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -884,6 +884,8 @@ INTERNAL struct block *conditional_expression(
         type = eval_conditional_type(lval, rval);
         if (is_void(type)) {
             block->expr = as_expr(var_void());
+        } else if (is_struct_or_union(type)) {
+            block->expr = as_expr(b ? lval : rval);
         } else {
             block->expr = eval_cast(def, block, b ? lval : rval, type);
         }
-- 
2.43.0


From 5eabe4f2f0e325847a1262be5bf46b0fd3bb640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:01 +0000
Subject: [PATCH 63/63] fix: multiply with the value of a bit-field

---
 src/backend/x86_64/compile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend/x86_64/compile.c b/src/backend/x86_64/compile.c
index 11b5b61..9324057 100644
--- a/src/backend/x86_64/compile.c
+++ b/src/backend/x86_64/compile.c
@@ -2774,7 +2774,8 @@ static enum reg compile_mul(
         assert(ax == AX);
         if (l.kind == DIRECT
             && !is_register_allocated(l)
-            && !is_global_offset(l.value.symbol))
+            && !is_global_offset(l.value.symbol)
+            && !is_field(l))
         {
             emit_m_(INSTR_MUL, location_of(l, w));
         } else {
-- 
2.43.0

