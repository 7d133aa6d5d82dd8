From fa3e17b4624b2f9b74e5f4714bef6a3069e7c362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:43 +0000
Subject: [PATCH 01/24] fix: do not treat a new filename that cannot be checked
 as unused

If lstat() on the new filename failed for a reason other than ENOENT (EIO,
ENOMEM, ...), parse_file() went on to rename() over whatever was there.
---
 src/file.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/file.c b/src/file.c
index 00a03cc..4ce4403 100644
--- a/src/file.c
+++ b/src/file.c
@@ -137,6 +137,11 @@ char *parse_file(char *filename, options_t *options)
             free(new_filename);
             return old_filename;
         }
+    } else if (errno != ENOENT) { // Can't tell whether or not it exists
+        fprintf(stderr, "Cannot rename %s to %s: %s\n", old_filename, new_filename, strerror(errno));
+
+        free(new_filename);
+        return old_filename;
     }
 
     if (options->verbose || options->dry_run) {
-- 
2.43.0


From 373ca2ac58e9320811861beabcd26c34dbd7cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:43 +0000
Subject: [PATCH 02/24] fix: never move a file to another directory

A sequence can yield a name that contains a slash (uncgi without safe, or a
custom table), is empty, or is one of the protected names.  Renaming to such a
name moved the file out of its directory, or was announced by a dry run
although it could not be done.
---
 src/file.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/file.c b/src/file.c
index 4ce4403..bd0401b 100644
--- a/src/file.c
+++ b/src/file.c
@@ -63,6 +63,19 @@ static int is_protected(const char *filename)
     return (filename[0] == '.' && (filename[1] == '\0' || (filename[1] == '.' && filename[2] == '\0')));
 }
 
+/**
+ * Whether or not the string can be used as the name of a file within the
+ * directory that the file is already in.
+ *
+ * @param filename The file to check
+ *
+ * @return bool
+ */
+static int is_usable(const char *filename)
+{
+    return (filename[0] != '\0' && strchr(filename, '/') == NULL && !is_protected(filename));
+}
+
 /*
  * Renames file to a safe filename.
  */
@@ -119,6 +132,13 @@ char *parse_file(char *filename, options_t *options)
     strncpy(new_filename, old_filename, len);
     strcpy(new_filename + len, work);
 
+    if (!is_usable(work)) {
+        fprintf(stderr, "Cannot rename %s to %s: not a usable filename\n", old_filename, new_filename);
+        free(work);
+        free(new_filename);
+        return old_filename;
+    }
+
     free(work);
 
     err = lstat(old_filename, &stat_info_old);
-- 
2.43.0


From b8499b0cbd9d0c19ee2555a662d8981f3241dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:43 +0000
Subject: [PATCH 03/24] fix: report a file that cannot be renamed because
 lstat() failed

---
 src/file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file.c b/src/file.c
index bd0401b..49cc493 100644
--- a/src/file.c
+++ b/src/file.c
@@ -143,6 +143,7 @@ char *parse_file(char *filename, options_t *options)
 
     err = lstat(old_filename, &stat_info_old);
     if (err == -1) {
+        fprintf(stderr, "Cannot rename %s to %s: %s\n", old_filename, new_filename, strerror(errno));
         free(new_filename);
         return old_filename;
     }
-- 
2.43.0


From 25dbf0de1262e6f1e0e2fcc6a81fb88900472f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:43 +0000
Subject: [PATCH 04/24] fix: do not replace a file created between the check
 and the rename

Another program, including a second detox, may create the new name after
parse_file() found it unused.  rename() then replaced that file.
---
 src/file.c | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index 49cc493..1efa36d 100644
--- a/src/file.c
+++ b/src/file.c
@@ -7,8 +7,13 @@
  * file that was distributed with this source code.
  */
 
+#ifndef _GNU_SOURCE
+#define _GNU_SOURCE // renameat2()
+#endif
+
 #include "config.h"
 
+#include <fcntl.h>
 #include <sys/stat.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -76,6 +81,29 @@ static int is_usable(const char *filename)
     return (filename[0] != '\0' && strchr(filename, '/') == NULL && !is_protected(filename));
 }
 
+/**
+ * Renames a file, but doesn't replace a file that showed up under the new name
+ * in the meantime, where the system supports this.
+ *
+ * @param old_filename The current name
+ * @param new_filename The new name, which was seen to be unused
+ *
+ * @return 0 on success, -1 on error.
+ */
+static int rename_to_unused(const char *old_filename, const char *new_filename)
+{
+#ifdef RENAME_NOREPLACE
+    int err;
+
+    err = renameat2(AT_FDCWD, old_filename, AT_FDCWD, new_filename, RENAME_NOREPLACE);
+    if (err != -1 || (errno != ENOSYS && errno != EINVAL)) {
+        return err;
+    }
+#endif
+
+    return rename(old_filename, new_filename);
+}
+
 /*
  * Renames file to a safe filename.
  */
@@ -87,6 +115,7 @@ char *parse_file(char *filename, options_t *options)
     struct stat stat_info_old;
     struct stat stat_info_new;
     int err;
+    int is_unused;
     size_t len;
 
     len = strlen(filename) + 1;
@@ -149,6 +178,7 @@ char *parse_file(char *filename, options_t *options)
     }
 
     err = lstat(new_filename, &stat_info_new);
+    is_unused = (err == -1);
     if (err != -1) { // New file exists
         if (stat_info_old.st_dev != stat_info_new.st_dev || // Different device
                 stat_info_old.st_ino != stat_info_new.st_ino || // Different inode
@@ -174,7 +204,11 @@ char *parse_file(char *filename, options_t *options)
         return old_filename;
     }
 
-    err = rename(old_filename, new_filename);
+    if (is_unused) {
+        err = rename_to_unused(old_filename, new_filename);
+    } else { // The same file, such as on a case-insensitive filesystem
+        err = rename(old_filename, new_filename);
+    }
     if (err == -1) {
         fprintf(stderr, "Cannot rename %s to %s: %s\n", old_filename, new_filename, strerror(errno));
         free(new_filename);
-- 
2.43.0


From e0f50e921d34fc21d0d098868ddfacd508792ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:17 +0000
Subject: [PATCH 05/24] fix: read a directory to its end before renaming its
 entries

Renaming entries while readdir() is in progress let entries show up again under
their new name and be renamed a second time, or hid entries.  It also kept a
descriptor open for each level of recursion, so that a deep tree was abandoned
with EMFILE.
---
 src/file.c | 46 +++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/file.c b/src/file.c
index 1efa36d..6bf9d66 100644
--- a/src/file.c
+++ b/src/file.c
@@ -225,11 +225,11 @@ char *parse_file(char *filename, options_t *options)
  */
 void parse_dir(char *filename, options_t *options)
 {
-    char *new_file, *work;
+    char *file_walk, *new_file, *work;
     DIR *dir_handle;
+    filelist_t *files;
     struct dirent *dir_entry;
     struct stat stat_info;
-    int check_file;
     int err;
     size_t new_file_length;
 
@@ -262,6 +262,12 @@ void parse_dir(char *filename, options_t *options)
         return;
     }
 
+    /*
+     * Read the whole directory first.  If it is modified while being read,
+     * entries may come up again under their new name.
+     */
+    files = filelist_init();
+
     dir_entry = readdir(dir_handle);
 
     while (dir_entry != NULL) {
@@ -269,26 +275,32 @@ void parse_dir(char *filename, options_t *options)
         /*
          * Check for files that need to be ignored
          */
-        check_file = !ignore_file(dir_entry->d_name, options);
+        if (!ignore_file(dir_entry->d_name, options)) {
+            filelist_put(files, dir_entry->d_name);
+        }
+        dir_entry = readdir(dir_handle);
+    }
+
+    closedir(dir_handle);
 
-        if (check_file) {
-            snprintf(new_file, new_file_length, "%s/%s", filename, dir_entry->d_name);
+    while ((file_walk = filelist_get(files))) {
+        snprintf(new_file, new_file_length, "%s/%s", filename, file_walk);
 
-            lstat(new_file, &stat_info);
-            if (S_ISDIR(stat_info.st_mode)) {
-                work = parse_file(new_file, options);
-                if (options->recurse) {
-                    parse_dir(work, options);
-                }
-                free(work);
-            } else if (S_ISREG(stat_info.st_mode) || options->special) {
-                work = parse_file(new_file, options);
-                free(work);
+        lstat(new_file, &stat_info);
+        if (S_ISDIR(stat_info.st_mode)) {
+            work = parse_file(new_file, options);
+            if (options->recurse) {
+                parse_dir(work, options);
             }
+            free(work);
+        } else if (S_ISREG(stat_info.st_mode) || options->special) {
+            work = parse_file(new_file, options);
+            free(work);
         }
-        dir_entry = readdir(dir_handle);
     }
-    closedir(dir_handle);
+
+    filelist_free(files);
+    free(new_file);
 }
 
 /**
-- 
2.43.0


From f02319ce33cc79256970a2e8a70d064700d5a7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:17 +0000
Subject: [PATCH 06/24] fix: report entries and directories that cannot be
 examined

The result of lstat() was not checked in parse_dir(), which then used the type of
the previous entry, and errors from readdir() were taken for the end of the
directory.
---
 src/file.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 6bf9d66..a8eca65 100644
--- a/src/file.c
+++ b/src/file.c
@@ -235,6 +235,7 @@ void parse_dir(char *filename, options_t *options)
 
     err = lstat(filename, &stat_info);
     if (err == -1) {
+        fprintf(stderr, "unable to parse: %s\n", strerror(errno));
         return;
     }
 
@@ -268,6 +269,7 @@ void parse_dir(char *filename, options_t *options)
      */
     files = filelist_init();
 
+    errno = 0;
     dir_entry = readdir(dir_handle);
 
     while (dir_entry != NULL) {
@@ -278,16 +280,24 @@ void parse_dir(char *filename, options_t *options)
         if (!ignore_file(dir_entry->d_name, options)) {
             filelist_put(files, dir_entry->d_name);
         }
+
+        errno = 0;
         dir_entry = readdir(dir_handle);
     }
 
+    if (errno != 0) {
+        fprintf(stderr, "unable to parse: %s\n", strerror(errno));
+    }
+
     closedir(dir_handle);
 
     while ((file_walk = filelist_get(files))) {
         snprintf(new_file, new_file_length, "%s/%s", filename, file_walk);
 
-        lstat(new_file, &stat_info);
-        if (S_ISDIR(stat_info.st_mode)) {
+        err = lstat(new_file, &stat_info);
+        if (err == -1) {
+            fprintf(stderr, "%s: %s\n", new_file, strerror(errno));
+        } else if (S_ISDIR(stat_info.st_mode)) {
             work = parse_file(new_file, options);
             if (options->recurse) {
                 parse_dir(work, options);
-- 
2.43.0


From 0b685354ce64087a3c135384b35a60340f1f136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:17 +0000
Subject: [PATCH 07/24] fix: check the whole ignore list for each file

After a match, the next file was only compared with the entries behind it.
---
 src/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/file.c b/src/file.c
index a8eca65..36df54a 100644
--- a/src/file.c
+++ b/src/file.c
@@ -43,6 +43,8 @@ static int ignore_file(const char *filename, const options_t *options)
         return 1;
     }
 
+    filelist_reset(options->files_to_ignore);
+
     while ((file_walk = filelist_get(options->files_to_ignore))) {
         if (strcmp(filename, file_walk) == 0) {
             return 1;
-- 
2.43.0


From 93644ad66af18a3ce99a1119aa94fe4762d20ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:17 +0000
Subject: [PATCH 08/24] fix: do not read in front of the buffer in inline mode

This happened if the input contained a null character at the start of a line that
has no newline, or consisted of continuation bytes only.
---
 src/file.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 36df54a..8ef7b8d 100644
--- a/src/file.c
+++ b/src/file.c
@@ -375,7 +375,9 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
             //
 
             hold = seek = strchr(base, '\0');
-            seek--;
+            if (seek > base) {
+                seek--;
+            }
 
 #ifdef DEBUG
             if (is_utf_8_cont(*seek)) {
@@ -383,7 +385,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
             }
 #endif
 
-            while (is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
+            while (seek > base && is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
 #ifdef DEBUG
                 fprintf(stderr, "detox: debug: at %02x, moving back one\n", (unsigned char) *seek);
 #endif
-- 
2.43.0


From 722eac265e34f384c24b71dee274ed988ee518e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 09/24] fix: report read and write errors in inline mode

A read error was taken for the end of the input, and output that could not be
written (to a full disk, for example) was lost with exit status 0.
---
 src/file.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/file.c b/src/file.c
index 8ef7b8d..a85f077 100644
--- a/src/file.c
+++ b/src/file.c
@@ -502,10 +502,19 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
         }
     }
 
+    if (ferror(in_fp)) {
+        fprintf(stderr, "%s: %s\n", (in_filename != NULL) ? in_filename : "stdin", strerror(errno));
+    }
+
     if (in_filename != NULL) {
         fclose(in_fp);
     }
 
+    if (fflush(out_fp) == EOF || ferror(out_fp)) {
+        fprintf(stderr, "%s: %s\n", (out_filename != NULL) ? out_filename : "stdout", strerror(errno));
+        exit(EXIT_FAILURE);
+    }
+
     if (out_filename != NULL) {
         fclose(out_fp);
     }
-- 
2.43.0


From d2df98168c444ea23b7e0755cd3a0caf065b79ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 10/24] fix: allocate enough memory for any replacement

The default translation of a table and the replacement for an encoded null were
not considered, and a table without rows yielded a buffer of one byte.
---
 src/clean_string.c | 27 +++++++++++++++++++++++++--
 src/clean_utf_8.c  | 14 +++++++++++++-
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index b3cbeea..0f619b9 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -18,6 +18,29 @@
 
 #define ISO8859_1_UPPER_BIT 0x80
 
+/**
+ * Returns the length of the longest string that a character can be replaced
+ * with.
+ *
+ * @param table The table to check.
+ */
+static size_t max_replacement_length(const table_t *table)
+{
+    size_t ret;
+
+    ret = 1; // characters may be left alone
+
+    if (table->max_data_length > 0) {
+        ret = table->max_data_length;
+    }
+
+    if (table->default_translation != NULL && strlen(table->default_translation) > ret) {
+        ret = strlen(table->default_translation);
+    }
+
+    return ret;
+}
+
 /**
  * Transliterates ISO 8859-1 characters (Latin-1) into lower ASCII characters.
  *
@@ -40,7 +63,7 @@ char *clean_iso8859_1(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * max_replacement_length(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
@@ -100,7 +123,7 @@ char *clean_safe(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * max_replacement_length(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/clean_utf_8.c b/src/clean_utf_8.c
index 56d9051..ae5ae40 100644
--- a/src/clean_utf_8.c
+++ b/src/clean_utf_8.c
@@ -61,6 +61,7 @@ char *clean_utf_8(char *filename, table_t *table)
 {
     char *output, *input_walk, *output_walk, *replace_walk;
     unsigned int new_value;
+    size_t max_length;
     int expected_chars;
     int characters_eaten;
     int utf_8_width;
@@ -75,7 +76,18 @@ char *clean_utf_8(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    // the length of the longest string that a character can be replaced with
+    max_length = strlen(null_replacement);
+
+    if (table->max_data_length > max_length) {
+        max_length = table->max_data_length;
+    }
+
+    if (table->default_translation != NULL && strlen(table->default_translation) > max_length) {
+        max_length = strlen(table->default_translation);
+    }
+
+    output = wrapped_malloc((strlen(filename) * max_length) + 1);
 
     input_walk = filename;
     output_walk = output;
-- 
2.43.0


From 1bdcc933cd9477c18f82adfa7bbef469c23f4908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 11/24] fix: only convert ASCII characters to lowercase

In an 8-bit locale, the result of the lower filter depended on the locale, and on
whether or not another filter had loaded a translation table.
---
 src/clean_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index 0f619b9..d345ae2 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -352,8 +352,8 @@ char *clean_lower(char *filename)
     output_walk = output;
 
     while (*input_walk != '\0') {
-        if (isupper((int) *input_walk)) {
-            *output_walk++ = tolower((int) *input_walk++);
+        if (*input_walk >= 'A' && *input_walk <= 'Z') {
+            *output_walk++ = *input_walk++ - 'A' + 'a';
         } else {
             *output_walk++ = *input_walk++;
         }
-- 
2.43.0


From dbf66e24adcddecc1c322e3f6f0663eb106e1b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 12/24] fix: an empty default in a translation table means no
 default

The man page says so, but 'default ""' replaced unknown characters with the word
"default".
---
 src/parse_table.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse_table.c b/src/parse_table.c
index e86851a..76e0f4e 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -133,6 +133,8 @@ table_t *parse_table(char *filename)
                     continue;
                 }
 
+                parsed[0] = '\0';
+
                 if (work[offset] == '"') {
                     sscanf(work + offset + 1, "%[^\"]", parsed);
                 } else if (work[offset] == '\'') {
@@ -141,7 +143,7 @@ table_t *parse_table(char *filename)
                     sscanf(work + offset, "%s", parsed);
                 }
 
-                table->default_translation = wrapped_strdup(parsed);
+                table->default_translation = (parsed[0] == '\0') ? NULL : wrapped_strdup(parsed);
 
                 continue;
             }
-- 
2.43.0


From d7fc424543e783a766d27fd23b257f28357ad806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 13/24] fix: do not use a translation table that could not be
 read completely

---
 src/parse_table.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse_table.c b/src/parse_table.c
index 76e0f4e..9001135 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -198,6 +198,14 @@ table_t *parse_table(char *filename)
 
     free(work);
     free(parsed);
+
+    if (ferror(table_file)) {
+        fprintf(stderr, "Unable to read translation table: %s\n", strerror(errno));
+        table_free(table);
+        fclose(table_file);
+        return NULL;
+    }
+
     fclose(table_file);
 
     return table;
-- 
2.43.0


From 831adb27284902ffcf6139891db9feea89fe3319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 14/24] fix: reserve enough rows for a translation table of
 short lines

---
 src/parse_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_table.c b/src/parse_table.c
index 9001135..49a67dd 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -17,7 +17,7 @@
 #include "table.h"
 #include "wrapped.h"
 
-#define LINE_LENGTH 6
+#define LINE_LENGTH 4 // the shortest line that adds a row, such as "9 a\n"
 
 enum {
     BASE_STATE,
-- 
2.43.0


From e77a6519f98965be8ae44dd54c21f443e2b09858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 15/24] fix: do not count overwritten rows of a table twice

A table with more lines than rows reserved was rejected even though lines for the
same character only need one row.
---
 src/table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/table.c b/src/table.c
index fefeac5..2809773 100644
--- a/src/table.c
+++ b/src/table.c
@@ -152,6 +152,7 @@ int table_put(table_t *table, unsigned int key, char *data)
 
     if (table->rows[offset].key == key) {
         table->overwrites++;
+        table->used--;
     }
 
     table->rows[offset].key = key;
-- 
2.43.0


From b63d429ea5f038ad69638a60256763596cef262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:22 +0000
Subject: [PATCH 16/24] fix: do not crash if /dev/null cannot be opened

fclose() was called with a null pointer.
---
 src/config_file_yacc.c | 4 ++++
 src/config_file_yacc.y | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/config_file_yacc.c b/src/config_file_yacc.c
index 39d67f2..073309a 100644
--- a/src/config_file_yacc.c
+++ b/src/config_file_yacc.c
@@ -1641,6 +1641,10 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
         return previous_results;
     }
     yyout = fopen("/dev/null", "w");
+    if (yyout == NULL) {
+        fprintf(stderr, "detox: unable to open: /dev/null\n");
+        exit(EXIT_FAILURE);
+    }
 
     /*
      * Initialize the return variable
diff --git a/src/config_file_yacc.y b/src/config_file_yacc.y
index 5164f8c..0706c86 100644
--- a/src/config_file_yacc.y
+++ b/src/config_file_yacc.y
@@ -192,6 +192,10 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
         return previous_results;
     }
     yyout = fopen("/dev/null", "w");
+    if (yyout == NULL) {
+        fprintf(stderr, "detox: unable to open: /dev/null\n");
+        exit(EXIT_FAILURE);
+    }
 
     /*
      * Initialize the return variable
-- 
2.43.0


From b3ab7c0fc2c4c0e649d2a2d3cb3ba00c98ec714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:22 +0000
Subject: [PATCH 17/24] fix: do not crash if the config file parser runs out of
 memory

---
 src/config_file_lex.c | 61 ++++++++++++++++++++++---------------------
 src/config_file_lex.l |  5 ++--
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index b3f4c70..07ac578 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -556,11 +556,12 @@ char *yytext;
 
 #include "config_file_yacc.h"
 #include "config_file.h"
+#include "wrapped.h"
 
 int config_file_lineno = 1;
 
-#line 563 "config_file_lex.c"
 #line 564 "config_file_lex.c"
+#line 565 "config_file_lex.c"
 
 #define INITIAL 0
 
@@ -777,10 +778,10 @@ YY_DECL
 		}
 
 	{
-#line 20 "config_file_lex.l"
+#line 21 "config_file_lex.l"
 
 
-#line 784 "config_file_lex.c"
+#line 785 "config_file_lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -839,101 +840,101 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 22 "config_file_lex.l"
+#line 23 "config_file_lex.l"
 { /* ignore whitespace */ }
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 24 "config_file_lex.l"
+#line 25 "config_file_lex.l"
 { /* ignore comments */ }
 	YY_BREAK
 case 3:
 /* rule 3 can match eol */
 YY_RULE_SETUP
-#line 26 "config_file_lex.l"
+#line 27 "config_file_lex.l"
 { config_file_lineno++; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 28 "config_file_lex.l"
+#line 29 "config_file_lex.l"
 { return BUILTIN; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 29 "config_file_lex.l"
+#line 30 "config_file_lex.l"
 { return FILENAME; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 30 "config_file_lex.l"
+#line 31 "config_file_lex.l"
 { return IGNORE; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 31 "config_file_lex.l"
+#line 32 "config_file_lex.l"
 { return ISO8859_1; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 32 "config_file_lex.l"
+#line 33 "config_file_lex.l"
 { return LENGTH; }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 33 "config_file_lex.l"
+#line 34 "config_file_lex.l"
 { return LOWER; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 34 "config_file_lex.l"
+#line 35 "config_file_lex.l"
 { return MAX_LENGTH; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 35 "config_file_lex.l"
+#line 36 "config_file_lex.l"
 { return REMOVE_TRAILING; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 36 "config_file_lex.l"
+#line 37 "config_file_lex.l"
 { return SAFE; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 37 "config_file_lex.l"
+#line 38 "config_file_lex.l"
 { return SEQUENCE; }
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 38 "config_file_lex.l"
+#line 39 "config_file_lex.l"
 { return UNCGI; }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 39 "config_file_lex.l"
+#line 40 "config_file_lex.l"
 { return UTF_8; }
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 40 "config_file_lex.l"
+#line 41 "config_file_lex.l"
 { return WIPEUP; }
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 42 "config_file_lex.l"
+#line 43 "config_file_lex.l"
 { return OPEN; }
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 43 "config_file_lex.l"
+#line 44 "config_file_lex.l"
 { return CLOSE; }
 	YY_BREAK
 case 19:
 /* rule 19 can match eol */
 YY_RULE_SETUP
-#line 45 "config_file_lex.l"
+#line 46 "config_file_lex.l"
 {
-    yylval.string = strdup(yytext+1);
+    yylval.string = wrapped_strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
         printf("Unterminated character string\n");
     }
@@ -945,15 +946,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 56 "config_file_lex.l"
+#line 57 "config_file_lex.l"
 {
-    yylval.string = strdup(yytext);
+    yylval.string = wrapped_strdup(yytext);
     return ID;
 }
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 61 "config_file_lex.l"
+#line 62 "config_file_lex.l"
 {
     yylval.nvalue = atoi(yytext);
     return NVALUE;
@@ -961,15 +962,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 66 "config_file_lex.l"
+#line 67 "config_file_lex.l"
 { return EOL; }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 68 "config_file_lex.l"
+#line 69 "config_file_lex.l"
 ECHO;
 	YY_BREAK
-#line 973 "config_file_lex.c"
+#line 974 "config_file_lex.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1974,6 +1975,6 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 68 "config_file_lex.l"
+#line 69 "config_file_lex.l"
 
 
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index f38ed29..2dc6a9e 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -10,6 +10,7 @@
 
 #include "config_file_yacc.h"
 #include "config_file.h"
+#include "wrapped.h"
 
 int config_file_lineno = 1;
 
@@ -43,7 +44,7 @@ wipeup             { return WIPEUP; }
 [}]     { return CLOSE; }
 
 \"[^\"\n]*[\"\n] {
-    yylval.string = strdup(yytext+1);
+    yylval.string = wrapped_strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
         printf("Unterminated character string\n");
     }
@@ -54,7 +55,7 @@ wipeup             { return WIPEUP; }
 }
 
 [a-zA-Z][a-zA-Z0-9_]* {
-    yylval.string = strdup(yytext);
+    yylval.string = wrapped_strdup(yytext);
     return ID;
 }
 
-- 
2.43.0


From d76b453f3e1a040788fb1dcd85a44f826b913338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:31 +0000
Subject: [PATCH 18/24] fix: do not pass over a config file because memory ran
 out

---
 src/config_file_yacc.c | 125 +++++++++++++++++++++--------------------
 src/config_file_yacc.h |   2 +-
 src/config_file_yacc.y |   5 ++
 3 files changed, 71 insertions(+), 61 deletions(-)

diff --git a/src/config_file_yacc.c b/src/config_file_yacc.c
index 073309a..98bc4af 100644
--- a/src/config_file_yacc.c
+++ b/src/config_file_yacc.c
@@ -78,6 +78,7 @@
  * file that was distributed with this source code.
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -109,7 +110,7 @@ void yyerror (char *s);
 int yylex (void);
 
 
-#line 113 "config_file_yacc.c"
+#line 114 "config_file_yacc.c"
 
 # ifndef YY_CAST
 #  ifdef __cplusplus
@@ -204,13 +205,13 @@ extern int yydebug;
 #if ! defined YYSTYPE && ! defined YYSTYPE_IS_DECLARED
 union YYSTYPE
 {
-#line 43 "config_file_yacc.y"
+#line 44 "config_file_yacc.y"
 
     char *string; /* string buffer */
     int   cmd;    /* command value */
     int   nvalue; /* nvalue */
 
-#line 214 "config_file_yacc.c"
+#line 215 "config_file_yacc.c"
 
 };
 typedef union YYSTYPE YYSTYPE;
@@ -658,11 +659,11 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    73,    73,    75,    78,    80,    83,    86,    89,    92,
-      93,    96,    98,   100,   102,   104,   106,   108,   111,   113,
-     115,   117,   120,   122,   124,   126,   129,   131,   133,   135,
-     138,   140,   142,   145,   147,   149,   152,   155,   158,   161,
-     162,   165,   170,   172
+       0,    74,    74,    76,    79,    81,    84,    87,    90,    93,
+      94,    97,    99,   101,   103,   105,   107,   109,   112,   114,
+     116,   118,   121,   123,   125,   127,   130,   132,   134,   136,
+     139,   141,   143,   146,   148,   150,   153,   156,   159,   162,
+     163,   166,   171,   173
 };
 #endif
 
@@ -1275,159 +1276,159 @@ yyreduce:
   switch (yyn)
     {
   case 7: /* sequence_open: SEQUENCE string OPEN  */
-#line 86 "config_file_yacc.y"
+#line 87 "config_file_yacc.y"
                                     { current_name = (yyvsp[-1].string); }
-#line 1281 "config_file_yacc.c"
+#line 1282 "config_file_yacc.c"
     break;
 
   case 8: /* sequence_close: CLOSE EOL  */
-#line 89 "config_file_yacc.y"
+#line 90 "config_file_yacc.y"
                           { cf_append_sequence_list(); }
-#line 1287 "config_file_yacc.c"
+#line 1288 "config_file_yacc.c"
     break;
 
   case 11: /* method: UNCGI EOL  */
-#line 96 "config_file_yacc.y"
+#line 97 "config_file_yacc.y"
                      { cf_append_filter(FILTER_UNCGI, NULL, NULL, 0, 0); }
-#line 1293 "config_file_yacc.c"
+#line 1294 "config_file_yacc.c"
     break;
 
   case 12: /* method: LOWER EOL  */
-#line 98 "config_file_yacc.y"
+#line 99 "config_file_yacc.y"
                  { cf_append_filter(FILTER_LOWER, NULL, NULL, 0, 0); }
-#line 1299 "config_file_yacc.c"
+#line 1300 "config_file_yacc.c"
     break;
 
   case 18: /* iso8859_1: ISO8859_1  */
-#line 111 "config_file_yacc.y"
+#line 112 "config_file_yacc.y"
                      { cf_append_filter(FILTER_ISO8859_1, NULL, NULL, 0, 0); }
-#line 1305 "config_file_yacc.c"
+#line 1306 "config_file_yacc.c"
     break;
 
   case 19: /* iso8859_1: ISO8859_1 OPEN CLOSE  */
-#line 113 "config_file_yacc.y"
+#line 114 "config_file_yacc.y"
                          { cf_append_filter(FILTER_ISO8859_1, NULL, NULL, 0, 0); }
-#line 1311 "config_file_yacc.c"
+#line 1312 "config_file_yacc.c"
     break;
 
   case 20: /* iso8859_1: ISO8859_1 OPEN FILENAME string EOL CLOSE  */
-#line 115 "config_file_yacc.y"
+#line 116 "config_file_yacc.y"
                                              { cf_append_filter(FILTER_ISO8859_1, NULL, (yyvsp[-2].string), 0, 0); }
-#line 1317 "config_file_yacc.c"
+#line 1318 "config_file_yacc.c"
     break;
 
   case 21: /* iso8859_1: ISO8859_1 OPEN BUILTIN string EOL CLOSE  */
-#line 117 "config_file_yacc.y"
+#line 118 "config_file_yacc.y"
                                             { cf_append_filter(FILTER_ISO8859_1, (yyvsp[-2].string), NULL, 0, 0); }
-#line 1323 "config_file_yacc.c"
+#line 1324 "config_file_yacc.c"
     break;
 
   case 22: /* utf_8: UTF_8  */
-#line 120 "config_file_yacc.y"
+#line 121 "config_file_yacc.y"
              { cf_append_filter(FILTER_UTF_8, NULL, NULL, 0, 0); }
-#line 1329 "config_file_yacc.c"
+#line 1330 "config_file_yacc.c"
     break;
 
   case 23: /* utf_8: UTF_8 OPEN CLOSE  */
-#line 122 "config_file_yacc.y"
+#line 123 "config_file_yacc.y"
                      { cf_append_filter(FILTER_UTF_8, NULL, NULL, 0, 0); }
-#line 1335 "config_file_yacc.c"
+#line 1336 "config_file_yacc.c"
     break;
 
   case 24: /* utf_8: UTF_8 OPEN FILENAME string EOL CLOSE  */
-#line 124 "config_file_yacc.y"
+#line 125 "config_file_yacc.y"
                                          { cf_append_filter(FILTER_UTF_8, NULL, (yyvsp[-2].string), 0, 0); }
-#line 1341 "config_file_yacc.c"
+#line 1342 "config_file_yacc.c"
     break;
 
   case 25: /* utf_8: UTF_8 OPEN BUILTIN string EOL CLOSE  */
-#line 126 "config_file_yacc.y"
+#line 127 "config_file_yacc.y"
                                         { cf_append_filter(FILTER_UTF_8, (yyvsp[-2].string), NULL, 0, 0); }
-#line 1347 "config_file_yacc.c"
+#line 1348 "config_file_yacc.c"
     break;
 
   case 26: /* safe: SAFE  */
-#line 129 "config_file_yacc.y"
+#line 130 "config_file_yacc.y"
            { cf_append_filter(FILTER_SAFE, NULL, NULL, 0, 0); }
-#line 1353 "config_file_yacc.c"
+#line 1354 "config_file_yacc.c"
     break;
 
   case 27: /* safe: SAFE OPEN CLOSE  */
-#line 131 "config_file_yacc.y"
+#line 132 "config_file_yacc.y"
                     { cf_append_filter(FILTER_SAFE, NULL, NULL, 0, 0); }
-#line 1359 "config_file_yacc.c"
+#line 1360 "config_file_yacc.c"
     break;
 
   case 28: /* safe: SAFE OPEN FILENAME string EOL CLOSE  */
-#line 133 "config_file_yacc.y"
+#line 134 "config_file_yacc.y"
                                         { cf_append_filter(FILTER_SAFE, NULL, (yyvsp[-2].string), 0, 0); }
-#line 1365 "config_file_yacc.c"
+#line 1366 "config_file_yacc.c"
     break;
 
   case 29: /* safe: SAFE OPEN BUILTIN string EOL CLOSE  */
-#line 135 "config_file_yacc.y"
+#line 136 "config_file_yacc.y"
                                        { cf_append_filter(FILTER_SAFE, (yyvsp[-2].string), NULL, 0, 0); }
-#line 1371 "config_file_yacc.c"
+#line 1372 "config_file_yacc.c"
     break;
 
   case 30: /* wipeup: WIPEUP  */
-#line 138 "config_file_yacc.y"
+#line 139 "config_file_yacc.y"
                   { cf_append_filter(FILTER_WIPEUP, NULL, NULL, 0, 0); }
-#line 1377 "config_file_yacc.c"
+#line 1378 "config_file_yacc.c"
     break;
 
   case 31: /* wipeup: WIPEUP OPEN CLOSE  */
-#line 140 "config_file_yacc.y"
+#line 141 "config_file_yacc.y"
                       { cf_append_filter(FILTER_WIPEUP, NULL, NULL, 0, 0); }
-#line 1383 "config_file_yacc.c"
+#line 1384 "config_file_yacc.c"
     break;
 
   case 32: /* wipeup: WIPEUP OPEN REMOVE_TRAILING EOL CLOSE  */
-#line 142 "config_file_yacc.y"
+#line 143 "config_file_yacc.y"
                                           { cf_append_filter(FILTER_WIPEUP, NULL, NULL, 0, 1); }
-#line 1389 "config_file_yacc.c"
+#line 1390 "config_file_yacc.c"
     break;
 
   case 33: /* max_length: MAX_LENGTH  */
-#line 145 "config_file_yacc.y"
+#line 146 "config_file_yacc.y"
                           { cf_append_filter(FILTER_MAX_LENGTH, NULL, NULL, 0, 0); }
-#line 1395 "config_file_yacc.c"
+#line 1396 "config_file_yacc.c"
     break;
 
   case 34: /* max_length: MAX_LENGTH OPEN CLOSE  */
-#line 147 "config_file_yacc.y"
+#line 148 "config_file_yacc.y"
                           { cf_append_filter(FILTER_MAX_LENGTH, NULL, NULL, 0, 0); }
-#line 1401 "config_file_yacc.c"
+#line 1402 "config_file_yacc.c"
     break;
 
   case 35: /* max_length: MAX_LENGTH OPEN LENGTH NVALUE EOL CLOSE  */
-#line 149 "config_file_yacc.y"
+#line 150 "config_file_yacc.y"
                                             { cf_append_filter(FILTER_MAX_LENGTH, NULL, NULL, (yyvsp[-2].nvalue), 0); }
-#line 1407 "config_file_yacc.c"
+#line 1408 "config_file_yacc.c"
     break;
 
   case 41: /* ignore_filename: FILENAME string EOL  */
-#line 165 "config_file_yacc.y"
+#line 166 "config_file_yacc.y"
                                      {
         cf_append_ignore_entry((yyvsp[-1].string));
     }
-#line 1415 "config_file_yacc.c"
+#line 1416 "config_file_yacc.c"
     break;
 
   case 42: /* string: QSTRING  */
-#line 170 "config_file_yacc.y"
+#line 171 "config_file_yacc.y"
                         { (yyval.string) = (yyvsp[0].string); }
-#line 1421 "config_file_yacc.c"
+#line 1422 "config_file_yacc.c"
     break;
 
   case 43: /* string: ID  */
-#line 172 "config_file_yacc.y"
+#line 173 "config_file_yacc.y"
                   { (yyval.string) = (yyvsp[0].string); }
-#line 1427 "config_file_yacc.c"
+#line 1428 "config_file_yacc.c"
     break;
 
 
-#line 1431 "config_file_yacc.c"
+#line 1432 "config_file_yacc.c"
 
       default: break;
     }
@@ -1620,7 +1621,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 175 "config_file_yacc.y"
+#line 176 "config_file_yacc.y"
 
 
 extern FILE *yyin;
@@ -1638,6 +1639,10 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
 
     yyin = fopen(filename, "r");
     if (yyin == NULL) {
+        if (errno == ENOMEM) {
+            fprintf(stderr, "detox: out of memory: %s\n", strerror(errno));
+            exit(EXIT_FAILURE);
+        }
         return previous_results;
     }
     yyout = fopen("/dev/null", "w");
diff --git a/src/config_file_yacc.h b/src/config_file_yacc.h
index 0e415fa..44b86ce 100644
--- a/src/config_file_yacc.h
+++ b/src/config_file_yacc.h
@@ -105,7 +105,7 @@ extern int yydebug;
 #if ! defined YYSTYPE && ! defined YYSTYPE_IS_DECLARED
 union YYSTYPE
 {
-#line 43 "config_file_yacc.y"
+#line 44 "config_file_yacc.y"
 
     char *string; /* string buffer */
     int   cmd;    /* command value */
diff --git a/src/config_file_yacc.y b/src/config_file_yacc.y
index 0706c86..5f4de56 100644
--- a/src/config_file_yacc.y
+++ b/src/config_file_yacc.y
@@ -8,6 +8,7 @@
  * file that was distributed with this source code.
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -189,6 +190,10 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
 
     yyin = fopen(filename, "r");
     if (yyin == NULL) {
+        if (errno == ENOMEM) {
+            fprintf(stderr, "detox: out of memory: %s\n", strerror(errno));
+            exit(EXIT_FAILURE);
+        }
         return previous_results;
     }
     yyout = fopen("/dev/null", "w");
-- 
2.43.0


From d97aaf0803f54ae68be390f4e022687e21e56cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:00 +0000
Subject: [PATCH 19/24] fix: clean a piece of a long line even if it is . or ..

---
 src/file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index a85f077..daace9f 100644
--- a/src/file.c
+++ b/src/file.c
@@ -335,6 +335,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
     char *seek;
     char *work;
     int err;
+    int continued;
     int has_newline;
     int remaining;
 
@@ -359,6 +360,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
     buf_size = INLINE_BUF_SIZE;
     padding = INLINE_BUF_PADDING;
     base = wrapped_malloc(buf_size);
+    continued = 0;
 
     while (fgets(base, buf_size - padding, in_fp)) {
 
@@ -475,10 +477,13 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
 
         work = wrapped_strdup(base);
 
-        if (is_protected(work)) {
+        // a piece of a longer line is not a line of its own
+        if (!continued && is_protected(work)) {
             work = NULL;
         }
 
+        continued = !has_newline;
+
         hold = sequence_run_filters(options->sequence_to_use, work);
         if (work != NULL) {
             free(work);
-- 
2.43.0


From a04a673d265d2c6006dd7adff66013f8b22bc060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:39 +0000
Subject: [PATCH 20/24] fix: do not access memory behind a config file string
 that contains NUL

---
 src/config_file_lex.c | 6 +++---
 src/config_file_lex.l | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index 07ac578..7f8350e 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -934,13 +934,13 @@ case 19:
 YY_RULE_SETUP
 #line 46 "config_file_lex.l"
 {
-    yylval.string = wrapped_strdup(yytext+1);
-    if (yylval.string[yyleng-2] != '"') {
+    if (yytext[yyleng-1] != '"') {
         printf("Unterminated character string\n");
     }
     else {
-        yylval.string[yyleng-2] = '\0';
+        yytext[yyleng-1] = '\0';
     }
+    yylval.string = wrapped_strdup(yytext+1);
     return QSTRING;
 }
 	YY_BREAK
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index 2dc6a9e..88a57c1 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -44,13 +44,13 @@ wipeup             { return WIPEUP; }
 [}]     { return CLOSE; }
 
 \"[^\"\n]*[\"\n] {
-    yylval.string = wrapped_strdup(yytext+1);
-    if (yylval.string[yyleng-2] != '"') {
+    if (yytext[yyleng-1] != '"') {
         printf("Unterminated character string\n");
     }
     else {
-        yylval.string[yyleng-2] = '\0';
+        yytext[yyleng-1] = '\0';
     }
+    yylval.string = wrapped_strdup(yytext+1);
     return QSTRING;
 }
 
-- 
2.43.0


From 8492a6769277cdd305655da0336d76ba0af7e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:17 +0000
Subject: [PATCH 21/24] fix: treat an unterminated string in a config file as
 an error

---
 src/config_file_lex.l | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index 88a57c1..35e226c 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -14,6 +14,8 @@
 
 int config_file_lineno = 1;
 
+void yyerror (char *s);
+
 %}
 
 %option noyywrap
@@ -45,11 +47,9 @@ wipeup             { return WIPEUP; }
 
 \"[^\"\n]*[\"\n] {
     if (yytext[yyleng-1] != '"') {
-        printf("Unterminated character string\n");
-    }
-    else {
-        yytext[yyleng-1] = '\0';
+        yyerror("unterminated character string");
     }
+    yytext[yyleng-1] = '\0';
     yylval.string = wrapped_strdup(yytext+1);
     return QSTRING;
 }
-- 
2.43.0


From 5ada1953461aa8f89bae4583f21a6e8a1f66ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:40 +0000
Subject: [PATCH 22/24] fix: read lines of any length from a translation table

---
 src/parse_table.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parse_table.c b/src/parse_table.c
index 49a67dd..09c636b 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -28,9 +28,11 @@ table_t *parse_table(char *filename)
 {
     FILE *table_file;
     char *work;
+    size_t work_size;
     int code;
     int offset;
     char *parsed;
+    size_t parsed_size;
     int err;
     int size;
     int ret;
@@ -77,13 +79,21 @@ table_t *parse_table(char *filename)
         return NULL;
     }
 
-    work = wrapped_malloc(1024);
+    work_size = 1024;
+    work = wrapped_malloc(work_size);
 
-    parsed = wrapped_malloc(1024);
+    parsed_size = 1024;
+    parsed = wrapped_malloc(parsed_size);
 
     state = BASE_STATE;
 
-    while (fgets(work, 1024, table_file) != NULL) {
+    while (getline(&work, &work_size, table_file) != -1) {
+        if (parsed_size < work_size) {
+            free(parsed);
+            parsed_size = work_size;
+            parsed = wrapped_malloc(parsed_size);
+        }
+
         if (*work == '#') {
 
             /*
@@ -199,7 +209,7 @@ table_t *parse_table(char *filename)
     free(work);
     free(parsed);
 
-    if (ferror(table_file)) {
+    if (ferror(table_file) || !feof(table_file)) {
         fprintf(stderr, "Unable to read translation table: %s\n", strerror(errno));
         table_free(table);
         fclose(table_file);
-- 
2.43.0


From 785523c657f9b05b78bd9d13e62e2b129459e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 23/24] fix: do not replace a file that took the old filename
 in the meantime

When the new filename turned out to be the same file as the old one, only
because another process had just renamed it, the old filename could be in use
by another file by then, and rename() replaced the file at the new filename
with it.
---
 src/file.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index daace9f..5af0d0b 100644
--- a/src/file.c
+++ b/src/file.c
@@ -182,9 +182,16 @@ char *parse_file(char *filename, options_t *options)
     err = lstat(new_filename, &stat_info_new);
     is_unused = (err == -1);
     if (err != -1) { // New file exists
-        if (stat_info_old.st_dev != stat_info_new.st_dev || // Different device
+        /*
+         * Look at the old file again, it may just have been moved to the new
+         * filename, and another file may have taken its place.
+         */
+        err = lstat(old_filename, &stat_info_old);
+        if (err == -1 ||
+                stat_info_old.st_dev != stat_info_new.st_dev || // Different device
                 stat_info_old.st_ino != stat_info_new.st_ino || // Different inode
-                stat_info_old.st_nlink > 1) { // More than one hard link
+                stat_info_old.st_nlink > 1 || // More than one hard link
+                stat_info_new.st_nlink > 1) {
             fprintf(stderr, "Cannot rename %s to %s: file already exists\n", old_filename, new_filename);
 
             free(new_filename);
-- 
2.43.0


From d810f3050068229c192db12aea4aab33ed884725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:12 +0000
Subject: [PATCH 24/24] fix: free the memory used for each entry, line and
 input

Names that are clean already, protected names, the line buffer of inline mode and the filenames returned for arguments were not freed.
---
 src/detox.c | 6 ++++--
 src/file.c  | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/detox.c b/src/detox.c
index 111ad8e..72de8ae 100644
--- a/src/detox.c
+++ b/src/detox.c
@@ -103,9 +103,11 @@ int main(int argc, char **argv)
                     parse_dir(file_work, main_options);
                     free(file_work);
                 } else if (S_ISREG(stat_info.st_mode)) {
-                    parse_file(file_walk, main_options);
+                    file_work = parse_file(file_walk, main_options);
+                    free(file_work);
                 } else if (main_options->special) {
-                    parse_file(file_walk, main_options);
+                    file_work = parse_file(file_walk, main_options);
+                    free(file_work);
                 }
             }
         }
diff --git a/src/file.c b/src/file.c
index 5af0d0b..0d4ff9d 100644
--- a/src/file.c
+++ b/src/file.c
@@ -139,6 +139,7 @@ char *parse_file(char *filename, options_t *options)
     work = wrapped_strdup(old_filename_ptr);
 
     if (is_protected(work)) {
+        free(work);
         work = NULL;
     }
 
@@ -154,6 +155,7 @@ char *parse_file(char *filename, options_t *options)
 
     /* check to see if nothing changed */
     if (strcmp(old_filename_ptr, work) == 0) {
+        free(work);
         return old_filename;
     }
 
@@ -486,6 +488,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
 
         // a piece of a longer line is not a line of its own
         if (!continued && is_protected(work)) {
+            free(work);
             work = NULL;
         }
 
@@ -518,6 +521,8 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
         fprintf(stderr, "%s: %s\n", (in_filename != NULL) ? in_filename : "stdin", strerror(errno));
     }
 
+    free(base);
+
     if (in_filename != NULL) {
         fclose(in_fp);
     }
-- 
2.43.0

