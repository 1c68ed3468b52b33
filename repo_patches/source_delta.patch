From 80f5d50e86792a2a173863097226e9da7f22ba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 01/16] fix: give U+10FFFF a slot in the per-character tables

---
 src/text.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text.h b/src/text.h
index a82179b..3e5bdfe 100644
--- a/src/text.h
+++ b/src/text.h
@@ -53,7 +53,7 @@ typedef uint32_t Charvalue;
 /* Technically, there are far less *scalar values* (what you and I call
  * "characters") in Unicode, but using the max number of *code points* here
  * makes the implementation simpler. See: http://www.unicode.org/glossary/ */
-#define NUM_CHARVALUES  0x10FFFF
+#define NUM_CHARVALUES  0x110000
 
 /* Maximum char size of a single char_to_string() operation, including the
  * null-terminator. It's either the largetst size of an encoded non-graphic
-- 
2.43.0


From 44871c69a6986ab68541acbee800da5e1906d1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 02/16] fix: make STRING_SIZE large enough for a suspect
 escaped character

---
 src/text.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text.h b/src/text.h
index 3e5bdfe..20a768e 100644
--- a/src/text.h
+++ b/src/text.h
@@ -60,7 +60,7 @@ typedef uint32_t Charvalue;
  * character (this happens to be U+10FFFF) OR the size of an astral (non-BMP)
  * combining character, that combines on top of U+25CC DOTTED CIRCLE
  * WITH a suspect marker! */
-#define STRING_SIZE (max(sizeof("^◌𐇽"), sizeof("<10FFFF>")))
+#define STRING_SIZE (max(sizeof("^◌𐇽"), sizeof("^<10FFFF>")))
 
 BEGIN_ITEM(Char)
     Boolean suspect;
-- 
2.43.0


From bd43b1d710956afe91a84077fafb7934ed52bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 03/16] fix: reject character codes beyond Unicode in accuracy
 reports

---
 src/accrpt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 9146f66..4fc091f 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -165,7 +165,7 @@ char *line;
                 next_byte++;
                 int offset;
                 int ret = sscanf(next_byte, "%x%n", &value, &offset);
-                if (ret != 1) {
+                if (ret != 1 || value >= NUM_CHARVALUES) {
                     return INVALID_CHARVALUE;
                 }
                 next_byte += offset;
-- 
2.43.0


From 3eca3aed738cbea4446c06904db72f295d620d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 04/16] fix: reject move lengths outside the table in edit
 operation reports

---
 src/edorpt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edorpt.c b/src/edorpt.c
index d967684..674fb34 100644
--- a/src/edorpt.c
+++ b/src/edorpt.c
@@ -78,7 +78,12 @@ char *filename;
     {
 	if (moves > 0 && read_line(f) && read_line(f) && read_line(f))
 	    while (read_two(f, &value1, &value2))
+	    {
+		if (value2 < 1 || value2 > MAX_MOVE_LENGTH)
+		    error_string("invalid move length in",
+		    (filename ? filename : "stdin"));
 		edodata->moves[value2] += value1;
+	    }
     }
     else
 	error_string("invalid format in", (filename ? filename : "stdin"));
-- 
2.43.0


From 7ed9554e7ff2fe60f351b6892a5cc429e42ff937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 05/16] fix: keep accuracies above 100 per cent inside the
 distribution

---
 src/dist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dist.c b/src/dist.c
index 0a83028..bd2c2e4 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -36,7 +36,7 @@ long count, missed;
     if (count == 0)
 	return;
     accuracy = 100.0 * (count - missed) / count;
-    for (i = 0; accuracy >= i; i++)
+    for (i = 0; i <= 100 && accuracy >= i; i++)
 	dist->count[i] += count;
     dist->total_count += count;
 }
-- 
2.43.0


From 49109f3190f73e04785fb7ea2aaeaa4914a900ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 06/16] fix: count word lengths in characters and keep long
 words in the table

---
 src/wordacc.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/wordacc.c b/src/wordacc.c
index 2eb744e..762727f 100644
--- a/src/wordacc.c
+++ b/src/wordacc.c
@@ -208,6 +208,17 @@ void obtain_matches()
 }
 /**********************************************************************/
 
+long word_length(key)
+char *key;
+{
+    long length = 0;
+    for (; *key; key++)
+	if ((*key & 0xC0) != 0x80) /* not a UTF-8 continuation byte */
+	    length++;
+    return(min(length, MAX_WORDLENGTH));
+}
+/**********************************************************************/
+
 void process_terms(termtable, length, occurs)
 Termtable *termtable;
 Wac length[], occurs[];
@@ -220,7 +231,8 @@ Wac length[], occurs[];
 	missed = termtable->array[i]->wac.missed;
 	increment_wac(&wacdata.total, count, missed);
 	increment_wac(&length[0], count, missed);
-	increment_wac(&length[strlen(termtable->array[i]->key)], count, missed);
+	increment_wac(&length[word_length(termtable->array[i]->key)], count,
+	missed);
 	if (occurs)
 	{
 	    increment_wac(&occurs[0], 1, (count == missed ? 1 : 0));
-- 
2.43.0


From 9c84754d3c4337bc96ef3ebad4660419a7a2fb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 07/16] fix: read word accuracy report lines of any length

---
 src/wacrpt.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wacrpt.c b/src/wacrpt.c
index c28d5cd..2a163e2 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -22,6 +22,9 @@
  *
  **********************************************************************/
 
+#undef _XOPEN_SOURCE
+#define _XOPEN_SOURCE 700 /* for getline */
+
 #include "sort.h"
 #include "wacrpt.h"
 #include "ocreval_version.h"
@@ -32,7 +35,8 @@
 #define TOTAL    " Total\n"
 #define OFFSET   29
 
-static char line[100];
+static char *line;
+static size_t line_size;
 
 /**********************************************************************/
 
@@ -65,7 +69,7 @@ long count, missed;
 static Boolean read_line(f)
 FILE *f;
 {
-    return(fgets(line, sizeof(line) - 1, f) ? True : False);
+    return(getline(&line, &line_size, f) > 0 ? True : False);
 }
 /**********************************************************************/
 
@@ -81,8 +85,8 @@ static Boolean read_two(f, value1, value2)
 FILE *f;
 long *value1, *value2;
 {
-    return(read_line(f) && sscanf(line, "%ld %ld", value1, value2) == 2 ?
-    True : False);
+    return(read_line(f) && sscanf(line, "%ld %ld", value1, value2) == 2 &&
+    strlen(line) > OFFSET ? True : False);
 }
 /**********************************************************************/
 
-- 
2.43.0


From 580eba2dcd8b8ef832253fbc6fd9770b0e97a1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 08/16] fix: reject row numbers outside the tables in word
 accuracy reports

---
 src/wacrpt.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/wacrpt.c b/src/wacrpt.c
index 2a163e2..7792550 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -90,9 +90,10 @@ long *value1, *value2;
 }
 /**********************************************************************/
 
-static long read_numbers(f, wac)
+static long read_numbers(f, wac, limit)
 FILE *f;
 Wac wac[];
+long limit;
 {
     long count, missed, index, total_count = 0;
     if (read_line(f) && read_line(f))
@@ -105,6 +106,8 @@ Wac wac[];
 		else /* excess */
 		    index = MAX_OCCURRENCES + 1;
 	    }
+	    if (index < 0 || index > limit)
+		error("invalid format in word accuracy report");
 	    increment_wac(&wac[index], count, missed);
 	}
     return(total_count);
@@ -138,12 +141,13 @@ char *filename;
     read_line(f) && read_line(f))
     {
 	increment_wac(&wacdata->total, words, missed);
-	stopwords = read_numbers(f, wacdata->stopword);
-	non_stopwords = read_numbers(f, wacdata->non_stopword);
-	read_numbers(f, wacdata->distinct_non_stopword);
+	stopwords = read_numbers(f, wacdata->stopword, MAX_WORDLENGTH);
+	non_stopwords = read_numbers(f, wacdata->non_stopword,
+	MAX_WORDLENGTH);
+	read_numbers(f, wacdata->distinct_non_stopword, MAX_OCCURRENCES + 1);
 	if (words > 0)
 	{
-	    read_numbers(f, wacdata->phrase);
+	    read_numbers(f, wacdata->phrase, MAX_PHRASELENGTH);
 	    if (stopwords > 0)
 		read_terms(f, &wacdata->stopword_table);
 	    if (non_stopwords > 0)
-- 
2.43.0


From e6cbbd9b963361aa122f75509db8a5683db14532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 09/16] fix: count arguments and name lengths without overflow

---
 src/util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.c b/src/util.c
index b946bc2..d11aca3 100644
--- a/src/util.c
+++ b/src/util.c
@@ -146,8 +146,8 @@ char *pathname;
 #else
     char delimiter = '\\';
 #endif
-    short i;
-    for (i = strlen(pathname) - 1; i >= 0 && pathname[i] != delimiter; i--);
+    long i;
+    for (i = (long) strlen(pathname) - 1; i >= 0 && pathname[i] != delimiter; i--);
     return(&pathname[i + 1]);
 }
 /**********************************************************************/
@@ -217,7 +217,7 @@ int *argc;
 char *argv[], *usage;
 Option option[];
 {
-    short i, j = 0;
+    int i, j = 0;
     if (*argc == 1 && usage_when_no_args)
 	show_usage(usage);
     for (i = 1; i < *argc; i++)
-- 
2.43.0


From 5c2f29a9daf69484103946cf9c7b10e8fbe50c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 10/16] fix: report read and write failures instead of ignoring
 them

---
 src/util.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util.c b/src/util.c
index d11aca3..90decb6 100644
--- a/src/util.c
+++ b/src/util.c
@@ -90,8 +90,9 @@ char *filename, *mode;
 void close_file(f)
 FILE *f;
 {
-    if (f != stdin && f != stdout)
-	fclose(f);
+    if (ferror(f) || (f == stdout && fflush(f) != 0) ||
+    (f != stdin && f != stdout && fclose(f) != 0))
+	error("unable to read or write file");
 }
 /**********************************************************************/
 
@@ -258,6 +259,8 @@ int status;
 
 void terminate()
 {
+    if (fflush(stdout) != 0 || ferror(stdout))
+	error("unable to write output");
     quit(0);
 }
 /**********************************************************************/
-- 
2.43.0


From 9b618532a8f7a620f5c421b99649e64a9d44e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 11/16] fix: stop when text already read cannot be reread,
 instead of dropping it

---
 src/text.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/text.c b/src/text.c
index 1837d88..aeb21c7 100644
--- a/src/text.c
+++ b/src/text.c
@@ -70,7 +70,8 @@ static Boolean read_header(f)
 				divider_count++;
 		return(True);
 	}
-	rewind(f);
+	if (fseek(f, 0L, SEEK_SET) != 0)
+		error("unable to reread input");
 	return(False);
 }
 /**********************************************************************/
-- 
2.43.0


From ac09faec971bf9085d2319bc5800768a323734fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 12/16] fix: report failing allocations of strings and words

---
 src/accrpt.c | 2 +-
 src/ngram.c  | 2 +-
 src/util.c   | 9 ++++++++-
 src/util.h   | 3 +++
 src/vote.c   | 2 +-
 src/wacrpt.c | 2 +-
 src/word.c   | 5 ++++-
 7 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 4fc091f..39cd0f6 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -80,7 +80,7 @@ long errors, marked;
     else
     {
         conf = NEW(Conf);
-        conf->key = strdup(key);
+        conf->key = copy_string(key);
         conf->errors = errors;
         conf->marked = marked;
         table_insert(&accdata->conftable, conf);
diff --git a/src/ngram.c b/src/ngram.c
index 72ddbdf..fb275d0 100644
--- a/src/ngram.c
+++ b/src/ngram.c
@@ -75,7 +75,7 @@ Boolean suspect;
     if (!sequence)
     {
 	sequence = NEW(Sequence);
-	sequence->key = strdup(key);
+	sequence->key = copy_string(key);
 	for (i = 0; i < n; i++)
 	    sequence->value[i] = value[i];
 	table_insert(&seqtable, sequence);
diff --git a/src/util.c b/src/util.c
index 90decb6..0192a37 100644
--- a/src/util.c
+++ b/src/util.c
@@ -59,6 +59,13 @@ size_t number, size;
 }
 /**********************************************************************/
 
+char *copy_string(string)
+char *string;
+{
+    return(strcpy(NEW_ARRAY(strlen(string) + 1, char), string));
+}
+/**********************************************************************/
+
 int ustrcmp(s1, s2)
 unsigned char *s1, *s2;
 {
@@ -113,7 +120,7 @@ short id;
 #else
     sprintf(name, "c:\\temp\\tempfile.%d", id);
 #endif
-    return(strdup(name));
+    return(copy_string(name));
 }
 /**********************************************************************/
 
diff --git a/src/util.h b/src/util.h
index 9172619..fe5e89b 100644
--- a/src/util.h
+++ b/src/util.h
@@ -58,6 +58,9 @@ typedef char Boolean;
 			/* allocate an array of "type" */
 void *allocate(/* size_t number, size_t size */);
 
+char *copy_string(/* char *string */);
+			/* allocates a copy of the string */
+
 int ustrcmp(/* unsigned char *s1, unsigned char *s2 */);
 			/* compares strings like "strcmp" but treats characters
 			   as unsigned */
diff --git a/src/vote.c b/src/vote.c
index f8d2838..b348f49 100644
--- a/src/vote.c
+++ b/src/vote.c
@@ -137,7 +137,7 @@ short index;
     if (!sequence)
     {
 	sequence = NEW(Sequence);
-	sequence->key = strdup(key);
+	sequence->key = copy_string(key);
 	if (!reject)
 	    sequence->median = 1;
 	table_insert(&seqtable, sequence);
diff --git a/src/wacrpt.c b/src/wacrpt.c
index 7792550..9cd3965 100644
--- a/src/wacrpt.c
+++ b/src/wacrpt.c
@@ -59,7 +59,7 @@ long count, missed;
     if (!term)
     {
 	term = NEW(Term);
-	term->key = strdup(key);
+	term->key = copy_string(key);
 	table_insert(termtable, term);
     }
     increment_wac(&term->wac, count, missed);
diff --git a/src/word.c b/src/word.c
index a229bbe..bc7ee88 100644
--- a/src/word.c
+++ b/src/word.c
@@ -284,12 +284,15 @@ static void append_word(wordlist, start, end)
     Word *word;
     Char *after = end->next;
     size_t len = find_utf8_length(start, after);
-    char *buffer = malloc(len + 1);
+    char *buffer = NEW_ARRAY(len + 1, char);
     copy_into_buffer(buffer, start, after);
 
     word = NEW(Word);
     /* Convert the null-terminated string to NFC. */
     word->string = (char *) utf8proc_NFC((const utf8proc_uint8_t *) buffer);
+    if (word->string == NULL) {
+        error("unable to normalize word");
+    }
     list_insert_last(wordlist, word);
     free(buffer);
 }
-- 
2.43.0


From 969e8259161f94373307b01e98b0fc33585de1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 13/16] fix: compare counts without truncating their difference
 to int

---
 src/accrpt.c   | 4 ++--
 src/ngram.c    | 4 ++--
 src/vote.c     | 2 +-
 src/wordfreq.c | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/accrpt.c b/src/accrpt.c
index 39cd0f6..f5f025d 100644
--- a/src/accrpt.c
+++ b/src/accrpt.c
@@ -315,9 +315,9 @@ static int compare_conf(conf1, conf2)
 Conf *conf1, *conf2;
 {
     if (conf1->errors != conf2->errors)
-        return(conf2->errors - conf1->errors);
+        return(conf1->errors > conf2->errors ? -1 : 1);
     if (conf1->marked != conf2->marked)
-        return(conf2->marked - conf1->marked);
+        return(conf1->marked > conf2->marked ? -1 : 1);
     return(ustrcmp(conf1->key, conf2->key));
 }
 /**********************************************************************/
diff --git a/src/ngram.c b/src/ngram.c
index fb275d0..07ab2ae 100644
--- a/src/ngram.c
+++ b/src/ngram.c
@@ -134,9 +134,9 @@ int order_by_count(sequence1, sequence2)
 Sequence *sequence1, *sequence2;
 {
     if (sequence1->count != sequence2->count)
-	return(sequence2->count - sequence1->count);
+	return(sequence1->count > sequence2->count ? -1 : 1);
     if (sequence1->suspect != sequence2->suspect)
-	return(sequence2->suspect - sequence1->suspect);
+	return(sequence1->suspect > sequence2->suspect ? -1 : 1);
     return(order_by_value(sequence1, sequence2));
 }
 /**********************************************************************/
diff --git a/src/vote.c b/src/vote.c
index b348f49..9451b71 100644
--- a/src/vote.c
+++ b/src/vote.c
@@ -174,7 +174,7 @@ short index;
 int compare_counts(count1, count2)
 long *count1, *count2;
 {
-    return(*count1 - *count2);
+    return(*count1 < *count2 ? -1 : *count1 > *count2);
 }
 /**********************************************************************/
 
diff --git a/src/wordfreq.c b/src/wordfreq.c
index c5d3acc..b0fa69f 100644
--- a/src/wordfreq.c
+++ b/src/wordfreq.c
@@ -60,7 +60,7 @@ int order_by_count(term1, term2)
 Term *term1, *term2;
 {
     if (term1->wac.count != term2->wac.count)
-	return(term2->wac.count - term1->wac.count);
+	return(term1->wac.count > term2->wac.count ? -1 : 1);
     return(order_by_key(term1, term2));
 }
 /**********************************************************************/
-- 
2.43.0


From 80349c850218e43d428f5bce94e634f93fc0e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 14/16] fix: attach no Extend or Format characters to line
 breaks or the start of text

---
 src/word.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/word.c b/src/word.c
index bc7ee88..afa4f72 100644
--- a/src/word.c
+++ b/src/word.c
@@ -87,8 +87,18 @@ static wb_property char_property(node)
     return property(node->value);
 }
 
+/* Returns whether the character is CR, LF, or Newline; Extend and Format
+ * characters are not attached to these. */
+__attribute__ ((pure))
+static Boolean is_newline(node)
+    const Char *node;
+{
+    wb_property prop = char_property(node);
+    return(prop == Newline || prop == CR || prop == LF);
+}
+
 /* Returns the next character, skipping Extend and Format characters.
- * WB4: Skip over Extend and Format characters.  */
+ * WB4: Skip over Extend and Format characters, except after newlines.  */
 __attribute__ ((pure))
 static Char* skip_to_next(from)
     Char *from;
@@ -97,6 +107,10 @@ static Char* skip_to_next(from)
         return NULL;
     }
 
+    if (is_newline(from)) {
+        return from->next;
+    }
+
     do {
         from = from->next;
     } while (from != NULL && ExtendOrFormat(char_property(from)));
@@ -119,6 +133,10 @@ static Char* skip_to_end_of_extend(from)
         return NULL;
     }
 
+    if (is_newline(from)) {
+        return from;
+    }
+
     /* Skip until the LAST extend or format character. */
     while (from->next != NULL && ExtendOrFormat(char_property(from->next))) {
         from = from->next;
@@ -138,9 +156,11 @@ static Char* find_next_boundary(start)
     Char *start;
 {
     /* The first thing the loop does is advance, so we need a dummy "start of
-     * loop" character that does not participate in the search. */
+     * loop" character that does not participate in the search; like a newline,
+     * it has no Extend or Format characters attached to it. */
     Char dummy;
     dummy.next = start;
+    dummy.value = '\n';
     Char *current = &dummy;
     wb_property left = sot, right, lookahead, lookbehind;
 
-- 
2.43.0


From d120a1e75f669b6958741b442657095c885bbb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 15/16] fix: compile as GNU C89, which defines the macro unix,
 so that messages name the program by its base name

With -ansi the macro is hidden, and basefilename() looks for the last backslash of
the path, not the last slash; temporary files were given DOS names, too.
---
 use-libocreval-internal.mk | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/use-libocreval-internal.mk b/use-libocreval-internal.mk
index 92d237d..8f34ff8 100644
--- a/use-libocreval-internal.mk
+++ b/use-libocreval-internal.mk
@@ -7,8 +7,9 @@ LOCAL_LINK_DIR := $(abspath $(TOP)lib)
 
 LIBOCREVAL = $(LOCAL_LINK_DIR)/libocreval.a
 
-# Compilation flags for all files.
-override CFLAGS += -ansi
+# Compilation flags for all files. (Not -ansi: it hides the macro "unix", without
+# which util.c takes file names for DOS ones.)
+override CFLAGS += -std=gnu89
 # X/Open 6.0 standardizes features used in this K&R C source...
 CPPDEFINES = -D_XOPEN_SOURCE=600
 # Create dependency files.
-- 
2.43.0


From 5813457aaaac42797b6724bad30af7172b9297eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 16/16] fix: reject more text files than synctext can count
 instead of comparing only some of them

---
 src/synctext.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/synctext.c b/src/synctext.c
index 752bd81..57f514f 100644
--- a/src/synctext.c
+++ b/src/synctext.c
@@ -22,6 +22,8 @@
  *
  **********************************************************************/
 
+#include <limits.h>
+
 #include "sync.h"
 
 #define usage  "[-H] [-i] [-s] [-T] textfile1 textfile2 ... >resultfile"
@@ -152,7 +154,8 @@ char *argv[];
     int i;
     Synclist synclist1, synclist2;
     initialize(&argc, argv, usage, option);
-    if (argc < 2 || (transpose && argc > 2))
+    /* The number of texts is passed on as a short. */
+    if (argc < 2 || argc > SHRT_MAX || (transpose && argc > 2))
 	error("invalid number of text files");
     text = NEW_ARRAY(argc, Text);
     for (i = 0; i < argc; i++)
-- 
2.43.0

