From 388b78eb25e9f2536cca91ffc176814808daa11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 01/11] fix: scan the category part of gen_context from its
 start

The index left over from scanning the sensitivity part was reused, so a
shorter category part was read past its end and well-formed entries such as
gen_context(u:r:t,mls_systemhigh,mcs_allcats) could be rejected as malformed.
---
 src/parse_fc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index cedabdb..43085ca 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -103,6 +103,7 @@ struct fc_entry *parse_fc_line(char *line)
 		}
 
 		if (maybe_c) {
+			i = 0;
 			while (maybe_c[i] != '\0' && maybe_c[i] != ')') {
 				i++;
 			}
-- 
2.43.0


From 756a1eae54532aed2a0084cc96cdb808a33c68ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 02/11] fix: do not read past a lone dash in a file context
 line

---
 src/parse_fc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 43085ca..4e8c86b 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -49,7 +49,7 @@ struct fc_entry *parse_fc_line(char *line)
 	}
 
 	if (pos[0] == '-') {
-		if (pos[2] != '\0') {
+		if (pos[1] == '\0' || pos[2] != '\0') {
 			goto cleanup;
 		}
 		out->obj = pos[1];
-- 
2.43.0


From 363074b7cc186e0e5538658d26ef16d2443496f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 03/11] fix: keep the line end out of file context fields

getline() leaves the newline in the line: the last field of an entry without
gen_context carried it, so its type was reported as nonexistent, and <<none>>
was rejected on a last line without newline or before trailing blanks.
---
 src/parse_fc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 4e8c86b..1508a67 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -32,6 +32,12 @@ struct fc_entry *parse_fc_line(char *line)
 
 	memset(out, 0, sizeof(struct fc_entry));
 
+	// The line end is not part of the entry
+	size_t line_len = strlen(line);
+	while (line_len > 0 && strchr(" \t\r\n", line[line_len - 1])) {
+		line[--line_len] = '\0';
+	}
+
 	char *orig_line = strdup(line); // If the object class is omitted, we need to revert
 
 	char *pos = strtok(line, whitespace);
@@ -135,8 +141,7 @@ struct fc_entry *parse_fc_line(char *line)
 		} else {
 			out->context->range = NULL;
 		}
-	} else if (strcmp("<<none>>\n", pos) == 0
-	           || strcmp("<<none>>\r\n", pos) == 0) {
+	} else if (strcmp("<<none>>", pos) == 0) {
 		out->context = NULL;
 	} else {
 		out->context = parse_context(pos);
-- 
2.43.0


From 036bfff27bd370605f874376927fe1cfd0c89590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 04/11] fix: apply a disable comment to every statement of its
 line and to no other

---
 src/parse.y           |  4 ++--
 src/parse_functions.c | 13 +++++++++++++
 src/parse_functions.h | 11 +++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/parse.y b/src/parse.y
index 9dce0af..55b8842 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -274,7 +274,7 @@ lines:
 line:
 	bare_line
 	|
-	bare_line SELINT_COMMAND { save_command(cur, $2); free($2); }
+	bare_line SELINT_COMMAND { save_line_command(cur, $2, @1.first_line); free($2); }
 	;
 
 bare_line:
@@ -578,7 +578,7 @@ require_lines:
 require_line:
 	require_bare
 	|
-	require_bare SELINT_COMMAND { save_command(cur, $2); free($2); }
+	require_bare SELINT_COMMAND { save_line_command(cur, $2, @1.first_line); free($2); }
 	;
 
 require_bare:
diff --git a/src/parse_functions.c b/src/parse_functions.c
index da2adcc..ca9acb7 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -756,6 +756,19 @@ enum selint_error save_command(struct policy_node *cur, const char *comm)
 	return SELINT_SUCCESS;
 }
 
+enum selint_error save_line_command(struct policy_node *cur, const char *comm, unsigned int lineno)
+{
+	// A line can create several nodes (e.g. a list of required types) or none at all
+	for (; cur && cur->lineno == lineno && cur->flavor != NODE_START_BLOCK; cur = cur->prev) {
+		enum selint_error res = save_command(cur, comm);
+		if (res != SELINT_SUCCESS) {
+			return res;
+		}
+	}
+
+	return SELINT_SUCCESS;
+}
+
 static enum node_flavor attr_to_node_flavor(enum attr_flavor flavor)
 {
 	switch (flavor) {
diff --git a/src/parse_functions.h b/src/parse_functions.h
index 887cc8a..7a2dd8d 100644
--- a/src/parse_functions.h
+++ b/src/parse_functions.h
@@ -357,6 +357,17 @@ enum selint_error end_m4_argument(struct policy_node **cur);
 **********************************/
 enum selint_error save_command(struct policy_node *cur, const char *comm);
 
+/**********************************
+* save_line_command
+* Save an selint control command for all nodes created by the line it is on.
+* cur (in) - The current spot in the tree.
+* comm (in) - What command string was in the comment
+* lineno (in) - The line number of the first token of the line
+*
+* Returns - SELint error code
+**********************************/
+enum selint_error save_line_command(struct policy_node *cur, const char *comm, unsigned int lineno);
+
 /**********************************
 * insert_type_attribute
 * Insert a type_attribute node into the tree
-- 
2.43.0


From 804e846bef4f5f83bd01e4abcbac0d47e55889a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 05/11] fix: keep the disable comment of a block's first line
 when its last line has one too

---
 src/parse_functions.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parse_functions.c b/src/parse_functions.c
index ca9acb7..10531b0 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -14,6 +14,8 @@
 * limitations under the License.
 */
 
+#define _GNU_SOURCE
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -748,7 +750,16 @@ enum selint_error save_command(struct policy_node *cur, const char *comm)
 	}
 	comm += strlen("selint-");
 	if (0 == strncmp("disable:", comm, 8)) {
-		cur->exceptions = strdup(comm + strlen("disable:"));
+		// A block can have a command both where it starts and where it ends
+		char *old = cur->exceptions;
+		if (!old) {
+			cur->exceptions = strdup(comm + strlen("disable:"));
+		} else if (asprintf(&cur->exceptions, "%s,%s", old, comm + strlen("disable:")) == -1) {
+			cur->exceptions = old;
+			return SELINT_OUT_OF_MEM;
+		} else {
+			free(old);
+		}
 	} else {
 		return SELINT_PARSE_ERROR;
 	}
-- 
2.43.0


From 08eb663eec6ffe45852ebfa8e11c52ec0707c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 06/11] fix: do not read past the end of an empty check id

---
 src/check_hooks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/check_hooks.c b/src/check_hooks.c
index 1fd3873..56d8419 100644
--- a/src/check_hooks.c
+++ b/src/check_hooks.c
@@ -133,7 +133,7 @@ bool is_valid_severity(char check_char)
 
 int is_valid_check(const char *check_str)
 {
-	if (!check_str) {
+	if (!check_str || check_str[0] == '\0') {
 		return 0;
 	}
 
-- 
2.43.0


From 42e99403ee6f5897b1d07a767690d20e126c80b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 07/11] fix: order required declarations by the default order
 when there is no configuration file

---
 src/main.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 84bad03..f27bbf6 100644
--- a/src/main.c
+++ b/src/main.c
@@ -326,7 +326,11 @@ int main(int argc, char **argv)
 		}
 	}
 
-	struct config_check_data ccd = { ORDER_LAX, {}, true, true, NULL };
+	struct config_check_data ccd = {
+		ORDER_LAX,
+		{ DECL_BOOL, DECL_CLASS, DECL_ROLE, DECL_ATTRIBUTE_ROLE, DECL_ATTRIBUTE, DECL_TYPE },
+		true, true, NULL
+	};
 
 	if (config_filename) {
 		char cfg_severity;
-- 
2.43.0


From 652d4c28f34a15bc8b42c49465b4bada46ce1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 08/11] fix: do not run past a modules.conf field that no space
 follows

---
 src/startup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/startup.c b/src/startup.c
index 142f89d..4e44860 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -112,7 +112,7 @@ static char *strip_space(char *str)
 
 	char *end = str;
 
-	while (!is_space(*end)) {
+	while (*end != '\0' && !is_space(*end)) {
 		end++;
 	}
 
-- 
2.43.0


From fafdc68de94684e367d159f91933f25d7e31faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:32 +0000
Subject: [PATCH 09/11] fix: make room for every substitution of a template
 argument

---
 src/template.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/template.c b/src/template.c
index 759f73f..7d38d73 100644
--- a/src/template.c
+++ b/src/template.c
@@ -26,14 +26,22 @@
 char *replace_m4(const char *orig, const struct string_list *args)
 {
 	size_t len_to_malloc = strlen(orig) + 1;
+	size_t max_arg_len = 0;
 	const struct string_list *cur = args;
 
 	while (cur) {
-		len_to_malloc += strlen(cur->string);
+		const size_t arg_len = strlen(cur->string);
+		if (arg_len > max_arg_len) {
+			max_arg_len = arg_len;
+		}
 		cur = cur->next;
 	}
+	// The same argument can be substituted more than once
+	for (const char *dollar = strchr(orig, '$'); dollar; dollar = strchr(dollar + 1, '$')) {
+		len_to_malloc += max_arg_len;
+	}
 	// len_to_malloc is now overestimated, because the length of the original
-	// arguments wasn't subtracted and not all args are necessarily substituted
+	// arguments wasn't subtracted and not all args are of the maximum length
 	char *ret = malloc(len_to_malloc);
 	*ret = '\0';            // If the string is only a substitution that there is no argument for, we need to be terminated
 	const char *orig_pos = orig;
-- 
2.43.0


From 3bb93730879f71fb4a07e4f5d1e7a389d10aecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:32 +0000
Subject: [PATCH 10/11] fix: terminate a name that ends in a missing template
 argument

---
 src/template.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/template.c b/src/template.c
index 7d38d73..621e91b 100644
--- a/src/template.c
+++ b/src/template.c
@@ -57,6 +57,7 @@ char *replace_m4(const char *orig, const struct string_list *args)
 		}
 		strncpy(ret_pos, orig_pos, (size_t)(dollar_pos - orig_pos));
 		ret_pos += dollar_pos - orig_pos;
+		*ret_pos = '\0';        // In case there is no argument to substitute at the end
 		orig_pos = dollar_pos;
 
 		int ret_count =
-- 
2.43.0


From 10adb081ded7fc1cb495e26205f0994c9fed7dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:32 +0000
Subject: [PATCH 11/11] fix: do not crash on template calls without arguments
 or with all arguments

---
 src/template.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/template.c b/src/template.c
index 621e91b..3ca78df 100644
--- a/src/template.c
+++ b/src/template.c
@@ -84,18 +84,18 @@ char *replace_m4(const char *orig, const struct string_list *args)
 struct string_list *replace_m4_list(const struct string_list *replace_with,
                                     const struct string_list *replace_from)
 {
-	struct string_list *ret = calloc(1, sizeof(struct string_list));
-	struct string_list *cur = ret;
-
-	cur->string = replace_m4(replace_from->string, replace_with);
-	cur->next = NULL;
-	replace_from = replace_from->next;
+	struct string_list *ret = NULL;
+	struct string_list **end = &ret;
 
 	while (replace_from) {
-		cur->next = calloc(1, sizeof(struct string_list));
-		cur = cur->next;
+		struct string_list *cur = calloc(1, sizeof(struct string_list));
 		cur->string = replace_m4(replace_from->string, replace_with);
-		cur->next = NULL;
+		if (!cur->string) {
+			// Not a substitution we can do (e.g. "$*"), keep it as is
+			cur->string = strdup(replace_from->string);
+		}
+		*end = cur;
+		end = &cur->next;
 		replace_from = replace_from->next;
 	}
 	return ret;
-- 
2.43.0

